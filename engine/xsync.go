package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The functions of sync/atomic, for one goroutine.
func init() {
	for _, a := range []struct {
		name string
		t    types.Type
	}{
		{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]},
		{"Uint32", types.Typ[types.Uint32]}, {"Uint64", types.Typ[types.Uint64]},
		{"Uintptr", types.Typ[types.Uintptr]}, {"Pointer", types.Typ[types.UnsafePointer]},
	} {
		t := a.t
		intrinsics["sync/atomic.Load"+a.name] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, e.load(st, args[0], t))
		}
		intrinsics["sync/atomic.Store"+a.name] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			e.store(st, args[0], args[1], nil)
			return ret(st, nil)
		}
		intrinsics["sync/atomic.Swap"+a.name] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			old := e.load(st, args[0], t)
			e.store(st, args[0], args[1], nil)
			return ret(st, old)
		}
		intrinsics["sync/atomic.CompareAndSwap"+a.name] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			old := e.load(st, args[0], t)
			eq := e.equal(st, old, args[1], nil)
			e.store(st, args[0], e.mergeVal(eq, args[2], old), nil)
			return ret(st, eq)
		}
		if a.name == "Pointer" {
			continue
		}
		intrinsics["sync/atomic.Add"+a.name] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			v := e.c.Add(e.load(st, args[0], t).(*Term), args[1].(*Term))
			e.store(st, args[0], v, nil)
			return ret(st, v)
		}
	}
}

package main

import (
	"fmt"
	"go/types"
	"sort"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// NewEng makes an engine with its own term context and solver process.
func NewEng(L *Loader) *Eng {
	c := NewCtx()
	e := &Eng{L: L, c: c, s: NewSolver(c)}
	e.layouts = map[types.Type]*Layout{}
	e.zpat = map[types.Type][]Value{}
	e.fninfo = map[*ssa.Function]*FnInfo{}
	e.globals = map[*ssa.Global]int{}
	e.inited = map[*ssa.Package]int{}
	e.reached = map[string]*ReachInfo{}
	e.notes = map[string]bool{}
	e.incomplete = map[string]int{}
	e.funcs = map[string]bool{}
	e.fnIntr = map[*ssa.Function]intrinsic{}
	e.conf = map[string]int{}
	e.cacheVals = map[string]Value{}
	e.apps = map[string]*App{}
	e.inputByName = map[string]*Input{}
	e.base = newHeap()
	e.emptyStr = &Str{len: c.Int(0)}
	e.unwind = 5000
	return e
}

// Violation is a satisfiable negated assertion or a reachable panic.
type Violation struct {
	Label  string
	Where  string
	Inputs map[string]string
	Model  *Model
}

type ReachInfo struct {
	label  string
	Inputs map[string]string
	Obs    []uint64
}

func (e *Eng) input(name, kind string, mk func() *Input) *Input {
	if i, ok := e.inputByName[name]; ok {
		if i.kind != kind {
			panic(engErr("input " + name + " redefined"))
		}
		return i
	}
	i := mk()
	i.name, i.kind = name, kind
	e.inputByName[name] = i
	e.inputs = append(e.inputs, i)
	return i
}

func (e *Eng) argName(v Value) string {
	s, ok := v.(*Str)
	if !ok {
		panic(engErr("harness input name"))
	}
	n, ok := s.constant()
	if !ok {
		panic(engErr("harness input name"))
	}
	return n
}

// inputsOf renders the model's values of all declared inputs.
func (e *Eng) inputsOf(m *Model) map[string]string {
	out := map[string]string{}
	if m == nil {
		m = newModel()
	}
	for _, i := range e.inputs {
		switch i.kind {
		case "sym":
			n := m.Eval(i.len)
			b := make([]byte, n)
			for k := range b {
				b[k] = byte(m.arrs[i.arr][uint64(k)])
			}
			out[i.name] = fmt.Sprintf("%x", b)
		case "bytes":
			b := make([]byte, len(i.terms))
			for k, t := range i.terms {
				b[k] = byte(m.Eval(t))
			}
			out[i.name] = fmt.Sprintf("%x", b)
		default:
			out[i.name] = fmt.Sprintf("%x", m.Eval(i.terms[0]))
		}
	}
	return out
}

func scalarInput(kind string, w uint8) intrinsic {
	return func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		n := e.argName(args[0])
		i := e.input(n, kind, func() *Input { return &Input{terms: []*Term{e.c.Var("in_"+n, w)}} })
		return ret(st, i.terms[0])
	}
}

func (e *Eng) constArg(v Value) int {
	t, ok := v.(*Term)
	if !ok || !t.IsConst() {
		panic(engErr("harness argument must be constant"))
	}
	return int(int64(t.val))
}

var harnessAPI map[string]intrinsic

func init() {
	harnessAPI = map[string]intrinsic{
		"vU8": scalarInput("u8", 8), "vU16": scalarInput("u16", 16), "vU32": scalarInput("u32", 32), "vU64": scalarInput("u64", 64),
		"vBool": scalarInput("bool", 0),
		"vBytes": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			n := e.argName(args[0])
			k := e.constArg(args[1])
			i := e.input(n, "bytes", func() *Input {
				r := &Input{}
				for j := 0; j < k; j++ {
					r.terms = append(r.terms, e.c.Var(fmt.Sprintf("in_%s[%d]", n, j), 8))
				}
				return r
			})
			if len(i.terms) != k {
				panic(engErr("input " + n + " redefined with another size"))
			}
			return ret(st, e.newBytes(st, i.terms, "input "+n))
		},
		"vSym": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			n := e.argName(args[0])
			k := e.constArg(args[1])
			i := e.input(n, "sym", func() *Input {
				return &Input{arr: e.c.Var("in_"+n, 255), len: e.c.Var("in_"+n+".len", 64)}
			})
			if !e.assume(st, e.c.Ule(i.len, e.c.Int(k))) {
				return nil
			}
			r := &Rope{segs: []Seg{{arr: i.arr, shift: e.c.Int(0), len: i.len}}, len: i.len}
			id := e.allocRope(st, r, "input "+n)
			return ret(st, Slice{obj: id, esz: 1, len: i.len, cap: i.len})
		},
		"vRange": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			n := e.argName(args[0])
			lo, hi := e.constArg(args[1]), e.constArg(args[2])
			i := e.input(n, "int", func() *Input { return &Input{terms: []*Term{e.c.Var("in_"+n, 32)}} })
			t := e.c.Sext(i.terms[0], 64)
			if lo >= 0 {
				t = e.c.Zext(i.terms[0], 64)
			}
			if !e.assume(st, e.c.And(e.c.Sle(e.c.Int(lo), t), e.c.Sle(t, e.c.Int(hi)))) {
				return nil
			}
			return ret(st, t)
		},
		"vPick": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			n := e.argName(args[0])
			k := e.constArg(args[1])
			i := e.input(n, "int", func() *Input { return &Input{terms: []*Term{e.c.Var("in_"+n, 32)}} })
			var outs []Outcome
			for j := 0; j < k; j++ {
				s := st
				if j < k-1 {
					s = st.fork()
				}
				if e.assume(s, e.c.Eq(i.terms[0], e.c.Const(32, uint64(j)))) {
					s.key += fmt.Sprintf("%s=%d;", n, j)
					outs = append(outs, Outcome{st: s, ret: e.c.Int(j)})
				}
			}
			return outs
		},
		"vIsSym": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, e.c.tru)
		},
		"vTier": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, e.c.Int(e.cfgInt("tier", 0)))
		},
		"vAssume": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			if !e.assume(st, args[0].(*Term)) {
				return nil
			}
			return ret(st, nil)
		},
		"vAssert": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			lab := e.argName(args[1])
			if !e.check(st, args[0].(*Term), lab, "") {
				return nil
			}
			return ret(st, nil)
		},
		"vReach": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			lab := e.argName(args[0])
			if e.reached[lab] != nil {
				return ret(st, nil)
			}
			m := st.model
			if m == nil {
				r, mm := e.query(st, e.c.tru, true)
				_ = r
				m = mm
			}
			if m == nil || !e.modelOK(st, m) {
				// decide the whole path condition
				var q []*Term
				for p := st.pc; p != nil; p = p.parent {
					q = append(q, p.t)
				}
				sort.Slice(q, func(i, j int) bool { return q[i].id < q[j].id })
				r, mm := e.s.Check(q, true)
				if r != 1 {
					return ret(st, nil)
				}
				m = mm
			}
			ri := &ReachInfo{label: lab, Inputs: e.inputsOf(m)}
			if va, ok := args[1].(Slice); ok && va.len.IsConst() {
				for i := 0; i < int(va.len.val); i++ {
					v := e.load(st, Ptr{obj: va.obj, off: va.off + i}, types.Typ[types.Uint64])
					t, ok := v.(*Term)
					if !ok {
						panic(engErr("vReach observation"))
					}
					ri.Obs = append(ri.Obs, m.Eval(t))
				}
			}
			e.reached[lab] = ri
			return ret(st, nil)
		},
		"vStrip": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			e.strip = true
			defer func() { e.strip = false }()
			return ret(st, e.cloneVal(st, args[0], nil))
		},
		"vSame": func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
			return ret(st, e.ifaceMsgEqual(st, args[0], args[1]))
		},
	}
}

func (e *Eng) modelOK(st *State, m *Model) bool {
	for p := st.pc; p != nil; p = p.parent {
		if m.Eval(p.t) != 1 {
			return false
		}
	}
	return true
}

// check decides an assertion for all values on the path; false when nothing is left of the path.
func (e *Eng) check(st *State, cond *Term, label, where string) bool {
	e.assertsTotal++
	if cond.IsTrue() {
		e.assertsConst++
		return true
	}
	r, m := e.query(st, e.c.Not(cond), true)
	switch r {
	case 1:
		dup := 0
		for _, v := range e.viols {
			if v.Label == label {
				dup++
			}
		}
		if dup < e.cfgInt("cex", 3) {
			if m == nil {
				m = newModel()
			}
			e.viols = append(e.viols, &Violation{Label: label, Where: where, Inputs: e.inputsOf(m), Model: m})
			if softAfter > 0 {
				softStop.CompareAndSwap(0, time.Now().Add(softAfter).UnixNano())
			}
			// a broken tree may be much harder to explore to the end than a correct one
			if d := time.Now().Add(time.Duration(e.cfgInt("afterviol", 25)) * time.Second); d.Before(e.deadline) {
				e.deadline = d
				e.s.deadline = d
			}
		}
	case -1:
		e.assertsUnknown = append(e.assertsUnknown, label)
	case 0:
		return true
	}
	return e.assume(st, cond)
}

// noEnd notes inputs that keep a loop going beyond the unwinding bound as a candidate
// for a run without an end; the native replay tells whether it has one.
func (e *Eng) noEnd(st *State, label string) {
	if r, m := e.query(st, e.c.tru, true); r == 1 {
		if m == nil {
			m = newModel()
		}
		e.viols = append(e.viols, &Violation{Label: label, Inputs: e.inputsOf(m), Model: m})
		if d := time.Now().Add(60 * time.Second); d.Before(e.deadline) {
			e.deadline = d
			e.s.deadline = d
		}
	}
}

// softStop is when the harnesses of a check stop because another one has found a
// candidate violation (0: not set); softAfter is how long they go on after that.
var (
	softStop  atomic.Int64
	softAfter time.Duration
)

// pastDeadline tells whether a harness that started at a time has to stop.
func pastDeadline(deadline, started time.Time) bool {
	now := time.Now()
	if !deadline.IsZero() && now.After(deadline) {
		return true
	}
	s := softStop.Load()
	return s > 0 && now.UnixNano() > s && now.Sub(started) > 10*time.Second
}

// HarnessResult is what one harness run established.
type HarnessResult struct {
	Name           string
	Pkg            string
	Wall           float64
	SolverTime     float64
	States         int
	Steps          int
	Forks          int
	Merges         int
	Queries        int
	Unsat          int
	Sat            int
	Unknown        int
	Fresh          int
	DomHits        int
	ModelHits      int
	Asserts        int
	AssertsConst   int
	AssertsUnknown []string
	Viols          []*Violation
	Reached        map[string]*ReachInfo
	Notes          []string
	Incomplete     []string
	Funcs          []string
	Paths          int
	Timeout        bool
	Bounds         string
	Crash          string
}

// runHarness executes one harness symbolically.
func runHarness(L *Loader, name string, fn *ssa.Function, dirs map[string]string, tier int, budget time.Duration, verbose bool) (res *HarnessResult) {
	e := NewEng(L)
	e.hpkg = fn.Pkg
	defer e.s.stop()
	e.verbose = verbose
	e.conf["tier"] = tier
	res = &HarnessResult{Name: name, Reached: map[string]*ReachInfo{}, Bounds: dirs["bounds"]}
	for k, v := range dirs {
		var n int
		if _, err := fmt.Sscanf(v, "%d", &n); err == nil {
			e.conf[k] = n
		}
	}
	if n, ok := e.conf["unwind"]; ok {
		e.unwind = n
	}
	if fn.Pkg != nil {
		res.Pkg = fn.Pkg.Pkg.Path()
	}
	t0 := time.Now()
	e.deadline = t0.Add(budget)
	e.s.deadline = e.deadline
	e.s.started = t0
	func() {
		defer func() {
			if r := recover(); r != nil {
				switch x := r.(type) {
				case timeoutErr:
					res.Timeout = true
				case engError:
					res.Crash = x.msg
				case splitReq:
					res.Crash = "split outside a frame"
				default:
					if verbose {
						panic(r)
					}
					res.Crash = fmt.Sprint(r)
				}
			}
		}()
		st := &State{heap: newHeap(), model: newModel()}
		outs := e.call(st, fn, nil, nil, nil)
		for _, o := range outs {
			res.Paths++
			if o.panic != "" {
				e.check(o.st, e.c.fls, "panic: "+o.panic+" at "+o.where, o.where)
			}
		}
	}()
	res.Wall = time.Since(t0).Seconds()
	res.SolverTime = e.s.stats.SolverTime.Seconds()
	res.States, res.Steps, res.Forks, res.Merges = e.nStates, e.nSteps, e.nForks, e.nMerges
	res.Queries, res.Sat, res.Unsat, res.Unknown, res.Fresh = e.s.stats.Queries, e.s.stats.Sat, e.s.stats.Unsat, e.s.stats.Unknown, e.s.stats.Fresh
	res.DomHits, res.ModelHits = e.domHits, e.modelHits
	res.Asserts, res.AssertsConst, res.AssertsUnknown = e.assertsTotal, e.assertsConst, e.assertsUnknown
	res.Viols = e.viols
	res.Reached = e.reached
	for n := range e.notes {
		res.Notes = append(res.Notes, n)
	}
	sort.Strings(res.Notes)
	for n, k := range e.incomplete {
		res.Incomplete = append(res.Incomplete, fmt.Sprintf("%s (x%d)", n, k))
	}
	sort.Strings(res.Incomplete)
	for f := range e.funcs {
		res.Funcs = append(res.Funcs, f)
	}
	sort.Strings(res.Funcs)
	return res
}

package main

import (
	"encoding/json"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// encoding/json.Unmarshal of known text into structs, slices, strings and numbers. Times are left zero.
func init() {
	intrinsics["encoding/json.Unmarshal"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		sl := e.resolve(st, args[0]).(Slice)
		bs, ok := e.bytesOf(st, sl)
		if !ok {
			panic(engErr("json of symbolic text"))
		}
		b := make([]byte, len(bs))
		for i, t := range bs {
			if !t.IsConst() {
				panic(engErr("json of symbolic text"))
			}
			b[i] = byte(t.val)
		}
		i := e.resolve(st, args[1]).(Iface)
		pt, ok := i.typ.Underlying().(*types.Pointer)
		if !ok {
			panic(engErr("json target"))
		}
		var v any
		if err := json.Unmarshal(b, &v); err != nil {
			panic(engErr("json: " + err.Error()))
		}
		e.jsonPut(st, i.val.(Ptr), pt.Elem(), v)
		return ret(st, Iface{})
	}
}

func (e *Eng) jsonPut(st *State, p Ptr, t types.Type, v any) {
	if t.String() == "time.Time" {
		e.note("times in JSON texts are left zero")
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		m, ok := v.(map[string]any)
		if !ok {
			panic(engErr("json object expected"))
		}
		l := e.layout(t)
		for i := 0; i < u.NumFields(); i++ {
			name := strings.Split(reflect.StructTag(u.Tag(i)).Get("json"), ",")[0]
			if name == "" {
				name = u.Field(i).Name()
			}
			if !u.Field(i).Exported() || name == "-" {
				continue
			}
			x, ok := m[name]
			if !ok {
				for k := range m {
					if strings.EqualFold(k, name) {
						x, ok = m[k], true
					}
				}
			}
			if ok && x != nil {
				q := p
				q.off += l.foff[i]
				e.jsonPut(st, q, u.Field(i).Type(), x)
			}
		}
	case *types.Slice:
		a, ok := v.([]any)
		if !ok {
			panic(engErr("json array expected"))
		}
		l := e.layout(u.Elem())
		arr := e.alloc(st, u.Elem(), len(a), "json")
		for i, x := range a {
			e.jsonPut(st, Ptr{obj: arr, off: i * l.n}, u.Elem(), x)
		}
		e.store(st, p, Slice{obj: arr, esz: l.n, len: e.c.Int(len(a)), cap: e.c.Int(len(a))}, nil)
	case *types.Basic:
		switch x := v.(type) {
		case string:
			if u.Info()&types.IsString != 0 {
				e.store(st, p, e.constStr(x), nil)
				return
			}
		case float64:
			if u.Info()&types.IsInteger != 0 {
				e.store(st, p, e.c.Const(intWidth(u), uint64(int64(x))), nil)
				return
			}
		case bool:
			if u.Info()&types.IsBoolean != 0 {
				t := e.c.fls
				if x {
					t = e.c.tru
				}
				e.store(st, p, t, nil)
				return
			}
		}
		panic(engErr("json value of another type"))
	default:
		panic(engErr("json target " + t.String()))
	}
}

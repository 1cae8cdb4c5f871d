package main

import (
	"fmt"
	"go/types"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type msgInfo struct{}

// cloneVal deep-copies a value (proto.Clone).
func (e *Eng) cloneVal(st *State, v Value, t types.Type) Value {
	switch x := v.(type) {
	case Iface:
		if x.typ == nil {
			return x
		}
		return Iface{x.typ, e.cloneVal(st, x.val, x.typ)}
	case *Union:
		r := &Union{make([]Alt, len(x.alts))}
		for i, a := range x.alts {
			r.alts[i] = Alt{a.g, e.cloneVal(st, a.v, t)}
		}
		return r
	case Ptr:
		if x.obj == 0 {
			return x
		}
		el := t.Underlying().(*types.Pointer).Elem()
		id := e.alloc(st, el, 1, "clone")
		e.cloneInto(st, id, 0, x.obj, x.off, el)
		return Ptr{obj: id}
	case Slice:
		if x.obj == 0 {
			return x
		}
		el := t.Underlying().(*types.Slice).Elem()
		o := e.obj(st, x.obj)
		if o.rope != nil {
			id := e.allocRope(st, e.sliceRope(st, x), "clone")
			return Slice{obj: id, esz: 1, len: x.len, cap: x.len}
		}
		n := (o.n - x.off) / x.esz
		if x.len.hi < uint64(n) {
			n = int(x.len.hi)
		}
		id := e.alloc(st, el, n, "clone")
		for i := 0; i < n; i++ {
			e.cloneInto(st, id, i*x.esz, x.obj, x.off+i*x.esz, el)
		}
		return Slice{obj: id, esz: x.esz, len: x.len, cap: x.len}
	}
	return v
}

func (e *Eng) cloneInto(st *State, did, doff, sid, soff int, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		l := e.layout(t)
		for i := 0; i < u.NumFields(); i++ {
			if e.strip && u.Field(i).Name() == "xxx_hidden_RawData" {
				e.setSlot(st, did, doff+l.foff[i], e.nilSlice(types.Typ[types.Uint8]))
				continue
			}
			e.cloneInto(st, did, doff+l.foff[i], sid, soff+l.foff[i], u.Field(i).Type())
		}
		if k := e.L.presenceOf(t, "RawData"); e.strip && k >= 0 {
			for i := 0; i < u.NumFields(); i++ {
				if u.Field(i).Name() == "XXX_presence" {
					at := doff + l.foff[i] + k/32
					old := e.obj(st, did).get(at).(*Term)
					e.setSlot(st, did, at, e.c.BAnd(old, e.c.Const(old.w, ^uint64(1<<(k%32))&0xFFFFFFFF)))
				}
			}
		}
		return
	case *types.Array:
		n := e.layout(u.Elem()).n
		for i := 0; i < int(u.Len()); i++ {
			e.cloneInto(st, did, doff+i*n, sid, soff+i*n, u.Elem())
		}
		return
	}
	v := e.obj(st, sid).get(soff)
	switch v.(type) {
	case Ptr, Slice, *Union, Iface:
		v = e.cloneVal(st, v, t)
	}
	e.setSlot(st, did, doff, v)
}

func (e *Eng) ifaceMsgEqual(st *State, a, b Value) *Term {
	x, y := e.resolve(st, a).(Iface), e.resolve(st, b).(Iface)
	if x.typ == nil || y.typ == nil {
		return e.c.Bool(x.typ == nil && y.typ == nil)
	}
	if !types.Identical(x.typ, y.typ) {
		return e.c.fls
	}
	return e.ptrMsgEqual(st, x.val, y.val, x.typ.Underlying().(*types.Pointer).Elem())
}

// ptrMsgEqual: proto.Equal on message pointers of type *t.
func (e *Eng) ptrMsgEqual(st *State, a, b Value, t types.Type) *Term {
	c := e.c
	if u, ok := a.(*Union); ok {
		r := c.fls
		for _, al := range u.alts {
			r = c.Or(r, c.And(al.g, e.ptrMsgEqual(st, al.v, b, t)))
		}
		return r
	}
	if u, ok := b.(*Union); ok {
		r := c.fls
		for _, al := range u.alts {
			r = c.Or(r, c.And(al.g, e.ptrMsgEqual(st, a, al.v, t)))
		}
		return r
	}
	p, q := a.(Ptr), b.(Ptr)
	if p == q {
		return c.tru
	}
	if p.obj == 0 || q.obj == 0 {
		return c.fls
	}
	s := t.Underlying().(*types.Struct)
	l := e.layout(t)
	po, qo := e.obj(st, p.obj), e.obj(st, q.obj)
	r := c.tru
	for i := 0; i < s.NumFields() && !r.IsFalse(); i++ {
		f := s.Field(i)
		if f.Name() == "XXX_presence" {
			n := e.layout(f.Type()).n
			for k := 0; k < n; k++ {
				r = c.And(r, c.Eq(po.get(p.off+l.foff[i]+k).(*Term), qo.get(q.off+l.foff[i]+k).(*Term)))
			}
			continue
		}
		if reflect.StructTag(s.Tag(i)).Get("protobuf") == "" {
			if strings.HasPrefix(f.Name(), "xxx_hidden_") {
				// oneof
				r = c.And(r, e.fieldEqual(st, po.get(p.off+l.foff[i]), qo.get(q.off+l.foff[i]), f.Type()))
			}
			continue
		}
		r = c.And(r, e.fieldEqual(st, po.get(p.off+l.foff[i]), qo.get(q.off+l.foff[i]), f.Type()))
	}
	return r
}

func (e *Eng) fieldEqual(st *State, a, b Value, t types.Type) *Term {
	c := e.c
	if sameVal(a, b) {
		return c.tru
	}
	if u, ok := a.(*Union); ok {
		r := c.fls
		for _, al := range u.alts {
			r = c.Or(r, c.And(al.g, e.fieldEqual(st, al.v, b, t)))
		}
		return r
	}
	if u, ok := b.(*Union); ok {
		r := c.fls
		for _, al := range u.alts {
			r = c.Or(r, c.And(al.g, e.fieldEqual(st, a, al.v, t)))
		}
		return r
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return e.equal(st, a, b, t)
	case *types.Slice:
		return e.sliceEqual(st, a.(Slice), b.(Slice), u.Elem())
	case *types.Pointer:
		p, q := a.(Ptr), b.(Ptr)
		switch el := u.Elem().Underlying().(type) {
		case *types.Struct:
			return e.ptrMsgEqual(st, p, q, u.Elem())
		case *types.Slice: // *[]*Msg ; nil equals empty
			z := e.nilSlice(el.Elem())
			var x, y Value = z, z
			if p.obj != 0 {
				x = e.obj(st, p.obj).get(p.off)
			}
			if q.obj != 0 {
				y = e.obj(st, q.obj).get(q.off)
			}
			return e.fieldEqual(st, x, y, u.Elem())
		case *types.Basic: // optional string
			if p.obj == 0 || q.obj == 0 {
				if p.obj == q.obj {
					return c.tru
				}
				// presence bits decide; an absent string is the empty string
				o := p
				if o.obj == 0 {
					o = q
				}
				return e.equal(st, e.obj(st, o.obj).get(o.off), e.emptyStr, u.Elem())
			}
			return e.equal(st, e.obj(st, p.obj).get(p.off), e.obj(st, q.obj).get(q.off), u.Elem())
		}
	case *types.Interface: // oneof wrapper
		x, y := a.(Iface), b.(Iface)
		if x.typ == nil || y.typ == nil {
			return c.Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return c.fls
		}
		return e.ptrMsgEqual(st, x.val, y.val, x.typ.Underlying().(*types.Pointer).Elem())
	}
	panic(engErr(fmt.Sprintf("fieldEqual %s", t)))
}

func (e *Eng) sliceEqual(st *State, x, y Slice, el types.Type) *Term {
	c := e.c
	if isByte(el) {
		return e.bytesEq(st, x, y)
	}
	r := c.Eq(x.len, y.len)
	if r.IsFalse() {
		return r
	}
	n := func(s Slice) int {
		if s.obj == 0 {
			return 0
		}
		k := (e.obj(st, s.obj).n - s.off) / s.esz
		return int(min(uint64(k), s.len.hi))
	}
	m := min(n(x), n(y))
	for i := 0; i < m && !r.IsFalse(); i++ {
		q := e.fieldEqual(st, e.obj(st, x.obj).get(x.off+i*x.esz), e.obj(st, y.obj).get(y.off+i*y.esz), el)
		r = c.And(r, c.Or(c.Ule(x.len, c.Int(i)), q))
	}
	return r
}

// presenceOf finds the presence bit of a field of a generated message in its Clear method, -1 if it has none.
func (L *Loader) presenceOf(t types.Type, field string) int {
	n, ok := t.(*types.Named)
	if !ok {
		return -1
	}
	obj, _, _ := types.LookupFieldOrMethod(types.NewPointer(n), true, n.Obj().Pkg(), "Clear"+field)
	m, ok := obj.(*types.Func)
	if !ok {
		return -1
	}
	fn := L.method(types.NewPointer(n), m)
	L.build(fn)
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "ClearPresent" {
				if k, ok := c.Call.Args[len(c.Call.Args)-1].(*ssa.Const); ok {
					return int(k.Uint64())
				}
			}
		}
	}
	panic(engErr("no presence bit in Clear" + field + " of " + n.String()))
}

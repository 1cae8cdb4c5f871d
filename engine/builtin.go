package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, v Value) []Outcome { return []Outcome{{st: st, ret: v}} }

func (fr *frame) builtin(it *item, cc *ssa.CallCommon, name string, args []Value) []Outcome {
	e := fr.e
	c := e.c
	st := it.st
	switch name {
	case "len", "cap":
		return one(st, e.lenOf(st, args[0], name == "cap", cc))
	case "append":
		return e.builtinAppend(fr, it, cc, args)
	case "copy":
		return e.builtinCopy(fr, it, cc, args)
	case "min", "max":
		r := args[0].(*Term)
		sg := isSigned(cc.Args[0].Type())
		for _, a := range args[1:] {
			x := a.(*Term)
			var lt *Term
			if sg {
				lt = c.Slt(x, r)
			} else {
				lt = c.Ult(x, r)
			}
			if name == "max" {
				if sg {
					lt = c.Slt(r, x)
				} else {
					lt = c.Ult(r, x)
				}
			}
			r = c.Ite(lt, x, r)
		}
		return one(st, r)
	case "close":
		e.store(st, fr.notNil(it, args[0], cc.Pos()), c.Int(1), nil)
		return one(st, nil)
	case "delete":
		m := e.resolve(st, args[0]).(MapRef)
		if m.obj == 0 {
			return one(st, nil)
		}
		o := e.mut(st, m.obj)
		for i := range o.m.ents {
			eq := e.equal(st, o.m.ents[i].key, args[1], nil)
			o.m.ents[i].present = c.And(o.m.ents[i].present, c.Not(eq))
		}
		return one(st, nil)
	case "clear":
		switch x := e.resolve(st, args[0]).(type) {
		case MapRef:
			o := e.mut(st, x.obj)
			o.m.ents, o.m.idx = nil, map[string]int{}
		case Slice:
			n := e.conc(st, x.len)
			z := e.zeroPattern(cc.Args[0].Type().Underlying().(*types.Slice).Elem())
			for i := 0; i < n*x.esz; i++ {
				e.setSlot(st, x.obj, x.off+i, z[i%len(z)])
			}
		}
		return one(st, nil)
	case "panic":
		return []Outcome{{st: st, panic: "explicit panic", where: e.L.pos(cc.Pos())}}
	case "recover":
		return one(st, Iface{})
	case "print", "println":
		return one(st, nil)
	case "ssa:wrapnilchk":
		v := fr.notNil(it, args[0], cc.Pos())
		return one(it.st, v)
	case "String": // unsafe.String
		p := e.resolve(st, args[0])
		n := e.to64(args[1].(*Term), cc.Args[1].Type())
		if isNilPtr(p) {
			return one(st, e.emptyStr)
		}
		q := p.(Ptr)
		s := Slice{obj: q.obj, off: q.off, esz: 1, len: n, cap: n}
		if q.sym != nil {
			s.symOff = q.sym
		}
		return one(st, e.bytesToStr(st, s))
	case "StringData":
		s := e.resolve(st, args[0]).(*Str)
		sl := e.strToBytes(st, s).(Slice)
		return one(st, Ptr{obj: sl.obj, off: sl.off})
	case "SliceData":
		s := e.resolve(st, args[0]).(Slice)
		if s.obj == 0 {
			return one(st, nilPtr)
		}
		p := Ptr{obj: s.obj, off: s.off}
		if s.symOff != nil {
			p.sym, p.stride, p.count = s.symOff, 1, 1<<40
		}
		return one(st, p)
	case "Slice": // unsafe.Slice
		p := e.resolve(st, args[0]).(Ptr)
		n := e.to64(args[1].(*Term), cc.Args[1].Type())
		esz := e.layout(cc.Args[0].Type().Underlying().(*types.Pointer).Elem()).n
		if p.obj == 0 {
			return one(st, Slice{esz: esz, len: n, cap: n})
		}
		s := Slice{obj: p.obj, off: p.off, esz: esz, len: n, cap: n}
		if p.sym != nil {
			s.symOff = p.sym
		}
		return one(st, s)
	}
	panic(engErr("builtin " + name))
}

func (e *Eng) lenOf(st *State, v Value, isCap bool, cc *ssa.CallCommon) Value {
	c := e.c
	switch x := v.(type) {
	case Slice:
		if isCap {
			return x.cap
		}
		return x.len
	case *Str:
		return x.len
	case MapRef:
		if x.obj == 0 {
			return c.Int(0)
		}
		o := e.obj(st, x.obj)
		r := c.Int(0)
		for _, en := range o.m.ents {
			r = c.Add(r, c.Ite(en.present, c.Int(1), c.Int(0)))
		}
		return r
	case *Union:
		r := e.lenOf(st, x.alts[len(x.alts)-1].v, isCap, cc).(*Term)
		for i := len(x.alts) - 2; i >= 0; i-- {
			r = c.Ite(x.alts[i].g, e.lenOf(st, x.alts[i].v, isCap, cc).(*Term), r)
		}
		return r
	}
	panic(engErr(fmt.Sprintf("len of %T", v)))
}

// srcSlice views an append/copy source (slice or string).
func (e *Eng) srcRope(st *State, v Value) *Rope {
	switch x := v.(type) {
	case Slice:
		return e.sliceRope(st, x)
	case *Str:
		if x.opaque != "" {
			panic(engErr("bytes of opaque string " + x.opaque))
		}
		if x.rope != nil {
			return x.rope
		}
		return &Rope{segs: []Seg{{bytes: x.bytes, len: x.len}}, len: x.len}
	}
	panic(engErr(fmt.Sprintf("srcRope %T", v)))
}

func (e *Eng) builtinAppend(fr *frame, it *item, cc *ssa.CallCommon, args []Value) []Outcome {
	c := e.c
	st := it.st
	elT := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	src := args[1]
	if u, ok := src.(*Union); ok {
		if !isByte(elT) {
			src = e.resolve(st, u)
		} else if sv, ok := e.unionBytes(st, u); ok {
			src = sv
		} else {
			src = e.resolve(st, u)
		}
	}
	d := e.resolve(st, args[0])
	dst := d.(Slice)
	var n *Term
	switch x := src.(type) {
	case Slice:
		n = x.len
	case *Str:
		n = x.len
	}
	if n.IsConst() && n.val == 0 {
		return one(st, dst)
	}
	dstRope := dst.obj != 0 && e.obj(st, dst.obj).rope != nil
	srcIsRope := false
	if s, ok := src.(Slice); ok && s.obj != 0 {
		srcIsRope = e.obj(st, s.obj).rope != nil
	}
	if s, ok := src.(*Str); ok {
		srcIsRope = s.rope != nil
	}
	if !n.IsConst() && !srcIsRope && !isByte(elT) {
		n = c.Int(e.conc(st, n))
	}
	if isByte(elT) && (dstRope || !dst.len.IsConst() || !n.IsConst() || (srcIsRope && n.val > 4096)) {
		if !dstRope && !srcIsRope && e.cfgInt("ropes", 0) == 0 {
			// small symbolic lengths: enumerate
			if !n.IsConst() {
				n = c.Int(e.conc(st, n))
			}
			if !dst.len.IsConst() {
				dst.len = c.Int(e.conc(st, dst.len))
			}
		} else {
			a := e.sliceRope(st, dst)
			var b *Rope
			if s, ok := src.(Slice); ok {
				s.len = n
				b = e.sliceRope(st, s)
			} else {
				b = e.srcRope(st, src)
			}
			r := e.ropeConcat(a, b)
			id := e.allocRope(st, r, "append")
			return one(st, Slice{obj: id, esz: 1, len: r.len, cap: r.len})
		}
	}
	esz := e.layout(elT).n
	cnt := int(n.val)
	if cnt == 0 {
		return one(st, dst)
	}
	// source cells
	cells := make([]Value, cnt*esz)
	switch x := src.(type) {
	case Slice:
		o := e.obj(st, x.obj)
		for i := range cells {
			p := Ptr{obj: x.obj, off: x.off + i}
			if x.symOff != nil {
				p.sym, p.stride, p.count = x.symOff, 1, 1<<40
			}
			cells[i] = e.loadSlot(st, o, p, 0)
		}
	case *Str:
		if x.opaque != "" {
			panic(engErr("append opaque string " + x.opaque))
		}
		for i := range cells {
			if x.rope != nil {
				cells[i] = e.ropeGet(x.rope, c.Int(i))
			} else {
				cells[i] = x.bytes[i]
			}
		}
	}
	ln, lc := dst.len, dst.cap
	if ln.IsConst() {
		if !lc.IsConst() {
			lc = c.Int(e.conc(st, lc))
		}
		l, cp := int(ln.val), int(lc.val)
		if l+cnt <= cp && dst.obj != 0 {
			m := e.mut(st, dst.obj)
			for i, v := range cells {
				m.set(st.heap.own, dst.off+l*esz+i, v)
			}
			dst.len = c.Int(l + cnt)
			return one(st, dst)
		}
		ncap := growCap(cp, l+cnt)
		id := e.alloc(st, elT, ncap, "append")
		m := e.obj(st, id)
		if l > 0 {
			o := e.obj(st, dst.obj)
			for i := 0; i < l*esz; i++ {
				m.set(st.heap.own, i, o.get(dst.off+i))
			}
		}
		for i, v := range cells {
			m.set(st.heap.own, l*esz+i, v)
		}
		return one(st, Slice{obj: id, esz: esz, len: c.Int(l + cnt), cap: c.Int(ncap)})
	}
	// symbolic destination length
	maxL := int(ln.hi)
	if dst.obj != 0 {
		o := e.obj(st, dst.obj)
		if k := (o.n - dst.off) / esz; k < maxL {
			maxL = k
		}
	}
	id := e.alloc(st, elT, maxL+cnt, "appendsym")
	m := e.obj(st, id)
	var o *Object
	if dst.obj != 0 {
		o = e.obj(st, dst.obj)
	}
	for j := 0; j < maxL; j++ {
		for k := 0; k < esz; k++ {
			m.set(st.heap.own, j*esz+k, o.get(dst.off+j*esz+k))
		}
	}
	for i := 0; i < cnt; i++ {
		for j := int(ln.lo); j <= maxL; j++ {
			g := c.Eq(ln, c.Int(j))
			for k := 0; k < esz; k++ {
				sl := (j+i)*esz + k
				m.set(st.heap.own, sl, e.mergeVal(g, cells[i*esz+k], m.get(sl)))
			}
		}
	}
	nl := c.Add(ln, c.Int(cnt))
	return one(st, Slice{obj: id, esz: esz, len: nl, cap: nl})
}

func (e *Eng) unionBytes(st *State, u *Union) (Value, bool) { return nil, false }

func growCap(old, need int) int {
	n := old
	if need > 2*old {
		return need
	}
	if old < 256 {
		return 2 * old
	}
	for n < need {
		n += (n + 3*256) >> 2
	}
	return n
}

func (e *Eng) builtinCopy(fr *frame, it *item, cc *ssa.CallCommon, args []Value) []Outcome {
	c := e.c
	st := it.st
	dst := e.resolve(st, args[0]).(Slice)
	src := e.resolve(st, args[1])
	var sl *Term
	switch x := src.(type) {
	case Slice:
		sl = x.len
	case *Str:
		sl = x.len
	}
	n := c.Ite(c.Ule(dst.len, sl), dst.len, sl)
	if !n.IsConst() {
		// decide which is smaller when the path knows
		le := c.Ule(dst.len, sl)
		if r, _ := e.query(st, c.Not(le), false); r == 0 {
			n = dst.len
		} else if r, _ := e.query(st, le, false); r == 0 {
			n = sl
		}
	}
	if !n.IsConst() {
		dstRope := dst.obj != 0 && e.obj(st, dst.obj).rope != nil
		if dstRope || e.cfgInt("symcopy", 0) == 0 {
			n = c.Int(e.conc(st, n))
		} else {
			// flat destination, symbolic count: guarded stores
			r := e.srcRope(st, src)
			o := e.obj(st, dst.obj)
			maxN := min(int(n.hi), o.n-dst.off)
			for i := 0; i < maxN; i++ {
				v := e.ropeGet(r, c.Int(i))
				old := o.get(dst.off + i)
				e.setSlot(st, dst.obj, dst.off+i, e.mergeVal(c.Ult(c.Int(i), n), v, old))
				o = e.obj(st, dst.obj)
			}
			return one(st, n)
		}
	}
	cnt := int(n.val)
	if cnt == 0 {
		return one(st, n)
	}
	esz := dst.esz
	cells := make([]Value, cnt*esz)
	switch x := src.(type) {
	case Slice:
		o := e.obj(st, x.obj)
		for i := range cells {
			p := Ptr{obj: x.obj, off: x.off + i}
			if x.symOff != nil {
				p.sym, p.stride, p.count = x.symOff, 1, 1<<40
			}
			cells[i] = e.loadSlot(st, o, p, 0)
		}
	case *Str:
		if x.opaque != "" {
			panic(engErr("copy opaque string " + x.opaque))
		}
		for i := range cells {
			if x.rope != nil {
				cells[i] = e.ropeGet(x.rope, c.Int(i))
			} else {
				cells[i] = x.bytes[i]
			}
		}
	}
	for i, v := range cells {
		p := Ptr{obj: dst.obj, off: dst.off + i}
		if dst.symOff != nil {
			p.sym, p.stride, p.count = dst.symOff, 1, 1<<40
		}
		e.storeSlot(st, p, 0, v, nil)
	}
	return one(st, n)
}

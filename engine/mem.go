package main

import (
	"fmt"
	"go/types"
)

func (e *Eng) newID() int { e.nextID++; return e.nextID }

// alloc creates an object of n copies of type t.
func (e *Eng) alloc(st *State, t types.Type, n int, tag string) int {
	l := e.layout(t)
	o := &Object{own: st.heap.own, id: e.newID(), n: l.n * n, typ: t, tag: tag}
	if o.n > 1<<20 {
		panic(engErr(fmt.Sprintf("allocation too large: %d slots of %v", o.n, t)))
	}
	o.chunks = make([]*chunk, (o.n+chunkSize-1)/chunkSize)
	o.zslots = e.zeroPattern(t)
	if len(o.zslots) == 0 {
		o.zslots = []Value{e.c.Const(8, 0)}
	}
	st.heap.put(o)
	return o.id
}

func (e *Eng) zeroPattern(t types.Type) []Value {
	if z, ok := e.zpat[t]; ok {
		return z
	}
	var z []Value
	if a, ok := t.Underlying().(*types.Array); ok {
		z = e.zeroPattern(a.Elem())
	} else {
		z = e.zeroSlots(t, nil)
	}
	e.zpat[t] = z
	return z
}

func (e *Eng) obj(st *State, id int) *Object {
	if o := st.heap.get(id); o != nil {
		return o
	}
	if o := e.base.get(id); o != nil {
		return o
	}
	panic(engErr(fmt.Sprintf("no object %d", id)))
}

func (e *Eng) mut(st *State, id int) *Object {
	o := e.obj(st, id)
	if o.own == st.heap.own {
		return o
	}
	n := *o
	n.own = st.heap.own
	n.chunks = append([]*chunk(nil), o.chunks...)
	if o.m != nil {
		m := *o.m
		m.ents = append([]MapEnt(nil), o.m.ents...)
		m.idx = make(map[string]int, len(o.m.idx))
		for k, v := range o.m.idx {
			m.idx[k] = v
		}
		n.m = &m
	}
	st.heap.put(&n)
	return &n
}

func (e *Eng) setSlot(st *State, id, i int, v Value) {
	o := e.mut(st, id)
	o.set(st.heap.own, i, v)
}

// symRange gives the feasible index range of a symbolic pointer.
func (p Ptr) symRange() (int, int) {
	lo, hi := uint64(0), uint64(p.count-1)
	if p.sym.lo > lo {
		lo = p.sym.lo
	}
	if p.sym.hi < hi {
		hi = p.sym.hi
	}
	return int(lo), int(hi)
}

func (e *Eng) loadSlot(st *State, o *Object, p Ptr, k int) Value {
	if o.rope != nil {
		idx := e.c.Int(p.off + k)
		if p.sym != nil {
			idx = e.c.Add(p.sym, idx)
		}
		return e.ropeGet(o.rope, idx)
	}
	if p.sym == nil {
		return o.get(p.off + k)
	}
	lo, hi := p.symRange()
	if hi < lo {
		panic(engErr("empty symbolic index range"))
	}
	if arr, sh, ok := e.runOf(o, p, k, lo, hi); ok {
		return e.c.Select(arr, e.c.Add(p.sym, sh))
	}
	return e.iteRange(o, p, k, lo, hi)
}

func (e *Eng) iteRange(o *Object, p Ptr, k, lo, hi int) Value {
	if lo == hi {
		return o.get(p.off + lo*p.stride + k)
	}
	mid := (lo + hi) / 2
	a := e.iteRange(o, p, k, lo, mid)
	b := e.iteRange(o, p, k, mid+1, hi)
	if sameVal(a, b) {
		return a
	}
	return e.mergeVal(e.c.Ule(p.sym, e.c.Int(mid)), a, b)
}

// runOf recognises slots that are consecutive cells of one array term.
func (e *Eng) runOf(o *Object, p Ptr, k, lo, hi int) (*Term, *Term, bool) {
	if p.stride != 1 || hi-lo < 8 {
		return nil, nil, false
	}
	var arr, base *Term
	for i := lo; i <= hi; i++ {
		t, ok := o.get(p.off + i + k).(*Term)
		if !ok || t.op != OSelect || t.a.op != OVar {
			return nil, nil, false
		}
		b := e.c.Sub(t.b, e.c.Int(i))
		if arr == nil {
			arr, base = t.a, b
		} else if arr != t.a || base != b {
			return nil, nil, false
		}
	}
	return arr, base, true
}

// load reads a value of type t.
func (e *Eng) load(st *State, pv Value, t types.Type) Value {
	switch p := pv.(type) {
	case Ptr:
		o := e.obj(st, p.obj)
		if !isAgg(t) {
			return e.loadSlot(st, o, p, 0)
		}
		n := e.layout(t).n
		a := &Agg{make([]Value, n)}
		for k := range a.slots {
			a.slots[k] = e.loadSlot(st, o, p, k)
		}
		return a
	case *Union:
		var r Value
		for i := len(p.alts) - 1; i >= 0; i-- {
			al := p.alts[i]
			if isNilPtr(al.v) {
				continue
			}
			v := e.load(st, al.v, t)
			if r == nil {
				r = v
			} else {
				r = e.mergeVal(al.g, v, r)
			}
		}
		if r == nil {
			panic(engErr("load through nil union"))
		}
		return r
	}
	panic(engErr(fmt.Sprintf("load through %T %v", pv, pv)))
}

func isNilPtr(v Value) bool {
	p, ok := v.(Ptr)
	return ok && p.obj == 0
}

func (e *Eng) storeSlot(st *State, p Ptr, k int, v Value, g *Term) {
	o := e.obj(st, p.obj)
	if o.rope != nil {
		idx := e.c.Int(p.off + k)
		if p.sym != nil {
			idx = e.c.Add(p.sym, idx)
		}
		t := v.(*Term)
		if g != nil {
			t = e.c.Ite(g, t, e.ropeGet(o.rope, idx))
		}
		m := e.mut(st, p.obj)
		r := *m.rope
		r.wr = append(r.wr[:len(r.wr):len(r.wr)], ropeWrite{idx, t})
		m.rope = &r
		return
	}
	if p.sym == nil {
		i := p.off + k
		if g != nil {
			v = e.mergeVal(g, v, o.get(i))
		}
		e.setSlot(st, p.obj, i, v)
		return
	}
	lo, hi := p.symRange()
	m := e.mut(st, p.obj)
	for j := lo; j <= hi; j++ {
		i := p.off + j*p.stride + k
		c := e.c.Eq(p.sym, e.c.Int(j))
		if g != nil {
			c = e.c.And(g, c)
		}
		m.set(st.heap.own, i, e.mergeVal(c, v, m.get(i)))
	}
}

func (e *Eng) store(st *State, pv Value, v Value, g *Term) {
	switch p := pv.(type) {
	case Ptr:
		if a, ok := v.(*Agg); ok {
			for k, x := range a.slots {
				e.storeSlot(st, p, k, x, g)
			}
			return
		}
		e.storeSlot(st, p, 0, v, g)
		return
	case *Union:
		for _, al := range p.alts {
			if isNilPtr(al.v) {
				continue
			}
			gg := al.g
			if g != nil {
				gg = e.c.And(g, gg)
			}
			e.store(st, al.v, v, gg)
		}
		return
	}
	panic(engErr(fmt.Sprintf("store through %T", pv)))
}

// ---- ropes ----

func (e *Eng) ropeGet(r *Rope, idx *Term) *Term {
	v := e.segGet(r.segs, idx)
	for _, w := range r.wr {
		v = e.c.Ite(e.c.Eq(w.idx, idx), w.val, v)
	}
	return v
}

func (e *Eng) segGet(segs []Seg, idx *Term) *Term {
	c := e.c
	if len(segs) == 0 {
		return c.Const(8, 0)
	}
	s := segs[0]
	if len(segs) == 1 {
		return e.segAt(s, idx)
	}
	in := c.Ult(idx, s.len)
	if in.IsTrue() {
		return e.segAt(s, idx)
	}
	rest := e.segGet(segs[1:], c.Sub(idx, s.len))
	if in.IsFalse() {
		return rest
	}
	return c.Ite(in, e.segAt(s, idx), rest)
}

func (e *Eng) segAt(s Seg, idx *Term) *Term {
	c := e.c
	if s.arr != nil {
		return c.Select(s.arr, c.Add(idx, s.shift))
	}
	if idx.IsConst() {
		if idx.val < uint64(len(s.bytes)) {
			return s.bytes[idx.val]
		}
		return c.Const(8, 0)
	}
	n := len(s.bytes)
	if n == 0 {
		return c.Const(8, 0)
	}
	var rec func(lo, hi int) *Term
	rec = func(lo, hi int) *Term {
		if lo == hi {
			return s.bytes[lo]
		}
		mid := (lo + hi) / 2
		return c.Ite(c.Ule(idx, c.Int(mid)), rec(lo, mid), rec(mid+1, hi))
	}
	lo, hi := 0, n-1
	if idx.lo > 0 && idx.lo < uint64(n) {
		lo = int(idx.lo)
	}
	if idx.hi < uint64(hi) {
		hi = int(idx.hi)
	}
	return rec(lo, hi)
}

// subRope gives the rope of bytes [off, off+n) of r.
func (e *Eng) subRope(r *Rope, off, n *Term) *Rope {
	c := e.c
	if off.IsConst() && off.val == 0 && r.len == n {
		return r
	}
	if len(r.wr) > 0 || len(r.segs) != 1 {
		// general: drop whole leading segments when offset matches their length syntactically
		if len(r.wr) == 0 {
			segs := r.segs
			o := off
			for len(segs) > 1 && c.Ule(segs[0].len, o).IsTrue() {
				o = c.Sub(o, segs[0].len)
				segs = segs[1:]
			}
			if len(segs) == 1 {
				return e.subRope(&Rope{segs: segs, len: segs[0].len}, o, n)
			}
			if s := segs[0]; !(o.IsConst() && o.val == 0) && c.Ule(o, s.len).IsTrue() {
				// cut the head of the first piece
				t := Seg{arr: s.arr, bytes: s.bytes, shift: s.shift, len: c.Sub(s.len, o)}
				switch {
				case s.arr != nil:
					t.shift = c.Add(s.shift, o)
					segs, o = append([]Seg{t}, segs[1:]...), c.Int(0)
				case o.IsConst() && o.val <= uint64(len(s.bytes)):
					t.bytes = s.bytes[o.val:]
					segs, o = append([]Seg{t}, segs[1:]...), c.Int(0)
				}
			}
			if o.IsConst() && o.val == 0 {
				// prefix of the remaining segments
				var out []Seg
				rem := n
				for _, s := range segs {
					if c.Ule(rem, s.len).IsTrue() {
						s.len = rem
						out = append(out, s)
						return &Rope{segs: out, len: n}
					}
					if !c.Ule(s.len, rem).IsTrue() {
						break
					}
					out = append(out, s)
					rem = c.Sub(rem, s.len)
				}
			}
		}
		if n.IsConst() && n.val <= 4096 {
			bs := make([]*Term, n.val)
			for i := range bs {
				bs[i] = e.ropeGet(r, c.Add(off, c.Int(i)))
			}
			return &Rope{segs: []Seg{{bytes: bs, len: n}}, len: n}
		}
		d := ""
		for _, s := range r.segs {
			d += fmt.Sprintf(" [%s]", s.len)
		}
		panic(engErr(fmt.Sprintf("subRope of complex rope: %d pieces%s off %s len %s", len(r.segs), d, off, n)))
	}
	s := r.segs[0]
	if s.arr != nil {
		return &Rope{segs: []Seg{{arr: s.arr, shift: c.Add(s.shift, off), len: n}}, len: n}
	}
	if off.IsConst() {
		hi := len(s.bytes)
		if n.hi < uint64(hi-int(off.val)) {
			hi = int(off.val) + int(n.hi)
		}
		return &Rope{segs: []Seg{{bytes: s.bytes[off.val:hi], len: n}}, len: n}
	}
	m := int(min(n.hi, uint64(len(s.bytes))))
	bs := make([]*Term, m)
	for i := range bs {
		bs[i] = e.segAt(s, c.Add(off, c.Int(i)))
	}
	return &Rope{segs: []Seg{{bytes: bs, len: n}}, len: n}
}

func (e *Eng) ropeConcat(a, b *Rope) *Rope {
	if a.len.IsConst() && a.len.val == 0 {
		return b
	}
	if b.len.IsConst() && b.len.val == 0 {
		return a
	}
	bw := b.wr
	wr := append([]ropeWrite(nil), a.wr...)
	for _, w := range bw {
		wr = append(wr, ropeWrite{e.c.Add(w.idx, a.len), w.val})
	}
	segs := append([]Seg(nil), a.segs...)
	for _, s := range b.segs {
		if n := len(segs); n > 0 {
			l := segs[n-1]
			// coalesce adjacent pieces of the same array
			if l.arr != nil && l.arr == s.arr && e.c.Add(l.shift, l.len) == s.shift {
				segs[n-1].len = e.c.Add(l.len, s.len)
				continue
			}
			if l.arr == nil && s.arr == nil && l.len.IsConst() && int(l.len.val) == len(l.bytes) {
				segs[n-1] = Seg{bytes: append(l.bytes[:len(l.bytes):len(l.bytes)], s.bytes...), len: e.c.Add(l.len, s.len)}
				continue
			}
		}
		segs = append(segs, s)
	}
	return &Rope{segs: segs, len: e.c.Add(a.len, b.len), wr: wr}
}

// sliceRope gives the content of a byte slice as a rope.
func (e *Eng) sliceRope(st *State, s Slice) *Rope {
	c := e.c
	if s.obj == 0 {
		return &Rope{len: c.Int(0)}
	}
	o := e.obj(st, s.obj)
	if o.rope != nil {
		off := c.Int(s.off)
		if s.symOff != nil {
			off = c.Add(s.symOff, off)
		}
		return e.subRope(o.rope, off, s.len)
	}
	n := int(s.len.hi)
	if uint64(o.n-s.off) < s.len.hi {
		n = o.n - s.off
	}
	bs := make([]*Term, n)
	for i := range bs {
		t, ok := o.get(s.off + i).(*Term)
		if !ok {
			panic(engErr("sliceRope: non-byte slot"))
		}
		bs[i] = t
	}
	return &Rope{segs: []Seg{{bytes: bs, len: s.len}}, len: s.len}
}

func (e *Eng) allocRope(st *State, r *Rope, tag string) int {
	o := &Object{own: st.heap.own, id: e.newID(), rope: r, tag: tag, typ: types.Typ[types.Uint8]}
	st.heap.put(o)
	return o.id
}

// bytesOf returns the concrete-length cells of a byte slice, or nil if its length is symbolic.
func (e *Eng) bytesOf(st *State, s Slice) ([]*Term, bool) {
	if !s.len.IsConst() {
		return nil, false
	}
	n := int(s.len.val)
	out := make([]*Term, n)
	if n == 0 {
		return out, true
	}
	o := e.obj(st, s.obj)
	for i := range out {
		p := Ptr{obj: s.obj, off: s.off + i}
		if s.symOff != nil {
			p.sym, p.stride, p.count = s.symOff, 1, 1<<40
		}
		t, ok := e.loadSlot(st, o, p, 0).(*Term)
		if !ok {
			return nil, false
		}
		out[i] = t
	}
	return out, true
}

func (e *Eng) newBytes(st *State, bs []*Term, tag string) Slice {
	id := e.alloc(st, types.Typ[types.Uint8], len(bs), tag)
	o := e.obj(st, id)
	for i, b := range bs {
		o.set(st.heap.own, i, b)
	}
	n := e.c.Int(len(bs))
	return Slice{obj: id, esz: 1, len: n, cap: n}
}

// ---- merging ----

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case *Term:
		y, ok := b.(*Term)
		return ok && x == y
	case Ptr:
		y, ok := b.(Ptr)
		return ok && x == y
	case Slice:
		y, ok := b.(Slice)
		return ok && x == y
	case *Str:
		y, ok := b.(*Str)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.rope != nil || y.rope != nil || x.len != y.len || len(x.bytes) != len(y.bytes) || x.opaque != y.opaque || len(x.args) != len(y.args) {
			return false
		}
		for i := range x.bytes {
			if x.bytes[i] != y.bytes[i] {
				return false
			}
		}
		for i := range x.args {
			if x.args[i] != y.args[i] {
				return false
			}
		}
		return true
	case Iface:
		y, ok := b.(Iface)
		if !ok || (x.typ == nil) != (y.typ == nil) {
			return false
		}
		if x.typ == nil {
			return true
		}
		return types.Identical(x.typ, y.typ) && sameVal(x.val, y.val)
	case *Closure:
		y, ok := b.(*Closure)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x == nil || y == nil || x.fn != y.fn || len(x.binds) != len(y.binds) {
			return false
		}
		for i := range x.binds {
			if !sameVal(x.binds[i], y.binds[i]) {
				return false
			}
		}
		return true
	case *Agg:
		y, ok := b.(*Agg)
		if !ok || len(x.slots) != len(y.slots) {
			return false
		}
		for i := range x.slots {
			if !sameVal(x.slots[i], y.slots[i]) {
				return false
			}
		}
		return true
	case Tuple:
		y, ok := b.(Tuple)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !sameVal(x[i], y[i]) {
				return false
			}
		}
		return true
	case MapRef:
		y, ok := b.(MapRef)
		return ok && x == y
	case *Native:
		y, ok := b.(*Native)
		return ok && (x == y || x.kind == y.kind && x.v == y.v)
	case Float:
		y, ok := b.(Float)
		return ok && x == y
	case Poison:
		_, ok := b.(Poison)
		return ok
	case *Union:
		y, ok := b.(*Union)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if len(x.alts) != len(y.alts) {
			return false
		}
		for i := range x.alts {
			if x.alts[i].g != y.alts[i].g || !sameVal(x.alts[i].v, y.alts[i].v) {
				return false
			}
		}
		return true
	}
	return false
}

// mergeVal builds "if g then a else b".
func (e *Eng) mergeVal(g *Term, a, b Value) Value {
	if g.IsTrue() {
		return a
	}
	if g.IsFalse() {
		return b
	}
	if sameVal(a, b) {
		return a
	}
	if a == nil {
		return b
	}
	if b == nil {
		return a
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok && x.w == y.w {
			return e.c.Ite(g, x, y)
		}
	case Slice:
		if y, ok := b.(Slice); ok && x.obj == y.obj && x.off == y.off && x.esz == y.esz && (x.symOff == nil) == (y.symOff == nil) {
			r := x
			r.len = e.c.Ite(g, x.len, y.len)
			r.cap = e.c.Ite(g, x.cap, y.cap)
			if x.symOff != nil {
				r.symOff = e.c.Ite(g, x.symOff, y.symOff)
			}
			return r
		}
	case *Str:
		if y, ok := b.(*Str); ok && x.opaque == "" && y.opaque == "" && x.rope == nil && y.rope == nil {
			n := max(len(x.bytes), len(y.bytes))
			if n <= 512 {
				r := &Str{len: e.c.Ite(g, x.len, y.len), bytes: make([]*Term, n)}
				for i := range r.bytes {
					switch {
					case i >= len(x.bytes):
						r.bytes[i] = y.bytes[i]
					case i >= len(y.bytes):
						r.bytes[i] = x.bytes[i]
					default:
						r.bytes[i] = e.c.Ite(g, x.bytes[i], y.bytes[i])
					}
				}
				return r
			}
		}
	case Iface:
		if y, ok := b.(Iface); ok && x.typ != nil && y.typ != nil && types.Identical(x.typ, y.typ) {
			return Iface{x.typ, e.mergeVal(g, x.val, y.val)}
		}
	case *Closure:
		if y, ok := b.(*Closure); ok && x != nil && y != nil && x.fn == y.fn {
			r := &Closure{fn: x.fn, binds: make([]Value, len(x.binds))}
			for i := range r.binds {
				r.binds[i] = e.mergeVal(g, x.binds[i], y.binds[i])
			}
			return r
		}
	case *Agg:
		if y, ok := b.(*Agg); ok && len(x.slots) == len(y.slots) {
			r := &Agg{make([]Value, len(x.slots))}
			for i := range r.slots {
				r.slots[i] = e.mergeVal(g, x.slots[i], y.slots[i])
			}
			return r
		}
	case Tuple:
		if y, ok := b.(Tuple); ok && len(x) == len(y) {
			r := make(Tuple, len(x))
			for i := range r {
				r[i] = e.mergeVal(g, x[i], y[i])
			}
			return r
		}
	}
	// union
	var alts []Alt
	add := func(g *Term, v Value) {
		if g.IsFalse() {
			return
		}
		if u, ok := v.(*Union); ok {
			for _, al := range u.alts {
				gg := e.c.And(g, al.g)
				if gg.IsFalse() {
					continue
				}
				alts = append(alts, Alt{gg, al.v})
			}
			return
		}
		alts = append(alts, Alt{g, v})
	}
	add(g, a)
	add(e.c.Not(g), b)
	var out []Alt
outer:
	for _, al := range alts {
		for i := range out {
			if sameVal(out[i].v, al.v) {
				out[i].g = e.c.Or(out[i].g, al.g)
				continue outer
			}
		}
		out = append(out, al)
	}
	if len(out) == 1 {
		return out[0].v
	}
	return &Union{out}
}

// deltas splits the two path conditions at their common ancestor.
func deltas(a, b *PC) (base *PC, da, db []*Term) {
	for a != b {
		if a != nil && (b == nil || a.depth >= b.depth) {
			da = append(da, a.t)
			a = a.parent
		} else {
			db = append(db, b.t)
			b = b.parent
		}
	}
	rev := func(x []*Term) {
		for i, j := 0, len(x)-1; i < j; i, j = i+1, j-1 {
			x[i], x[j] = x[j], x[i]
		}
	}
	rev(da)
	rev(db)
	return a, da, db
}

func (e *Eng) conj(ts []*Term) *Term {
	r := e.c.tru
	for i := len(ts) - 1; i >= 0; i-- {
		r = e.c.And(ts[i], r)
	}
	return r
}

// mergeStates joins b into a (mutually exclusive path conditions) and returns the
// merged state and the selector (true: a).
func (e *Eng) mergeStates(a, b *State) (*State, *Term) {
	base, da, db := deltas(a.pc, b.pc)
	if len(da) == 0 || len(db) == 0 {
		// one implies the other: cannot happen for exclusive paths, except both equal
		panic(engErr("merge of non-exclusive states"))
	}
	var sel *Term
	if e.c.Not(da[0]) == db[0] {
		sel = da[0]
	} else {
		sel = e.conj(da)
		if o := e.conj(db); o.size < sel.size {
			sel = e.c.Not(o)
		}
	}
	or := e.c.Or(e.conj(da), e.conj(db))
	n := &State{pc: base, heap: a.heap, model: a.model, steps: a.steps, key: a.key}
	n.pc = e.pcAdd(base, or)
	if a.tr == b.tr {
		n.tr = a.tr
	} else {
		n.tr = e.mergeTrace(a.tr, b.tr, sel)
	}
	// heap
	h := a.heap
	if h != b.heap {
		nh := h.fork()
		var adds []*Object
		diffHeaps(h, b.heap, func(x, y *Object) {
			if y == nil {
				return
			}
			if x == nil {
				// only in b, or a still sees the base object
				if bo := e.base.get(y.id); bo != nil {
					x = bo
				} else {
					adds = append(adds, y)
					return
				}
			}
			if m := e.mergeObj(nh, sel, x, y); m != nil {
				adds = append(adds, m)
			}
		})
		// objects modified only in a relative to the base heap
		diffHeaps(h, b.heap, func(x, y *Object) {
			if y == nil && x != nil {
				if bo := e.base.get(x.id); bo != nil {
					if m := e.mergeObj(nh, sel, x, bo); m != nil {
						adds = append(adds, m)
					}
				}
			}
		})
		for _, o := range adds {
			nh.put(o)
		}
		n.heap = nh
	}
	e.nMerges++
	return n, sel
}

func (e *Eng) mergeObj(h *Heap, sel *Term, x, y *Object) *Object {
	if x.rope != nil || y.rope != nil {
		if x.rope == y.rope {
			return nil
		}
		if x.rope == nil || y.rope == nil {
			panic(engErr("merge rope with flat"))
		}
		// writes differ
		if len(x.rope.segs) == len(y.rope.segs) && x.rope.len == y.rope.len {
			n := 0
			for n < len(x.rope.wr) && n < len(y.rope.wr) && x.rope.wr[n] == y.rope.wr[n] {
				n++
			}
			r := &Rope{segs: x.rope.segs, len: x.rope.len, wr: append([]ropeWrite(nil), x.rope.wr[:n]...)}
			for _, w := range x.rope.wr[n:] {
				r.wr = append(r.wr, ropeWrite{w.idx, e.c.Ite(sel, w.val, e.ropeGet(r, w.idx))})
			}
			for _, w := range y.rope.wr[n:] {
				r.wr = append(r.wr, ropeWrite{w.idx, e.c.Ite(sel, e.ropeGet(r, w.idx), w.val)})
			}
			m := *x
			m.own = h.own
			m.rope = r
			return &m
		}
		panic(engErr("merge of different ropes"))
	}
	if x.m != nil {
		return e.mergeMap(h, sel, x, y)
	}
	if x.n != y.n {
		panic(engErr("merge objects of different size"))
	}
	m := *x
	m.own = h.own
	m.chunks = append([]*chunk(nil), x.chunks...)
	changed := false
	for ci := range x.chunks {
		a, b := x.chunks[ci], y.chunks[ci]
		if a == b {
			continue
		}
		lo := ci * chunkSize
		hi := min(lo+chunkSize, x.n)
		for i := lo; i < hi; i++ {
			va, vb := x.get(i), y.get(i)
			if sameVal(va, vb) {
				continue
			}
			m.set(h.own, i, e.mergeVal(sel, va, vb))
			changed = true
		}
	}
	if !changed {
		return nil
	}
	return &m
}

func (e *Eng) mergeMap(h *Heap, sel *Term, x, y *Object) *Object {
	m := *x
	m.own = h.own
	mm := &MapObj{kt: x.m.kt, vt: x.m.vt, idx: map[string]int{}}
	n := 0
	for n < len(x.m.ents) && n < len(y.m.ents) && sameVal(x.m.ents[n].key, y.m.ents[n].key) {
		a, b := x.m.ents[n], y.m.ents[n]
		mm.ents = append(mm.ents, MapEnt{a.key, e.mergeVal(sel, a.val, b.val), e.c.Ite(sel, a.present, b.present)})
		n++
	}
	// remaining entries: if a key occurs on the other side, combine
	used := map[int]bool{}
	for _, a := range x.m.ents[n:] {
		j := -1
		for k := n; k < len(y.m.ents); k++ {
			if sameVal(y.m.ents[k].key, a.key) {
				j = k
			}
		}
		if j >= 0 {
			b := y.m.ents[j]
			used[j] = true
			mm.ents = append(mm.ents, MapEnt{a.key, e.mergeVal(sel, a.val, b.val), e.c.Ite(sel, a.present, b.present)})
		} else {
			mm.ents = append(mm.ents, MapEnt{a.key, a.val, e.c.And(sel, a.present)})
		}
	}
	for k := n; k < len(y.m.ents); k++ {
		if !used[k] {
			b := y.m.ents[k]
			mm.ents = append(mm.ents, MapEnt{b.key, b.val, e.c.And(e.c.Not(sel), b.present)})
		}
	}
	for i, en := range mm.ents {
		if s, ok := constKey(en.key); ok {
			mm.idx[s] = i
		}
	}
	m.m = mm
	return &m
}

func constKey(v Value) (string, bool) {
	switch k := v.(type) {
	case *Term:
		if k.IsConst() {
			return fmt.Sprintf("i%d", k.val), true
		}
	case *Str:
		if s, ok := k.constant(); ok {
			return "s" + s, true
		}
	case Iface:
		if k.typ == nil {
			return "nil", true
		}
		s, ok := constKey(k.val)
		return k.typ.String() + ":" + s, ok
	case Ptr:
		if k.sym == nil {
			return fmt.Sprintf("p%d.%d", k.obj, k.off), true
		}
	case *Agg:
		r := "a"
		for _, x := range k.slots {
			s, ok := constKey(x)
			if !ok {
				return "", false
			}
			r += fmt.Sprintf("%d:%s;", len(s), s)
		}
		return r, true
	}
	return "", false
}

func (s *Str) constant() (string, bool) {
	if s.opaque != "" || s.rope != nil || !s.len.IsConst() {
		return "", false
	}
	b := make([]byte, s.len.val)
	for i := range b {
		if !s.bytes[i].IsConst() {
			return "", false
		}
		b[i] = byte(s.bytes[i].val)
	}
	return string(b), true
}

func (e *Eng) mergeTrace(a, b *Trace, sel *Term) *Trace {
	// keep a's trace when lengths differ; merge values when labels agree
	la, lb := traceList(a), traceList(b)
	var r *Trace
	n := 0
	for n < len(la) && n < len(lb) && la[n] == lb[n] {
		r = la[n]
		n++
	}
	for i := n; i < len(la) || i < len(lb); i++ {
		if i < len(la) && i < len(lb) && la[i].label == lb[i].label && len(la[i].vals) == len(lb[i].vals) {
			vs := make([]Value, len(la[i].vals))
			for k := range vs {
				vs[k] = e.mergeVal(sel, la[i].vals[k], lb[i].vals[k])
			}
			r = &Trace{label: la[i].label, vals: vs, parent: r}
		} else {
			return &Trace{label: "?", parent: r} // diverged: not comparable after this point
		}
	}
	return r
}

func traceList(t *Trace) []*Trace {
	var l []*Trace
	for ; t != nil; t = t.parent {
		l = append(l, t)
	}
	for i, j := 0, len(l)-1; i < j; i, j = i+1, j-1 {
		l[i], l[j] = l[j], l[i]
	}
	return l
}

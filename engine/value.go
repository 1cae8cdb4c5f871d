package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, Ptr, Slice, *Str, Iface, *Closure, *Agg, Tuple,
// MapRef, *Native, *Union, Poison, Float.
type Value interface{}

// Ptr designates slot off + sym*stride (sym < count) of an object. obj 0 is nil.
type Ptr struct {
	obj    int
	off    int
	sym    *Term // nil when concrete
	stride int
	count  int
}

// Slice designates len elements of esz slots starting at slot off (+symOff elements, byte
// buffers only). obj 0 with len 0 is nil.
type Slice struct {
	obj      int
	off      int
	symOff   *Term // 64 bit, rope objects only
	esz      int
	len, cap *Term
}

// Str is an immutable string: the first len of bytes.
type Str struct {
	bytes []*Term
	len   *Term
	// opaque strings: produced by formatting; comparable only by identity of tag/args
	opaque string
	args   []*Term
	rope   *Rope // symbolic-length content
}

type Iface struct {
	typ types.Type // dynamic type; nil for nil interface
	val Value
}

type Closure struct {
	fn    *ssa.Function
	binds []Value
}

type Agg struct{ slots []Value }

type Tuple []Value

type MapRef struct{ obj int }

// Native is an engine-level handle (enum descriptors etc.).
type Native struct {
	kind string
	v    interface{}
}

type Float struct{ v float64 }

type Alt struct {
	g *Term
	v Value
}

type Union struct{ alts []Alt }

type Poison struct{ why string }

var nilPtr = Ptr{}

// Layout flattens a Go type into slots.
type Layout struct {
	n     int
	typ   types.Type
	elems []types.Type // slot types when small (struct flattening); nil for large arrays
	elem  *Layout      // arrays
	cnt   int
	foff  []int // struct field offsets
	flds  []*Layout
}

func (e *Eng) layout(t types.Type) *Layout {
	if l, ok := e.layouts[t]; ok {
		return l
	}
	l := &Layout{typ: t}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			fl := e.layout(u.Field(i).Type())
			l.foff = append(l.foff, l.n)
			l.flds = append(l.flds, fl)
			l.n += fl.n
		}
	case *types.Array:
		l.elem = e.layout(u.Elem())
		l.cnt = int(u.Len())
		l.n = l.elem.n * l.cnt
	case *types.Tuple:
		l.n = 1
	default:
		l.n = 1
	}
	e.layouts[t] = l
	return l
}

func (e *Eng) zeroSlots(t types.Type, out []Value) []Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			out = e.zeroSlots(u.Field(i).Type(), out)
		}
		return out
	case *types.Array:
		for i := int64(0); i < u.Len(); i++ {
			out = e.zeroSlots(u.Elem(), out)
		}
		return out
	}
	return append(out, e.zeroScalar(t))
}

func (e *Eng) zeroScalar(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.c.fls
		case u.Info()&types.IsString != 0:
			return e.emptyStr
		case u.Info()&types.IsInteger != 0:
			return e.c.Const(intWidth(u), 0)
		case u.Info()&types.IsFloat != 0:
			return Float{0}
		case u.Kind() == types.UnsafePointer:
			return nilPtr
		case u.Kind() == types.UntypedNil:
			return nilPtr
		}
		return Poison{"zero " + t.String()}
	case *types.Pointer:
		return nilPtr
	case *types.Slice:
		return e.nilSlice(u.Elem())
	case *types.Map:
		return MapRef{}
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Chan:
		return nilPtr
	}
	return Poison{"zero " + t.String()}
}

func (e *Eng) nilSlice(elem types.Type) Slice {
	z := e.c.Int(0)
	return Slice{esz: e.layout(elem).n, len: z, cap: z}
}

// zero value of a type as a register value (aggregates become Agg).
func (e *Eng) zero(t types.Type) Value {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return &Agg{e.zeroSlots(t, nil)}
	case *types.Tuple:
		tt := t.Underlying().(*types.Tuple)
		var tu Tuple
		for i := 0; i < tt.Len(); i++ {
			tu = append(tu, e.zero(tt.At(i).Type()))
		}
		return tu
	}
	return e.zeroScalar(t)
}

func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func intWidth(b *types.Basic) uint8 {
	switch b.Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32:
		return 32
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Uintptr, types.UntypedInt, types.UntypedRune:
		return 64
	}
	panic("intWidth " + b.String())
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

// ---- heap ----

const chunkSize = 32

type owner struct{ _ int }

type chunk struct {
	own  *owner
	vals []Value
}

// Object is a vector of slots, a rope of bytes, or a map.
type Object struct {
	own    *owner
	id     int
	n      int
	chunks []*chunk // nil chunk: zero values
	zslots []Value  // zero pattern (repeated)
	rope   *Rope
	m      *MapObj
	typ    types.Type // element type, for diagnostics
	tag    string
}

type MapEnt struct {
	key, val Value
	present  *Term
}

type MapObj struct {
	own    *owner
	ents   []MapEnt
	idx    map[string]int // for constant keys
	kt, vt types.Type
}

// Rope is an immutable byte sequence of symbolic length made of segments.
type Rope struct {
	segs []Seg
	len  *Term
	wr   []ropeWrite // newest last
}

type Seg struct {
	arr   *Term // array term, byte i = arr[shift+i]
	shift *Term
	bytes []*Term // or concrete cells
	len   *Term
}

type ropeWrite struct{ idx, val *Term }

const trieBits = 5
const trieW = 1 << trieBits

type trieNode struct {
	own *owner
	kid [trieW]interface{} // *trieNode or *Object
}

const trieDepth = 4 // 20 bits

type Heap struct {
	root *trieNode
	own  *owner
}

func newHeap() *Heap { o := &owner{}; return &Heap{own: o, root: &trieNode{own: o}} }

func (h *Heap) get(id int) *Object {
	n := h.root
	for d := trieDepth - 1; d > 0; d-- {
		k, _ := n.kid[id>>(d*trieBits)&(trieW-1)].(*trieNode)
		if k == nil {
			return nil
		}
		n = k
	}
	o, _ := n.kid[id&(trieW-1)].(*Object)
	return o
}

func (h *Heap) put(o *Object) {
	if o.id >= 1<<(trieBits*trieDepth) {
		panic(engErr("too many objects"))
	}
	if h.root.own != h.own {
		c := *h.root
		c.own = h.own
		h.root = &c
	}
	n := h.root
	for d := trieDepth - 1; d > 0; d-- {
		i := o.id >> (d * trieBits) & (trieW - 1)
		k, _ := n.kid[i].(*trieNode)
		if k == nil {
			k = &trieNode{own: h.own}
			n.kid[i] = k
		} else if k.own != h.own {
			c := *k
			c.own = h.own
			k = &c
			n.kid[i] = k
		}
		n = k
	}
	n.kid[o.id&(trieW-1)] = o
}

// fork gives two independent heaps sharing structure.
func (h *Heap) fork() *Heap {
	h.own = &owner{}
	return &Heap{root: h.root, own: &owner{}}
}

// diff calls f for every id whose object differs between the heaps.
func diffHeaps(a, b *Heap, f func(x, y *Object)) {
	diffTrie(a.root, b.root, trieDepth-1, f)
}

func diffTrie(a, b *trieNode, d int, f func(x, y *Object)) {
	if a == b {
		return
	}
	for i := 0; i < trieW; i++ {
		var x, y interface{}
		if a != nil {
			x = a.kid[i]
		}
		if b != nil {
			y = b.kid[i]
		}
		if x == y {
			continue
		}
		if d > 0 {
			xn, _ := x.(*trieNode)
			yn, _ := y.(*trieNode)
			diffTrie(xn, yn, d-1, f)
		} else {
			xo, _ := x.(*Object)
			yo, _ := y.(*Object)
			f(xo, yo)
		}
	}
}

func (o *Object) zeroAt(i int) Value { return o.zslots[i%len(o.zslots)] }

func (o *Object) get(i int) Value {
	if i < 0 || i >= o.n {
		panic(engErr(fmt.Sprintf("object slot out of range: %d of %d (%v %s)", i, o.n, o.typ, o.tag)))
	}
	c := o.chunks[i/chunkSize]
	if c == nil {
		return o.zeroAt(i)
	}
	return c.vals[i%chunkSize]
}

func (o *Object) set(own *owner, i int, v Value) {
	if i < 0 || i >= o.n {
		panic(engErr(fmt.Sprintf("object slot out of range: %d of %d (%v %s)", i, o.n, o.typ, o.tag)))
	}
	ci := i / chunkSize
	c := o.chunks[ci]
	if c == nil {
		lo := ci * chunkSize
		hi := min(lo+chunkSize, o.n)
		c = &chunk{own: own, vals: make([]Value, hi-lo)}
		for k := range c.vals {
			c.vals[k] = o.zeroAt(lo + k)
		}
		o.chunks[ci] = c
	} else if c.own != own {
		c = &chunk{own: own, vals: append([]Value(nil), c.vals...)}
		o.chunks[ci] = c
	}
	c.vals[i%chunkSize] = v
}

// ---- path condition and state ----

type PC struct {
	t      *Term
	parent *PC
	depth  int
}

type State struct {
	pc    *PC
	heap  *Heap
	model *Model
	steps *int
	tr    *Trace
	key   string // states with different keys are never merged
}

// Trace is a persistent list of events (reach labels, observations).
type Trace struct {
	label  string
	vals   []Value
	parent *Trace
}

func (s *State) fork() *State {
	n := *s
	n.heap = s.heap.fork()
	return &n
}

type engError struct{ msg string }

func engErr(m string) engError   { return engError{m} }
func (e engError) Error() string { return e.msg }

package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strings"
)

// Term is a hash-consed SMT term. Width 0 means Bool, 1..64 a bit-vector,
// arrW an array (BV64 -> BV8).
type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OIte
	OBNot
	OBNeg
	OBAnd
	OBOr
	OBXor
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZext
	OSext
	OSelect
	OStore
	OUF
)

const arrW = 255

type Term struct {
	id      int
	op      Op
	w       uint8
	a, b, c *Term
	args    []*Term
	val     uint64 // const value; extract: low bit
	name    string // var / uf name
	varID   int
	lo, hi  uint64 // unsigned interval (BV only)
	// single byte variable domain
	byteVar *Term // if the term depends on exactly one variable and that has width<=8
	dom     *[4]uint64
	vars    []*Term // lazily computed
	hasVars bool
	emitted int // solver generation in which it is defined
	mark    int
	size    int32 // dag size estimate (saturating tree size)
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int
	val     uint64
	name    string
}

type Ctx struct {
	tab   map[termKey]*Term
	terms int
	vars  []*Term
	tru   *Term
	fls   *Term
	gen   int
	ufs   map[string][]uint8 // uf name -> arg widths + result width (last)
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[termKey]*Term{}, ufs: map[string][]uint8{}}
	c.tru = c.mk(OConst, 0, nil, nil, nil, 1, "")
	c.fls = c.mk(OConst, 0, nil, nil, nil, 0, "")
	return c
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	if w == 0 {
		return 1
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(op Op, w uint8, x, y, z *Term, val uint64, name string) *Term {
	k := termKey{op, w, tid(x), tid(y), tid(z), val, name}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.terms, op: op, w: w, a: x, b: y, c: z, val: val, name: name}
	c.terms++
	c.finish(t)
	c.tab[k] = t
	return t
}

func (c *Ctx) finish(t *Term) {
	sz := int32(1)
	for _, s := range []*Term{t.a, t.b, t.c} {
		if s != nil {
			sz += s.size
		}
	}
	for _, s := range t.args {
		sz += s.size
	}
	if sz > 1<<28 || sz < 0 {
		sz = 1 << 28
	}
	t.size = sz
	c.interval(t)
	// byte var tracking
	if t.op == OVar {
		if t.w >= 1 && t.w <= 8 {
			t.byteVar = t
		}
		return
	}
	if t.op == OConst {
		return
	}
	if t.op == OUF || t.op == OSelect || t.op == OStore || t.w == arrW {
		t.byteVar = multiVar
		return
	}
	var bv *Term
	for _, s := range []*Term{t.a, t.b, t.c} {
		if s == nil || s.op == OConst {
			continue
		}
		if s.byteVar == nil || s.byteVar == multiVar {
			t.byteVar = multiVar
			return
		}
		if bv == nil {
			bv = s.byteVar
		} else if bv != s.byteVar {
			t.byteVar = multiVar
			return
		}
	}
	if bv == nil {
		bv = multiVar
	}
	t.byteVar = bv
}

var multiVar = &Term{name: "<multi>"}

func (c *Ctx) interval(t *Term) {
	if t.w == 0 || t.w == arrW {
		return
	}
	m := mask(t.w)
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.val, t.val
	case OZext:
		t.lo, t.hi = t.a.lo, t.a.hi
	case OIte:
		bh := t.b.hi
		if t.a.op == OUle && t.a.a == t.b && t.a.b.op == OConst {
			bh = min(bh, t.a.b.val)
		}
		if t.a.op == OUlt && t.a.a == t.b && t.a.b.op == OConst && t.a.b.val > 0 {
			bh = min(bh, t.a.b.val-1)
		}
		t.lo, t.hi = min(t.b.lo, t.c.lo), max(bh, t.c.hi)
	case OBAnd:
		t.hi = min(t.a.hi, t.b.hi)
	case OBOr, OBXor:
		n := bits.Len64(t.a.hi | t.b.hi)
		if n < 64 {
			t.hi = (uint64(1) << n) - 1
		}
		if t.op == OBOr {
			t.lo = max(t.a.lo, t.b.lo)
		}
	case OAdd:
		s, carry := bits.Add64(t.a.hi, t.b.hi, 0)
		if carry == 0 && s <= m {
			t.lo, t.hi = t.a.lo+t.b.lo, s
		} else if t.b.op == OConst || t.a.op == OConst {
			// adding a negative constant: x + (2^w - k) with x >= k
			x, k := t.a, t.b
			if x.op == OConst {
				x, k = k, x
			}
			neg := (m - k.val + 1) & m
			if neg != 0 && x.lo >= neg {
				t.lo, t.hi = x.lo-neg, x.hi-neg
			}
		}
	case OSub:
		if t.a.lo >= t.b.hi {
			t.lo, t.hi = t.a.lo-t.b.hi, t.a.hi-t.b.lo
		}
	case OMul:
		h, l := bits.Mul64(t.a.hi, t.b.hi)
		if h == 0 && l <= m {
			t.lo, t.hi = t.a.lo*t.b.lo, l
		}
	case OUdiv:
		if t.b.lo > 0 {
			t.lo, t.hi = t.a.lo/t.b.hi, t.a.hi/t.b.lo
		}
	case OUrem:
		if t.b.lo > 0 {
			t.hi = min(t.a.hi, t.b.hi-1)
		}
	case OShl:
		if t.b.op == OConst && t.b.val < 64 {
			h := t.a.hi << t.b.val
			if h>>t.b.val == t.a.hi && h <= m {
				t.lo, t.hi = t.a.lo<<t.b.val, h
			}
		}
	case OLshr:
		if t.b.op == OConst {
			if t.b.val >= 64 {
				t.hi = 0
			} else {
				t.lo, t.hi = t.a.lo>>t.b.val, t.a.hi>>t.b.val
			}
		} else {
			t.hi = t.a.hi
		}
	case OExtract:
		if t.val == 0 && t.a.hi <= m {
			t.lo, t.hi = t.a.lo, t.a.hi
		} else if t.val < 64 {
			h := t.a.hi >> t.val
			if h <= m {
				t.lo, t.hi = t.a.lo>>t.val, h
			}
		}
	case OConcat:
		t.lo = t.a.lo<<t.b.w | t.b.lo
		t.hi = t.a.hi<<t.b.w | t.b.hi
	case OSext:
		if t.a.hi < uint64(1)<<(t.a.w-1) {
			t.lo, t.hi = t.a.lo, t.a.hi
		}
	}
}

func (c *Ctx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		if v&1 == 1 {
			return c.tru
		}
		return c.fls
	}
	return c.mk(OConst, w, nil, nil, nil, v&mask(w), "")
}

func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.tru
	}
	return c.fls
}

func (c *Ctx) Int(v int) *Term { return c.Const(64, uint64(int64(v))) }

func (c *Ctx) Var(name string, w uint8) *Term {
	n := c.terms
	t := c.mk(OVar, w, nil, nil, nil, 0, name)
	if t.id == n {
		t.varID = len(c.vars)
		c.vars = append(c.vars, t)
	}
	return t
}

func (t *Term) IsConst() bool { return t.op == OConst }
func (t *Term) IsTrue() bool  { return t.op == OConst && t.w == 0 && t.val == 1 }
func (t *Term) IsFalse() bool { return t.op == OConst && t.w == 0 && t.val == 0 }

func sext64(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - uint(w)
	return int64(v<<s) >> s
}

// Not

func (c *Ctx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.a
	}
	switch a.op {
	case OUlt:
		return c.Ule(a.b, a.a)
	case OUle:
		return c.Ult(a.b, a.a)
	case OSlt:
		return c.Sle(a.b, a.a)
	case OSle:
		return c.Slt(a.b, a.a)
	}
	return c.mk(ONot, 0, a, nil, nil, 0, "")
}

func (c *Ctx) And(a, b *Term) *Term {
	if a.IsFalse() || b.IsFalse() {
		return c.fls
	}
	if a.IsTrue() {
		return b
	}
	if b.IsTrue() || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.fls
	}
	// absorption a & (a | x) ; a & (!a | x) -> a & x
	if r := c.absorb(a, b, OAnd); r != nil {
		return r
	}
	if r := c.absorb(b, a, OAnd); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAnd, 0, a, b, nil, 0, "")
}

func (c *Ctx) absorb(a, b *Term, op Op) *Term {
	dual := OOr
	if op == OOr {
		dual = OAnd
	}
	if b.op == dual {
		if b.a == a || b.b == a {
			return a
		}
		na := c.Not(a)
		if b.a == na {
			if op == OAnd {
				return c.And(a, b.b)
			}
			return c.Or(a, b.b)
		}
		if b.b == na {
			if op == OAnd {
				return c.And(a, b.a)
			}
			return c.Or(a, b.a)
		}
	}
	if b.op == op {
		if b.a == a || b.b == a {
			return b
		}
		na := c.Not(a)
		if b.a == na || b.b == na {
			return c.Bool(op == OOr)
		}
	}
	return nil
}

func (c *Ctx) Or(a, b *Term) *Term {
	if a.IsTrue() || b.IsTrue() {
		return c.tru
	}
	if a.IsFalse() {
		return b
	}
	if b.IsFalse() || a == b {
		return a
	}
	if c.Not(a) == b {
		return c.tru
	}
	if r := c.absorb(a, b, OOr); r != nil {
		return r
	}
	if r := c.absorb(b, a, OOr); r != nil {
		return r
	}
	// (x&c)|(x&!c) -> x
	if a.op == OAnd && b.op == OAnd {
		for _, p := range [][2]*Term{{a.a, a.b}, {a.b, a.a}} {
			for _, q := range [][2]*Term{{b.a, b.b}, {b.b, b.a}} {
				if p[0] == q[0] {
					return c.And(p[0], c.Or(p[1], q[1]))
				}
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OOr, 0, a, b, nil, 0, "")
}

func (c *Ctx) Implies(a, b *Term) *Term { return c.Or(c.Not(a), b) }

func (c *Ctx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d: %s / %s", a.w, b.w, a.String(), b.String()))
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.val == b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if a.w == 0 {
		if b.op == OConst {
			if b.val == 1 {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b {
			return c.fls
		}
	} else if a.w != arrW {
		if a.hi < b.lo || b.hi < a.lo {
			return c.fls
		}
		if b.op == OConst {
			switch a.op {
			case OZext:
				return c.Eq(a.a, c.Const(a.a.w, b.val)) // b.val <= a.hi by interval
			case OIte:
				// push through when leaves are constants
				if a.b.op == OConst || a.c.op == OConst {
					x, y := c.Eq(a.b, b), c.Eq(a.c, b)
					return c.Ite(a.a, x, y)
				}
			case OConcat:
				return c.And(c.Eq(a.a, c.Const(a.a.w, b.val>>a.b.w)), c.Eq(a.b, c.Const(a.b.w, b.val)))
			case OAdd:
				if a.b.op == OConst {
					return c.Eq(a.a, c.Const(a.w, b.val-a.b.val))
				}
				if a.a.op == OConst {
					return c.Eq(a.b, c.Const(a.w, b.val-a.a.val))
				}
			case OSub:
				if a.b.op == OConst {
					return c.Eq(a.a, c.Const(a.w, b.val+a.b.val))
				}
			case OBXor:
				if a.b.op == OConst {
					return c.Eq(a.a, c.Const(a.w, b.val^a.b.val))
				}
			case OBNot:
				return c.Eq(a.a, c.Const(a.w, ^b.val))
			case OSext:
				if uint64(sext64(b.val&mask(a.a.w), a.a.w))&mask(a.w) == b.val {
					return c.Eq(a.a, c.Const(a.a.w, b.val))
				}
				return c.fls
			}
		} else {
			if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
				return c.Eq(a.a, b.a)
			}
			if a.op == OConcat && b.op == OConcat && a.a.w == b.a.w {
				return c.And(c.Eq(a.a, b.a), c.Eq(a.b, b.b))
			}
			if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
				return c.Eq(a.a, b.a)
			}
		}
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	t := c.mk(OEq, 0, a, b, nil, 0, "")
	return c.domSimp(t)
}

// domSimp decides terms over a single byte variable by their value table.
func (c *Ctx) domSimp(t *Term) *Term {
	if t.op == OConst || t.w != 0 || t.byteVar == nil || t.byteVar == multiVar {
		return t
	}
	d := c.domain(t)
	full := fullDom(t.byteVar.w)
	if *d == ([4]uint64{}) {
		return c.fls
	}
	if *d == full {
		return c.tru
	}
	return t
}

func fullDom(w uint8) [4]uint64 {
	var f [4]uint64
	n := 1 << w
	for i := 0; i < n; i++ {
		f[i>>6] |= 1 << (i & 63)
	}
	return f
}

func (c *Ctx) domain(t *Term) *[4]uint64 {
	if t.dom != nil {
		return t.dom
	}
	var d [4]uint64
	switch {
	case t.op == ONot:
		x := c.domain2(t.a, t.byteVar)
		f := fullDom(t.byteVar.w)
		for i := range d {
			d[i] = f[i] &^ x[i]
		}
	case t.op == OAnd:
		x, y := c.domain2(t.a, t.byteVar), c.domain2(t.b, t.byteVar)
		for i := range d {
			d[i] = x[i] & y[i]
		}
	case t.op == OOr:
		x, y := c.domain2(t.a, t.byteVar), c.domain2(t.b, t.byteVar)
		for i := range d {
			d[i] = x[i] | y[i]
		}
	default:
		n := 1 << t.byteVar.w
		for v := 0; v < n; v++ {
			if c.evalByte(t, uint64(v)) != 0 {
				d[v>>6] |= 1 << (v & 63)
			}
		}
	}
	t.dom = &d
	return t.dom
}

func (c *Ctx) domain2(t *Term, bv *Term) *[4]uint64 {
	if t.op == OConst {
		var z [4]uint64
		if t.val == 1 {
			z = fullDom(bv.w)
		}
		return &z
	}
	return c.domain(t)
}

// evalByte evaluates a term over a single byte variable with that variable = v.
func (c *Ctx) evalByte(t *Term, v uint64) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return v
	}
	if t.w == 0 && t.dom != nil {
		return t.dom[v>>6] >> (v & 63) & 1
	}
	var x, y, z uint64
	if t.a != nil {
		x = c.evalByte(t.a, v)
	}
	if t.op == OIte {
		if x != 0 {
			return c.evalByte(t.b, v)
		}
		return c.evalByte(t.c, v)
	}
	if t.b != nil {
		y = c.evalByte(t.b, v)
	}
	return evalOp(t, x, y, z)
}

func evalOp(t *Term, x, y, z uint64) uint64 {
	m := mask(t.w)
	var aw uint8
	if t.a != nil {
		aw = t.a.w
	}
	b2 := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	switch t.op {
	case ONot:
		return x ^ 1
	case OAnd:
		return x & y
	case OOr:
		return x | y
	case OEq:
		return b2(x == y)
	case OUlt:
		return b2(x < y)
	case OUle:
		return b2(x <= y)
	case OSlt:
		return b2(sext64(x, aw) < sext64(y, aw))
	case OSle:
		return b2(sext64(x, aw) <= sext64(y, aw))
	case OIte:
		if x != 0 {
			return y
		}
		return z
	case OBNot:
		return ^x & m
	case OBNeg:
		return -x & m
	case OBAnd:
		return x & y
	case OBOr:
		return x | y
	case OBXor:
		return x ^ y
	case OAdd:
		return (x + y) & m
	case OSub:
		return (x - y) & m
	case OMul:
		return (x * y) & m
	case OUdiv:
		if y == 0 {
			return m
		}
		return x / y
	case OUrem:
		if y == 0 {
			return x
		}
		return x % y
	case OSdiv:
		sx, sy := sext64(x, aw), sext64(y, aw)
		if sy == 0 {
			if sx < 0 {
				return 1
			}
			return m
		}
		if sy == -1 {
			return uint64(-sx) & m
		}
		return uint64(sx/sy) & m
	case OSrem:
		sx, sy := sext64(x, aw), sext64(y, aw)
		if sy == 0 {
			return x
		}
		if sy == -1 {
			return 0
		}
		return uint64(sx%sy) & m
	case OShl:
		if y >= uint64(t.w) {
			return 0
		}
		return (x << y) & m
	case OLshr:
		if y >= uint64(t.w) {
			return 0
		}
		return x >> y
	case OAshr:
		s := sext64(x, aw)
		if y >= uint64(t.w) {
			y = uint64(t.w) - 1
		}
		return uint64(s>>y) & m
	case OConcat:
		return (x<<t.b.w | y) & m
	case OExtract:
		return (x >> t.val) & m
	case OZext:
		return x
	case OSext:
		return uint64(sext64(x, aw)) & m
	}
	panic("evalOp")
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.hi < b.lo {
		return c.tru
	}
	if a.lo >= b.hi {
		return c.fls
	}
	if a.op == OZext && b.op == OConst {
		return c.Ult(a.a, c.Const(a.a.w, b.val))
	}
	if b.op == OZext && a.op == OConst {
		return c.Ult(c.Const(b.a.w, a.val), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if b.op == OConst && b.val == 1 {
		return c.Eq(a, c.Const(a.w, 0))
	}
	if r := c.cmpLinear(a, b, false); r != nil {
		return r
	}
	return c.domSimp(c.mk(OUlt, 0, a, b, nil, 0, ""))
}

func (c *Ctx) Ule(a, b *Term) *Term {
	if a == b || a.hi <= b.lo {
		return c.tru
	}
	if a.lo > b.hi {
		return c.fls
	}
	if a.op == OZext && b.op == OConst {
		return c.Ule(a.a, c.Const(a.a.w, b.val))
	}
	if b.op == OZext && a.op == OConst {
		return c.Ule(c.Const(b.a.w, a.val), b.a)
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ule(a.a, b.a)
	}
	if b.op == OConst && b.val == 0 {
		return c.Eq(a, b)
	}
	if r := c.cmpLinear(a, b, true); r != nil {
		return r
	}
	return c.domSimp(c.mk(OUle, 0, a, b, nil, 0, ""))
}

func nonneg(t *Term) bool { return t.hi < uint64(1)<<(t.w-1) }

func (c *Ctx) Slt(a, b *Term) *Term {
	if a == b {
		return c.fls
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(sext64(a.val, a.w) < sext64(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return c.Ult(a, b)
	}
	neg := func(t *Term) bool { return t.lo >= uint64(1)<<(t.w-1) }
	if nonneg(a) && neg(b) {
		return c.fls
	}
	if neg(a) && nonneg(b) {
		return c.tru
	}
	return c.domSimp(c.mk(OSlt, 0, a, b, nil, 0, ""))
}

func (c *Ctx) Sle(a, b *Term) *Term {
	if a == b {
		return c.tru
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(sext64(a.val, a.w) <= sext64(b.val, b.w))
	}
	if nonneg(a) && nonneg(b) {
		return c.Ule(a, b)
	}
	neg := func(t *Term) bool { return t.lo >= uint64(1)<<(t.w-1) }
	if nonneg(a) && neg(b) {
		return c.fls
	}
	if neg(a) && nonneg(b) {
		return c.tru
	}
	return c.domSimp(c.mk(OSle, 0, a, b, nil, 0, ""))
}

func (c *Ctx) Ite(g, a, b *Term) *Term {
	if g.IsTrue() || a == b {
		return a
	}
	if g.IsFalse() {
		return b
	}
	if g.op == ONot {
		return c.Ite(g.a, b, a)
	}
	if a.w == 0 {
		if a.IsTrue() {
			return c.Or(g, b)
		}
		if a.IsFalse() {
			return c.And(c.Not(g), b)
		}
		if b.IsTrue() {
			return c.Or(c.Not(g), a)
		}
		if b.IsFalse() {
			return c.And(g, a)
		}
	}
	if a.op == OIte && a.a == g {
		return c.Ite(g, a.b, b)
	}
	if b.op == OIte && b.a == g {
		return c.Ite(g, a, b.c)
	}
	if b.op == OIte && b.b == a {
		return c.Ite(c.Or(g, b.a), a, b.c)
	}
	if a.w != b.w {
		panic(fmt.Sprintf("ite width mismatch %d %d", a.w, b.w))
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Zext(c.Ite(g, a.a, b.a), a.w)
	}
	if a.op == OZext && b.op == OConst && b.val <= mask(a.a.w) {
		return c.Zext(c.Ite(g, a.a, c.Const(a.a.w, b.val)), a.w)
	}
	if b.op == OZext && a.op == OConst && a.val <= mask(b.a.w) {
		return c.Zext(c.Ite(g, c.Const(b.a.w, a.val), b.a), a.w)
	}
	return c.mk(OIte, a.w, g, a, b, 0, "")
}

func (c *Ctx) Zext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.w > w {
		panic("zext narrower")
	}
	if a.op == OConst {
		return c.Const(w, a.val)
	}
	if a.op == OZext {
		return c.Zext(a.a, w)
	}
	return c.mk(OZext, w, a, nil, nil, 0, "")
}

func (c *Ctx) Sext(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	if a.op == OConst {
		return c.Const(w, uint64(sext64(a.val, a.w)))
	}
	if nonneg(a) {
		return c.Zext(a, w)
	}
	return c.mk(OSext, w, a, nil, nil, 0, "")
}

func (c *Ctx) Extract(a *Term, low, w uint8) *Term {
	if low == 0 && w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.Const(w, a.val>>low)
	case OExtract:
		return c.Extract(a.a, low+uint8(a.val), w)
	case OZext:
		if low >= a.a.w {
			return c.Const(w, 0)
		}
		if low+w <= a.a.w {
			return c.Extract(a.a, low, w)
		}
		return c.Zext(c.Extract(a.a, low, a.a.w-low), w)
	case OSext:
		if low+w <= a.a.w {
			return c.Extract(a.a, low, w)
		}
	case OConcat:
		if low+w <= a.b.w {
			return c.Extract(a.b, low, w)
		}
		if low >= a.b.w {
			return c.Extract(a.a, low-a.b.w, w)
		}
		return c.Concat(c.Extract(a.a, 0, low+w-a.b.w), c.Extract(a.b, low, a.b.w-low))
	case OBAnd, OBOr, OBXor:
		x, y := c.Extract(a.a, low, w), c.Extract(a.b, low, w)
		switch a.op {
		case OBAnd:
			return c.BAnd(x, y)
		case OBOr:
			return c.BOr(x, y)
		default:
			return c.BXor(x, y)
		}
	case OBNot:
		return c.BNot(c.Extract(a.a, low, w))
	case OIte:
		if a.b.op == OConst || a.c.op == OConst || a.b.op == OConcat || a.b.op == OZext {
			return c.Ite(a.a, c.Extract(a.b, low, w), c.Extract(a.c, low, w))
		}
	case OShl:
		if a.b.op == OConst {
			k := a.b.val
			if k >= uint64(low)+uint64(w) {
				return c.Const(w, 0)
			}
			if k <= uint64(low) {
				return c.Extract(a.a, low-uint8(k), w)
			}
		}
	case OLshr:
		if a.b.op == OConst {
			k := a.b.val
			if k < 64 && uint64(low)+k+uint64(w) <= uint64(a.w) {
				return c.Extract(a.a, low+uint8(k), w)
			}
		}
	case OAdd, OSub, OMul:
		if low == 0 {
			x, y := c.Extract(a.a, 0, w), c.Extract(a.b, 0, w)
			switch a.op {
			case OAdd:
				return c.Add(x, y)
			case OSub:
				return c.Sub(x, y)
			default:
				return c.Mul(x, y)
			}
		}
	}
	if a.hi>>low == 0 && low > 0 {
		return c.Const(w, 0)
	}
	return c.mk(OExtract, w, a, nil, nil, uint64(low), "")
}

func (c *Ctx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if a.op == OConst && b.op == OConst {
		return c.Const(w, a.val<<b.w|b.val)
	}
	if a.op == OConst && a.val == 0 {
		return c.Zext(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.val == b.val+uint64(b.w) {
		return c.Extract(a.a, uint8(b.val), w)
	}
	if a.op == OZext {
		return c.Zext(c.Concat(a.a, b), w)
	}
	// right-associate
	if a.op == OConcat {
		return c.Concat(a.a, c.Concat(a.b, b))
	}
	if a.op == OExtract && b.op == OConcat && b.a.op == OExtract && b.a.a == a.a && a.val == b.a.val+uint64(b.a.w) {
		return c.Concat(c.Extract(a.a, uint8(b.a.val), a.w+b.a.w), b.b)
	}
	return c.mk(OConcat, w, a, b, nil, 0, "")
}

func (c *Ctx) BNot(a *Term) *Term {
	if a.op == OConst {
		return c.Const(a.w, ^a.val)
	}
	if a.op == OBNot {
		return a.a
	}
	return c.mk(OBNot, a.w, a, nil, nil, 0, "")
}

func (c *Ctx) BNeg(a *Term) *Term { return c.Sub(c.Const(a.w, 0), a) }

// piece is a part of a bit-vector: either constant zero or a term, placed at low.
type piece struct {
	low, w uint8
	t      *Term // nil = zeros
}

// pieces decomposes t into consecutive pieces low..high when it is built from
// shifts, zero extensions, concats and masks; returns nil if not decomposable usefully.
func (c *Ctx) pieces(t *Term) []piece {
	switch t.op {
	case OConst:
		if t.val == 0 {
			return []piece{{0, t.w, nil}}
		}
		var out []piece
		// split const into zero / nonzero runs at byte granularity
		lo := uint8(0)
		for lo < t.w {
			n := min(8, t.w-lo)
			v := (t.val >> lo) & mask(n)
			if v == 0 {
				out = append(out, piece{lo, n, nil})
			} else {
				out = append(out, piece{lo, n, c.Const(n, v)})
			}
			lo += n
		}
		return out
	case OZext:
		p := c.pieces(t.a)
		return append(p[:len(p):len(p)], piece{t.a.w, t.w - t.a.w, nil})
	case OConcat:
		lo := c.pieces(t.b)
		hi := c.pieces(t.a)
		out := append([]piece{}, lo...)
		for _, h := range hi {
			out = append(out, piece{h.low + t.b.w, h.w, h.t})
		}
		return out
	}
	return []piece{{0, t.w, t}}
}

func (c *Ctx) fromPieces(ps []piece) *Term {
	var r *Term
	for _, p := range ps {
		t := p.t
		if t == nil {
			t = c.Const(p.w, 0)
		}
		if r == nil {
			r = t
		} else {
			r = c.Concat(t, r)
		}
	}
	return r
}

// disjointOr combines two terms whose nonzero pieces do not overlap.
func (c *Ctx) disjointOr(a, b *Term) *Term {
	pa, pb := c.pieces(a), c.pieces(b)
	if len(pa) == 1 && len(pb) == 1 {
		return nil
	}
	// cut points
	cuts := map[uint8]bool{}
	for _, p := range pa {
		cuts[p.low] = true
	}
	for _, p := range pb {
		cuts[p.low] = true
	}
	cs := make([]int, 0, len(cuts)+1)
	for k := range cuts {
		cs = append(cs, int(k))
	}
	sort.Ints(cs)
	cs = append(cs, int(a.w))
	get := func(ps []piece, lo, hi uint8) (*Term, bool) {
		for _, p := range ps {
			if p.low <= lo && hi <= p.low+p.w {
				if p.t == nil {
					return nil, true
				}
				return c.Extract(p.t, lo-p.low, hi-lo), true
			}
		}
		return nil, false
	}
	var out []piece
	for i := 0; i+1 < len(cs); i++ {
		lo, hi := uint8(cs[i]), uint8(cs[i+1])
		x, ok1 := get(pa, lo, hi)
		y, ok2 := get(pb, lo, hi)
		if !ok1 || !ok2 {
			return nil
		}
		if x != nil && x.op == OConst && x.val == 0 {
			x = nil
		}
		if y != nil && y.op == OConst && y.val == 0 {
			y = nil
		}
		if x != nil && y != nil {
			return nil
		}
		if x == nil {
			x = y
		}
		out = append(out, piece{lo, hi - lo, x})
	}
	return c.fromPieces(out)
}

func (c *Ctx) BOr(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Const(a.w, a.val|b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if b.val == mask(a.w) {
			return b
		}
	}
	if a == b {
		return a
	}
	if r := c.disjointOr(a, b); r != nil {
		return r
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(OBOr, a.w, a, b, nil, 0, "")
}

func (c *Ctx) BAnd(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Const(a.w, a.val&b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return b
		}
		if b.val == mask(a.w) {
			return a
		}
		// contiguous mask: extract
		lo := uint8(bits.TrailingZeros64(b.val))
		n := uint8(bits.Len64(b.val)) - lo
		if b.val == mask(n)<<lo {
			x := c.Extract(a, lo, n)
			if lo > 0 {
				x = c.Concat(x, c.Const(lo, 0))
			}
			return c.Zext(x, a.w)
		}
		if a.op == OIte && (a.b.op == OConst || a.c.op == OConst) {
			return c.Ite(a.a, c.BAnd(a.b, b), c.BAnd(a.c, b))
		}
		// piecewise
		if ps := c.pieces(a); len(ps) > 1 {
			out := make([]piece, len(ps))
			for i, p := range ps {
				out[i] = p
				if p.t != nil {
					m := (b.val >> p.low) & mask(p.w)
					out[i].t = c.BAnd(p.t, c.Const(p.w, m))
				}
			}
			return c.fromPieces(out)
		}
	}
	if a == b {
		return a
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(OBAnd, a.w, a, b, nil, 0, "")
}

func (c *Ctx) BXor(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Const(a.w, a.val^b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst && b.val == 0 {
		return a
	}
	if a == b {
		return c.Const(a.w, 0)
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(OBXor, a.w, a, b, nil, 0, "")
}

func (c *Ctx) Add(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Const(a.w, a.val+b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		if a.op == OAdd && a.b.op == OConst {
			return c.Add(a.a, c.Const(a.w, a.b.val+b.val))
		}
		if a.op == OSub && a.a.op == OConst {
			return c.Sub(c.Const(a.w, a.a.val+b.val), a.b)
		}
		if a.op == OIte && a.b.op == OConst && a.c.op == OConst {
			return c.Ite(a.a, c.Add(a.b, b), c.Add(a.c, b))
		}
		return c.mk(OAdd, a.w, a, b, nil, 0, "")
	}
	// (x + c) + y -> (x+y)+c
	if a.op == OAdd && a.b.op == OConst {
		return c.Add(c.Add(a.a, b), a.b)
	}
	if b.op == OAdd && b.b.op == OConst {
		return c.Add(c.Add(a, b.a), b.b)
	}
	if a.op == OSub && a.b == b {
		return a.a
	}
	if b.op == OSub && b.b == a {
		return b.a
	}
	if r := c.disjointAdd(a, b); r != nil {
		return r
	}
	if a.op == OAdd || b.op == OAdd {
		if xs := append(sumAtoms(a, nil), sumAtoms(b, nil)...); len(xs) <= 48 {
			return c.sumOf(a.w, xs)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OAdd, a.w, a, b, nil, 0, "")
}

// sumAtoms appends the summands of t.
func sumAtoms(t *Term, xs []*Term) []*Term {
	for t.op == OAdd {
		if t.b.op == OAdd {
			xs = sumAtoms(t.b, xs)
		} else {
			xs = append(xs, t.b)
		}
		t = t.a
	}
	return append(xs, t)
}

// sumOf is the sum of non-constant summands in canonical order.
func (c *Ctx) sumOf(w uint8, xs []*Term) *Term {
	if len(xs) == 0 {
		return c.Const(w, 0)
	}
	sort.Slice(xs, func(i, j int) bool { return xs[i].id < xs[j].id })
	t := xs[0]
	for _, x := range xs[1:] {
		t = c.mk(OAdd, w, t, x, nil, 0, "")
	}
	return t
}

// linear splits t into summands and a signed constant.
func linear(t *Term) ([]*Term, int64) {
	if t.op == OConst {
		return nil, int64(t.val)
	}
	k := int64(0)
	if t.op == OAdd && t.b.op == OConst {
		k = sext64(t.b.val, t.b.w)
		t = t.a
	}
	return sumAtoms(t, nil), k
}

// cancel removes the common summands of xs and ys; same tells whether there were any.
func cancel(xs, ys []*Term) (a, b []*Term, same bool) {
	n := map[*Term]int{}
	for _, y := range ys {
		n[y]++
	}
	for _, x := range xs {
		if n[x] > 0 {
			n[x]--
			same = true
		} else {
			a = append(a, x)
		}
	}
	for _, y := range ys {
		if n[y] > 0 {
			n[y]--
			b = append(b, y)
		}
	}
	return
}

// cmpLinear decides or simplifies a < b (or a <= b) for sums that cannot
// overflow by cancelling common summands; nil when that does not help.
func (c *Ctx) cmpLinear(a, b *Term, orEq bool) *Term {
	if a.w != 64 || a.hi >= 1<<62 || b.hi >= 1<<62 || (a.op != OAdd && b.op != OAdd) {
		return nil
	}
	xs, ka := linear(a)
	ys, kb := linear(b)
	if len(xs)+len(ys) > 64 {
		return nil
	}
	xs, ys, same := cancel(xs, ys)
	if !same {
		return nil
	}
	la, ha, lb, hb := ka, ka, kb, kb
	for _, x := range xs {
		la, ha = la+int64(x.lo), ha+int64(x.hi)
	}
	for _, y := range ys {
		lb, hb = lb+int64(y.lo), hb+int64(y.hi)
	}
	if ha < lb || orEq && ha <= lb {
		return c.tru
	}
	if la > hb || !orEq && la >= hb {
		return c.fls
	}
	m := min(ka, kb)
	ka, kb = ka-m, kb-m
	p := c.Add(c.sumOf(64, xs), c.Const(64, uint64(ka)))
	q := c.Add(c.sumOf(64, ys), c.Const(64, uint64(kb)))
	if p.hi >= 1<<62 || q.hi >= 1<<62 {
		return nil
	}
	if orEq {
		return c.Ule(p, q)
	}
	return c.Ult(p, q)
}

func (c *Ctx) disjointAdd(a, b *Term) *Term {
	if a.op != OConcat && a.op != OZext && b.op != OConcat && b.op != OZext {
		return nil
	}
	if a.op == OZext && b.op == OZext {
		return nil
	}
	return c.disjointOr(a, b)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if a == b {
		return c.Const(a.w, 0)
	}
	if a.op == OConst && b.op == OConst {
		return c.Const(a.w, a.val-b.val)
	}
	if b.op == OConst {
		return c.Add(a, c.Const(a.w, -b.val))
	}
	if a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
		if a.b.op == OConst {
			return c.Add(c.Sub(a.a, b), a.b)
		}
	}
	if b.op == OAdd {
		if b.a == a {
			return c.BNeg(b.b)
		}
		if b.b == a {
			return c.BNeg(b.a)
		}
		if b.b.op == OConst {
			return c.Add(c.Sub(a, b.a), c.Const(a.w, -b.b.val))
		}
	}
	if b.op == OSub && b.a == a {
		return b.b
	}
	if a.op == OAdd || b.op == OAdd {
		xs, ka := linear(a)
		ys, kb := linear(b)
		if len(xs)+len(ys) <= 64 {
			if xs, ys, same := cancel(xs, ys); same {
				k := c.Const(a.w, uint64(ka-kb))
				if len(ys) == 0 {
					return c.Add(c.sumOf(a.w, xs), k)
				}
				return c.Add(c.Sub(c.sumOf(a.w, xs), c.sumOf(a.w, ys)), k)
			}
		}
	}
	if a.op == OSub && b.op == OSub && a.a == b.a {
		return c.Sub(b.b, a.b)
	}
	return c.mk(OSub, a.w, a, b, nil, 0, "")
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return c.Const(a.w, a.val*b.val)
	}
	if a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		switch {
		case b.val == 0:
			return b
		case b.val == 1:
			return a
		case bits.OnesCount64(b.val) == 1:
			return c.Shl(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
	}
	if a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(OMul, a.w, a, b, nil, 0, "")
}

// mulAdd matches t = m*x + r with r < m and no wrap-around.
func mulAdd(t *Term) (x, r *Term, m uint64) {
	if t.op != OAdd {
		return nil, nil, 0
	}
	for i := 0; i < 2; i++ {
		p, q := t.a, t.b
		if i == 1 {
			p, q = q, p
		}
		if p.op == OMul && p.b.op == OConst && q.hi < p.b.val {
			h, l := bits.Mul64(p.a.hi, p.b.val)
			if s, carry := bits.Add64(l, q.hi, 0); h == 0 && carry == 0 && s <= mask(t.w) {
				return p.a, q, p.b.val
			}
		}
	}
	return nil, nil, 0
}

// mulConst matches a product by a constant that does not overflow.
func mulConst(t *Term) (x *Term, m uint64) {
	if t.op == OMul && t.b.op == OConst && t.b.val > 1 {
		if h, l := bits.Mul64(t.a.hi, t.b.val); h == 0 && l <= mask(t.w) {
			return t.a, t.b.val
		}
	}
	return nil, 0
}

func (c *Ctx) Udiv(a, b *Term) *Term {
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			return c.Const(a.w, a.val/b.val)
		}
		if x, m := mulConst(a); x != nil && b.val%m == 0 {
			return c.Udiv(x, c.Const(a.w, b.val/m))
		} else if x != nil && m%b.val == 0 {
			return c.Mul(x, c.Const(a.w, m/b.val))
		}
		if x, _, m := mulAdd(a); x != nil && b.val%m == 0 {
			return c.Udiv(x, c.Const(a.w, b.val/m))
		}
		if a.op == OExtract && a.val == 0 && a.a.hi <= mask(a.w) {
			if x, _, m := mulAdd(a.a); x != nil && b.val%m == 0 {
				return c.Extract(c.Udiv(a.a, c.Const(a.a.w, b.val)), 0, a.w)
			}
		}
		if bits.OnesCount64(b.val) == 1 {
			return c.Lshr(a, c.Const(a.w, uint64(bits.TrailingZeros64(b.val))))
		}
		if a.hi < b.val {
			return c.Const(a.w, 0)
		}
		// narrow
		if n := uint8(bits.Len64(a.hi | b.val)); n < a.w && a.w > 8 {
			nw := narrowW(n)
			if nw < a.w {
				return c.Zext(c.mk(OUdiv, nw, c.Extract(a, 0, nw), c.Const(nw, b.val), nil, 0, ""), a.w)
			}
		}
	}
	return c.mk(OUdiv, a.w, a, b, nil, 0, "")
}

func narrowW(n uint8) uint8 {
	switch {
	case n <= 8:
		return 8
	case n <= 16:
		return 16
	case n <= 24:
		return 24
	case n <= 32:
		return 32
	case n <= 40:
		return 40
	case n <= 48:
		return 48
	}
	return 64
}

func (c *Ctx) Urem(a, b *Term) *Term {
	if b.op == OConst && b.val != 0 {
		if a.op == OConst {
			return c.Const(a.w, a.val%b.val)
		}
		if x, m := mulConst(a); x != nil && m%b.val == 0 {
			return c.Const(a.w, 0)
		} else if x != nil && b.val%m == 0 {
			return c.Mul(c.Urem(x, c.Const(a.w, b.val/m)), c.Const(a.w, m))
		}
		if x, r, m := mulAdd(a); x != nil && b.val%m == 0 {
			if b.val == m {
				return r
			}
			return c.Add(c.Mul(c.Urem(x, c.Const(a.w, b.val/m)), c.Const(a.w, m)), r)
		}
		if a.op == OExtract && a.val == 0 && a.a.hi <= mask(a.w) {
			if x, _, m := mulAdd(a.a); x != nil && b.val%m == 0 {
				return c.Extract(c.Urem(a.a, c.Const(a.a.w, b.val)), 0, a.w)
			}
		}
		if bits.OnesCount64(b.val) == 1 {
			return c.BAnd(a, c.Const(a.w, b.val-1))
		}
		if a.hi < b.val {
			return a
		}
		if n := uint8(bits.Len64(a.hi | b.val)); n < a.w && a.w > 8 {
			nw := narrowW(n)
			if nw < a.w {
				return c.Zext(c.mk(OUrem, nw, c.Extract(a, 0, nw), c.Const(nw, b.val), nil, 0, ""), a.w)
			}
		}
	}
	return c.mk(OUrem, a.w, a, b, nil, 0, "")
}

func (c *Ctx) Sdiv(a, b *Term) *Term {
	if nonneg(a) && nonneg(b) {
		return c.Udiv(a, b)
	}
	if a.op == OConst && b.op == OConst && b.val != 0 {
		return c.Const(a.w, evalOp(&Term{op: OSdiv, w: a.w, a: a, b: b}, a.val, b.val, 0))
	}
	return c.mk(OSdiv, a.w, a, b, nil, 0, "")
}

func (c *Ctx) Srem(a, b *Term) *Term {
	if nonneg(a) && nonneg(b) {
		return c.Urem(a, b)
	}
	if a.op == OConst && b.op == OConst && b.val != 0 {
		return c.Const(a.w, evalOp(&Term{op: OSrem, w: a.w, a: a, b: b}, a.val, b.val, 0))
	}
	return c.mk(OSrem, a.w, a, b, nil, 0, "")
}

func (c *Ctx) Shl(a, b *Term) *Term {
	if b.op == OConst {
		if b.val >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if b.val == 0 {
			return a
		}
		k := uint8(b.val)
		return c.Concat(c.Extract(a, 0, a.w-k), c.Const(k, 0))
	}
	if a.op == OConst && a.val == 0 {
		return a
	}
	return c.mk(OShl, a.w, a, b, nil, 0, "")
}

func (c *Ctx) Lshr(a, b *Term) *Term {
	if b.op == OConst {
		if b.val >= uint64(a.w) {
			return c.Const(a.w, 0)
		}
		if b.val == 0 {
			return a
		}
		k := uint8(b.val)
		return c.Zext(c.Extract(a, k, a.w-k), a.w)
	}
	if a.op == OConst && a.val == 0 {
		return a
	}
	return c.mk(OLshr, a.w, a, b, nil, 0, "")
}

func (c *Ctx) Ashr(a, b *Term) *Term {
	if nonneg(a) {
		return c.Lshr(a, b)
	}
	if b.op == OConst {
		if b.val == 0 {
			return a
		}
		k := b.val
		if k >= uint64(a.w) {
			k = uint64(a.w) - 1
		}
		return c.Sext(c.Extract(a, uint8(k), a.w-uint8(k)), a.w)
	}
	return c.mk(OAshr, a.w, a, b, nil, 0, "")
}

// Select reads a byte from an array term.
func (c *Ctx) Select(arr, idx *Term) *Term {
	for arr.op == OStore {
		e := c.Eq(arr.b, idx)
		if e.IsTrue() {
			return arr.c
		}
		if e.IsFalse() {
			arr = arr.a
			continue
		}
		break
	}
	return c.mk(OSelect, 8, arr, idx, nil, 0, "")
}

func (c *Ctx) Store(arr, idx, v *Term) *Term {
	return c.mk(OStore, arrW, arr, idx, v, 0, "")
}

// UF applies an uninterpreted function.
func (c *Ctx) UF(name string, w uint8, args ...*Term) *Term {
	sb := strings.Builder{}
	sb.WriteString(name)
	for _, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
	}
	k := termKey{OUF, w, 0, 0, 0, 0, sb.String()}
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.terms, op: OUF, w: w, args: args, name: name}
	c.terms++
	c.finish(t)
	c.tab[k] = t
	sig := make([]uint8, 0, len(args)+1)
	for _, a := range args {
		sig = append(sig, a.w)
	}
	sig = append(sig, w)
	if old, ok := c.ufs[name]; ok {
		if string(old) != string(sig) {
			panic("UF signature mismatch " + name)
		}
	} else {
		c.ufs[name] = sig
	}
	return t
}

// Vars returns the variables (including arrays and UF names as pseudo variables) of t.
func (c *Ctx) Vars(t *Term) []*Term {
	if t.hasVars {
		return t.vars
	}
	c.gen++
	g := c.gen
	var out []*Term
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if x.mark == g {
			continue
		}
		x.mark = g
		if x.hasVars && x != t {
			for _, v := range x.vars {
				if v.mark != g || v.op == OVar {
					v.mark = g
					out = append(out, v)
				}
			}
			continue
		}
		switch x.op {
		case OVar:
			out = append(out, x)
			continue
		case OConst:
			continue
		case OUF:
			out = append(out, c.Var("uf!"+x.name, 1))
			for _, s := range x.args {
				stack = append(stack, s)
			}
			continue
		}
		if x.a != nil {
			stack = append(stack, x.a)
		}
		if x.b != nil {
			stack = append(stack, x.b)
		}
		if x.c != nil {
			stack = append(stack, x.c)
		}
	}
	// dedupe
	sort.Slice(out, func(i, j int) bool { return out[i].varID < out[j].varID })
	k := 0
	for i, v := range out {
		if i == 0 || v != out[k-1] {
			out[k] = v
			k++
		}
	}
	t.vars = out[:k:k]
	t.hasVars = true
	return t.vars
}

func (t *Term) String() string { return t.str(6) }

func (t *Term) str(d int) string {
	if t == nil {
		return "nil"
	}
	switch t.op {
	case OConst:
		if t.w == 0 {
			return fmt.Sprint(t.val == 1)
		}
		return fmt.Sprintf("%d:%d", t.val, t.w)
	case OVar:
		return t.name
	}
	if d == 0 {
		return "…"
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "(%s", opNames[t.op])
	if t.op == OUF {
		sb.WriteString(" " + t.name)
	}
	if t.op == OExtract {
		fmt.Fprintf(&sb, "[%d+%d]", t.val, t.w)
	}
	for _, s := range []*Term{t.a, t.b, t.c} {
		if s != nil {
			sb.WriteString(" " + s.str(d-1))
		}
	}
	for _, s := range t.args {
		sb.WriteString(" " + s.str(d-1))
	}
	sb.WriteString(")")
	return sb.String()
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OIte: "ite",
	OBNot: "bvnot", OBNeg: "bvneg", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem",
	OSdiv: "bvsdiv", OSrem: "bvsrem", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OExtract: "extract", OZext: "zext", OSext: "sext",
	OSelect: "select", OStore: "store", OUF: "uf"}

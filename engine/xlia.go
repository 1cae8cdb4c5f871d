package main

// Relaxation of a bit-vector query to linear integer arithmetic. Every
// bit-vector becomes an integer congruent to it; products of unknowns, memory
// reads and bitwise operations become unknown integers in their ranges. The
// relaxation has every model of the query, so unsatisfiability carries over.

import (
	"bufio"
	"fmt"
	"io"
	"math/big"
	"os/exec"
	"strings"
	"time"
)

type liaVal struct {
	e    string
	l, h *big.Int
}

type lia struct {
	w   *strings.Builder
	val map[*Term]liaVal
	bl  map[*Term]string
	un  map[*Term]liaVal
	sg  map[*Term]liaVal
	n   int
}

func pow2(w uint8) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(w)) }

func bigStr(x *big.Int) string {
	if x.Sign() < 0 {
		return "(- " + new(big.Int).Neg(x).String() + ")"
	}
	return x.String()
}

func (g *lia) fresh(l, h *big.Int) liaVal {
	g.n++
	v := fmt.Sprintf("x%d", g.n)
	fmt.Fprintf(g.w, "(declare-const %s Int)\n(assert (<= %s %s %s))\n", v, bigStr(l), v, bigStr(h))
	return liaVal{v, l, h}
}

func (g *lia) def(e string, l, h *big.Int) liaVal {
	if l.Cmp(h) == 0 {
		return liaVal{bigStr(l), l, h}
	}
	g.n++
	v := fmt.Sprintf("x%d", g.n)
	fmt.Fprintf(g.w, "(define-fun %s () Int %s)\n", v, e)
	return liaVal{v, l, h}
}

func (g *lia) free(t *Term) liaVal {
	return g.fresh(new(big.Int).SetUint64(t.lo), new(big.Int).SetUint64(t.hi))
}

// norm is the representative of v within [lo, lo+2^w).
func (g *lia) norm(v liaVal, lo *big.Int, w uint8) liaVal {
	m := pow2(w)
	fl := func(x *big.Int) *big.Int {
		d := new(big.Int).Sub(x, lo)
		q, r := new(big.Int).QuoRem(d, m, new(big.Int))
		if r.Sign() < 0 {
			q.Sub(q, big.NewInt(1))
		}
		return q
	}
	a, b := fl(v.l), fl(v.h)
	if a.Cmp(b) == 0 {
		if a.Sign() == 0 {
			return v
		}
		k := new(big.Int).Mul(a, m)
		return g.def(fmt.Sprintf("(- %s %s)", v.e, bigStr(k)), new(big.Int).Sub(v.l, k), new(big.Int).Sub(v.h, k))
	}
	k := g.fresh(a, b)
	hi := new(big.Int).Sub(new(big.Int).Add(lo, m), big.NewInt(1))
	r := g.def(fmt.Sprintf("(- %s (* %s %s))", v.e, bigStr(m), k.e), lo, hi)
	fmt.Fprintf(g.w, "(assert (<= %s %s %s))\n", bigStr(lo), r.e, bigStr(hi))
	return r
}

func (g *lia) u(t *Term) liaVal {
	if v, ok := g.un[t]; ok {
		return v
	}
	v := g.norm(g.bv(t), new(big.Int), t.w)
	lo, hi := new(big.Int).SetUint64(t.lo), new(big.Int).SetUint64(t.hi)
	if v.l.Cmp(lo) < 0 {
		v.l = lo
		fmt.Fprintf(g.w, "(assert (<= %s %s))\n", bigStr(lo), v.e)
	}
	if v.h.Cmp(hi) > 0 {
		v.h = hi
		fmt.Fprintf(g.w, "(assert (<= %s %s))\n", v.e, bigStr(hi))
	}
	g.un[t] = v
	return v
}

func (g *lia) s(t *Term) liaVal {
	if v, ok := g.sg[t]; ok {
		return v
	}
	v := g.norm(g.bv(t), new(big.Int).Neg(pow2(t.w-1)), t.w)
	g.sg[t] = v
	return v
}

// floor is floor(v / m).
func (g *lia) floor(v liaVal, m *big.Int) liaVal {
	l, h := new(big.Int).Div(v.l, m), new(big.Int).Div(v.h, m)
	if l.Cmp(h) == 0 {
		return liaVal{bigStr(l), l, h}
	}
	q := g.fresh(l, h)
	fmt.Fprintf(g.w, "(assert (<= (* %s %s) %s))\n(assert (< %s (+ (* %s %s) %s)))\n", bigStr(m), q.e, v.e, v.e, bigStr(m), q.e, bigStr(m))
	return q
}

func (g *lia) bv(t *Term) liaVal {
	if v, ok := g.val[t]; ok {
		return v
	}
	v := g.bv1(t)
	lim := pow2(100)
	if v.h.Cmp(lim) > 0 || v.l.CmpAbs(lim) > 0 {
		v = g.norm(v, new(big.Int), t.w)
	}
	g.val[t] = v
	return v
}

func (g *lia) bv1(t *Term) liaVal {
	add := func(x, y liaVal) liaVal {
		return g.def(fmt.Sprintf("(+ %s %s)", x.e, y.e), new(big.Int).Add(x.l, y.l), new(big.Int).Add(x.h, y.h))
	}
	scale := func(x liaVal, m *big.Int) liaVal {
		l, h := new(big.Int).Mul(x.l, m), new(big.Int).Mul(x.h, m)
		if m.Sign() < 0 {
			l, h = h, l
		}
		return g.def(fmt.Sprintf("(* %s %s)", bigStr(m), x.e), l, h)
	}
	cst := func(t *Term) *big.Int {
		x := new(big.Int).SetUint64(t.val)
		if t.w == 64 && t.val>>63 != 0 {
			x.Sub(x, pow2(64))
		}
		return x
	}
	switch t.op {
	case OConst:
		x := cst(t)
		return liaVal{bigStr(x), x, x}
	case OAdd:
		return add(g.bv(t.a), g.bv(t.b))
	case OSub:
		return add(g.bv(t.a), scale(g.bv(t.b), big.NewInt(-1)))
	case OBNeg:
		return scale(g.bv(t.a), big.NewInt(-1))
	case OMul:
		if t.a.op == OConst {
			return scale(g.bv(t.b), cst(t.a))
		}
		if t.b.op == OConst {
			return scale(g.bv(t.a), cst(t.b))
		}
		x, y := g.u(t.a), g.u(t.b)
		h := new(big.Int).Mul(x.h, y.h)
		if h.Cmp(pow2(t.w)) >= 0 {
			return g.free(t)
		}
		r := g.fresh(new(big.Int).Mul(x.l, y.l), h)
		fmt.Fprintf(g.w, "(assert (ite (or (= %s 0) (= %s 0)) (= %s 0) (and (<= %s %s) (<= %s %s))))\n", x.e, y.e, r.e, x.e, r.e, y.e, r.e)
		return r
	case OShl:
		if t.b.op == OConst && t.b.val < 64 {
			return scale(g.bv(t.a), pow2(uint8(t.b.val)))
		}
	case OLshr:
		if t.b.op == OConst && t.b.val < 64 {
			return g.floor(g.u(t.a), pow2(uint8(t.b.val)))
		}
	case OUdiv:
		if t.b.op == OConst && t.b.val != 0 {
			return g.floor(g.u(t.a), new(big.Int).SetUint64(t.b.val))
		}
	case OUrem:
		if t.b.op == OConst && t.b.val != 0 {
			m := new(big.Int).SetUint64(t.b.val)
			x := g.u(t.a)
			q := g.floor(x, m)
			r := g.def(fmt.Sprintf("(- %s (* %s %s))", x.e, bigStr(m), q.e), new(big.Int), new(big.Int).Sub(m, big.NewInt(1)))
			return r
		}
	case OZext:
		return g.u(t.a)
	case OSext:
		return g.s(t.a)
	case OConcat:
		return add(scale(g.u(t.a), pow2(t.b.w)), g.u(t.b))
	case OExtract:
		if t.val == 0 {
			return g.bv(t.a)
		}
		return g.floor(g.u(t.a), pow2(uint8(t.val)))
	case OIte:
		c, x, y := g.b(t.a), g.bv(t.b), g.bv(t.c)
		l, h := x.l, x.h
		if y.l.Cmp(l) < 0 {
			l = y.l
		}
		if y.h.Cmp(h) > 0 {
			h = y.h
		}
		return g.def(fmt.Sprintf("(ite %s %s %s)", c, x.e, y.e), l, h)
	}
	return g.free(t)
}

func (g *lia) b(t *Term) string {
	if s, ok := g.bl[t]; ok {
		return s
	}
	e := ""
	switch t.op {
	case OConst:
		e = "false"
		if t.val == 1 {
			e = "true"
		}
		g.bl[t] = e
		return e
	case ONot:
		e = fmt.Sprintf("(not %s)", g.b(t.a))
	case OAnd:
		e = fmt.Sprintf("(and %s %s)", g.b(t.a), g.b(t.b))
	case OOr:
		e = fmt.Sprintf("(or %s %s)", g.b(t.a), g.b(t.b))
	case OIte:
		e = fmt.Sprintf("(ite %s %s %s)", g.b(t.a), g.b(t.b), g.b(t.c))
	case OEq:
		switch {
		case t.a.w == 0:
			e = fmt.Sprintf("(= %s %s)", g.b(t.a), g.b(t.b))
		case t.a.w != arrW:
			e = fmt.Sprintf("(= %s %s)", g.u(t.a).e, g.u(t.b).e)
		}
	case OUlt:
		e = fmt.Sprintf("(< %s %s)", g.u(t.a).e, g.u(t.b).e)
	case OUle:
		e = fmt.Sprintf("(<= %s %s)", g.u(t.a).e, g.u(t.b).e)
	case OSlt:
		e = fmt.Sprintf("(< %s %s)", g.s(t.a).e, g.s(t.b).e)
	case OSle:
		e = fmt.Sprintf("(<= %s %s)", g.s(t.a).e, g.s(t.b).e)
	}
	g.n++
	v := fmt.Sprintf("p%d", g.n)
	if e == "" {
		fmt.Fprintf(g.w, "(declare-const %s Bool)\n", v)
	} else {
		fmt.Fprintf(g.w, "(define-fun %s () Bool %s)\n", v, e)
	}
	g.bl[t] = v
	return v
}

// liaProc is a solver process for relaxed queries.
type liaProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

// checkLIA tells whether the relaxation of the conjunction is unsatisfiable.
func (s *Solver) checkLIA(conj []*Term) bool {
	g := &lia{w: &strings.Builder{}, val: map[*Term]liaVal{}, bl: map[*Term]string{}, un: map[*Term]liaVal{}, sg: map[*Term]liaVal{}}
	for _, t := range conj {
		fmt.Fprintf(g.w, "(assert %s)\n", g.b(t))
	}
	if s.lia == nil {
		cmd := exec.Command("z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", s.timeout))
		in, err := cmd.StdinPipe()
		if err != nil {
			return false
		}
		out, err := cmd.StdoutPipe()
		if err != nil || cmd.Start() != nil {
			return false
		}
		s.lia = &liaProc{cmd, in, bufio.NewReader(out)}
	}
	p := s.lia
	proc := p.cmd.Process
	watch := time.AfterFunc(time.Duration(2*s.timeout+1000)*time.Millisecond, func() { proc.Kill() })
	defer watch.Stop()
	io.WriteString(p.in, "(push)\n"+g.w.String()+"(check-sat)\n(pop)\n")
	l, err := p.out.ReadString('\n')
	if err != nil {
		p.in.Close()
		p.cmd.Wait()
		s.lia = nil
		return false
	}
	return strings.TrimSpace(l) == "unsat"
}

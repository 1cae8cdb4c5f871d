package main

import (
	"crypto/elliptic"
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Uninterpreted cryptographic primitives. Equal arguments give equal results
// (cong); everything else about them is left open, except what a harness states
// by vAssume as a fact that holds for the real primitive.

// cong makes an application agree with the other applications of its kind.
func (e *Eng) cong(st *State, a *App) bool {
	for _, b := range e.appList {
		if b == a || b.kind != a.kind || len(b.args) != len(a.args) {
			continue
		}
		eq := e.c.tru
		for i := range a.args {
			if len(a.args[i]) != len(b.args[i]) {
				eq = e.c.fls
				break
			}
			for k := range a.args[i] {
				eq = e.c.And(eq, e.c.Eq(a.args[i][k], b.args[i][k]))
				if eq.IsFalse() {
					break
				}
			}
		}
		if eq.IsFalse() {
			continue
		}
		res := e.c.tru
		for k := range a.res {
			res = e.c.And(res, e.c.Eq(a.res[k], b.res[k]))
		}
		if !e.assume(st, e.c.Implies(eq, res)) {
			return false
		}
	}
	return true
}

// appSt is app with congruence stated on the path; nil if the path ends there.
func (e *Eng) appSt(st *State, kind string, n int, w uint8, args ...[]*Term) []*Term {
	r := e.app(kind, n, w, args...)
	if !e.cong(st, e.apps[kind+":"+termsKey(args...)]) {
		return nil
	}
	return r
}

// stripZ drops constant leading zero bytes of a magnitude.
func stripZ(b []*Term) []*Term {
	for len(b) > 0 && b[0].IsConst() && b[0].val == 0 {
		b = b[1:]
	}
	return b
}

func constBytes(b []*Term) (*big.Int, bool) {
	d := make([]byte, len(b))
	for i, t := range b {
		if !t.IsConst() {
			return nil, false
		}
		d[i] = byte(t.val)
	}
	return new(big.Int).SetBytes(d), true
}

type curvePar struct {
	p, b, n *big.Int
	z       *big.Int // brainpool: coordinates are twisted by z before use
	nist    bool
}

func hexInt(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic("hex")
	}
	return v
}

func nistPar(c elliptic.Curve) *curvePar {
	p := c.Params()
	return &curvePar{p: p.P, b: p.B, n: p.N, nist: true}
}

var curvePars = map[string]*curvePar{
	"p256": nistPar(elliptic.P256()), "p384": nistPar(elliptic.P384()), "p521": nistPar(elliptic.P521()),
	"bp256": {p: hexInt("A9FB57DBA1EEA9BC3E660A909D838D726E3BF623D52620282013481D1F6E5377"),
		n: hexInt("A9FB57DBA1EEA9BC3E660A909D838D718C397AA3B561A6F7901E0E82974856A7"),
		b: hexInt("662C61C430D84EA4FE66A7733D0B76B7BF93EBC4AF2F49256AE58101FEE92B04"),
		z: hexInt("3E2D4BD9597B58639AE7AA669CAB9837CF5CF20A2C852D10F655668DFC150EF0")},
	"bp384": {p: hexInt("8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B412B1DA197FB71123ACD3A729901D1A71874700133107EC53"),
		n: hexInt("8CB91E82A3386D280F5D6F7E50E641DF152F7109ED5456B31F166E6CAC0425A7CF3AB6AF6B7FC3103B883202E9046565"),
		b: hexInt("7F519EADA7BDA81BD826DBA647910F8C4B9346ED8CCDC64E4B1ABD11756DCE1D2074AA263B88805CED70355A33B471EE"),
		z: hexInt("41DFE8DD399331F7166A66076734A89CD0D2BCDB7D068E44E1F378F41ECBAE97D2D63DBC87BCCDDCCC5DA39E8589291C")},
	"bp512": {p: hexInt("AADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA703308717D4D9B009BC66842AECDA12AE6A380E62881FF2F2D82C68528AA6056583A48F3"),
		n: hexInt("AADD9DB8DBE9C48B3FD4E6AE33C9FC07CB308DB3B3C9D20ED6639CCA70330870553E5C414CA92619418661197FAC10471DB1D381085DDADDB58796829CA90069"),
		b: hexInt("7CBBBCF9441CFAB76E1890E46884EAE321F70C0BCB4981527897504BEC3E36A62BCDFA2304976540F6450085F2DAE145C22553B465763689180EA2571867423E"),
		z: hexInt("12EE58E6764838B69782136F0F2D3BA06E27695716054092E60A80BEDB212B64E585D90BCE13761F85C3F1D2A64E3BE8FEA2220F01EBA5EEB0F35DBD29D922AB")},
}

func (q *curvePar) onCurve(x, y *big.Int) bool {
	if q.nist && (x.Cmp(q.p) >= 0 || y.Cmp(q.p) >= 0) {
		return false
	}
	if q.z != nil {
		x = new(big.Int).Mod(new(big.Int).Mul(x, new(big.Int).Exp(q.z, big.NewInt(2), q.p)), q.p)
		y = new(big.Int).Mod(new(big.Int).Mul(y, new(big.Int).Exp(q.z, big.NewInt(3), q.p)), q.p)
	}
	// y^2 = x^3 - 3x + b
	l := new(big.Int).Mod(new(big.Int).Mul(y, y), q.p)
	r := new(big.Int).Mul(new(big.Int).Mul(x, x), x)
	r.Sub(r, new(big.Int).Mul(big.NewInt(3), x)).Add(r, q.b).Mod(r, q.p)
	return l.Cmp(r) == 0
}

func (e *Eng) onCurve(st *State, name string, x, y []*Term) *Term {
	x, y = stripZ(x), stripZ(y)
	if a, ok := constBytes(x); ok {
		if b, ok := constBytes(y); ok {
			return e.c.Bool(curvePars[name].onCurve(a, b))
		}
	}
	v := e.appSt(st, "oncurve_"+name, 1, 1, x, y)
	if v == nil {
		return nil
	}
	return e.c.Eq(v[0], e.c.Const(1, 1))
}

func (e *Eng) constBig(n *big.Int) []*Term {
	var r []*Term
	for _, b := range n.Bytes() {
		r = append(r, e.c.Const(8, uint64(b)))
	}
	return r
}

// ecdsaVerify: false for components that are zero or not below the order, false
// (NIST curves) or a crash (other curves; not for (0, 0)) for a key that is not on the curve, and
// otherwise an uninterpreted predicate of curve, key, hash and signature.
func ecdsaVerify(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
	p := e.resolve(st, args[0]).(Ptr)
	pt := fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
	s := pt.Underlying().(*types.Struct)
	l := e.layout(pt)
	o := e.obj(st, p.obj)
	var curveName string
	var x, y []*Term
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Curve":
			ifc := e.resolve(st, o.get(p.off+l.foff[i])).(Iface)
			curveName = e.resolve(st, ifc.val).(*Native).v.(string)
		case "X":
			x = e.bigOf(st, o.get(p.off+l.foff[i]))
		case "Y":
			y = e.bigOf(st, o.get(p.off+l.foff[i]))
		}
	}
	hs := e.resolve(st, args[1]).(Slice)
	if !hs.len.IsConst() {
		hs.len = e.c.Int(e.conc(st, hs.len))
	}
	h, _ := e.bytesOf(st, hs)
	r, sg := stripZ(e.bigOf(st, args[2])), stripZ(e.bigOf(st, args[3]))
	c := e.c
	q := curvePars[curveName]
	n := e.constBig(q.n)
	in := c.And(c.And(c.Not(e.isZero(r)), c.Not(e.isZero(sg))), c.And(e.bigLess(r, n), e.bigLess(sg, n)))
	var outs []Outcome
	yes, no := e.branch(st, in)
	if no != nil {
		outs = append(outs, Outcome{st: no, ret: c.fls})
	}
	if yes == nil {
		return outs
	}
	on := e.onCurve(yes, curveName, x, y)
	if on == nil {
		return outs
	}
	if !q.nist {
		// (0, 0) stands for the point at infinity and is worked with
		on = c.Or(on, c.And(e.isZero(x), e.isZero(y)))
	}
	yes, no = e.branch(yes, on)
	if no != nil {
		if q.nist {
			outs = append(outs, Outcome{st: no, ret: c.fls})
		} else {
			outs = append(outs, Outcome{st: no, panic: "crypto/elliptic: attempted operation on invalid point"})
		}
	}
	if yes == nil {
		return outs
	}
	v := e.appSt(yes, "ecdsa_"+curveName, 1, 1, stripZ(x), stripZ(y), h, r, sg)
	if v == nil {
		return outs
	}
	return append(outs, Outcome{st: yes, ret: c.Eq(v[0], c.Const(1, 1))})
}

func (e *Eng) curveMethod(st *State, name, m string, args []Value) []Outcome {
	switch m {
	case "IsOnCurve":
		v := e.onCurve(st, name, e.bigOf(st, args[0]), e.bigOf(st, args[1]))
		if v == nil {
			return nil
		}
		return ret(st, v)
	}
	panic(engErr("curve method " + m))
}

// ---- exact decimal and hexadecimal renderings ----

// injEq compares the decimal rendering of x (64 bits) with explicit text.
func (e *Eng) injEq(x *Term, s *Str) *Term {
	c := e.c
	r := c.fls
	for k := 1; k <= 20 && k <= len(s.bytes); k++ {
		ok := c.Eq(s.len, c.Int(k))
		if ok.IsFalse() {
			continue
		}
		v := c.Int(0)
		for i := 0; i < k; i++ {
			d := c.Sub(s.bytes[i], c.Const(8, '0'))
			ok = c.And(ok, c.Ule(d, c.Const(8, 9)))
			if k == 20 && i == 0 {
				ok = c.And(ok, c.Eq(d, c.Const(8, 1)))
				continue
			}
			v = c.Add(c.Mul(v, c.Int(10)), c.Zext(d, 64))
		}
		if k > 1 {
			ok = c.And(ok, c.Not(c.Eq(s.bytes[0], c.Const(8, '0'))))
		}
		if k == 20 {
			ok = c.And(ok, c.Ule(v, c.Const(64, 8446744073709551615)))
			v = c.Add(v, c.Const(64, 10000000000000000000))
		}
		r = c.Or(r, c.And(ok, c.Eq(v, x)))
	}
	return r
}

// formatHex renders v in hexadecimal with at least min digits.
func (e *Eng) formatHex(st *State, v *Term, min int, upper bool) []Outcome {
	c := e.c
	al := uint64('a' - 10)
	if upper {
		al = 'A' - 10
	}
	v = c.Zext(v, 64)
	var outs []Outcome
	rest := st
	for k := 1; k <= 16 && rest != nil; k++ {
		if k < min {
			continue
		}
		here := rest
		if k < 16 {
			here, rest = e.branch(rest, c.Ult(v, c.Const(64, 1<<(4*k))))
		} else {
			rest = nil
		}
		if here == nil {
			continue
		}
		bs := make([]*Term, k)
		for i := range bs {
			d := c.Zext(c.Extract(v, uint8(4*(k-1-i)), 4), 8)
			bs[i] = c.Ite(c.Ule(d, c.Const(8, 9)), c.Add(d, c.Const(8, '0')), c.Add(d, c.Const(8, al)))
		}
		outs = append(outs, Outcome{st: here, ret: &Str{bytes: bs, len: c.Int(k)}})
	}
	return outs
}

func (e *Eng) decStr(x *Term) *Str {
	x = e.c.Zext(x, 64)
	ln := e.c.Var(fmt.Sprintf("declen#%d", x.id), 8)
	return &Str{opaque: "inj:%d", args: []*Term{x}, len: e.c.Add(e.c.Zext(e.c.Urem(ln, e.c.Const(8, 20)), 64), e.c.Int(1))}
}

func init() {
	intrinsics["strconv.FormatUint"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		v, b := args[0].(*Term), args[1].(*Term)
		if v.IsConst() || !b.IsConst() || b.val != 10 && b.val != 16 {
			return e.callReal(st, fn, args, cc)
		}
		if b.val == 16 {
			return e.formatHex(st, v, 1, false)
		}
		return ret(st, e.decStr(v))
	}
	intrinsics["strconv.ParseUint"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		s, ok := e.resolve(st, args[0]).(*Str)
		base, ok1 := args[1].(*Term)
		bits, ok2 := args[2].(*Term)
		if ok && ok1 && ok2 && s.opaque == "inj:%d" && base.IsConst() && base.val == 10 && bits.IsConst() && bits.val == 64 {
			return ret(st, Tuple{s.args[0], Iface{}})
		}
		return e.callReal(st, fn, args, cc)
	}
}

// hexVerb parses %x, %X, %0Nx and %0NX.
func hexVerb(f string) (min int, upper, ok bool) {
	if !strings.HasPrefix(f, "%") || !strings.HasSuffix(strings.ToLower(f), "x") {
		return
	}
	upper = strings.HasSuffix(f, "X")
	mid := f[1 : len(f)-1]
	min = 1
	if mid != "" {
		if mid[0] != '0' {
			return
		}
		if _, err := fmt.Sscanf(mid[1:], "%d", &min); err != nil || min > 16 {
			return
		}
	}
	return min, upper, true
}

// rsaInverse finds z with x = z^d mod m for a constant key pair (d, y) of modulus m,
// so that x^y mod m is z for every z below m.
func (e *Eng) rsaInverse(x, y, m []*Term) []*Term {
	n, ok := constBytes(m)
	if !ok {
		return nil
	}
	ex, ok := constBytes(y)
	if !ok {
		return nil
	}
	x = stripZ(x)
next:
	for _, a := range e.appList {
		if a.kind != "modexp" || len(a.res) != len(x) {
			continue
		}
		for i := range x {
			if a.res[i] != x[i] {
				continue next
			}
		}
		d, ok := constBytes(a.args[1])
		n2, ok2 := constBytes(a.args[2])
		if !ok || !ok2 || n.Cmp(n2) != 0 {
			continue
		}
		if ex.Cmp(big.NewInt(1)) <= 0 {
			continue
		}
		for _, t := range []int64{2, 3, 5, 7, 65521} {
			b := big.NewInt(t)
			if new(big.Int).Exp(new(big.Int).Exp(b, d, n), ex, n).Cmp(b) != 0 {
				continue next
			}
		}
		e.note("raising to the public exponent inverts raising to the private one (a fact about the RSA key pair of the harness)")
		return a.args[0]
	}
	return nil
}

package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Eng struct {
	hpkg     *ssa.Package // of the harness
	L        *Loader
	c        *Ctx
	s        *Solver
	layouts  map[types.Type]*Layout
	zpat     map[types.Type][]Value
	fninfo   map[*ssa.Function]*FnInfo
	base     *Heap
	globals  map[*ssa.Global]int
	inited   map[*ssa.Package]int
	nextID   int
	emptyStr *Str
	unwind   int
	deadline time.Time
	tolerant int

	nStates, nMerges, nForks, nSteps int
	domHits, modelHits               int
	assertsTotal, assertsConst       int
	assertsUnknown                   []string
	viols                            []*Violation
	reached                          map[string]*ReachInfo
	notes                            map[string]bool
	incomplete                       map[string]int
	unwound bool
	funcs                            map[string]bool
	strip                            bool
	known                            map[string]bool
	inputs                           []*Input
	inputByName                      map[string]*Input
	intr                             map[string]intrinsic
	fnIntr                           map[*ssa.Function]intrinsic
	depth                            int
	verbose                          bool
	maxObs                           int
	msgCache                         map[types.Type]*msgInfo
	conf                             map[string]int
	samples                          []map[string]interface{}
	cacheVals                        map[string]Value
	apps                             map[string]*App
	appList                          []*App
}

// Input is a symbolic harness input.
type Input struct {
	name  string
	kind  string // "u8","u16","u32","u64","bool","bytes","symbytes"
	terms []*Term
	arr   *Term
	len   *Term
}

type Outcome struct {
	st    *State
	ret   Value
	panic string
	where string
}

type deferred struct {
	call *ssa.Defer
	fn   Value
	args []Value
}

type item struct {
	b      int
	ip     int
	st     *State
	regs   []Value
	it     []int
	key    []int
	defers []deferred
}

type frame struct {
	e     *Eng
	fi    *FnInfo
	outs  []Outcome
	pend  []*item
	binds []Value
}

type splitReq struct{ conds []*Term }
type intrinsic func(e *Eng, st *State, args []Value, in *ssa.CallCommon, fn *ssa.Function) []Outcome

func (e *Eng) note(s string) {
	if !e.notes[s] {
		e.notes[s] = true
		if e.verbose {
			fmt.Fprintln(os.Stderr, "note:", s)
		}
	}
}

func (e *Eng) pcAdd(pc *PC, t *Term) *PC {
	if t.IsTrue() {
		return pc
	}
	if t.op == OAnd {
		return e.pcAdd(e.pcAdd(pc, t.a), t.b)
	}
	d := 1
	if pc != nil {
		d = pc.depth + 1
	}
	return &PC{t: t, parent: pc, depth: d}
}

// slice collects the conjuncts of pc that share variables (transitively) with t.
func (e *Eng) slicePC(pc *PC, t *Term) []*Term {
	var all []*Term
	for p := pc; p != nil; p = p.parent {
		all = append(all, p.t)
	}
	need := make(map[*Term]bool)
	for _, v := range e.c.Vars(t) {
		need[v] = true
	}
	var out []*Term
	used := make([]bool, len(all))
	for changed := true; changed; {
		changed = false
		for i, x := range all {
			if used[i] {
				continue
			}
			vs := e.c.Vars(x)
			hit := false
			for _, v := range vs {
				if need[v] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, x)
				for _, v := range vs {
					if !need[v] {
						need[v] = true
						changed = true
					}
				}
			}
		}
	}
	return out
}

// query decides pc ∧ t. Result 1 (with model for the whole pc when st has one), 0, -1.
func (e *Eng) query(st *State, t *Term, final bool) (int, *Model) {
	if t.IsFalse() {
		return 0, nil
	}
	if t.IsTrue() {
		return 1, st.model
	}
	if st.model != nil && st.model.Eval(t) == 1 {
		e.modelHits++
		return 1, st.model
	}
	sl := e.slicePC(st.pc, t)
	nt := e.c.Not(t)
	for _, x := range sl {
		if x == nt {
			return 0, nil
		}
		if x == t && st.model == nil {
			break
		}
	}
	if !final && t.byteVar != nil && t.byteVar != multiVar {
		all := true
		d := *e.c.domain(t)
		for _, x := range sl {
			if x.byteVar != t.byteVar {
				all = false
				break
			}
			y := e.c.domain(x)
			for i := range d {
				d[i] &= y[i]
			}
		}
		if all {
			e.domHits++
			for v := 0; v < 256; v++ {
				if d[v>>6]>>(v&63)&1 == 1 {
					m := e.combine(st.model, nil)
					m.vals[t.byteVar] = uint64(v)
					return 1, m
				}
			}
			return 0, nil
		}
	}
	q := append(sl, t)
	sort.Slice(q, func(i, j int) bool { return q[i].id < q[j].id })
	r, m := e.s.Check(q, final)
	if e.verbose && r < 0 {
		fmt.Fprintf(os.Stderr, "unknown query (final=%v) %d conjuncts: %s\n", final, len(q), t.str(5))
	}
	if r == 1 {
		return 1, e.combine(st.model, m)
	}
	return r, nil
}

func (e *Eng) combine(base, over *Model) *Model {
	m := newModel()
	if base != nil {
		for k, v := range base.vals {
			m.vals[k] = v
		}
		for k, v := range base.arrs {
			m.arrs[k] = v
		}
		for k, v := range base.ufs {
			m.ufs[k] = v
		}
	}
	if over != nil {
		for k, v := range over.vals {
			m.vals[k] = v
		}
		for k, v := range over.arrs {
			m.arrs[k] = v
		}
		for k, v := range over.ufs {
			m.ufs[k] = v
		}
	}
	return m
}

// assume adds t to the path condition; false if infeasible.
func (e *Eng) assume(st *State, t *Term) bool {
	if t.IsTrue() {
		return true
	}
	if t.IsFalse() {
		return false
	}
	r, m := e.query(st, t, false)
	if r == 0 {
		return false
	}
	st.pc = e.pcAdd(st.pc, t)
	st.model = m
	if r < 0 {
		st.model = nil
		e.note("unknown feasibility treated as feasible")
	}
	return true
}

// branch splits st by t.
func (e *Eng) branch(st *State, t *Term) (*State, *State) {
	if t.IsTrue() {
		return st, nil
	}
	if t.IsFalse() {
		return nil, st
	}
	nt := e.c.Not(t)
	r1, m1 := e.query(st, t, false)
	if r1 == 0 {
		return nil, st
	}
	r0, m0 := e.query(st, nt, false)
	if r0 == 0 {
		return st, nil
	}
	e.nForks++
	o := st.fork()
	st.pc = e.pcAdd(st.pc, t)
	st.model = m1
	o.pc = e.pcAdd(o.pc, nt)
	o.model = m0
	if r1 < 0 || r0 < 0 {
		e.note("unknown feasibility treated as feasible")
	}
	return st, o
}

// holds reports whether t is implied syntactically by the path condition.
func (e *Eng) inPC(st *State, t *Term) bool {
	if t.IsTrue() {
		return true
	}
	for p := st.pc; p != nil; p = p.parent {
		if p.t == t {
			return true
		}
	}
	return false
}

// conc returns the value of t, splitting the state when several are possible.
func (e *Eng) conc(st *State, t *Term) int {
	if t.IsConst() {
		return int(int64(t.val))
	}
	// value forced by model and unsat of difference
	if st.model != nil {
		v := st.model.Eval(t)
		eq := e.c.Eq(t, e.c.Const(t.w, v))
		if e.inPC(st, eq) {
			return int(int64(v))
		}
		r, _ := e.query(st, e.c.Not(eq), false)
		if r == 0 {
			return int(int64(v))
		}
		return e.concSplit(st, t)
	}
	return e.concSplit(st, t)
}

func (e *Eng) concSplit(st *State, t *Term) int {
	var conds []*Term
	w := st.fork()
	for {
		if len(conds) > e.cfgInt("maxsplit", 300) {
			panic(engErr("too many values of " + t.str(4)))
		}
		if w.model == nil {
			panic(engErr("split without model"))
		}
		v := w.model.Eval(t)
		eq := e.c.Eq(t, e.c.Const(t.w, v))
		conds = append(conds, eq)
		if !e.assume(w, e.c.Not(eq)) {
			break
		}
	}
	panic(splitReq{conds})
}

func (e *Eng) cfgInt(k string, d int) int {
	if v, ok := e.conf[k]; ok {
		return v
	}
	return d
}

// resolve picks the alternative of a union, splitting when several are possible.
func (e *Eng) resolve(st *State, v Value) Value {
	u, ok := v.(*Union)
	if !ok {
		return v
	}
	var conds []*Term
	var vals []Value
	for _, a := range u.alts {
		if e.inPC(st, a.g) {
			return a.v
		}
	}
	for _, a := range u.alts {
		r, _ := e.query(st, a.g, false)
		if r != 0 {
			conds = append(conds, a.g)
			vals = append(vals, a.v)
		}
	}
	switch len(conds) {
	case 0:
		panic(engErr("union without feasible alternative"))
	case 1:
		return vals[0]
	}
	panic(splitReq{conds})
}

// ---- function execution ----

func (e *Eng) call(st *State, fn *ssa.Function, args, binds []Value, cc *ssa.CallCommon) []Outcome {
	if h, ok := e.fnIntr[fn]; ok {
		if h != nil {
			return h(e, st, args, cc, fn)
		}
	} else {
		h := e.findIntrinsic(fn)
		e.fnIntr[fn] = h
		if h != nil {
			return h(e, st, args, cc, fn)
		}
	}
	if fn.Blocks == nil {
		e.L.build(fn)
	}
	if fn.Blocks == nil {
		panic(engErr("function without body: " + fn.String()))
	}
	if e.tolerant == 0 {
		e.funcs[fn.String()] = true
	}
	e.depth++
	if e.depth > 200 {
		e.depth--
		panic(engErr("call depth exceeded in " + fn.String()))
	}
	defer func() { e.depth-- }()
	fr := &frame{e: e, fi: e.info(fn), binds: binds}
	regs := make([]Value, fr.fi.n)
	for i, p := range fn.Params {
		if i >= len(args) {
			panic(engErr("missing args for " + fn.String()))
		}
		regs[fr.fi.num[p]] = args[i]
	}
	for i, f := range fn.FreeVars {
		regs[fr.fi.num[f]] = binds[i]
	}
	it := &item{b: 0, st: st, regs: regs, it: make([]int, len(fr.fi.comps[0]))}
	it.key = fr.fi.key(0, it.it)
	fr.pend = append(fr.pend, it)
	fr.run()
	return fr.mergeOuts()
}

func (fr *frame) run() {
	for len(fr.pend) > 0 {
		best := 0
		for i := range fr.pend {
			if cmpKey(fr.pend[i].key, fr.pend[best].key) < 0 {
				best = i
			}
		}
		k := fr.pend[best].key
		var group, rest []*item
		for _, it := range fr.pend {
			if cmpKey(it.key, k) == 0 {
				group = append(group, it)
			} else {
				rest = append(rest, it)
			}
		}
		fr.pend = rest
		for _, it := range fr.merge(group) {
			fr.e.nStates++
			fr.exec(it)
		}
	}
}

func (fr *frame) shape(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.typ == nil {
			return "n"
		}
		return "i"
	case *Union:
		// nil-ness of interfaces
		if f, ok := x.alts[0].v.(Iface); ok {
			nilN, non := 0, 0
			for _, a := range x.alts {
				if af, ok := a.v.(Iface); ok && af.typ == nil {
					nilN++
				} else {
					non++
				}
			}
			_ = f
			if nilN == 0 {
				return "i"
			}
			if non == 0 {
				return "n"
			}
			return "u"
		}
		return "."
	case Slice:
		if x.len.IsConst() {
			if x.esz == 1 && fr.e.cfgInt("mergelen", 0) == 1 {
				return "s"
			}
			return fmt.Sprintf("s%d.%d", x.len.val, x.off)
		}
		return "s?"
	case *Str:
		if x.opaque == "" && x.rope == nil && x.len.IsConst() && x.len.val <= 24 && fr.e.cfgInt("mergestr", 0) == 0 {
			return fmt.Sprintf("t%d", x.len.val)
		}
		return "."
	case Tuple:
		r := "("
		for _, y := range x {
			r += fr.shape(y)
		}
		return r + ")"
	}
	return "."
}

func (fr *frame) merge(g []*item) []*item {
	if len(g) == 1 || fr.e.cfgInt("nomerge", 0) == 1 {
		return g
	}
	live := fr.fi.live[g[0].b]
	by := map[string][]*item{}
	var order []string
	for _, it := range g {
		var sb strings.Builder
		for _, k := range live {
			sb.WriteString(fr.shape(it.regs[k]))
		}
		fmt.Fprintf(&sb, "|%d|%s", len(it.defers), it.st.key)
		s := sb.String()
		if _, ok := by[s]; !ok {
			order = append(order, s)
		}
		by[s] = append(by[s], it)
	}
	var out []*item
	for _, s := range order {
		l := by[s]
		for len(l) > 1 {
			// merge neighbours pairwise (tree) to keep selectors local
			var nx []*item
			for i := 0; i+1 < len(l); i += 2 {
				nx = append(nx, fr.merge2(l[i], l[i+1], live)...)
			}
			if len(l)%2 == 1 {
				nx = append(nx, l[len(l)-1])
			}
			if len(nx) == len(l) {
				l = nx
				break
			}
			l = nx
		}
		out = append(out, l...)
	}
	return out
}

func (fr *frame) merge2(a, b *item, live []int) (res []*item) {
	st, sel := fr.e.mergeStates(a.st, b.st)
	n := &item{b: a.b, ip: a.ip, st: st, regs: make([]Value, len(a.regs)), it: a.it, key: a.key, defers: a.defers}
	for _, k := range live {
		n.regs[k] = fr.e.mergeVal(sel, a.regs[k], b.regs[k])
	}
	for i := range n.defers {
		if !sameVal(a.defers[i].fn, b.defers[i].fn) {
			n.defers = append([]deferred(nil), n.defers...)
			n.defers[i].fn = fr.e.mergeVal(sel, a.defers[i].fn, b.defers[i].fn)
		}
	}
	return []*item{n}
}

func (fr *frame) mergeOuts() []Outcome {
	var out, rets []Outcome
	for _, o := range fr.outs {
		if o.panic != "" {
			out = append(out, o)
		} else {
			rets = append(rets, o)
		}
	}
	if fr.e.cfgInt("nomerge", 0) == 1 {
		return append(rets, out...)
	}
	by := map[string][]Outcome{}
	var order []string
	for _, o := range rets {
		s := fr.shape(o.ret) + "|" + o.st.key
		if _, ok := by[s]; !ok {
			order = append(order, s)
		}
		by[s] = append(by[s], o)
	}
	var res []Outcome
	for _, s := range order {
		l := by[s]
		for len(l) > 1 {
			var nx []Outcome
			for i := 0; i+1 < len(l); i += 2 {
				st, sel := fr.e.mergeStates(l[i].st, l[i+1].st)
				nx = append(nx, Outcome{st: st, ret: fr.e.mergeVal(sel, l[i].ret, l[i+1].ret)})
			}
			if len(l)%2 == 1 {
				nx = append(nx, l[len(l)-1])
			}
			l = nx
		}
		res = append(res, l...)
	}
	return append(res, out...)
}

type deadPath struct{}

// exec runs an item to the end of its block.
func (fr *frame) exec(start *item) {
	stack := []*item{start}
	for len(stack) > 0 {
		it := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		more := fr.execFrom(it)
		stack = append(stack, more...)
	}
}

func (fr *frame) execFrom(it *item) (more []*item) {
	e := fr.e
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case splitReq:
				for i, cnd := range x.conds {
					st := it.st
					if i < len(x.conds)-1 {
						st = it.st.fork()
					}
					n := &item{b: it.b, ip: it.ip, st: st, it: it.it, key: it.key, defers: it.defers}
					if i < len(x.conds)-1 {
						n.regs = append([]Value(nil), it.regs...)
					} else {
						n.regs = it.regs
					}
					more = append(more, n)
					_ = cnd
				}
				var live []*item
				for i, n := range more {
					if e.assume(n.st, x.conds[i]) {
						if !e.inPC(n.st, x.conds[i]) && !x.conds[i].IsTrue() {
							// conjunctions are stored split; remember the whole term too
							n.st.pc = &PC{t: x.conds[i], parent: n.st.pc, depth: n.st.pc.depth + 1}
						}
						live = append(live, n)
					}
				}
				more = live
				e.nForks++
			case deadPath:
				more = nil
			case engError:
				if e.tolerant > 0 {
					panic(r)
				}
				where := ""
				blk := fr.fi.fn.Blocks[it.b]
				if it.ip < len(blk.Instrs) {
					where = fmt.Sprintf(" at %s: %v [%s]", fr.fi.fn.String(), blk.Instrs[it.ip], e.L.pos(blk.Instrs[it.ip].Pos()))
				}
				e.incomplete[x.msg+where]++
				if e.verbose && e.incomplete[x.msg+where] == 1 {
					fmt.Fprintln(os.Stderr, "INCOMPLETE:", x.msg+where)
				}
				more = nil
			default:
				if re, ok := r.(runtime.Error); ok && e.tolerant > 0 {
					panic(engErr("internal: " + re.Error()))
				}
				panic(r)
			}
		}
	}()
	blk := fr.fi.fn.Blocks[it.b]
	if covering && it.ip == 0 && e.tolerant == 0 {
		covered.Store(fmt.Sprintf("%s#%d", fr.fi.fn, it.b), true)
	}
	for it.ip < len(blk.Instrs) {
		in := blk.Instrs[it.ip]
		e.nSteps++
		if e.nSteps&0xff == 0 && pastDeadline(e.deadline, e.s.started) {
			panic(timeoutErr{})
		}
		switch x := in.(type) {
		case *ssa.Phi:
			it.ip++ // evaluated on the edge
			continue
		case *ssa.Jump:
			fr.jump(it, blk, 0)
			return nil
		case *ssa.If:
			c := fr.val(it, x.Cond).(*Term)
			t, f := e.branch(it.st, c)
			if t != nil && f != nil {
				o := &item{b: it.b, st: f, regs: append([]Value(nil), it.regs...), it: it.it, defers: it.defers}
				it.st = t
				fr.jump(it, blk, 0)
				fr.jump(o, blk, 1)
			} else if t != nil {
				fr.jump(it, blk, 0)
			} else {
				fr.jump(it, blk, 1)
			}
			return nil
		case *ssa.Return:
			var ret Value
			switch len(x.Results) {
			case 0:
			case 1:
				ret = fr.val(it, x.Results[0])
			default:
				tu := make(Tuple, len(x.Results))
				for i, r := range x.Results {
					tu[i] = fr.val(it, r)
				}
				ret = tu
			}
			fr.outs = append(fr.outs, Outcome{st: it.st, ret: ret})
			return nil
		case *ssa.Panic:
			fr.outs = append(fr.outs, Outcome{st: it.st, panic: "explicit panic", where: e.L.pos(x.Pos())})
			return nil
		case *ssa.RunDefers:
			if len(it.defers) == 0 {
				it.ip++
				continue
			}
			d := it.defers[len(it.defers)-1]
			outs := fr.callValue(it, &d.call.Call, d.fn, d.args)
			ds := it.defers[:len(it.defers)-1]
			var res []*item
			for _, o := range outs {
				if o.panic != "" {
					fr.outs = append(fr.outs, o)
					continue
				}
				n := &item{b: it.b, ip: it.ip, st: o.st, regs: append([]Value(nil), it.regs...), it: it.it, key: it.key, defers: ds}
				res = append(res, n)
			}
			return res
		case *ssa.Call:
			fv, args := fr.callee(it, &x.Call)
			outs := fr.callValue(it, &x.Call, fv, args)
			k := fr.fi.num[x]
			n := 0
			for _, o := range outs {
				if o.panic != "" {
					if o.where == "" {
						o.where = e.L.pos(x.Pos())
					}
					fr.outs = append(fr.outs, o)
				} else {
					outs[n] = o
					n++
				}
			}
			outs = outs[:n]
			if n == 0 {
				return nil
			}
			if n == 1 {
				it.st = outs[0].st
				it.regs[k] = outs[0].ret
				it.ip++
				continue
			}
			var res []*item
			for i, o := range outs {
				r := it.regs
				if i < n-1 {
					r = append([]Value(nil), it.regs...)
				}
				r[k] = o.ret
				res = append(res, &item{b: it.b, ip: it.ip + 1, st: o.st, regs: r, it: it.it, key: it.key, defers: it.defers})
			}
			return res
		default:
			fr.step(it, in)
			it.ip++
		}
	}
	return nil
}

type timeoutErr struct{}

func (fr *frame) jump(it *item, blk *ssa.BasicBlock, succ int) {
	e := fr.e
	to := blk.Succs[succ]
	// which predecessor edge: handle duplicate edges
	pi := -1
	seen := 0
	for i, s := range blk.Succs[:succ+1] {
		if s == to && i < succ {
			seen++
		}
	}
	for i, p := range to.Preds {
		if p == blk {
			if seen == 0 {
				pi = i
				break
			}
			seen--
		}
	}
	var phis []*ssa.Phi
	var vals []Value
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, fr.val(it, phi.Edges[pi]))
	}
	for i, p := range phis {
		it.regs[fr.fi.num[p]] = vals[i]
	}
	n := &item{b: to.Index, st: it.st, regs: it.regs, defers: it.defers}
	n.it = fr.fi.edge(blk.Index, to.Index, it.it)
	if l := len(n.it); l > 0 && n.it[l-1] > e.unwind {
		e.incomplete[fmt.Sprintf("unwinding bound %d reached in %s", e.unwind, fr.fi.fn.String())]++
		if p := fr.fi.fn.Package(); p != nil && strings.HasPrefix(p.Pkg.Path(), modPath) && !e.unwound {
			e.unwound = true
			e.noEnd(it.st, fmt.Sprintf("a loop in %s ends", fr.fi.fn.Name()))
		}
		return
	}
	n.key = fr.fi.key(to.Index, n.it)
	fr.pend = append(fr.pend, n)
}

func (fr *frame) val(it *item, v ssa.Value) Value {
	e := fr.e
	switch x := v.(type) {
	case *ssa.Const:
		return e.constant(x)
	case *ssa.Global:
		return Ptr{obj: e.global(x)}
	case *ssa.Function:
		return &Closure{fn: x}
	case *ssa.Builtin:
		return &Native{kind: "builtin", v: x.Name()}
	}
	k, ok := fr.fi.num[v]
	if !ok {
		panic(engErr(fmt.Sprintf("no register for %v", v)))
	}
	r := it.regs[k]
	if r == nil {
		panic(engErr(fmt.Sprintf("undefined register %s in %s", v.Name(), fr.fi.fn)))
	}
	if p, ok := r.(Poison); ok && e.tolerant == 0 {
		panic(engErr("poison value used: " + p.why))
	}
	return r
}

func (e *Eng) constStr(s string) *Str {
	if s == "" {
		return e.emptyStr
	}
	if v, ok := e.cacheVals["s"+s]; ok {
		return v.(*Str)
	}
	b := make([]*Term, len(s))
	for i := range b {
		b[i] = e.c.Const(8, uint64(s[i]))
	}
	r := &Str{bytes: b, len: e.c.Int(len(s))}
	e.cacheVals["s"+s] = r
	return r
}

func (e *Eng) constant(x *ssa.Const) Value {
	if x.Value == nil {
		return e.zero(x.Type())
	}
	switch u := x.Type().Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return e.c.Bool(constant.BoolVal(x.Value))
		case u.Info()&types.IsString != 0:
			if x.Value.Kind() == constant.String {
				return e.constStr(constant.StringVal(x.Value))
			}
			n, _ := constant.Int64Val(x.Value)
			return e.constStr(string(rune(n)))
		case u.Info()&types.IsInteger != 0:
			v := constant.ToInt(x.Value)
			if n, ok := constant.Int64Val(v); ok {
				return e.c.Const(intWidth(u), uint64(n))
			}
			n, _ := constant.Uint64Val(v)
			return e.c.Const(intWidth(u), n)
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(x.Value)
			return Float{f}
		}
	}
	return Poison{"const " + x.String()}
}

// require makes cond hold, recording a panic outcome where it can fail; kills the path if it must fail.
func (fr *frame) require(it *item, cond *Term, msg string, pos token.Pos) {
	if cond.IsTrue() {
		return
	}
	e := fr.e
	ok, bad := e.branch(it.st, cond)
	if bad != nil {
		p := pos
		if !p.IsValid() {
			blk := fr.fi.fn.Blocks[it.b]
			for j := it.ip; j >= 0 && !p.IsValid(); j-- {
				p = blk.Instrs[j].Pos()
			}
		}
		fr.outs = append(fr.outs, Outcome{st: bad, panic: msg, where: fr.fi.fn.String() + " " + e.L.pos(p)})
	}
	if ok == nil {
		panic(deadPath{})
	}
	it.st = ok
}

// notNil checks a pointer-like value and returns it with nil alternatives removed.
func (fr *frame) notNil(it *item, v Value, pos token.Pos) Value {
	e := fr.e
	switch x := v.(type) {
	case Ptr:
		if x.obj == 0 {
			fr.require(it, e.c.fls, "nil pointer dereference", pos)
		}
		return x
	case *Union:
		bad := e.c.fls
		var alts []Alt
		for _, a := range x.alts {
			if isNilPtr(a.v) {
				bad = e.c.Or(bad, a.g)
			} else {
				alts = append(alts, a)
			}
		}
		if bad.IsFalse() {
			return x
		}
		fr.require(it, e.c.Not(bad), "nil pointer dereference", pos)
		if len(alts) == 1 {
			return alts[0].v
		}
		return &Union{alts}
	case Poison:
		panic(engErr("poison pointer " + x.why))
	}
	return v
}

// mapPtr applies f to each pointer alternative.
func (e *Eng) mapAlts(v Value, f func(Value) Value) Value {
	if u, ok := v.(*Union); ok {
		r := &Union{make([]Alt, len(u.alts))}
		for i, a := range u.alts {
			r.alts[i] = Alt{a.g, f(a.v)}
		}
		return r
	}
	return f(v)
}

func (fr *frame) set(it *item, v ssa.Value, x Value) { it.regs[fr.fi.num[v]] = x }

func (fr *frame) step(it *item, in ssa.Instruction) {
	e := fr.e
	if e.tolerant > 0 {
		defer func() {
			if r := recover(); r != nil {
				er, ok := r.(engError)
				if re, rt := r.(runtime.Error); rt {
					er, ok = engErr("internal: "+re.Error()), true
				}
				if ok {
					if v, ok := in.(ssa.Value); ok {
						fr.set(it, v, Poison{er.msg})
					}
					return
				}
				panic(r)
			}
		}()
	}
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		fr.set(it, x, Ptr{obj: e.alloc(it.st, t, 1, x.Comment)})
	case *ssa.Store:
		a := fr.val(it, x.Addr)
		v := fr.val(it, x.Val)
		a = fr.notNil(it, a, x.Pos())
		e.store(it.st, a, v, nil)
	case *ssa.UnOp:
		fr.set(it, x, fr.unop(it, x))
	case *ssa.BinOp:
		a, b := fr.val(it, x.X), fr.val(it, x.Y)
		fr.set(it, x, fr.binop(it, x.Op, a, b, x.X.Type(), x.Y.Type(), x.Pos()))
	case *ssa.FieldAddr:
		p := fr.notNil(it, fr.val(it, x.X), x.Pos())
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		off := e.layout(st).foff[x.Field]
		fr.set(it, x, e.mapAlts(p, func(v Value) Value {
			q := v.(Ptr)
			q.off += off
			return q
		}))
	case *ssa.Field:
		v := fr.val(it, x.X)
		l := e.layout(x.X.Type())
		if _, ok := v.(Poison); ok {
			fr.set(it, x, v)
			return
		}
		if _, ok := v.(*Union); ok {
			v = e.resolve(it.st, v)
		}
		a := v.(*Agg)
		off, n := l.foff[x.Field], l.flds[x.Field].n
		if isAgg(x.Type()) {
			fr.set(it, x, &Agg{a.slots[off : off+n : off+n]})
		} else {
			fr.set(it, x, a.slots[off])
		}
	case *ssa.IndexAddr:
		fr.set(it, x, fr.indexAddr(it, x))
	case *ssa.Index:
		fr.set(it, x, fr.index(it, x))
	case *ssa.Lookup:
		fr.set(it, x, fr.lookup(it, x))
	case *ssa.Slice:
		fr.set(it, x, fr.slice(it, x))
	case *ssa.MakeSlice:
		n := fr.val(it, x.Len).(*Term)
		c := fr.val(it, x.Cap).(*Term)
		el := x.Type().Underlying().(*types.Slice).Elem()
		n, c = e.to64(n, x.Len.Type()), e.to64(c, x.Cap.Type())
		const maxAlloc = 1 << 47
		sz := uint64(1)
		if s := sizes.Sizeof(el); s > 0 {
			sz = uint64(s)
		}
		fr.require(it, e.c.And(e.c.Sle(e.c.Int(0), n), e.c.Ule(n, e.c.Const(64, maxAlloc/sz))), "makeslice: len out of range", x.Pos())
		fr.require(it, e.c.And(e.c.Sle(n, c), e.c.Ule(c, e.c.Const(64, maxAlloc/sz))), "makeslice: cap out of range", x.Pos())
		fr.set(it, x, e.makeSlice(it.st, el, n, c, "make"))
	case *ssa.MakeMap:
		mt := x.Type().Underlying().(*types.Map)
		o := &Object{own: it.st.heap.own, id: e.newID(), m: &MapObj{idx: map[string]int{}, kt: mt.Key(), vt: mt.Elem()}}
		it.st.heap.put(o)
		fr.set(it, x, MapRef{o.id})
	case *ssa.MapUpdate:
		m := e.resolve(it.st, fr.val(it, x.Map)).(MapRef)
		if m.obj == 0 {
			fr.require(it, e.c.fls, "assignment to entry in nil map", x.Pos())
		}
		e.mapSet(it.st, m, fr.val(it, x.Key), fr.val(it, x.Value))
	case *ssa.MakeInterface:
		fr.set(it, x, Iface{x.X.Type(), fr.val(it, x.X)})
	case *ssa.MakeClosure:
		c := &Closure{fn: x.Fn.(*ssa.Function)}
		for _, b := range x.Bindings {
			c.binds = append(c.binds, fr.val(it, b))
		}
		fr.set(it, x, c)
	case *ssa.ChangeType:
		fr.set(it, x, fr.val(it, x.X))
	case *ssa.ChangeInterface:
		fr.set(it, x, fr.val(it, x.X))
	case *ssa.Convert:
		fr.set(it, x, fr.convert(it, fr.val(it, x.X), x.X.Type(), x.Type()))
	case *ssa.MultiConvert:
		fr.set(it, x, fr.convert(it, fr.val(it, x.X), x.X.Type(), x.Type()))
	case *ssa.SliceToArrayPointer:
		s := e.resolve(it.st, fr.val(it, x.X)).(Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		fr.require(it, e.c.Ule(e.c.Int(int(n)), s.len), "slice to array pointer: length", x.Pos())
		if s.symOff != nil {
			panic(engErr("slice to array pointer of rope"))
		}
		fr.set(it, x, Ptr{obj: s.obj, off: s.off})
	case *ssa.TypeAssert:
		fr.set(it, x, fr.typeAssert(it, x))
	case *ssa.Extract:
		t := fr.val(it, x.Tuple)
		switch y := t.(type) {
		case Tuple:
			v := y[x.Index]
			if v == nil {
				panic(engErr("nil tuple element"))
			}
			fr.set(it, x, v)
		case Poison:
			fr.set(it, x, y)
		case *Union:
			fr.set(it, x, e.resolve(it.st, y).(Tuple)[x.Index])
		default:
			panic(engErr(fmt.Sprintf("extract from %T", t)))
		}
	case *ssa.Defer:
		fv, args := fr.callee(it, &x.Call)
		it.defers = append(it.defers[:len(it.defers):len(it.defers)], deferred{x, fv, args})
	case *ssa.Range:
		v := e.resolve(it.st, fr.val(it, x.X))
		id := e.alloc(it.st, types.Typ[types.Int], 1, "range")
		fr.set(it, x, Tuple{Ptr{obj: id}, v})
	case *ssa.Next:
		fr.set(it, x, fr.next(it, x))
	case *ssa.MakeChan:
		// a channel is a flag that tells whether it has been closed; values are not sent
		fr.set(it, x, Ptr{obj: e.alloc(it.st, types.Typ[types.Int], 1, "chan")})
	case *ssa.Select:
		fr.set(it, x, fr.selectChan(it, x))
	default:
		panic(engErr(fmt.Sprintf("unsupported instruction %T", in)))
	}
}

// chanClosed tells whether a channel has been closed.
func (e *Eng) chanClosed(st *State, v Value) bool {
	p, ok := e.resolve(st, v).(Ptr)
	if !ok {
		panic(engErr(fmt.Sprintf("channel %T", v)))
	}
	if p.obj == 0 {
		return false
	}
	f, ok := e.load(st, p, types.Typ[types.Int]).(*Term)
	if !ok || !f.IsConst() {
		panic(engErr("channel of unknown state"))
	}
	return f.val != 0
}

// selectChan chooses the first case that can receive from a closed channel.
func (fr *frame) selectChan(it *item, x *ssa.Select) Value {
	e := fr.e
	r := Tuple{e.c.Int(-1), e.c.fls}
	for i, s := range x.States {
		if s.Dir != types.RecvOnly {
			panic(engErr("select with a send"))
		}
		if r[0] == Value(e.c.Int(-1)) && e.chanClosed(it.st, fr.val(it, s.Chan)) {
			r[0] = e.c.Int(i)
		}
		r = append(r, e.zero(s.Chan.Type().Underlying().(*types.Chan).Elem()))
	}
	if r[0] == Value(e.c.Int(-1)) && x.Blocking {
		panic(engErr("select that blocks"))
	}
	return r
}

var sizes = types.SizesFor("gc", "amd64")

func (e *Eng) to64(t *Term, ty types.Type) *Term {
	if t.w == 64 {
		return t
	}
	if isSigned(ty) {
		return e.c.Sext(t, 64)
	}
	return e.c.Zext(t, 64)
}

func (e *Eng) makeSlice(st *State, el types.Type, n, c *Term, tag string) Value {
	esz := e.layout(el).n
	if n.IsConst() && c.IsConst() {
		id := e.alloc(st, el, int(c.val), tag)
		return Slice{obj: id, esz: esz, len: n, cap: c}
	}
	// symbolic size: byte ropes; otherwise concretize
	if b, ok := el.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && esz == 1 && e.cfgInt("ropes", 0) == 1 && n == c {
		arr := e.c.Var(fmt.Sprintf("zero#%d", e.newID()), arrW)
		_ = arr
		panic(engErr("symbolic make([]byte)"))
	}
	// as many elements as the size can have: the length stays unknown
	if c == n && n.hi <= uint64(e.cfgInt("lazymake", 0)) {
		id := e.alloc(st, el, int(n.hi), tag)
		return Slice{obj: id, esz: esz, len: n, cap: c}
	}
	nn := e.conc(st, n)
	cc := nn
	if c != n {
		cc = e.conc(st, c)
	}
	id := e.alloc(st, el, cc, tag)
	return Slice{obj: id, esz: esz, len: e.c.Int(nn), cap: e.c.Int(cc)}
}

func (fr *frame) indexAddr(it *item, x *ssa.IndexAddr) Value {
	e := fr.e
	idx := e.to64(fr.val(it, x.Index).(*Term), x.Index.Type())
	b := fr.val(it, x.X)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		fr.require(it, e.c.Ult(idx, e.c.Int(int(at.Len()))), "index out of range", x.Pos())
		b = fr.notNil(it, b, x.Pos())
		esz := e.layout(at.Elem()).n
		return e.mapAlts(b, func(v Value) Value { return e.ptrIndex(it.st, v.(Ptr), idx, esz, int(at.Len())) })
	case *types.Slice:
		ln := e.sliceLen(b)
		fr.require(it, e.c.Ult(idx, ln), "index out of range", x.Pos())
		return e.mapAlts(b, func(v Value) Value {
			s := v.(Slice)
			if s.obj == 0 {
				return nilPtr
			}
			o := e.obj(it.st, s.obj)
			if o.rope != nil {
				i := idx
				if s.symOff != nil {
					i = e.c.Add(i, s.symOff)
				}
				if i.IsConst() {
					return Ptr{obj: s.obj, off: s.off + int(i.val)}
				}
				return Ptr{obj: s.obj, off: s.off, sym: i, stride: 1, count: 1 << 40}
			}
			cnt := o.n
			if s.esz > 0 {
				cnt = (o.n - s.off) / s.esz
			}
			if s.len.hi < uint64(cnt) {
				cnt = int(s.len.hi)
			}
			if cnt == 0 {
				return nilPtr // infeasible alternative
			}
			if idx.lo >= uint64(cnt) {
				return nilPtr // this alternative is too short: excluded by the bounds check
			}
			return e.ptrIndex(it.st, Ptr{obj: s.obj, off: s.off}, idx, s.esz, cnt)
		})
	}
	panic(engErr("indexAddr"))
}

func (e *Eng) sliceLen(v Value) *Term {
	switch s := v.(type) {
	case Slice:
		return s.len
	case *Union:
		r := s.alts[len(s.alts)-1].v.(Slice).len
		for i := len(s.alts) - 2; i >= 0; i-- {
			r = e.c.Ite(s.alts[i].g, s.alts[i].v.(Slice).len, r)
		}
		return r
	}
	panic(engErr(fmt.Sprintf("sliceLen %T", v)))
}

func (e *Eng) ptrIndex(st *State, p Ptr, idx *Term, esz, n int) Ptr {
	if idx.IsConst() {
		p.off += int(idx.val) * esz
		return p
	}
	if esz == 0 {
		return p
	}
	if p.sym != nil {
		if p.stride == esz*n && n > 0 {
			// row-major combination
			p.sym = e.c.Add(e.c.Mul(p.sym, e.c.Int(n)), idx)
			p.count *= n
			p.stride = esz
			return p
		}
		p.off += e.conc(st, idx) * esz
		return p
	}
	p.sym, p.stride, p.count = idx, esz, n
	return p
}

func (fr *frame) index(it *item, x *ssa.Index) Value {
	e := fr.e
	idx := e.to64(fr.val(it, x.Index).(*Term), x.Index.Type())
	b := fr.val(it, x.X)
	switch u := x.X.Type().Underlying().(type) {
	case *types.Array:
		fr.require(it, e.c.Ult(idx, e.c.Int(int(u.Len()))), "index out of range", x.Pos())
		b = e.resolve(it.st, b)
		a := b.(*Agg)
		n := e.layout(u.Elem()).n
		get := func(i int) Value {
			if isAgg(x.Type()) {
				return &Agg{a.slots[i*n : (i+1)*n]}
			}
			return a.slots[i]
		}
		if idx.IsConst() {
			return get(int(idx.val))
		}
		var rec func(lo, hi int) Value
		rec = func(lo, hi int) Value {
			if lo == hi {
				return get(lo)
			}
			mid := (lo + hi) / 2
			return e.mergeVal(e.c.Ule(idx, e.c.Int(mid)), rec(lo, mid), rec(mid+1, hi))
		}
		return rec(0, int(u.Len())-1)
	case *types.Basic: // string
		return fr.strIndex(it, b, idx, x.Pos())
	}
	panic(engErr("index of " + x.X.Type().String()))
}

func (fr *frame) strIndex(it *item, b Value, idx *Term, pos token.Pos) Value {
	e := fr.e
	s := e.resolve(it.st, b).(*Str)
	if s.opaque != "" {
		panic(engErr("index of opaque string " + s.opaque))
	}
	fr.require(it, e.c.Ult(idx, s.len), "string index out of range", pos)
	if s.rope != nil {
		return e.ropeGet(s.rope, idx)
	}
	return e.segAt(Seg{bytes: s.bytes}, idx)
}

func (fr *frame) unop(it *item, x *ssa.UnOp) Value {
	e := fr.e
	v := fr.val(it, x.X)
	switch x.Op {
	case token.MUL:
		if g, ok := x.X.(*ssa.Global); ok {
			if r, ok := e.globalSpecial(g); ok {
				return r
			}
		}
		v = fr.notNil(it, v, x.Pos())
		r := e.load(it.st, v, x.Type())
		if p, ok := r.(Poison); ok && e.tolerant == 0 {
			panic(engErr("load of poison: " + p.why))
		}
		return r
	case token.NOT:
		return e.c.Not(v.(*Term))
	case token.SUB:
		if f, ok := v.(Float); ok {
			return Float{-f.v}
		}
		return e.c.BNeg(v.(*Term))
	case token.XOR:
		return e.c.BNot(v.(*Term))
	case token.ARROW:
		if !e.chanClosed(it.st, v) {
			panic(engErr("receive that blocks"))
		}
		z := e.zero(x.X.Type().Underlying().(*types.Chan).Elem())
		if x.CommaOk {
			return Tuple{z, e.c.fls}
		}
		return z
	}
	panic(engErr("unop " + x.Op.String()))
}

func (fr *frame) binop(it *item, op token.Token, a, b Value, ta, tb types.Type, pos token.Pos) Value {
	e := fr.e
	c := e.c
	if _, ok := a.(Poison); ok {
		panic(engErr("poison operand"))
	}
	if _, ok := b.(Poison); ok {
		panic(engErr("poison operand"))
	}
	switch op {
	case token.EQL:
		return e.equal(it.st, a, b, ta)
	case token.NEQ:
		return c.Not(e.equal(it.st, a, b, ta))
	}
	if isString(ta) {
		switch op {
		case token.ADD:
			return e.strConcat(it.st, e.resolve(it.st, a).(*Str), e.resolve(it.st, b).(*Str))
		}
		x, y := e.resolve(it.st, a).(*Str), e.resolve(it.st, b).(*Str)
		lt := e.strLess(it.st, x, y)
		switch op {
		case token.LSS:
			return lt
		case token.GEQ:
			return c.Not(lt)
		case token.GTR:
			return e.strLess(it.st, y, x)
		case token.LEQ:
			return c.Not(e.strLess(it.st, y, x))
		}
	}
	if fa, ok := a.(Float); ok {
		fb := b.(Float)
		switch op {
		case token.ADD:
			return Float{fa.v + fb.v}
		case token.SUB:
			return Float{fa.v - fb.v}
		case token.MUL:
			return Float{fa.v * fb.v}
		case token.QUO:
			return Float{fa.v / fb.v}
		case token.LSS:
			return c.Bool(fa.v < fb.v)
		case token.GTR:
			return c.Bool(fa.v > fb.v)
		case token.LEQ:
			return c.Bool(fa.v <= fb.v)
		case token.GEQ:
			return c.Bool(fa.v >= fb.v)
		}
	}
	x, ok1 := a.(*Term)
	y, ok2 := b.(*Term)
	if !ok1 || !ok2 {
		panic(engErr(fmt.Sprintf("binop %v on %T %T", op, a, b)))
	}
	sg := isSigned(ta)
	switch op {
	case token.SHL, token.SHR:
		if isSigned(tb) {
			fr.require(it, c.Sle(c.Const(y.w, 0), y), "negative shift amount", pos)
		}
		// bring shift amount to the width of x with saturation
		var sat *Term
		if y.w > x.w {
			big := c.Ule(c.Const(y.w, uint64(x.w)), y)
			sat = c.Ite(big, c.Const(x.w, uint64(x.w)), c.Extract(y, 0, x.w))
		} else {
			sat = c.Zext(y, x.w)
		}
		if op == token.SHL {
			return c.Shl(x, sat)
		}
		if sg {
			return c.Ashr(x, sat)
		}
		return c.Lshr(x, sat)
	}
	if x.w == 0 {
		switch op {
		case token.AND, token.LAND:
			return c.And(x, y)
		case token.OR, token.LOR:
			return c.Or(x, y)
		}
	}
	switch op {
	case token.ADD:
		return c.Add(x, y)
	case token.SUB:
		return c.Sub(x, y)
	case token.MUL:
		return c.Mul(x, y)
	case token.QUO, token.REM:
		fr.require(it, c.Not(c.Eq(y, c.Const(y.w, 0))), "integer divide by zero", pos)
		if op == token.QUO {
			if sg {
				return c.Sdiv(x, y)
			}
			return c.Udiv(x, y)
		}
		// the remainder of a value known to be below twice the divisor (positions in
		// a cyclic buffer) is a conditional subtraction
		if y.IsConst() && !x.IsConst() && y.val&(y.val-1) != 0 && y.val < 1<<30 {
			if r, _ := fr.e.query(it.st, c.Not(c.Ult(x, c.Const(x.w, 2*y.val))), false); r == 0 {
				return c.Ite(c.Ult(x, y), x, c.Sub(x, y))
			}
		}
		if sg {
			return c.Srem(x, y)
		}
		return c.Urem(x, y)
	case token.AND:
		return c.BAnd(x, y)
	case token.OR:
		return c.BOr(x, y)
	case token.XOR:
		return c.BXor(x, y)
	case token.AND_NOT:
		return c.BAnd(x, c.BNot(y))
	case token.LSS:
		if sg {
			return c.Slt(x, y)
		}
		return c.Ult(x, y)
	case token.LEQ:
		if sg {
			return c.Sle(x, y)
		}
		return c.Ule(x, y)
	case token.GTR:
		if sg {
			return c.Slt(y, x)
		}
		return c.Ult(y, x)
	case token.GEQ:
		if sg {
			return c.Sle(y, x)
		}
		return c.Ule(y, x)
	}
	panic(engErr("binop " + op.String()))
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// equal compares two values of the same static type.
func (e *Eng) equal(st *State, a, b Value, t types.Type) *Term {
	c := e.c
	if u, ok := a.(*Union); ok {
		r := c.fls
		for _, al := range u.alts {
			r = c.Or(r, c.And(al.g, e.equal(st, al.v, b, t)))
		}
		return r
	}
	if u, ok := b.(*Union); ok {
		r := c.fls
		for _, al := range u.alts {
			r = c.Or(r, c.And(al.g, e.equal(st, a, al.v, t)))
		}
		return r
	}
	switch x := a.(type) {
	case *Term:
		return c.Eq(x, b.(*Term))
	case Ptr:
		y := b.(Ptr)
		if x.obj != y.obj {
			return c.fls
		}
		if x.obj == 0 {
			return c.tru
		}
		if x.sym == nil && y.sym == nil {
			return c.Bool(x.off == y.off)
		}
		lin := func(p Ptr) *Term {
			r := c.Int(p.off)
			if p.sym != nil {
				r = c.Add(r, c.Mul(p.sym, c.Int(p.stride)))
			}
			return r
		}
		return c.Eq(lin(x), lin(y))
	case Slice: // comparison with nil
		y := b.(Slice)
		if x.obj != 0 && y.obj != 0 {
			panic(engErr("slice comparison"))
		}
		return c.Bool(x.obj == y.obj)
	case MapRef:
		y := b.(MapRef)
		return c.Bool(x.obj == y.obj)
	case *Closure:
		y := b.(*Closure)
		return c.Bool((x == nil) == (y == nil))
	case *Str:
		return e.strEq(st, x, b.(*Str))
	case Float:
		return c.Bool(x.v == b.(Float).v)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(engErr("iface compare with non-iface"))
		}
		if x.typ == nil || y.typ == nil {
			return c.Bool(x.typ == nil && y.typ == nil)
		}
		if !types.Identical(x.typ, y.typ) {
			return c.fls
		}
		return e.equal(st, x.val, y.val, x.typ)
	case *Agg:
		y := b.(*Agg)
		r := c.tru
		for i := range x.slots {
			r = c.And(r, e.equal(st, x.slots[i], y.slots[i], nil))
		}
		return r
	case *Native:
		y, ok := b.(*Native)
		return c.Bool(ok && (x == y || x.kind == y.kind && x.v == y.v))
	}
	panic(engErr(fmt.Sprintf("equal on %T", a)))
}

func (e *Eng) strEq(st *State, x, y *Str) *Term {
	c := e.c
	if x == y {
		return c.tru
	}
	if x.opaque != "" || y.opaque != "" {
		if x.opaque == y.opaque && len(x.args) == len(y.args) && strings.HasPrefix(x.opaque, "inj:") {
			r := c.tru
			for i := range x.args {
				if x.args[i].w != y.args[i].w {
					panic(engErr("opaque string compare"))
				}
				r = c.And(r, c.Eq(x.args[i], y.args[i]))
			}
			return r
		}
		o, s := x, y
		if o.opaque == "" {
			o, s = s, o
		}
		// decimal renderings are never empty
		if strings.HasPrefix(o.opaque, "inj:") && s.opaque == "" && s.len.IsConst() && s.len.val == 0 {
			return c.fls
		}
		if v, ok := s.constant(); ok && o.opaque == "inj:%d" && len(o.args) == 1 && o.args[0].w == 64 {
			var n uint64
			if _, err := fmt.Sscanf(v, "%d", &n); err == nil && fmt.Sprint(n) == v {
				return c.Eq(o.args[0], c.Const(64, n))
			}
			return c.fls
		}
		if o.opaque == "inj:%d" && s.opaque == "" && s.rope == nil {
			return e.injEq(o.args[0], s)
		}
		if x.opaque == y.opaque && len(x.args) == 0 && len(y.args) == 0 {
			return c.tru
		}
		if s.len.IsConst() && s.len.val == 0 {
			return c.Eq(o.len, c.Int(0))
		}
		kx, ky := valueKey(x), valueKey(y)
		if kx > ky {
			kx, ky = ky, kx
		}
		e.note("comparison with text of unknown content is an unconstrained boolean")
		return c.Var("opeq:"+kx+"="+ky, 0)
	}
	if x.rope != nil || y.rope != nil {
		return e.ropeEq(st, x, y)
	}
	r := c.Eq(x.len, y.len)
	n := min(len(x.bytes), len(y.bytes))
	for i := 0; i < n && !r.IsFalse(); i++ {
		q := c.Eq(x.bytes[i], y.bytes[i])
		if !(c.Ult(c.Int(i), x.len)).IsTrue() {
			q = c.Or(q, c.Ule(x.len, c.Int(i)))
		}
		r = c.And(r, q)
	}
	// lengths beyond the shorter buffer cannot be equal unless both within
	return r
}

func (e *Eng) strLess(st *State, x, y *Str) *Term {
	c := e.c
	if x.opaque != "" || y.opaque != "" || x.rope != nil || y.rope != nil {
		panic(engErr("opaque string order"))
	}
	n := min(len(x.bytes), len(y.bytes))
	r := c.Ult(x.len, y.len)
	// from last position backwards
	for i := n - 1; i >= 0; i-- {
		in := c.And(c.Ult(c.Int(i), x.len), c.Ult(c.Int(i), y.len))
		r = c.Ite(in, c.Ite(c.Eq(x.bytes[i], y.bytes[i]), r, c.Ult(x.bytes[i], y.bytes[i])), c.Ult(x.len, y.len))
	}
	return r
}

func (e *Eng) strConcat(st *State, x, y *Str) *Str {
	c := e.c
	if x.len.IsConst() && x.len.val == 0 && x.opaque == "" {
		return y
	}
	if y.len.IsConst() && y.len.val == 0 && y.opaque == "" {
		return x
	}
	if x.opaque != "" || y.opaque != "" || x.rope != nil || y.rope != nil {
		return e.opaqueStr("concat", nil)
	}
	if x.len.IsConst() {
		n := int(x.len.val)
		return &Str{bytes: append(append([]*Term(nil), x.bytes[:n]...), y.bytes...), len: c.Add(x.len, y.len)}
	}
	n := e.conc(st, x.len)
	return &Str{bytes: append(append([]*Term(nil), x.bytes[:n]...), y.bytes...), len: c.Add(c.Int(n), y.len)}
}

// opaqueKeyed is an unknown string that is a function of key.
func (e *Eng) opaqueKeyed(key string) *Str {
	if v, ok := e.cacheVals["o"+key]; ok {
		return v.(*Str)
	}
	r := e.opaqueStr("keyed", nil)
	e.cacheVals["o"+key] = r
	return r
}

// valueKey identifies a value up to syntactic equality.
func valueKey(v Value) string {
	switch x := v.(type) {
	case *Term:
		return fmt.Sprintf("t%d", x.id)
	case Ptr:
		k := fmt.Sprintf("p%d.%d", x.obj, x.off)
		if x.sym != nil {
			k += fmt.Sprintf("+t%d*%d", x.sym.id, x.stride)
		}
		return k
	case *Str:
		if x.opaque != "" {
			k := "o" + x.opaque
			for _, a := range x.args {
				k += fmt.Sprintf(",%d", a.id)
			}
			return k
		}
		if x.rope != nil {
			k := "r"
			for _, g := range x.rope.segs {
				if g.arr != nil {
					k += fmt.Sprintf("a%d.%d.%d;", g.arr.id, g.shift.id, g.len.id)
				} else {
					k += fmt.Sprintf("s%d:", g.len.id) + termsKey(g.bytes) + ";"
				}
			}
			for _, w := range x.rope.wr {
				k += fmt.Sprintf("w%d=%d", w.idx.id, w.val.id)
			}
			return k
		}
		return fmt.Sprintf("s%d:", x.len.id) + termsKey(x.bytes)
	case *Union:
		k := "u("
		for _, a := range x.alts {
			k += fmt.Sprintf("t%d:", a.g.id) + valueKey(a.v) + ";"
		}
		return k + ")"
	case Slice:
		k := fmt.Sprintf("sl%d.%d.%d", x.obj, x.off, x.len.id)
		if x.symOff != nil {
			k += fmt.Sprintf("+t%d", x.symOff.id)
		}
		return k
	}
	return fmt.Sprintf("%T%v", v, v)
}

func (e *Eng) opaqueStr(tag string, args []*Term) *Str {
	ln := e.c.Var(fmt.Sprintf("oplen#%d", e.newID()), 32)
	return &Str{opaque: fmt.Sprintf("%s#%d", tag, e.newID()), args: args, len: e.c.Zext(ln, 64)}
}

func (fr *frame) slice(it *item, x *ssa.Slice) Value {
	e := fr.e
	c := e.c
	v := fr.val(it, x.X)
	get := func(s ssa.Value) *Term {
		if s == nil {
			return nil
		}
		return e.to64(fr.val(it, s).(*Term), s.Type())
	}
	lo, hi, mx := get(x.Low), get(x.High), get(x.Max)
	if lo == nil {
		lo = c.Int(0)
	}
	if isString(x.X.Type()) {
		s := e.resolve(it.st, v).(*Str)
		if hi == nil {
			hi = s.len
		}
		fr.require(it, c.And(c.Ule(lo, hi), c.Ule(hi, s.len)), "slice bounds out of range", x.Pos())
		return e.subStr(it.st, s, lo, hi)
	}
	var base Slice
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		p := e.resolve(it.st, fr.notNil(it, v, x.Pos())).(Ptr)
		at := u.Elem().Underlying().(*types.Array)
		n := c.Int(int(at.Len()))
		if p.sym != nil {
			p.off += e.conc(it.st, p.sym) * p.stride
			p.sym = nil
		}
		base = Slice{obj: p.obj, off: p.off, esz: e.layout(at.Elem()).n, len: n, cap: n}
	case *types.Slice:
		if u2, ok := v.(*Union); ok && e.sliceUnionOK(u2) {
			ln, cp := e.sliceLen(v), e.sliceCap(v)
			if hi == nil {
				hi = ln
			}
			m := mx
			if m == nil {
				m = cp
			}
			fr.require(it, c.And(c.Ule(lo, hi), c.And(c.Ule(hi, m), c.Ule(m, cp))), "slice bounds out of range", x.Pos())
			if lo.IsConst() {
				h := hi
				return e.mapAlts(v, func(y Value) Value {
					s := y.(Slice)
					mm := m
					if mx == nil {
						mm = s.cap
					}
					if lo.val > s.cap.hi {
						return s
					}
					return e.subSlice(it.st, s, lo, h, mm)
				})
			}
		}
		base = e.resolve(it.st, v).(Slice)
	}
	if hi == nil {
		hi = base.len
	}
	if mx == nil {
		mx = base.cap
	}
	fr.require(it, c.And(c.Ule(lo, hi), c.And(c.Ule(hi, mx), c.Ule(mx, base.cap))), "slice bounds out of range", x.Pos())
	return e.subSlice(it.st, base, lo, hi, mx)
}

func (e *Eng) sliceUnionOK(u *Union) bool {
	for _, a := range u.alts {
		if s, ok := a.v.(Slice); !ok || s.symOff != nil {
			return false
		}
	}
	return true
}

func (e *Eng) sliceCap(v Value) *Term {
	switch s := v.(type) {
	case Slice:
		return s.cap
	case *Union:
		r := s.alts[len(s.alts)-1].v.(Slice).cap
		for i := len(s.alts) - 2; i >= 0; i-- {
			r = e.c.Ite(s.alts[i].g, s.alts[i].v.(Slice).cap, r)
		}
		return r
	}
	panic(engErr("sliceCap"))
}

func (e *Eng) subSlice(st *State, s Slice, lo, hi, mx *Term) Value {
	c := e.c
	r := s
	r.len = c.Sub(hi, lo)
	r.cap = c.Sub(mx, lo)
	if s.obj == 0 {
		return r
	}
	o := e.obj(st, s.obj)
	if o.rope != nil {
		if lo.IsConst() && s.symOff == nil {
			r.off += int(lo.val)
		} else if s.symOff == nil {
			r.symOff = lo
		} else {
			r.symOff = c.Add(s.symOff, lo)
		}
		return r
	}
	if lo.IsConst() {
		r.off += int(lo.val) * s.esz
		return r
	}
	// symbolic start in a flat object
	if s.esz == 1 && o.typ != nil && isByte(o.typ) && e.cfgInt("ropes", 0) == 1 {
		// view of the (current) content as a rope: only safe if not written later through the view
		rp := e.sliceRope(st, Slice{obj: s.obj, off: s.off, esz: 1, len: s.cap, cap: s.cap})
		id := e.allocRope(st, rp, "view")
		r.obj, r.off, r.symOff = id, 0, lo
		e.note("symbolic-offset views of flat buffers are read-only copies")
		return r
	}
	k := e.conc(st, lo)
	kt := c.Int(k)
	r.off += k * s.esz
	r.len = c.Sub(hi, kt)
	r.cap = c.Sub(mx, kt)
	return r
}

func isByte(t types.Type) bool {
	for {
		a, ok := t.Underlying().(*types.Array)
		if !ok {
			break
		}
		t = a.Elem()
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (e *Eng) subStr(st *State, s *Str, lo, hi *Term) *Str {
	c := e.c
	if s.opaque != "" {
		panic(engErr("substring of opaque string"))
	}
	if s.rope != nil {
		n := c.Sub(hi, lo)
		return &Str{rope: e.subRope(s.rope, lo, n), len: n}
	}
	if !lo.IsConst() {
		k := e.conc(st, lo)
		lo = c.Int(k)
	}
	n := len(s.bytes)
	if hi.hi < uint64(n) {
		n = int(hi.hi)
	}
	if int(lo.val) > n {
		n = int(lo.val)
	}
	if int(lo.val) >= len(s.bytes) {
		return &Str{len: c.Sub(hi, lo)}
	}
	return &Str{bytes: s.bytes[lo.val:n], len: c.Sub(hi, lo)}
}

// ---- maps ----

func (e *Eng) mapSet(st *State, m MapRef, k, v Value) {
	o := e.mut(st, m.obj)
	mm := o.m
	k = e.keyVal(st, k)
	if s, ok := constKey(k); ok && len(mm.idx) == len(mm.ents) {
		if i, ok := mm.idx[s]; ok {
			mm.ents[i].val = v
			mm.ents[i].present = e.c.tru
			return
		}
		mm.idx[s] = len(mm.ents)
		mm.ents = append(mm.ents, MapEnt{k, v, e.c.tru})
		return
	}
	any := e.c.fls
	for i := range mm.ents {
		en := &mm.ents[i]
		eq := e.equal(st, en.key, k, nil)
		en.val = e.mergeVal(eq, v, en.val)
		hit := e.c.And(eq, en.present)
		any = e.c.Or(any, hit)
	}
	// new entry exists when no present entry matched; stale duplicates are shadowed by 'present'
	if !any.IsTrue() {
		if s, ok := constKey(k); ok {
			if i, ok := mm.idx[s]; ok {
				mm.ents[i].val = v
				mm.ents[i].present = e.c.Not(e.c.And(any, e.c.Not(mm.ents[i].present)))
				return
			}
			mm.idx[s] = len(mm.ents)
		}
		mm.ents = append(mm.ents, MapEnt{k, v, e.c.Not(any)})
	}
}

func (e *Eng) keyVal(st *State, k Value) Value { return e.resolve(st, k) }

func (e *Eng) mapGet(st *State, m MapRef, k Value, zero Value) (Value, *Term) {
	if m.obj == 0 {
		return zero, e.c.fls
	}
	o := e.obj(st, m.obj)
	k = e.keyVal(st, k)
	if s, ok := constKey(k); ok && len(o.m.idx) == len(o.m.ents) {
		if i, ok := o.m.idx[s]; ok {
			en := o.m.ents[i]
			return e.mergeVal(en.present, en.val, zero), en.present
		}
		return zero, e.c.fls
	}
	r, ok := zero, e.c.fls
	for i := len(o.m.ents) - 1; i >= 0; i-- {
		en := o.m.ents[i]
		g := e.c.And(en.present, e.equal(st, en.key, k, nil))
		if g.IsFalse() {
			continue
		}
		r = e.mergeVal(g, en.val, r)
		ok = e.c.Or(g, ok)
	}
	return r, ok
}

func (fr *frame) lookup(it *item, x *ssa.Lookup) Value {
	e := fr.e
	v := fr.val(it, x.X)
	if isString(x.X.Type()) {
		return fr.strIndex(it, v, e.to64(fr.val(it, x.Index).(*Term), x.Index.Type()), x.Pos())
	}
	mt := x.X.Type().Underlying().(*types.Map)
	m, ok := e.resolve(it.st, v).(MapRef)
	if !ok {
		panic(engErr(fmt.Sprintf("lookup in %T", v)))
	}
	r, p := e.mapGet(it.st, m, fr.val(it, x.Index), e.zero(mt.Elem()))
	if x.CommaOk {
		return Tuple{r, p}
	}
	return r
}

func (fr *frame) next(it *item, x *ssa.Next) Value {
	e := fr.e
	c := e.c
	tu := fr.val(it, x.Iter).(Tuple)
	ip := tu[0].(Ptr)
	pos := int(e.load(it.st, ip, types.Typ[types.Int]).(*Term).val)
	if x.IsString {
		s := tu[1].(*Str)
		if s.opaque != "" || s.rope != nil {
			panic(engErr("range over opaque string"))
		}
		more := c.Ult(c.Int(pos), s.len)
		mc := e.conc2(it.st, more)
		if !mc {
			return Tuple{c.fls, c.Int(0), c.Const(32, 0)}
		}
		b := s.bytes[pos]
		asc := c.Ult(b, c.Const(8, 0x80))
		if !e.conc2(it.st, asc) {
			// decode through the real utf8 package
			if b.IsConst() {
				n := 1
				var r rune = 0xFFFD
				buf := []byte{}
				for i := pos; i < len(s.bytes) && i < pos+4; i++ {
					if !s.bytes[i].IsConst() {
						break
					}
					buf = append(buf, byte(s.bytes[i].val))
				}
				for i, rr := range string(buf) {
					if i == 0 {
						r = rr
						n = len(string(rr))
						if rr == 0xFFFD {
							n = 1
						}
					}
				}
				e.store(it.st, ip, c.Int(pos+n), nil)
				return Tuple{c.tru, c.Int(pos), c.Const(32, uint64(r))}
			}
			panic(engErr("range over non-ASCII symbolic string"))
		}
		e.store(it.st, ip, c.Int(pos+1), nil)
		return Tuple{c.tru, c.Int(pos), c.Zext(b, 32)}
	}
	m := tu[1].(MapRef)
	if m.obj == 0 {
		return Tuple{c.fls, nilPtr, nilPtr}
	}
	o := e.obj(it.st, m.obj)
	e.note("map iteration explored in insertion order only")
	for pos < len(o.m.ents) {
		en := o.m.ents[pos]
		pos++
		if e.conc2(it.st, en.present) {
			e.store(it.st, ip, c.Int(pos), nil)
			return Tuple{c.tru, en.key, en.val}
		}
	}
	return Tuple{c.fls, e.zero(o.m.kt), e.zero(o.m.vt)}
}

// conc2 decides a boolean, splitting if needed.
func (e *Eng) conc2(st *State, t *Term) bool {
	if t.IsConst() {
		return t.val == 1
	}
	if e.inPC(st, t) {
		return true
	}
	nt := e.c.Not(t)
	if e.inPC(st, nt) {
		return false
	}
	r1, _ := e.query(st, t, false)
	if r1 == 0 {
		return false
	}
	r0, _ := e.query(st, nt, false)
	if r0 == 0 {
		return true
	}
	panic(splitReq{[]*Term{t, nt}})
}

// ---- conversions ----

func (fr *frame) convert(it *item, v Value, from, to types.Type) Value {
	e := fr.e
	if _, ok := v.(Poison); ok {
		return v
	}
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	if _, ok := tu.(*types.TypeParam); ok {
		panic(engErr("convert to type param"))
	}
	switch {
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
		t := v.(*Term)
		w := intWidth(tb)
		if w <= t.w {
			return e.c.Extract(t, 0, w)
		}
		if isSigned(from) {
			return e.c.Sext(t, w)
		}
		return e.c.Zext(t, w)
	case fb != nil && tb != nil && fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
		return v
	case fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsFloat != 0:
		t := v.(*Term)
		if t.IsConst() {
			if isSigned(from) {
				return Float{float64(sext64(t.val, t.w))}
			}
			return Float{float64(t.val)}
		}
		panic(engErr("symbolic int to float"))
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
		return e.c.Const(intWidth(tb), uint64(int64(v.(Float).v)))
	case fb != nil && tb != nil && fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsFloat != 0:
		return v
	case tb != nil && tb.Info()&types.IsString != 0:
		if fb != nil && fb.Info()&types.IsInteger != 0 {
			t := v.(*Term)
			if t.IsConst() {
				return e.constStr(string(rune(sext64(t.val, t.w))))
			}
			panic(engErr("symbolic rune to string"))
		}
		if sl, ok := fu.(*types.Slice); ok && isByte(sl.Elem()) {
			return e.bytesToStr(it.st, v)
		}
		panic(engErr("convert to string from " + from.String()))
	case fb != nil && fb.Info()&types.IsString != 0:
		if sl, ok := tu.(*types.Slice); ok && isByte(sl.Elem()) {
			s := e.resolve(it.st, v).(*Str)
			return e.strToBytes(it.st, s)
		}
		if sl, ok := tu.(*types.Slice); ok {
			s := e.resolve(it.st, v).(*Str)
			if cs, ok := s.constant(); ok {
				rs := []rune(cs)
				id := e.alloc(it.st, sl.Elem(), len(rs), "runes")
				for i, r := range rs {
					e.setSlot(it.st, id, i, e.c.Const(32, uint64(r)))
				}
				n := e.c.Int(len(rs))
				return Slice{obj: id, esz: 1, len: n, cap: n}
			}
		}
		panic(engErr("convert string to " + to.String()))
	}
	// pointers / unsafe.Pointer / uintptr
	switch v.(type) {
	case Ptr, *Union:
		return v
	}
	if types.Identical(fu, tu) {
		return v
	}
	panic(engErr(fmt.Sprintf("convert %s to %s", from, to)))
}

func (e *Eng) bytesToStr(st *State, v Value) Value {
	if u, ok := v.(*Union); ok {
		var r Value
		for i := len(u.alts) - 1; i >= 0; i-- {
			x := e.bytesToStr(st, u.alts[i].v)
			if r == nil {
				r = x
			} else {
				r = e.mergeVal(u.alts[i].g, x, r)
			}
		}
		return r
	}
	s := v.(Slice)
	if s.obj == 0 {
		return e.emptyStr
	}
	if e.isOpaqueBytes(st, s) {
		return e.cacheVals["ob"+e.obj(st, s.obj).tag[7:]]
	}
	if o := e.obj(st, s.obj); o.rope != nil && !(s.len.IsConst() && s.len.val <= 4096) {
		return &Str{rope: e.sliceRope(st, s), len: s.len}
	}
	if bs, ok := e.bytesOf(st, s); ok {
		if len(bs) == 0 {
			return e.emptyStr
		}
		return &Str{bytes: bs, len: s.len}
	}
	r := e.sliceRope(st, s)
	return &Str{bytes: r.segs[0].bytes, len: s.len}
}

func (e *Eng) strToBytes(st *State, s *Str) Value {
	if s.opaque != "" {
		return e.opaqueBytes(st, s)
	}
	if s.rope != nil {
		id := e.allocRope(st, s.rope, "strbytes")
		return Slice{obj: id, esz: 1, len: s.len, cap: s.len}
	}
	if s.len.IsConst() {
		sl := e.newBytes(st, s.bytes[:s.len.val], "strbytes")
		return sl
	}
	sl := e.newBytes(st, s.bytes, "strbytes")
	sl.len = s.len
	sl.cap = s.len
	return sl
}

func (fr *frame) typeAssert(it *item, x *ssa.TypeAssert) Value {
	e := fr.e
	v := e.resolve(it.st, fr.val(it, x.X)).(Iface)
	ok := false
	if v.typ != nil {
		if types.IsInterface(x.AssertedType) {
			if _, isN := v.val.(*Native); isN {
				ok = true
			} else {
				ok = types.Implements(v.typ, x.AssertedType.Underlying().(*types.Interface))
			}
		} else {
			ok = types.Identical(v.typ, x.AssertedType)
		}
	}
	var r Value
	if ok {
		if types.IsInterface(x.AssertedType) {
			r = v
		} else {
			r = v.val
		}
	} else {
		r = e.zero(x.AssertedType)
	}
	if x.CommaOk {
		return Tuple{r, e.c.Bool(ok)}
	}
	if !ok {
		fr.require(it, e.c.fls, "interface conversion", x.Pos())
	}
	return r
}

// ---- calls ----

func (fr *frame) callee(it *item, cc *ssa.CallCommon) (Value, []Value) {
	e := fr.e
	var args []Value
	if cc.IsInvoke() {
		recv := e.resolve(it.st, fr.val(it, cc.Value))
		f, ok := recv.(Iface)
		if !ok {
			panic(engErr(fmt.Sprintf("invoke on %T", recv)))
		}
		if f.typ == nil {
			fr.require(it, e.c.fls, "nil interface method call", cc.Pos())
		}
		if n, ok := f.val.(*Native); ok {
			args = append(args, n)
			for _, a := range cc.Args {
				args = append(args, fr.val(it, a))
			}
			return &Native{kind: "invoke", v: cc.Method.Name()}, args
		}
		if u, ok := f.val.(*Union); ok && f.typ == nativeType {
			args = append(args, u)
			for _, a := range cc.Args {
				args = append(args, fr.val(it, a))
			}
			return &Native{kind: "invoke", v: cc.Method.Name()}, args
		}
		m := e.L.method(f.typ, cc.Method)
		if m == nil {
			panic(engErr(fmt.Sprintf("no method %s on %s", cc.Method.Name(), f.typ)))
		}
		args = append(args, f.val)
		for _, a := range cc.Args {
			args = append(args, fr.val(it, a))
		}
		return &Closure{fn: m}, args
	}
	fv := fr.val(it, cc.Value)
	for _, a := range cc.Args {
		args = append(args, fr.val(it, a))
	}
	return fv, args
}

func (fr *frame) callValue(it *item, cc *ssa.CallCommon, fv Value, args []Value) []Outcome {
	e := fr.e
	fv = e.resolve(it.st, fv)
	switch f := fv.(type) {
	case *Native:
		if f.kind == "builtin" {
			return fr.builtin(it, cc, f.v.(string), args)
		}
		if f.kind == "invoke" {
			return e.nativeInvoke(it.st, args[0], f.v.(string), args[1:])
		}
	case *Closure:
		if f == nil {
			return []Outcome{{st: it.st, panic: "nil function call"}}
		}
		if e.tolerant > 0 {
			return e.tolerantCall(it.st, f, args, cc)
		}
		return e.call(it.st, f.fn, args, f.binds, cc)
	case Poison:
		if e.tolerant > 0 {
			return []Outcome{{st: it.st, ret: f}}
		}
	}
	panic(engErr(fmt.Sprintf("call of %T", fv)))
}

func (e *Eng) tolerantCall(st *State, f *Closure, args []Value, cc *ssa.CallCommon) (outs []Outcome) {
	n := f.fn.Name()
	if strings.HasPrefix(n, "file_") && strings.HasSuffix(n, "_init") {
		return []Outcome{{st: st, ret: nil}}
	}
	depth := e.depth
	keep := st.fork()
	defer func() {
		if r := recover(); r != nil {
			if er, ok := r.(engError); ok {
				e.depth = depth
				if os.Getenv("ENGTOL") != "" {
					fmt.Fprintln(os.Stderr, "tolerated:", f.fn.String(), er.msg)
				}
				outs = []Outcome{{st: keep, ret: e.poisonOf(f.fn.Signature.Results(), er.msg)}}
				return
			}
			panic(r)
		}
	}()
	return e.call(st, f.fn, args, f.binds, cc)
}

func (e *Eng) poisonOf(t *types.Tuple, why string) Value {
	if t.Len() == 0 {
		return nil
	}
	if t.Len() == 1 {
		return Poison{why}
	}
	var tu Tuple
	for i := 0; i < t.Len(); i++ {
		tu = append(tu, Poison{why})
	}
	return tu
}

// global returns the object of a package variable, running the package initialiser first.
func (e *Eng) global(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		if e.inited[g.Pkg] != 0 || strings.HasPrefix(g.Name(), "init$") {
			return id
		}
	}
	e.initPkg(g.Pkg)
	return e.globalObj(g)
}

func (e *Eng) globalObj(g *ssa.Global) int {
	if id, ok := e.globals[g]; ok {
		return id
	}
	st := &State{heap: e.base}
	e.base.own = &owner{} // never equal to a state's owner
	id := e.alloc(st, g.Type().Underlying().(*types.Pointer).Elem(), 1, g.String())
	e.globals[g] = id
	return id
}

func (e *Eng) initPkg(p *ssa.Package) {
	if e.inited[p] != 0 {
		return
	}
	e.inited[p] = 1
	if skipInit[p.Pkg.Path()] {
		return
	}
	e.L.buildPkg(p)
	initFn := p.Func("init")
	if initFn == nil || initFn.Blocks == nil {
		return
	}
	// give all globals an object first
	var names []string
	for n, m := range p.Members {
		if _, ok := m.(*ssa.Global); ok {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		e.globalObj(p.Members[n].(*ssa.Global))
	}
	e.tolerant++
	d := e.depth
	st := &State{heap: newHeap(), model: newModel()}
	var done *Heap
	func() {
		defer func() {
			if r := recover(); r != nil {
				if er, ok := r.(engError); ok {
					e.note("package init of " + p.Pkg.Path() + " incomplete: " + er.msg)
					return
				}
				panic(r)
			}
		}()
		e.initEmbeds(st, p)
		outs := e.call(st, initFn, nil, nil, nil)
		n := 0
		for _, o := range outs {
			if o.panic == "" {
				done = o.st.heap
				n++
			}
		}
		if n != 1 {
			why := ""
			for _, o := range outs {
				if o.panic != "" {
					why = " (" + o.panic + " at " + o.where + ")"
				}
			}
			e.note(fmt.Sprintf("package init of %s: %d outcomes%s", p.Pkg.Path(), n, why))
		}
	}()
	if done == nil {
		done = st.heap
	}
	diffHeaps(done, newHeap(), func(x, _ *Object) {
		o := *x
		o.own = nil
		o.chunks = append([]*chunk(nil), x.chunks...)
		for i, c := range o.chunks {
			if c != nil {
				o.chunks[i] = &chunk{vals: c.vals}
			}
		}
		e.base.put(&o)
	})
	e.tolerant--
	e.depth = d
	e.inited[p] = 2
}

var skipInit = map[string]bool{
	"runtime": true, "os": true, "reflect": true, "net/http": true, "net": true, "crypto/tls": true, "syscall": true, "internal/poll": true,
	"google.golang.org/protobuf/internal/impl": true, "crypto/rand": true, "internal/cpu": true, "internal/godebug": true,
	"golang.org/x/sys/cpu": true, "fmt": true,
}

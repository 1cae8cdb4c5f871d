package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Model is an assignment to variables, array cells and uninterpreted function
// applications. Missing entries are zero.
type Model struct {
	vals map[*Term]uint64            // OVar (non array)
	arrs map[*Term]map[uint64]uint64 // array vars
	ufs  map[string]uint64           // "name|v1|v2"
	memo map[*Term]uint64
}

func newModel() *Model {
	return &Model{vals: map[*Term]uint64{}, arrs: map[*Term]map[uint64]uint64{}, ufs: map[string]uint64{}}
}

func ufKey(name string, args []uint64) string {
	var sb strings.Builder
	sb.WriteString(name)
	for _, a := range args {
		sb.WriteByte('|')
		sb.WriteString(strconv.FormatUint(a, 16))
	}
	return sb.String()
}

func (m *Model) Eval(t *Term) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.op == OVar {
		return m.vals[t]
	}
	if m.memo == nil {
		m.memo = map[*Term]uint64{}
	}
	return m.eval(t)
}

func (m *Model) eval(t *Term) uint64 {
	switch t.op {
	case OConst:
		return t.val
	case OVar:
		return m.vals[t]
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	var r uint64
	switch t.op {
	case OIte:
		if m.eval(t.a) != 0 {
			r = m.eval(t.b)
		} else {
			r = m.eval(t.c)
		}
	case OAnd:
		r = 0
		if m.eval(t.a) != 0 {
			r = m.eval(t.b)
		}
	case OOr:
		r = 1
		if m.eval(t.a) == 0 {
			r = m.eval(t.b)
		}
	case OSelect:
		r = m.evalSel(t.a, m.eval(t.b))
	case OUF:
		as := make([]uint64, len(t.args))
		for i, a := range t.args {
			as[i] = m.eval(a)
		}
		r = m.ufs[ufKey(t.name, as)]
	default:
		var x, y uint64
		x = m.eval(t.a)
		if t.b != nil {
			y = m.eval(t.b)
		}
		r = evalOp(t, x, y, 0)
	}
	m.memo[t] = r
	return r
}

func (m *Model) evalSel(arr *Term, idx uint64) uint64 {
	for {
		switch arr.op {
		case OStore:
			if m.eval(arr.b) == idx {
				return m.eval(arr.c)
			}
			arr = arr.a
		case OIte:
			if m.eval(arr.a) != 0 {
				arr = arr.b
			} else {
				arr = arr.c
			}
		case OVar:
			return m.arrs[arr][idx]
		default:
			panic("evalSel")
		}
	}
}

type Stats struct {
	Queries, Sat, Unsat, Unknown  int
	CacheHits, DomHits, ModelHits int
	SolverTime                    time.Duration
	Fresh, AbsMul, LIA            int
}

type Solver struct {
	c        *Ctx
	cmd      *exec.Cmd
	in       *bufio.Writer
	inPipe   io.WriteCloser
	out      *bufio.Reader
	gen      int
	stats    Stats
	cache    map[string]*qres
	timeout  int // ms
	deadline time.Time
	started  time.Time
	killed   bool
	log      io.Writer
	emitted  map[*Term]bool
	nEmit    int
	ufDecl   map[string]bool
	absMul   bool // products of unknowns are fresh bounded variables (sound for unsat)
	abs      *Solver
	noMul    map[*Term]bool
	lia      *liaProc
}

type qres struct {
	res   int // 1 sat, 0 unsat, -1 unknown
	model *Model
}

func NewSolver(c *Ctx) *Solver {
	s := &Solver{c: c, cache: map[string]*qres{}, timeout: 3000}
	return s
}

func (s *Solver) start() {
	s.stop()
	cmd := exec.Command("z3-new", "-in", "-smt2")
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	s.cmd, s.inPipe, s.in, s.out = cmd, in, bufio.NewWriterSize(in, 1<<20), bufio.NewReaderSize(out, 1<<20)
	s.emitted = map[*Term]bool{}
	s.ufDecl = map[string]bool{}
	s.nEmit = 0
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :timeout %d)\n", s.timeout)
}

func (s *Solver) stop() {
	if s.lia != nil {
		s.lia.in.Close()
		s.lia.cmd.Process.Kill()
		s.lia.cmd.Wait()
		s.lia = nil
	}
	if s.cmd != nil {
		s.inPipe.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortName(w uint8) string {
	switch w {
	case 0:
		return "Bool"
	case arrW:
		return "(Array (_ BitVec 64) (_ BitVec 8))"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func varName(t *Term) string { return fmt.Sprintf("v%d", t.varID) }

func constStr(t *Term) string {
	if t.w == 0 {
		if t.val == 1 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", t.val, t.w)
}

// emit writes definitions for t (post-order) to w and returns its reference.
func emit(w *bufio.Writer, t *Term, done map[*Term]bool, ufDecl map[string]bool, c *Ctx, absMul bool) string {
	ref := func(x *Term) string {
		switch x.op {
		case OConst:
			return constStr(x)
		case OVar:
			return varName(x)
		}
		return fmt.Sprintf("t%d", x.id)
	}
	if t.op == OConst {
		return ref(t)
	}
	type fr struct {
		t *Term
		i int
	}
	kids := func(x *Term) []*Term {
		if x.op == OUF {
			return x.args
		}
		var k []*Term
		for _, s := range []*Term{x.a, x.b, x.c} {
			if s != nil {
				k = append(k, s)
			}
		}
		return k
	}
	stack := []fr{{t, 0}}
	for len(stack) > 0 {
		f := &stack[len(stack)-1]
		x := f.t
		if x.op == OConst || done[x] {
			stack = stack[:len(stack)-1]
			continue
		}
		if x.op == OVar {
			fmt.Fprintf(w, "(declare-const %s %s)\n", varName(x), sortName(x.w))
			done[x] = true
			stack = stack[:len(stack)-1]
			continue
		}
		ks := kids(x)
		if f.i < len(ks) {
			k := ks[f.i]
			f.i++
			if k.op != OConst && !done[k] {
				stack = append(stack, fr{k, 0})
			}
			continue
		}
		done[x] = true
		if x.op == OUF && !ufDecl[x.name] {
			ufDecl[x.name] = true
			sig := c.ufs[x.name]
			fmt.Fprintf(w, "(declare-fun uf_%s (", x.name)
			for _, a := range sig[:len(sig)-1] {
				fmt.Fprintf(w, "%s ", sortName(a))
			}
			fmt.Fprintf(w, ") %s)\n", sortName(sig[len(sig)-1]))
		}
		if absMul && x.op == OMul && x.a.op != OConst && x.b.op != OConst {
			if b, ok := mulBound(x); ok {
				r, p, q := ref(x), ref(x.a), ref(x.b)
				fmt.Fprintf(w, "(declare-const t%d %s)\n", x.id, sortName(x.w))
				fmt.Fprintf(w, "(assert (bvule %s (_ bv%d %d)))\n", r, b, x.w)
				zero := fmt.Sprintf("(_ bv0 %d)", x.w)
				fmt.Fprintf(w, "(assert (ite (or (= %s %s) (= %s %s)) (= %s %s) (and (bvule %s %s) (bvule %s %s))))\n", p, zero, q, zero, r, zero, p, r, q, r)
				stack = stack[:len(stack)-1]
				continue
			}
		}
		fmt.Fprintf(w, "(define-fun t%d () %s ", x.id, sortName(x.w))
		switch x.op {
		case OExtract:
			fmt.Fprintf(w, "((_ extract %d %d) %s)", int(x.val)+int(x.w)-1, x.val, ref(x.a))
		case OZext:
			fmt.Fprintf(w, "((_ zero_extend %d) %s)", x.w-x.a.w, ref(x.a))
		case OSext:
			fmt.Fprintf(w, "((_ sign_extend %d) %s)", x.w-x.a.w, ref(x.a))
		case OUF:
			if len(ks) == 0 {
				fmt.Fprintf(w, "uf_%s", x.name)
			} else {
				fmt.Fprintf(w, "(uf_%s", x.name)
				for _, k := range ks {
					w.WriteByte(' ')
					w.WriteString(ref(k))
				}
				w.WriteByte(')')
			}
		default:
			w.WriteByte('(')
			w.WriteString(opNames[x.op])
			for _, k := range ks {
				w.WriteByte(' ')
				w.WriteString(ref(k))
			}
			w.WriteByte(')')
		}
		w.WriteString(")\n")
		stack = stack[:len(stack)-1]
	}
	return ref(t)
}

// leaves collects variables, selects and UF applications of the conjunction.
func leaves(ts []*Term) (vars, sels, ufs []*Term) {
	seen := map[*Term]bool{}
	stack := append([]*Term{}, ts...)
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if x == nil || seen[x] || x.op == OConst {
			continue
		}
		seen[x] = true
		switch x.op {
		case OVar:
			if x.w != arrW {
				vars = append(vars, x)
			}
			continue
		case OSelect:
			sels = append(sels, x)
		case OUF:
			ufs = append(ufs, x)
			stack = append(stack, x.args...)
			continue
		}
		stack = append(stack, x.a, x.b, x.c)
	}
	return
}

func (s *Solver) readSexp(r *bufio.Reader) (string, error) {
	var sb strings.Builder
	depth := 0
	started := false
	for {
		b, err := r.ReadByte()
		if err != nil {
			return sb.String(), err
		}
		if !started && (b == ' ' || b == '\n' || b == '\r' || b == '\t') {
			continue
		}
		started = true
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
		}
		if depth == 0 && (b == '\n') {
			return strings.TrimSpace(sb.String()), nil
		}
		sb.WriteByte(b)
		if depth == 0 && b == ')' {
			return sb.String(), nil
		}
	}
}

func parseVal(tok string) (uint64, bool) {
	switch {
	case tok == "true":
		return 1, true
	case tok == "false":
		return 0, true
	case strings.HasPrefix(tok, "#x"):
		v, err := strconv.ParseUint(tok[2:], 16, 64)
		return v, err == nil
	case strings.HasPrefix(tok, "#b"):
		v, err := strconv.ParseUint(tok[2:], 2, 64)
		return v, err == nil
	}
	return 0, false
}

// parseValues reads "((a v) (b v) ...)" with v literals; a may be any sexp-free symbol.
func parseValues(s string) []uint64 {
	var out []uint64
	s = strings.ReplaceAll(s, "(", " ( ")
	s = strings.ReplaceAll(s, ")", " ) ")
	toks := strings.Fields(s)
	// each pair: ( sym val )
	i := 1
	for i < len(toks) && toks[i] == "(" {
		// symbol may be "t12"/"v3"
		j := i + 2
		if toks[j] == "(" { // (_ bvN w)
			v, _ := strconv.ParseUint(strings.TrimPrefix(toks[j+2], "bv"), 10, 64)
			out = append(out, v)
			for toks[j] != ")" {
				j++
			}
			i = j + 2
			continue
		}
		v, ok := parseVal(toks[j])
		if !ok {
			panic("parseValues: " + s)
		}
		out = append(out, v)
		i = j + 2
	}
	return out
}

func (s *Solver) buildModel(get func([]string) ([]uint64, bool), vars, sels, ufs []*Term) *Model {
	m := newModel()
	var names []string
	for _, v := range vars {
		names = append(names, varName(v))
	}
	type selq struct{ t, arr, idx *Term }
	for _, t := range sels {
		names = append(names, fmt.Sprintf("t%d", t.id))
	}
	for _, t := range ufs {
		names = append(names, fmt.Sprintf("t%d", t.id))
	}
	if len(names) == 0 {
		return m
	}
	vals, ok := get(names)
	if !ok || len(vals) != len(names) {
		return nil
	}
	k := 0
	for _, v := range vars {
		m.vals[v] = vals[k]
		k++
	}
	direct := map[*Term]uint64{}
	for _, t := range sels {
		direct[t] = vals[k]
		k++
	}
	for _, t := range ufs {
		direct[t] = vals[k]
		k++
	}
	// populate memo with the direct values so that index evaluation is consistent
	m.memo = map[*Term]uint64{}
	for t, v := range direct {
		m.memo[t] = v
	}
	for _, t := range sels {
		idx := m.Eval(t.b)
		arr := t.a
		for {
			if arr.op == OStore {
				if m.Eval(arr.b) == idx {
					arr = nil
					break
				}
				arr = arr.a
			} else if arr.op == OIte {
				if m.Eval(arr.a) != 0 {
					arr = arr.b
				} else {
					arr = arr.c
				}
			} else {
				break
			}
		}
		if arr != nil {
			mm := m.arrs[arr]
			if mm == nil {
				mm = map[uint64]uint64{}
				m.arrs[arr] = mm
			}
			mm[idx] = direct[t]
		}
	}
	for _, t := range ufs {
		as := make([]uint64, len(t.args))
		for i, a := range t.args {
			as[i] = m.Eval(a)
		}
		m.ufs[ufKey(t.name, as)] = direct[t]
	}
	m.memo = nil
	return m
}

// Check decides the conjunction; final selects the slow fallback on timeout.
func (s *Solver) Check(conj []*Term, final bool) (int, *Model) {
	var key strings.Builder
	for _, t := range conj {
		if t.IsFalse() {
			return 0, nil
		}
		fmt.Fprintf(&key, "%d,", t.id)
	}
	k := key.String()
	if r, ok := s.cache[k]; ok && (r.res >= 0 || !final) {
		s.stats.CacheHits++
		return r.res, r.model
	}
	t0 := time.Now()
	res, m := -1, (*Model)(nil)
	if pastDeadline(s.deadline, s.started) {
		panic(timeoutErr{})
	}
	if s.hasMuls(conj) {
		if s.abs == nil {
			s.abs = NewSolver(s.c)
			s.abs.absMul = true
			s.abs.timeout = s.timeout
		}
		s.abs.deadline, s.abs.started = s.deadline, s.started
		if s.checkLIA(conj) {
			res = 0
			s.stats.LIA++
		}
		if ms := s.muls(conj); res < 0 && len(ms) > 0 {
			// a model is easier to find where the first factors are zero or one
			ext := append([]*Term{}, conj...)
			for _, x := range ms {
				ext = append(ext, s.c.Ule(x.a, s.c.Const(x.a.w, 1)))
			}
			sort.Slice(ext, func(i, j int) bool { return ext[i].id < ext[j].id })
			if r, mm := s.checkInc(ext); r == 1 {
				res, m = 1, mm
			}
		}
		if res < 0 {
			if r, _ := s.abs.checkInc(conj); r == 0 {
				res = 0
				s.stats.AbsMul++
			}
		}
	}
	if res < 0 {
		res, m = s.checkInc(conj)
	}
	if res < 0 && !s.hasMuls(conj) && s.checkLIA(conj) {
		res = 0
		s.stats.LIA++
	}
	if res < 0 && os.Getenv("VDUMP") != "" {
		s.dump(conj, fmt.Sprintf("%s/q%d", os.Getenv("VDUMP"), s.stats.Queries))
	}
	if res < 0 && final {
		sec := finalTimeout
		if !s.deadline.IsZero() {
			sec = min(sec, int(time.Until(s.deadline).Seconds())+1)
		}
		if sec > 0 {
			res, m = s.checkFresh(conj, sec)
		}
	}
	d := time.Since(t0)
	s.stats.SolverTime += d
	if s.log != nil && d > 500*time.Millisecond {
		fmt.Fprintf(s.log, "slow query %v res=%d conj=%d\n", d, res, len(conj))
	}
	s.stats.Queries++
	switch res {
	case 1:
		s.stats.Sat++
	case 0:
		s.stats.Unsat++
	default:
		s.stats.Unknown++
	}
	if m != nil {
		for _, t := range conj {
			if m.Eval(t) != 1 {
				fmt.Fprintf(os.Stderr, "MODEL CHECK FAILED: %s\n", t.String())
				m.memo = nil
				panic("model check failed")
			}
		}
		m.memo = nil
	}
	s.cache[k] = &qres{res, m}
	return res, m
}

var finalTimeout = 60

func (s *Solver) checkInc(conj []*Term) (int, *Model) {
	if s.cmd == nil || s.nEmit > 400000 {
		s.start()
	}
	n0 := len(s.emitted)
	refs := make([]string, len(conj))
	for i, t := range conj {
		refs[i] = emit(s.in, t, s.emitted, s.ufDecl, s.c, s.absMul)
	}
	s.nEmit += len(s.emitted) - n0
	s.in.WriteString("(push)\n")
	for _, r := range refs {
		fmt.Fprintf(s.in, "(assert %s)\n", r)
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	// z3 does not always heed its own timeout
	proc := s.cmd.Process
	watch := time.AfterFunc(time.Duration(3*s.timeout+2000)*time.Millisecond, func() { proc.Kill() })
	defer watch.Stop()
	line, err := s.readLine()
	if err != nil {
		s.start()
		return -1, nil
	}
	res := -1
	var m *Model
	switch line {
	case "sat":
		if s.absMul {
			break
		}
		res = 1
		vars, sels, ufs := leaves(conj)
		m = s.buildModel(func(names []string) ([]uint64, bool) {
			var all []uint64
			for len(names) > 0 {
				n := min(len(names), 500)
				fmt.Fprintf(s.in, "(get-value (%s))\n", strings.Join(names[:n], " "))
				s.in.Flush()
				sx, err := s.readSexp(s.out)
				if err != nil {
					return nil, false
				}
				all = append(all, parseValues(sx)...)
				names = names[n:]
			}
			return all, true
		}, vars, sels, ufs)
		if m == nil {
			res = -1
		}
	case "unsat":
		res = 0
	case "unknown", "timeout":
	default:
		fmt.Fprintf(os.Stderr, "solver said: %s\n", line)
		s.stop()
		return -1, nil
	}
	s.in.WriteString("(pop)\n")
	return res, m
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l, nil
		}
	}
}

// checkFresh decides a query in fresh solver processes (z3-new and cvc5 in parallel, then first answer).
func (s *Solver) checkFresh(conj []*Term, seconds int) (int, *Model) {
	s.stats.Fresh++
	f, err := os.CreateTemp("", "vq*.smt2")
	if err != nil {
		return -1, nil
	}
	defer os.Remove(f.Name())
	w := bufio.NewWriter(f)
	w.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	done := map[*Term]bool{}
	uf := map[string]bool{}
	for _, t := range conj {
		r := emit(w, t, done, uf, s.c, false)
		fmt.Fprintf(w, "(assert %s)\n", r)
	}
	w.WriteString("(check-sat)\n")
	vars, sels, ufs := leaves(conj)
	var names []string
	for _, v := range vars {
		names = append(names, varName(v))
	}
	for _, t := range append(append([]*Term{}, sels...), ufs...) {
		names = append(names, fmt.Sprintf("t%d", t.id))
	}
	if len(names) > 0 {
		fmt.Fprintf(w, "(get-value (%s))\n", strings.Join(names, " "))
	}
	w.Flush()
	f.Close()
	type ans struct {
		out string
		who int
	}
	cmds := []*exec.Cmd{
		exec.Command("z3-new", "-T:"+strconv.Itoa(seconds), f.Name()),
		exec.Command("cvc5", "--tlimit="+strconv.Itoa(seconds*1000), f.Name()),
	}
	ch := make(chan ans, len(cmds))
	for i, cm := range cmds {
		go func() {
			o, _ := cm.Output()
			ch <- ans{string(o), i}
		}()
	}
	res := -1
	var m *Model
	for range cmds {
		a := <-ch
		line, rest, _ := strings.Cut(a.out, "\n")
		line = strings.TrimSpace(line)
		if line == "unsat" {
			res = 0
			break
		}
		if line == "sat" {
			m = s.buildModel(func([]string) ([]uint64, bool) { return parseValues(strings.TrimSpace(rest)), true }, vars, sels, ufs)
			if m != nil {
				res = 1
				break
			}
		}
	}
	for _, cm := range cmds {
		if cm.Process != nil {
			cm.Process.Kill()
		}
	}
	return res, m
}

// ubound is an upper bound of t.
func ubound(t *Term) uint64 {
	full := ^uint64(0)
	if t.w < 64 {
		full = 1<<t.w - 1
	}
	switch t.op {
	case OConst:
		return t.val
	case OZext:
		return ubound(t.a)
	case OConcat:
		if t.a.op == OConst && t.a.val == 0 {
			return ubound(t.b)
		}
	case OBAnd:
		return min(ubound(t.a), ubound(t.b))
	}
	return full
}

// mulBound is an upper bound of a product that cannot overflow.
func mulBound(t *Term) (uint64, bool) {
	a, b := ubound(t.a), ubound(t.b)
	if a >= 1<<32 || b >= 1<<31 {
		return 0, false
	}
	p := a * b
	return p, t.w == 64 || p < 1<<t.w
}

// hasMuls tells whether a conjunction contains products of unknowns.
func (s *Solver) hasMuls(ts []*Term) bool {
	if s.noMul == nil {
		s.noMul = map[*Term]bool{}
	}
	var walk func(x *Term) bool
	walk = func(x *Term) bool {
		if x == nil || x.op == OConst || x.op == OVar || s.noMul[x] {
			return false
		}
		if x.op == OMul && x.a.op != OConst && x.b.op != OConst {
			return true
		}
		if walk(x.a) || walk(x.b) || walk(x.c) {
			return true
		}
		for _, a := range x.args {
			if walk(a) {
				return true
			}
		}
		s.noMul[x] = true
		return false
	}
	for _, t := range ts {
		if walk(t) {
			return true
		}
	}
	return false
}

// muls lists the products of unknowns in a conjunction.
func (s *Solver) muls(ts []*Term) (out []*Term) {
	seen := map[*Term]bool{}
	var walk func(x *Term)
	walk = func(x *Term) {
		if x == nil || x.op == OConst || x.op == OVar || s.noMul[x] || seen[x] {
			return
		}
		seen[x] = true
		if x.op == OMul && x.a.op != OConst && x.b.op != OConst {
			out = append(out, x)
		}
		walk(x.a)
		walk(x.b)
		walk(x.c)
		for _, a := range x.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return
}

func (s *Solver) dump(conj []*Term, name string) {
	for _, abs := range []bool{false, true} {
		n := name + ".smt2"
		if abs {
			n = name + "a.smt2"
		}
		f, err := os.Create(n)
		if err != nil {
			return
		}
		w := bufio.NewWriter(f)
		w.WriteString("(set-logic ALL)\n")
		done, uf := map[*Term]bool{}, map[string]bool{}
		for _, t := range conj {
			fmt.Fprintf(w, "(assert %s)\n", emit(w, t, done, uf, s.c, abs))
		}
		w.WriteString("(check-sat)\n")
		w.Flush()
		f.Close()
	}
}

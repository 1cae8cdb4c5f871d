package main

import (
	"golang.org/x/tools/go/ssa"
)

// FnInfo caches per-function numbering, liveness and loop structure.
type FnInfo struct {
	fn    *ssa.Function
	num   map[ssa.Value]int
	n     int
	live  []([]int) // per block: registers live at entry (after phis)
	pos   []int     // WTO position per block
	comps [][]int   // per block: chain of component heads (block index), outermost first
	errIx []int
}

func (e *Eng) info(fn *ssa.Function) *FnInfo {
	if fi, ok := e.fninfo[fn]; ok {
		return fi
	}
	fi := &FnInfo{fn: fn, num: map[ssa.Value]int{}}
	add := func(v ssa.Value) {
		if _, ok := fi.num[v]; !ok {
			fi.num[v] = fi.n
			fi.n++
		}
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, f := range fn.FreeVars {
		add(f)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.liveness()
	fi.wto()
	e.fninfo[fn] = fi
	return fi
}

func (fi *FnInfo) liveness() {
	nb := len(fi.fn.Blocks)
	words := (fi.n + 63) / 64
	in := make([][]uint64, nb)
	for i := range in {
		in[i] = make([]uint64, words)
	}
	// live-in here: registers needed at block entry after phi assignment, including the phis of the block.
	changed := true
	var ops []*ssa.Value
	for changed {
		changed = false
		for bi := nb - 1; bi >= 0; bi-- {
			b := fi.fn.Blocks[bi]
			live := make([]uint64, words)
			for _, s := range b.Succs {
				// successor live-in minus its phis (defined on the edge)
				tmp := append([]uint64(nil), in[s.Index]...)
				for _, instr := range s.Instrs {
					phi, ok := instr.(*ssa.Phi)
					if !ok {
						break
					}
					k := fi.num[phi]
					tmp[k/64] &^= 1 << (k % 64)
				}
				for w := range live {
					live[w] |= tmp[w]
				}
			}
			for _, s := range b.Succs {
				for _, instr := range s.Instrs {
					phi, ok := instr.(*ssa.Phi)
					if !ok {
						break
					}
					for pi, p := range s.Preds {
						if p == b {
							if n, ok := fi.num[phi.Edges[pi]]; ok {
								live[n/64] |= 1 << (n % 64)
							}
						}
					}
				}
			}
			for ii := len(b.Instrs) - 1; ii >= 0; ii-- {
				instr := b.Instrs[ii]
				if _, ok := instr.(*ssa.Phi); ok {
					// phi results stay live at entry when used (they are registers set on the edge)
					continue
				}
				if v, ok := instr.(ssa.Value); ok {
					n := fi.num[v]
					live[n/64] &^= 1 << (n % 64)
				}
				ops = instr.Operands(ops[:0])
				for _, o := range ops {
					if *o == nil {
						continue
					}
					if n, ok := fi.num[*o]; ok {
						live[n/64] |= 1 << (n % 64)
					}
				}
			}
			for w := range live {
				if live[w] != in[bi][w] {
					in[bi] = live
					changed = true
					break
				}
			}
		}
	}
	fi.live = make([][]int, nb)
	for bi := range in {
		for k := 0; k < fi.n; k++ {
			if in[bi][k/64]>>(k%64)&1 == 1 {
				fi.live[bi] = append(fi.live[bi], k)
			}
		}
	}
}

// wto computes Bourdoncle's weak topological order.
func (fi *FnInfo) wto() {
	nb := len(fi.fn.Blocks)
	fi.pos = make([]int, nb)
	fi.comps = make([][]int, nb)
	if nb == 0 {
		return
	}
	dfn := make([]int, nb)
	const inf = 1 << 30
	num := 0
	var stack []int
	type elem struct {
		b    int
		comp []elem // non nil for component with head b
		is   bool
	}
	var visit func(v int, part *[]elem) int
	var component func(v int) elem
	component = func(v int) elem {
		var part []elem
		for _, s := range fi.fn.Blocks[v].Succs {
			if dfn[s.Index] == 0 {
				visit(s.Index, &part)
			}
		}
		return elem{b: v, comp: part, is: true}
	}
	visit = func(v int, part *[]elem) int {
		stack = append(stack, v)
		num++
		dfn[v] = num
		head := dfn[v]
		loop := false
		for _, s := range fi.fn.Blocks[v].Succs {
			var m int
			if dfn[s.Index] == 0 {
				m = visit(s.Index, part)
			} else {
				m = dfn[s.Index]
			}
			if m <= head {
				head = m
				loop = true
			}
		}
		if head == dfn[v] {
			dfn[v] = inf
			el := stack[len(stack)-1]
			stack = stack[:len(stack)-1]
			if loop {
				for el != v {
					dfn[el] = 0
					el = stack[len(stack)-1]
					stack = stack[:len(stack)-1]
				}
				*part = append([]elem{component(v)}, *part...)
			} else {
				*part = append([]elem{{b: v}}, *part...)
			}
		}
		return head
	}
	var top []elem
	visit(0, &top)
	if r := fi.fn.Recover; r != nil && dfn[r.Index] == 0 {
		visit(r.Index, &top)
	}
	p := 0
	var walk func(es []elem, chain []int)
	walk = func(es []elem, chain []int) {
		for _, el := range es {
			if el.is {
				c := append(append([]int(nil), chain...), el.b)
				fi.pos[el.b] = p
				p++
				fi.comps[el.b] = c
				walk(el.comp, c)
			} else {
				fi.pos[el.b] = p
				p++
				fi.comps[el.b] = chain
			}
		}
	}
	walk(top, nil)
}

func inChain(chain []int, h int) int {
	for i, x := range chain {
		if x == h {
			return i
		}
	}
	return -1
}

// edge computes iteration counters for the jump from u (with counters it) to v.
func (fi *FnInfo) edge(u, v int, it []int) []int {
	cu, cv := fi.comps[u], fi.comps[v]
	out := make([]int, len(cv))
	n := 0
	for n < len(cu) && n < len(cv) && cu[n] == cv[n] {
		out[n] = it[n]
		n++
	}
	if n == len(cv) && n > 0 && cv[n-1] == v {
		// back edge to the head of a component containing u (or continue)
		out[n-1]++
	}
	return out
}

func (fi *FnInfo) key(b int, it []int) []int {
	k := make([]int, 0, 2*len(it)+1)
	for i, h := range fi.comps[b] {
		k = append(k, fi.pos[h], it[i])
	}
	return append(k, fi.pos[b])
}

func cmpKey(a, b []int) int {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			if a[i] < b[i] {
				return -1
			}
			return 1
		}
	}
	return len(a) - len(b)
}

package main

import (
	"golang.org/x/tools/go/ssa"
)

// fnInfo holds per-function data: register numbering, a weak topological
// order of the blocks (so that states meet before they move on), loop nesting
// and liveness.
type fnInfo struct {
	fn     *ssa.Function
	id     int32
	reg    map[ssa.Value]int
	nreg   int
	pos    []int32        // block index -> position in the WTO
	loops  [][]int        // block index -> enclosing loop headers (block indices), outermost first
	inL    []map[int]bool // header -> set of blocks (nil when not a header)
	liveIn []bitset
	liveAt map[[2]int]bitset
}

type bitset []uint64

func newBitset(n int) bitset    { return make(bitset, (n+63)/64) }
func (b bitset) has(i int) bool { return b[i/64]&(1<<(i%64)) != 0 }
func (b bitset) set(i int)      { b[i/64] |= 1 << (i % 64) }
func (b bitset) clear(i int)    { b[i/64] &^= 1 << (i % 64) }
func (b bitset) clone() bitset  { return append(bitset(nil), b...) }
func (b bitset) or(o bitset) bool {
	ch := false
	for i := range b {
		n := b[i] | o[i]
		if n != b[i] {
			b[i] = n
			ch = true
		}
	}
	return ch
}

func (e *Engine) info(fn *ssa.Function) *fnInfo {
	if fi, ok := e.infos[fn]; ok {
		return fi
	}
	fi := &fnInfo{fn: fn, id: int32(len(e.infos)), reg: map[ssa.Value]int{}, liveAt: map[[2]int]bitset{}}
	add := func(v ssa.Value) {
		fi.reg[v] = fi.nreg
		fi.nreg++
	}
	for _, p := range fn.Params {
		add(p)
	}
	for _, p := range fn.FreeVars {
		add(p)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	n := len(fn.Blocks)
	fi.pos = make([]int32, n)
	fi.loops = make([][]int, n)
	fi.inL = make([]map[int]bool, n)
	if n > 0 {
		fi.wto()
		fi.liveness()
	}
	e.infos[fn] = fi
	return fi
}

// wto computes Bourdoncle's weak topological ordering.
func (fi *fnInfo) wto() {
	n := len(fi.fn.Blocks)
	succs := func(i int) []int {
		var r []int
		for _, s := range fi.fn.Blocks[i].Succs {
			r = append(r, s.Index)
		}
		return r
	}
	next := int32(0)
	var component func(set map[int]bool, entry []int, stack []int)
	component = func(set map[int]bool, roots []int, enclosing []int) {
		// SCCs of the subgraph `set`, in topological order.
		index := map[int]int{}
		low := map[int]int{}
		on := map[int]bool{}
		var st []int
		cnt := 0
		var sccs [][]int
		var visit func(v int)
		visit = func(v int) {
			cnt++
			index[v], low[v] = cnt, cnt
			st = append(st, v)
			on[v] = true
			for _, w := range succs(v) {
				if !set[w] {
					continue
				}
				if index[w] == 0 {
					visit(w)
					low[v] = min(low[v], low[w])
				} else if on[w] {
					low[v] = min(low[v], index[w])
				}
			}
			if low[v] == index[v] {
				var c []int
				for {
					w := st[len(st)-1]
					st = st[:len(st)-1]
					on[w] = false
					c = append(c, w)
					if w == v {
						break
					}
				}
				sccs = append(sccs, c)
			}
		}
		for _, r := range roots {
			if set[r] && index[r] == 0 {
				visit(r)
			}
		}
		for v := 0; v < n; v++ {
			if set[v] && index[v] == 0 {
				visit(v)
			}
		}
		for i := len(sccs) - 1; i >= 0; i-- {
			c := sccs[i]
			self := false
			if len(c) == 1 {
				for _, w := range succs(c[0]) {
					if w == c[0] {
						self = true
					}
				}
				if !self {
					fi.pos[c[0]] = next
					next++
					fi.loops[c[0]] = enclosing
					continue
				}
			}
			// header: the SCC root (first visited)
			h := c[len(c)-1]
			in := map[int]bool{}
			for _, v := range c {
				in[v] = true
			}
			fi.inL[h] = in
			enc := append(append([]int(nil), enclosing...), h)
			fi.pos[h] = next
			next++
			fi.loops[h] = enc
			rest := map[int]bool{}
			for v := range in {
				if v != h {
					rest[v] = true
				}
			}
			component(rest, succs(h), enc)
		}
	}
	all := map[int]bool{}
	for i := 0; i < n; i++ {
		all[i] = true
	}
	component(all, []int{0}, nil)
}

func (fi *fnInfo) uses(in ssa.Instruction, b bitset) {
	var ops [16]*ssa.Value
	for _, o := range in.Operands(ops[:0]) {
		if *o == nil {
			continue
		}
		if r, ok := fi.reg[*o]; ok {
			b.set(r)
		}
	}
}

func (fi *fnInfo) liveness() {
	n := len(fi.fn.Blocks)
	fi.liveIn = make([]bitset, n)
	for i := range fi.liveIn {
		fi.liveIn[i] = newBitset(fi.nreg)
	}
	for changed := true; changed; {
		changed = false
		for i := n - 1; i >= 0; i-- {
			l := fi.liveBefore(i, 0)
			if fi.liveIn[i].or(l) {
				changed = true
			}
		}
	}
}

// liveBefore computes the registers live just before instruction ip of block
// bi. Phis of bi itself are treated as already evaluated (their results are
// live if used), and phi operands count as uses at the end of predecessors.
func (fi *fnInfo) liveBefore(bi, ip int) bitset {
	b := fi.fn.Blocks[bi]
	l := newBitset(fi.nreg)
	for _, s := range b.Succs {
		sl := fi.liveIn[s.Index].clone()
		pi := -1
		for k, p := range s.Preds {
			if p == b {
				pi = k
			}
		}
		var phis []*ssa.Phi
		for _, in := range s.Instrs {
			if ph, ok := in.(*ssa.Phi); ok {
				phis = append(phis, ph)
			} else {
				break
			}
		}
		for _, ph := range phis {
			sl.clear(fi.reg[ph])
		}
		for _, ph := range phis {
			// a block may occur twice among the predecessors
			for k, p := range s.Preds {
				if p == b {
					if r, ok := fi.reg[ph.Edges[k]]; ok {
						sl.set(r)
					}
				}
			}
		}
		_ = pi
		l.or(sl)
	}
	for k := len(b.Instrs) - 1; k >= ip; k-- {
		in := b.Instrs[k]
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		if v, ok := in.(ssa.Value); ok {
			if _, isRange := in.(*ssa.Range); !isRange {
				l.clear(fi.reg[v])
			} else {
				l.clear(fi.reg[v])
			}
		}
		fi.uses(in, l)
	}
	return l
}

func (fi *fnInfo) live(bi, ip int) bitset {
	k := [2]int{bi, ip}
	if b, ok := fi.liveAt[k]; ok {
		return b
	}
	b := fi.liveBefore(bi, ip)
	fi.liveAt[k] = b
	return b
}

package main

import (
	"fmt"
	"math/bits"
	"math/rand"
)

// selftest compares the simplifying term constructors with direct evaluation
// on random terms and inputs. It validates the tool, not the code under test.
func selftest(seed int64, rounds int) int {
	bad := 0
	for r := 0; r < rounds && bad < 5; r++ {
		rnd := rand.New(rand.NewSource(seed + int64(r)))
		bad += selfRound(rnd)
	}
	fmt.Printf("selftest: %d rounds, %d mismatches\n", rounds, bad)
	if bad > 0 {
		return 1
	}
	return 0
}

const selfEnvs = 6

type selfNode struct {
	t *Term
	v [selfEnvs]uint64
}

func selfRound(rnd *rand.Rand) int {
	c := NewCtx()
	envs := make([]*Env, selfEnvs)
	for i := range envs {
		envs[i] = &Env{vars: map[string]uint64{}}
	}
	var pool []selfNode
	byW := map[uint8][]int{}
	put := func(n selfNode) bool {
		for i := range envs {
			got := c.Eval(n.t, envs[i])
			if got != n.v[i] {
				fmt.Printf("MISMATCH want %d got %d: %s\n", n.v[i], got, c.Show(n.t, 12))
				return false
			}
			if n.t.w > 0 && (got < n.t.lo || got > n.t.hi) {
				fmt.Printf("RANGE %d not in [%d,%d]: %s\n", got, n.t.lo, n.t.hi, c.Show(n.t, 12))
				return false
			}
		}
		byW[n.t.w] = append(byW[n.t.w], len(pool))
		pool = append(pool, n)
		return true
	}
	widths := []uint8{8, 16, 32, 64, 64}
	for i := 0; i < 8; i++ {
		w := widths[rnd.Intn(len(widths))]
		lo, hi := uint64(0), mask(w)
		switch rnd.Intn(4) {
		case 0:
			lo, hi = 1, 5
		case 1:
			hi = uint64(1)<<(rnd.Intn(int(w))) - 1
		case 2:
			lo = mask(w) - uint64(1)<<(rnd.Intn(int(w)-1))
		}
		name := fmt.Sprintf("v%d", i)
		t := c.VarRange(name, w, lo, hi)
		n := selfNode{t: t}
		for k := range envs {
			v := lo
			if hi-lo == ^uint64(0) {
				v = rnd.Uint64() >> uint(rnd.Intn(64))
			} else if hi > lo {
				switch rnd.Intn(4) {
				case 0:
					v = hi
				case 1:
				default:
					v = lo + rnd.Uint64()%(hi-lo+1)
				}
			}
			envs[k].vars[name] = v
			n.v[k] = v
		}
		put(n)
	}
	put(selfNode{t: c.True, v: [selfEnvs]uint64{1, 1, 1, 1, 1, 1}})
	consts := []uint64{0, 1, 2, 3, 7, 8, 126, 127, 128, 129, 255, 16383, 16384, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0), ^uint64(0) - 1}
	pick := func(w uint8) selfNode {
		if w > 0 && rnd.Intn(4) == 0 || len(byW[w]) == 0 {
			v := consts[rnd.Intn(len(consts))] & mask(w)
			if w == 0 {
				v = uint64(rnd.Intn(2))
				n := selfNode{t: c.Bool(v == 1)}
				for i := range n.v {
					n.v[i] = v
				}
				return n
			}
			n := selfNode{t: c.Const(w, v)}
			for i := range n.v {
				n.v[i] = v
			}
			return n
		}
		l := byW[w]
		k := rnd.Intn(len(l))
		if rnd.Intn(2) == 0 && len(l) > 6 {
			k = len(l) - 1 - rnd.Intn(6)
		}
		return pool[l[k]]
	}
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	for step := 0; step < 120; step++ {
		w := widths[rnd.Intn(len(widths))]
		a, b := pick(w), pick(w)
		var n selfNode
		apply := func(t *Term, f func(x, y uint64) uint64) {
			n.t = t
			for i := range n.v {
				n.v[i] = f(a.v[i], b.v[i])
				if t.w > 0 {
					n.v[i] &= mask(t.w)
				}
			}
		}
		sh := uint64(rnd.Intn(int(w)))
		if rnd.Intn(2) == 0 {
			sh = uint64([]int{1, 3, 7, 8, 14, 63}[rnd.Intn(6)])
		}
		shl := func(x uint64) uint64 {
			if sh >= uint64(w) {
				return 0
			}
			return x << sh
		}
		shr := func(x uint64) uint64 {
			if sh >= uint64(w) {
				return 0
			}
			return x >> sh
		}
		switch rnd.Intn(22) {
		case 0:
			apply(c.Add(a.t, b.t), func(x, y uint64) uint64 { return x + y })
		case 1:
			apply(c.Sub(a.t, b.t), func(x, y uint64) uint64 { return x - y })
		case 2:
			apply(c.BAnd(a.t, b.t), func(x, y uint64) uint64 { return x & y })
		case 3:
			apply(c.BOr(a.t, b.t), func(x, y uint64) uint64 { return x | y })
		case 4:
			apply(c.BXor(a.t, b.t), func(x, y uint64) uint64 { return x ^ y })
		case 5:
			apply(c.Shl(a.t, c.Const(w, sh)), func(x, y uint64) uint64 { return shl(x) })
		case 6:
			apply(c.Lshr(a.t, c.Const(w, sh)), func(x, y uint64) uint64 { return shr(x) })
		case 7:
			apply(c.Ashr(a.t, c.Const(w, sh)), func(x, y uint64) uint64 {
				s := sh
				if s > 63 {
					s = 63
				}
				return uint64(sx(x, w) >> s)
			})
		case 8, 9:
			apply(c.Eq(a.t, b.t), func(x, y uint64) uint64 { return b2u(x == y) })
		case 10, 11:
			apply(c.Ult(a.t, b.t), func(x, y uint64) uint64 { return b2u(x < y) })
		case 12:
			apply(c.Slt(a.t, b.t), func(x, y uint64) uint64 { return b2u(sx(x, w) < sx(y, w)) })
		case 13:
			g := pick(0)
			n.t = c.Ite(g.t, a.t, b.t)
			for i := range n.v {
				n.v[i] = b.v[i]
				if g.v[i] == 1 {
					n.v[i] = a.v[i]
				}
			}
		case 14:
			w2 := widths[rnd.Intn(len(widths))]
			if w2 <= w {
				continue
			}
			if rnd.Intn(2) == 0 {
				apply(c.Zext(a.t, w2), func(x, y uint64) uint64 { return x })
			} else {
				apply(c.Sext(a.t, w2), func(x, y uint64) uint64 { return uint64(sx(x, w)) })
			}
		case 15:
			w2 := widths[rnd.Intn(len(widths))]
			lo := uint8(0)
			if rnd.Intn(3) == 0 {
				lo = 8
			}
			if w2+lo > w {
				continue
			}
			apply(c.Extract(a.t, lo, w2), func(x, y uint64) uint64 { return x >> lo })
		case 16:
			a, b = pick(0), pick(0)
			apply(c.And(a.t, b.t), func(x, y uint64) uint64 { return x & y })
		case 17:
			a, b = pick(0), pick(0)
			apply(c.Or(a.t, b.t), func(x, y uint64) uint64 { return x | y })
		case 18:
			a = pick(0)
			apply(c.Not(a.t), func(x, y uint64) uint64 { return 1 - x })
		case 19:
			apply(c.Mul(a.t, c.Const(w, sh)), func(x, y uint64) uint64 { return x * (sh & mask(w)) })
		case 20:
			// a byte of a value and its reassembly
			k := uint8(7 * rnd.Intn(9))
			if k >= w {
				continue
			}
			t := c.BAnd(c.Lshr(a.t, c.Const(w, uint64(k))), c.Const(w, 127))
			apply(t, func(x, y uint64) uint64 { return x >> k & 127 })
		case 21:
			nb := uint8(bits.Len64(a.t.hi))
			if nb == 0 {
				continue
			}
			apply(c.BOr(c.BAnd(a.t, c.Const(w, 127)), c.Shl(c.Lshr(a.t, c.Const(w, 7)), c.Const(w, 7))), func(x, y uint64) uint64 { return x })
		}
		if n.t == nil || n.t.w == 1 {
			continue
		}
		if !put(n) {
			return 1
		}
	}
	return 0
}

package main

// Contents of scalar arrays ([]byte, [N]uint16, strings ...) are functional
// values: a chain of base symbols, stores, range copies and conditionals that
// is only expanded at the indices that are read.

type NodeKind uint8

const (
	NZero NodeKind = iota
	NSym           // symbolic array `name`
	NStr           // concrete bytes
	NStore
	NCopy
	NIte
)

type Node struct {
	kind  NodeKind
	id    int
	w     uint8
	name  string
	str   string
	prev  *Node // NStore/NCopy/NIte(else)
	src   *Node // NCopy source / NIte(then)
	idx   *Term // NStore index / NCopy dst offset
	soff  *Term
	n     *Term // NCopy length
	val   *Term // NStore value
	guard *Term
	memo  map[int]*Term
}

func (c *Ctx) node(n Node) *Node {
	c.nodes++
	n.id = c.nodes
	r := n
	return &r
}

func (c *Ctx) ZeroNode(w uint8) *Node             { return c.node(Node{kind: NZero, w: w}) }
func (c *Ctx) SymNode(name string, w uint8) *Node { return c.node(Node{kind: NSym, w: w, name: name}) }
func (c *Ctx) StrNode(s string) *Node             { return c.node(Node{kind: NStr, w: 8, str: s}) }

func (c *Ctx) StoreNode(p *Node, idx, val *Term) *Node {
	// overwrite of the same index directly below
	if p.kind == NStore && p.idx == idx {
		p = p.prev
	}
	return c.node(Node{kind: NStore, w: p.w, prev: p, idx: idx, val: val})
}

func (c *Ctx) CopyNode(p *Node, dOff *Term, src *Node, sOff, n *Term) *Node {
	if n.isConst() && n.val == 0 {
		return p
	}
	if n.isConst() && n.val <= 16 {
		vals := make([]*Term, n.val)
		for i := range vals {
			vals[i] = c.Read(src, c.AddC(sOff, int64(i)))
		}
		for i := range vals {
			p = c.StoreNode(p, c.AddC(dOff, int64(i)), vals[i])
		}
		return p
	}
	if p == src && dOff == sOff {
		return p
	}
	return c.node(Node{kind: NCopy, w: p.w, prev: p, src: src, idx: dOff, soff: sOff, n: n})
}

func (c *Ctx) IteNode(g *Term, a, b *Node) *Node {
	if a == b || g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	return c.node(Node{kind: NIte, w: a.w, guard: g, src: a, prev: b})
}

func (c *Ctx) Read(n *Node, i *Term) *Term {
	if t, ok := n.memo[i.id]; ok {
		return t
	}
	r := c.read(n, i)
	if n.memo == nil {
		n.memo = map[int]*Term{}
	}
	n.memo[i.id] = r
	return r
}

func (c *Ctx) read(n *Node, i *Term) *Term {
	var r *Term
	// walk iteratively through stores that are syntactically decided
	p := n
	for {
		switch p.kind {
		case NStore:
			e := c.Eq(p.idx, i)
			if e.isTrue() {
				r = p.val
			} else if e.isFalse() {
				p = p.prev
				continue
			} else {
				r = c.Ite(e, p.val, c.Read(p.prev, i))
			}
		case NCopy:
			// i in [dOff, dOff+n)  <=>  i-dOff <u n
			d := c.Sub(i, p.idx)
			in := c.Ult(d, p.n)
			if !in.isConst() {
				// i < dOff syntactically?
				if g := c.Ult(i, p.idx); g.isTrue() {
					in = c.False
				}
			}
			if in.isTrue() {
				i = c.Add(p.soff, d)
				p = p.src
				if t, ok := p.memo[i.id]; ok {
					r = t
					break
				}
				continue
			} else if in.isFalse() {
				p = p.prev
				continue
			}
			r = c.Ite(in, c.Read(p.src, c.Add(p.soff, d)), c.Read(p.prev, i))
		case NIte:
			r = c.Ite(p.guard, c.Read(p.src, i), c.Read(p.prev, i))
		case NZero:
			r = c.Const(p.w, 0)
		case NSym:
			r = c.Select(p.name, p.w, i)
		case NStr:
			if i.isConst() {
				var b byte
				if i.val < uint64(len(p.str)) {
					b = p.str[i.val]
				}
				r = c.Const(8, uint64(b))
			} else {
				// mux over the concrete bytes
				r = c.Const(8, 0)
				for k := len(p.str) - 1; k >= 0; k-- {
					r = c.Ite(c.Eq(i, c.Const(64, uint64(k))), c.Const(8, uint64(p.str[k])), r)
				}
			}
		}
		break
	}
	return r
}

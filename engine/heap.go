package main

import (
	"go/types"
)

// ---- loads and stores ----

func pathKey(p []PathElem) int { return len(p) }

func (e *Engine) getPath(root Value, path []PathElem) Value {
	v := root
	for _, pe := range path {
		if pe.idx == nil {
			s, ok := v.(*StructV)
			if !ok {
				unsupported("field access in %T", v)
			}
			v = s.f[pe.fld]
			continue
		}
		switch a := v.(type) {
		case *ArrS:
			v = e.c.Read(a.node, pe.idx)
		case *ArrG:
			v = e.indexArrG(a, pe.idx)
		default:
			unsupported("element access in %T", v)
		}
	}
	return v
}

func (e *Engine) indexArrG(a *ArrG, idx *Term) Value {
	if idx.isConst() {
		if idx.val >= uint64(len(a.e)) {
			unsupported("constant index out of range on a path that should be dead")
		}
		return a.e[idx.val]
	}
	var r Value
	for i := len(a.e) - 1; i >= 0; i-- {
		if r == nil {
			r = a.e[i]
			continue
		}
		q := e.c.Eq(idx, e.k64(int64(i)))
		v, ok := e.tryMerge(q, a.e[i], r)
		if !ok {
			unsupported("symbolic index into an array of unmergeable values")
		}
		r = v
	}
	if r == nil {
		unsupported("index into an empty array")
	}
	return r
}

// setPath replaces the value at path; the replacement happens only under g.
func (e *Engine) setPath(root Value, path []PathElem, g *Term, nv Value) Value {
	if len(path) == 0 {
		return e.mergeOrDie(g, nv, root)
	}
	pe := path[0]
	if pe.idx == nil {
		s, ok := root.(*StructV)
		if !ok {
			unsupported("field store in %T", root)
		}
		r := &StructV{f: append([]Value(nil), s.f...)}
		r.f[pe.fld] = e.setPath(s.f[pe.fld], path[1:], g, nv)
		return r
	}
	switch a := root.(type) {
	case *ArrS:
		if len(path) != 1 {
			unsupported("path below scalar array")
		}
		t, ok := nv.(*Term)
		if !ok {
			unsupported("store of %T into a scalar array", nv)
		}
		if !g.isTrue() {
			return &ArrS{node: e.c.IteNode(g, e.c.StoreNode(a.node, pe.idx, t), a.node), n: a.n, w: a.w}
		}
		return &ArrS{node: e.c.StoreNode(a.node, pe.idx, t), n: a.n, w: a.w}
	case *ArrG:
		r := &ArrG{e: append([]Value(nil), a.e...)}
		if pe.idx.isConst() {
			if pe.idx.val >= uint64(len(a.e)) {
				unsupported("constant index out of range on a path that should be dead")
			}
			r.e[pe.idx.val] = e.setPath(a.e[pe.idx.val], path[1:], g, nv)
			return r
		}
		for i := range r.e {
			q := e.c.And(g, e.c.Eq(pe.idx, e.k64(int64(i))))
			if q.isFalse() {
				continue
			}
			r.e[i] = e.setPath(a.e[i], path[1:], q, nv)
		}
		return r
	}
	unsupported("element store in %T", root)
	return nil
}

func (e *Engine) mergeOrDie(g *Term, a, b Value) Value {
	v, ok := e.tryMerge(g, a, b)
	if !ok {
		unsupported("conditional store of unmergeable values %T/%T", a, b)
	}
	return v
}

func (e *Engine) mergeAll(n int, guard func(i int) *Term, val func(i int) Value) Value {
	var r Value
	for i := n - 1; i >= 0; i-- {
		v := val(i)
		if r == nil {
			r = v
			continue
		}
		r = e.mergeOrDie(guard(i), v, r)
	}
	return r
}

// load reads through p; the nil alternative must have been excluded already.
func (e *Engine) load(st *State, p *PtrV, t types.Type) Value {
	var alts []PtrAlt
	for _, a := range p.alts {
		if a.obj != 0 {
			alts = append(alts, a)
		}
	}
	if len(alts) == 0 {
		unsupported("load through nil on a path that should be dead")
	}
	return e.mergeAll(len(alts), func(i int) *Term { return alts[i].g }, func(i int) Value {
		v := e.getPath(e.objVal(st, alts[i].obj), alts[i].path)
		return e.reinterpret(st, v, t)
	})
}

func (e *Engine) objVal(st *State, o ObjID) Value {
	v, ok := st.heap[o]
	if !ok {
		v, ok = e.baseHeap[o]
	}
	if !ok {
		if g, ok := e.globalOf[o]; ok {
			if s, ok := g.Type().(*types.Pointer).Elem().Underlying().(*types.Struct); ok && s.NumFields() == 0 {
				return e.zero(s)
			}
			unsupported("global %v of a package that was not initialised", g)
		}
		unsupported("dangling object %d", o)
	}
	return v
}

// reinterpret handles loads through unsafe.Pointer casts between string,
// slice, reflect.StringHeader and reflect.SliceHeader.
func (e *Engine) reinterpret(st *State, v Value, t types.Type) Value {
	if t == nil {
		return v
	}
	switch x := v.(type) {
	case *SliceV:
		if isString(t) {
			return &StrV{alts: sansNil(x.alts), len: x.len}
		}
		if s, ok := t.Underlying().(*types.Struct); ok {
			return e.sliceHeader(x.alts, x.len, x.cap, s)
		}
	case *StrV:
		if s, ok := t.Underlying().(*types.Struct); ok {
			return e.sliceHeader(x.alts, x.len, x.len, s)
		}
		if _, ok := t.Underlying().(*types.Slice); ok {
			return e.strAsSlice(st, x, x.len)
		}
	case *StructV:
		switch u := t.Underlying().(type) {
		case *types.Slice:
			if len(x.f) == 3 {
				return e.headerToSlice(x.f[0], x.f[1].(*Term), x.f[2].(*Term))
			}
		case *types.Basic:
			if u.Kind() == types.String && len(x.f) >= 2 {
				s := e.headerToSlice(x.f[0], x.f[1].(*Term), x.f[1].(*Term))
				return &StrV{alts: sansNil(s.alts), len: s.len}
			}
		}
	case *Term:
		if w, ok := scalarW(t); ok && w != x.w {
			unsupported("load of %v from a cell of width %d", t, x.w)
		}
	}
	return v
}

func sansNil(a []SAlt) []SAlt { return a }

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

// elemPtr turns array designators into element pointers at their offset.
func (e *Engine) elemPtr(st *State, alts []SAlt) *PtrV {
	p := &PtrV{}
	for _, a := range alts {
		if a.obj == 0 && a.node == nil {
			p.alts = append(p.alts, PtrAlt{g: a.g})
			continue
		}
		o, path := a.obj, a.path
		if a.node != nil {
			o, path = e.nodeObj(st, a.node), nil
		}
		np := append(append([]PathElem(nil), path...), PathElem{idx: a.off})
		p.alts = append(p.alts, PtrAlt{g: a.g, obj: o, path: np})
	}
	return p
}

// nodeObj gives immutable contents an object identity (shared by node).
func (e *Engine) nodeObj(st *State, n *Node) ObjID {
	if o, ok := e.nodeObjs[n]; ok {
		if _, live := st.heap[o]; !live {
			if _, live = e.baseHeap[o]; !live {
				st.heap[o] = e.nodeObjVal[o]
			}
		}
		return o
	}
	ln := e.k64(1 << 40)
	if n.kind == NStr {
		ln = e.k64(int64(len(n.str)))
	}
	o := e.newObj(st, &ArrS{node: n, n: ln, w: n.w})
	e.nodeObjs[n] = o
	e.nodeObjVal[o] = st.heap[o]
	return o
}

func (e *Engine) sliceHeader(alts []SAlt, ln, cp *Term, s *types.Struct) Value {
	r := &StructV{}
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Name() {
		case "Data":
			r.f = append(r.f, &UPtrV{p: e.elemPtr(e.cur, alts)})
		case "Len":
			r.f = append(r.f, ln)
		case "Cap":
			r.f = append(r.f, cp)
		default:
			unsupported("reinterpretation as %v", s)
		}
	}
	return r
}

func (e *Engine) ptrToSAlts(p *PtrV) []SAlt {
	var out []SAlt
	for _, a := range p.alts {
		if a.obj == 0 {
			out = append(out, SAlt{g: a.g, off: e.k64(0)})
			continue
		}
		n := len(a.path)
		if n == 0 || a.path[n-1].idx == nil {
			// pointer to a lone scalar: treat the cell as a one-element array
			unsupported("slice header pointing at a non-array cell")
		}
		out = append(out, SAlt{g: a.g, obj: a.obj, path: a.path[:n-1], off: a.path[n-1].idx})
	}
	return out
}

func (e *Engine) headerToSlice(data Value, ln, cp *Term) *SliceV {
	switch d := data.(type) {
	case *UPtrV:
		if d.off != nil {
			unsupported("slice header with computed address")
		}
		return &SliceV{alts: e.ptrToSAlts(d.p), len: ln, cap: cp}
	case *PtrV:
		return &SliceV{alts: e.ptrToSAlts(d), len: ln, cap: cp}
	case *Term:
		if d.isConst() && d.val == 0 {
			return &SliceV{alts: []SAlt{{g: e.c.True, off: e.k64(0)}}, len: ln, cap: cp}
		}
	}
	unsupported("slice header with unknown data pointer")
	return nil
}

func (e *Engine) strAsSlice(st *State, x *StrV, cp *Term) *SliceV {
	p := e.elemPtr(st, x.alts)
	return &SliceV{alts: e.ptrToSAlts(p), len: x.len, cap: cp}
}

// store writes through p.
func (e *Engine) store(st *State, p *PtrV, v Value) {
	n := 0
	for _, a := range p.alts {
		if a.obj != 0 {
			n++
		}
	}
	for _, a := range p.alts {
		if a.obj == 0 {
			continue
		}
		g := a.g
		if n == 1 {
			g = e.c.True
		}
		e.noteWrite(st, a.obj, g)
		st.heap[a.obj] = e.setPath(e.objVal(st, a.obj), a.path, g, v)
	}
}

// ---- array-level access used by slices, strings, append and copy ----

func (e *Engine) arrAt(st *State, a SAlt) Value {
	if a.node != nil {
		return &ArrS{node: a.node, w: a.node.w, n: e.k64(1 << 40)}
	}
	return e.getPath(e.objVal(st, a.obj), a.path)
}

// byteAt reads element i (relative to the slice/string start).
func (e *Engine) byteAt(st *State, alts []SAlt, i *Term) *Term {
	var r *Term
	for k := len(alts) - 1; k >= 0; k-- {
		a := alts[k]
		if a.obj == 0 && a.node == nil {
			continue
		}
		arr, ok := e.arrAt(st, a).(*ArrS)
		if !ok {
			unsupported("scalar read from generic array")
		}
		t := e.c.Read(arr.node, e.c.Add(a.off, i))
		if r == nil {
			r = t
		} else {
			r = e.c.Ite(a.g, t, r)
		}
	}
	if r == nil {
		return e.c.Const(8, 0)
	}
	return r
}

// writeRange copies n scalars from (src, sOff) to the arrays designated by
// dst at dst.off+dOff, under guard g.
func (e *Engine) writeRange(st *State, dst []SAlt, dOff *Term, src []SAlt, n *Term) {
	// snapshot sources first (memmove semantics)
	type piece struct {
		g    *Term
		node *Node
		off  *Term
	}
	var srcs []piece
	for _, s := range src {
		if s.obj == 0 && s.node == nil {
			continue
		}
		arr, ok := e.arrAt(st, s).(*ArrS)
		if !ok {
			unsupported("range copy from a generic array")
		}
		srcs = append(srcs, piece{s.g, arr.node, s.off})
	}
	if len(srcs) == 0 {
		return
	}
	live := 0
	for _, d := range dst {
		if d.obj != 0 {
			live++
		}
	}
	for _, d := range dst {
		if d.obj == 0 {
			continue
		}
		g := d.g
		if live == 1 {
			g = e.c.True
		}
		root := e.objVal(st, d.obj)
		arr, ok := e.getPath(root, d.path).(*ArrS)
		if !ok {
			unsupported("range copy into a generic array")
		}
		var nn *Node
		for k := len(srcs) - 1; k >= 0; k-- {
			x := e.c.CopyNode(arr.node, e.c.Add(d.off, dOff), srcs[k].node, srcs[k].off, n)
			if nn == nil {
				nn = x
			} else {
				nn = e.c.IteNode(srcs[k].g, x, nn)
			}
		}
		nn = e.c.IteNode(g, nn, arr.node)
		e.noteWrite(st, d.obj, e.c.And(g, e.c.Not(e.c.Eq(n, e.k64(0)))))
		st.heap[d.obj] = e.replaceArr(root, d.path, &ArrS{node: nn, n: arr.n, w: arr.w})
	}
}

// replaceArr substitutes the array at path (guards already folded in).
func (e *Engine) replaceArr(root Value, path []PathElem, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	pe := path[0]
	if pe.idx == nil {
		s := root.(*StructV)
		r := &StructV{f: append([]Value(nil), s.f...)}
		r.f[pe.fld] = e.replaceArr(s.f[pe.fld], path[1:], nv)
		return r
	}
	a, ok := root.(*ArrG)
	if !ok || !pe.idx.isConst() {
		unsupported("array nested below a symbolic index")
	}
	r := &ArrG{e: append([]Value(nil), a.e...)}
	r.e[pe.idx.val] = e.replaceArr(a.e[pe.idx.val], path[1:], nv)
	return r
}

func (e *Engine) newObj(st *State, v Value) ObjID {
	e.nextObj++
	st.heap[e.nextObj] = v
	return e.nextObj
}

func (e *Engine) noteWrite(st *State, o ObjID, g *Term) {
	if len(st.frozen) == 0 {
		return
	}
	for _, f := range st.frozen {
		if o <= f.limit && !e.localCells[o] {
			e.obligation(st, g, "write", "store to memory that must not be modified ("+f.label+")")
		}
	}
}

// concStr returns the concrete Go string held by s, if it is one.
func (e *Engine) concStr(st *State, s *StrV) (string, bool) {
	if !s.len.isConst() {
		return "", false
	}
	n := int(s.len.val)
	if n == 0 {
		return "", true
	}
	if len(s.alts) == 1 && s.alts[0].node != nil && s.alts[0].node.kind == NStr && s.alts[0].off.isConst() {
		o := int(s.alts[0].off.val)
		if o+n <= len(s.alts[0].node.str) {
			return s.alts[0].node.str[o : o+n], true
		}
	}
	if n > 1<<16 {
		return "", false
	}
	if st == nil {
		for _, a := range s.alts {
			if a.node == nil {
				return "", false
			}
		}
	}
	b := make([]byte, n)
	for i := range b {
		t := e.byteAt(st, s.alts, e.k64(int64(i)))
		if !t.isConst() {
			return "", false
		}
		b[i] = byte(t.val)
	}
	return string(b), true
}

// valEq builds the equality of two values of the same static type.
func (e *Engine) valEq(st *State, a, b Value) *Term {
	c := e.c
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			return c.Eq(x, y)
		}
		if y, ok := b.(*UPtrV); ok {
			return c.Eq(x, e.addrOf(y))
		}
	case *UPtrV:
		if y, ok := b.(*Term); ok {
			return c.Eq(e.addrOf(x), y)
		}
		if y, ok := b.(*UPtrV); ok {
			return c.Eq(e.addrOf(x), e.addrOf(y))
		}
	case *PtrV:
		y, ok := b.(*PtrV)
		if !ok {
			break
		}
		return e.altsEq(x.alts, y.alts)
	case *MapV:
		y := b.(*MapV)
		return e.altsEq(x.alts, y.alts)
	case *SliceV:
		y := b.(*SliceV) // only comparison with nil is legal
		if len(y.alts) == 1 && y.alts[0].obj == 0 {
			return e.sliceNil(x)
		}
		return e.sliceNil(y)
	case *StrV:
		y := b.(*StrV)
		return e.strEq(st, x, y)
	case *FuncV:
		y := b.(*FuncV)
		return c.Bool((x.fn == nil && x.model == "") == (y.fn == nil && y.model == ""))
	case *OpaqueV:
		y, ok := b.(*OpaqueV)
		return c.Bool(ok && x.id == y.id)
	case *IfaceV:
		y := b.(*IfaceV)
		r := c.False
		for _, p := range x.alts {
			for _, q := range y.alts {
				g := c.And(p.g, q.g)
				if g.isFalse() {
					continue
				}
				if p.typ == nil || q.typ == nil {
					if p.typ == nil && q.typ == nil {
						r = c.Or(r, g)
					}
					continue
				}
				if types.Identical(p.typ, q.typ) {
					r = c.Or(r, c.And(g, e.valEq(st, p.val, q.val)))
				}
			}
		}
		return r
	case *StructV:
		y := b.(*StructV)
		r := c.True
		for i := range x.f {
			r = c.And(r, e.valEq(st, x.f[i], y.f[i]))
		}
		return r
	case *ArrG:
		y := b.(*ArrG)
		r := c.True
		for i := range x.e {
			r = c.And(r, e.valEq(st, x.e[i], y.e[i]))
		}
		return r
	case *ArrS:
		y := b.(*ArrS)
		if x.n.isConst() && x.n.val <= 4096 {
			r := c.True
			for i := int64(0); i < int64(x.n.val); i++ {
				r = c.And(r, c.Eq(c.Read(x.node, e.k64(i)), c.Read(y.node, e.k64(i))))
			}
			return r
		}
	}
	unsupported("comparison of %T and %T", a, b)
	return nil
}

func (e *Engine) altsEq(x, y []PtrAlt) *Term {
	c := e.c
	r := c.False
	for _, p := range x {
		for _, q := range y {
			g := c.And(p.g, q.g)
			if g.isFalse() || p.obj != q.obj || !samePathShape(p.path, q.path) {
				continue
			}
			eq := c.True
			for i := range p.path {
				if p.path[i].idx != nil {
					eq = c.And(eq, c.Eq(p.path[i].idx, q.path[i].idx))
				}
			}
			r = c.Or(r, c.And(g, eq))
		}
	}
	return r
}

func (e *Engine) ptrNil(p *PtrV) *Term {
	r := e.c.False
	for _, a := range p.alts {
		if a.obj == 0 {
			r = e.c.Or(r, a.g)
		}
	}
	return r
}
func (e *Engine) mapNil(p *MapV) *Term { return e.ptrNil(&PtrV{p.alts}) }
func (e *Engine) sliceNil(s *SliceV) *Term {
	r := e.c.False
	for _, a := range s.alts {
		if a.obj == 0 && a.node == nil {
			r = e.c.Or(r, a.g)
		}
	}
	return r
}

func (e *Engine) strEq(st *State, x, y *StrV) *Term {
	c := e.c
	lenEq := c.Eq(x.len, y.len)
	if lenEq.isFalse() {
		return c.False
	}
	n := min(x.len.hi, y.len.hi)
	if n > 256 && !(x.len.isConst() && y.len.isConst()) {
		unsupported("equality of strings of unbounded symbolic length")
	}
	r := lenEq
	for i := uint64(0); i < n; i++ {
		k := c.Const(64, i)
		q := c.Eq(e.byteAt(st, x.alts, k), e.byteAt(st, y.alts, k))
		r = c.And(r, c.Or(c.Ule(x.len, k), q))
		if r.isFalse() {
			return r
		}
	}
	return r
}

// addrOf gives a provenance-carrying integer its numeric value.
func (e *Engine) addrOf(u *UPtrV) *Term {
	c := e.c
	r := c.Const(64, 0)
	for k := len(u.p.alts) - 1; k >= 0; k-- {
		a := u.p.alts[k]
		t := c.Const(64, 0)
		if a.obj != 0 {
			t = e.base(a.obj)
			n := len(a.path)
			for _, pe := range a.path {
				if pe.idx == nil {
					t = c.AddC(t, int64(pe.fld)*1024)
				}
			}
			if n > 0 && a.path[n-1].idx != nil {
				sz := uint64(1)
				if arr, ok := e.getPath(e.objVal(e.cur, a.obj), a.path[:n-1]).(*ArrS); ok {
					sz = uint64(arr.w) / 8
				}
				t = c.Add(t, c.Mul(a.path[n-1].idx, c.Const(64, sz)))
			}
		}
		r = c.Ite(a.g, t, r)
	}
	if u.off != nil {
		r = c.Add(r, u.off)
	}
	return r
}

// base returns the address of an object. Objects lie far apart, in the order
// in which they were allocated.
func (e *Engine) base(o ObjID) *Term {
	if o >= 1<<26 {
		unsupported("too many objects")
	}
	return e.c.Const(64, uint64(o)<<34)
}

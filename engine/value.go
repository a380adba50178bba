package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Value is one of: *Term, *PtrV, *SliceV, *StrV, *IfaceV, *MapV, *FuncV,
// *StructV, *ArrS, *ArrG, *UPtrV, *TupleV, *OpaqueV, *IterV.
type Value interface{}

type ObjID int

type PathElem struct {
	fld int   // struct field (idx == nil)
	idx *Term // array element
}

type PtrAlt struct {
	g    *Term
	obj  ObjID // 0: nil
	path []PathElem
}

type PtrV struct{ alts []PtrAlt }

// SAlt designates an array (obj+path, or an immutable node) and an offset.
type SAlt struct {
	g    *Term
	obj  ObjID
	path []PathElem
	node *Node // immutable contents (strings only)
	off  *Term
}

type SliceV struct {
	alts     []SAlt // obj 0: nil slice
	len, cap *Term
}

type StrV struct {
	alts []SAlt
	len  *Term
}

type IAlt struct {
	g   *Term
	typ types.Type // nil: nil interface
	val Value
}

type IfaceV struct{ alts []IAlt }

type MapV struct {
	alts []PtrAlt // obj -> *MapC
}

type MapEntry struct {
	key     Value
	present *Term
	val     Value
}

// MapC is a map's contents: later entries shadow earlier ones with equal keys.
type MapC struct {
	ents []MapEntry
	zero Value
}

type FuncV struct {
	fn    *ssa.Function
	binds []Value
	model string
	recv  Value // bound receiver for bound-method models
}

type StructV struct{ f []Value }

// ArrS is an array of scalars.
type ArrS struct {
	node *Node
	n    *Term
	w    uint8
}

// ArrG is an array of anything else, of concrete length.
type ArrG struct{ e []Value }

// UPtrV is a uintptr or unsafe.Pointer value with provenance.
type UPtrV struct {
	p   *PtrV
	off *Term // byte displacement added so far (nil: 0)
}

type TupleV struct{ e []Value }

type OpaqueV struct{ id string }

// IterV is a range iterator's state cell contents.
type IterV struct {
	m       *MapV
	str     *StrV
	cands   []Value // candidate keys
	visited []*Term
	ranks   []*Term
	pos     *Term
}

func (e *Engine) nilPtr() *PtrV {
	return &PtrV{[]PtrAlt{{g: e.c.True}}}
}
func (e *Engine) k64(v int64) *Term { return e.c.Const(64, uint64(v)) }
func (e *Engine) nilSlice() *SliceV {
	return &SliceV{alts: []SAlt{{g: e.c.True, off: e.k64(0)}}, len: e.k64(0), cap: e.k64(0)}
}
func (e *Engine) str(s string) *StrV {
	return &StrV{alts: []SAlt{{g: e.c.True, node: e.c.StrNode(s), off: e.k64(0)}}, len: e.k64(int64(len(s)))}
}
func (e *Engine) nilIface() *IfaceV { return &IfaceV{[]IAlt{{g: e.c.True}}} }

// scalarW returns the bit width of a scalar type (0 for bool), ok=false if the
// type is not scalar.
func scalarW(t types.Type) (uint8, bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, true
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32, types.Float32, types.UntypedRune:
		return 32, true
	case types.Int, types.Uint, types.Int64, types.Uint64, types.Float64, types.Uintptr, types.UntypedInt, types.UntypedFloat:
		return 64, true
	}
	return 0, false
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0 && b.Info()&types.IsUnsigned == 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

// memW is the width used to store a scalar in an ArrS (bools are kept in ArrG).
func arrW(t types.Type) (uint8, bool) {
	w, ok := scalarW(t)
	if !ok || w == 0 {
		return 0, false
	}
	if b := t.Underlying().(*types.Basic); b.Kind() == types.Uintptr {
		return 0, false
	}
	return w, true
}

func (e *Engine) zero(t types.Type) Value {
	if w, ok := scalarW(t); ok {
		if w == 0 {
			return e.c.False
		}
		return e.c.Const(w, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.String, types.UntypedString:
			return e.str("")
		case types.UnsafePointer, types.UntypedNil:
			return e.nilPtr()
		}
	case *types.Pointer:
		return e.nilPtr()
	case *types.Slice:
		return e.nilSlice()
	case *types.Map:
		return &MapV{[]PtrAlt{{g: e.c.True}}}
	case *types.Interface:
		return e.nilIface()
	case *types.Signature:
		return &FuncV{}
	case *types.Struct:
		s := &StructV{f: make([]Value, u.NumFields())}
		for i := range s.f {
			s.f[i] = e.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		return e.zeroArr(u.Elem(), e.k64(u.Len()))
	case *types.Chan:
		return &OpaqueV{"chan"}
	case *types.Tuple:
		tv := &TupleV{}
		for i := 0; i < u.Len(); i++ {
			tv.e = append(tv.e, e.zero(u.At(i).Type()))
		}
		return tv
	}
	unsupported("zero value of %v", t)
	return nil
}

func (e *Engine) zeroArr(elem types.Type, n *Term) Value {
	if w, ok := arrW(elem); ok {
		return &ArrS{node: e.c.ZeroNode(w), n: n, w: w}
	}
	if !n.isConst() {
		unsupported("array of %v with symbolic length", elem)
	}
	a := &ArrG{e: make([]Value, n.val)}
	for i := range a.e {
		a.e[i] = e.zero(elem)
	}
	return a
}

// Unsupported is raised (as a Go panic) when the encoder meets something it
// cannot encode.
type Unsupported struct{ msg string }

func unsupported(f string, a ...interface{}) {
	panic(Unsupported{fmt.Sprintf(f, a...)})
}

// ---- merging ----

type noMerge struct{}

func samePathShape(a, b []PathElem) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if (a[i].idx == nil) != (b[i].idx == nil) || a[i].idx == nil && a[i].fld != b[i].fld {
			return false
		}
	}
	return true
}

func samePath(a, b []PathElem) bool {
	if !samePathShape(a, b) {
		return false
	}
	for i := range a {
		if a[i].idx != b[i].idx {
			return false
		}
	}
	return true
}

// merge returns the value that equals a when g holds and b otherwise.
// It panics with noMerge when no such representation exists.
func (e *Engine) merge(g *Term, a, b Value) Value {
	c := e.c
	if g.isTrue() {
		return a
	}
	if g.isFalse() {
		return b
	}
	if a == nil || b == nil {
		return nil
	}
	switch x := a.(type) {
	case *Term:
		if y, ok := b.(*Term); ok {
			if x.w != y.w {
				panic(noMerge{})
			}
			if e.layoutDiffers(x, y) {
				panic(noMerge{})
			}
			if x != y && x.w > 0 {
				if r, ok := unNarrow(x, y); ok {
					return r
				}
			}
			return c.Ite(g, x, y)
		}
		if y, ok := b.(*UPtrV); ok {
			return c.Ite(g, x, e.addrOf(y))
		}
	case *UPtrV:
		if y, ok := b.(*UPtrV); ok {
			if x == y {
				return a
			}
			if x.off == y.off {
				return &UPtrV{p: e.merge(g, x.p, y.p).(*PtrV), off: x.off}
			}
		}
		if y, ok := b.(*Term); ok {
			return c.Ite(g, e.addrOf(x), y)
		}
		if y, ok := b.(*PtrV); ok && x.off == nil {
			return &UPtrV{p: e.merge(g, x.p, y).(*PtrV)}
		}
	case *PtrV:
		if y, ok := b.(*PtrV); ok {
			if x == y {
				return a
			}
			return &PtrV{e.mergeAlts(g, x.alts, y.alts)}
		}
	case *MapV:
		if y, ok := b.(*MapV); ok {
			if x == y {
				return a
			}
			return &MapV{e.mergeAlts(g, x.alts, y.alts)}
		}
	case *SliceV:
		if y, ok := b.(*SliceV); ok {
			if x == y {
				return a
			}
			if e.layoutDiffers(x.len, y.len) || e.layoutDiffers(x.cap, y.cap) {
				panic(noMerge{})
			}
			return &SliceV{alts: e.mergeSAlts(g, x.alts, y.alts), len: c.Ite(g, x.len, y.len), cap: c.Ite(g, x.cap, y.cap)}
		}
	case *StrV:
		if y, ok := b.(*StrV); ok {
			if x == y {
				return a
			}
			return &StrV{alts: e.mergeSAlts(g, x.alts, y.alts), len: c.Ite(g, x.len, y.len)}
		}
	case *IfaceV:
		if y, ok := b.(*IfaceV); ok {
			if x == y {
				return a
			}
			return &IfaceV{e.mergeIAlts(g, x.alts, y.alts)}
		}
	case *FuncV:
		if y, ok := b.(*FuncV); ok && x.fn == y.fn && x.model == y.model && len(x.binds) == len(y.binds) {
			if x == y {
				return a
			}
			r := &FuncV{fn: x.fn, model: x.model, binds: make([]Value, len(x.binds))}
			for i := range x.binds {
				r.binds[i] = e.merge(g, x.binds[i], y.binds[i])
			}
			if x.recv != nil || y.recv != nil {
				r.recv = e.merge(g, x.recv, y.recv)
			}
			return r
		}
	case *StructV:
		if y, ok := b.(*StructV); ok && len(x.f) == len(y.f) {
			if x == y {
				return a
			}
			r := &StructV{f: make([]Value, len(x.f))}
			for i := range x.f {
				r.f[i] = e.merge(g, x.f[i], y.f[i])
			}
			return r
		}
	case *ArrS:
		if y, ok := b.(*ArrS); ok && x.w == y.w {
			if x == y {
				return a
			}
			return &ArrS{node: c.IteNode(g, x.node, y.node), n: c.Ite(g, x.n, y.n), w: x.w}
		}
	case *ArrG:
		if y, ok := b.(*ArrG); ok && len(x.e) == len(y.e) {
			if x == y {
				return a
			}
			r := &ArrG{e: make([]Value, len(x.e))}
			for i := range x.e {
				r.e[i] = e.merge(g, x.e[i], y.e[i])
			}
			return r
		}
	case *TupleV:
		if y, ok := b.(*TupleV); ok && len(x.e) == len(y.e) {
			if x == y {
				return a
			}
			r := &TupleV{e: make([]Value, len(x.e))}
			for i := range x.e {
				r.e[i] = e.merge(g, x.e[i], y.e[i])
			}
			return r
		}
	case *OpaqueV:
		if y, ok := b.(*OpaqueV); ok && x.id == y.id {
			return a
		}
	case *MapC:
		if y, ok := b.(*MapC); ok {
			if x == y {
				return a
			}
			// stored positions may differ: they are split when they are used
			m := e.merging
			e.merging = false
			r := e.mergeMaps(g, x, y)
			e.merging = m
			return r
		}
	case *IterV:
		if y, ok := b.(*IterV); ok {
			if x == y {
				return a
			}
			if x.str != nil && y.str != nil && x.str == y.str {
				return &IterV{str: x.str, pos: c.Ite(g, x.pos, y.pos)}
			}
			if x.m != nil && x.m == y.m && len(x.cands) == len(y.cands) {
				r := &IterV{m: x.m, cands: x.cands, ranks: x.ranks}
				for i := range x.cands {
					if x.cands[i] != y.cands[i] {
						panic(noMerge{})
					}
					r.visited = append(r.visited, c.Ite(g, x.visited[i], y.visited[i]))
				}
				return r
			}
		}
	}
	panic(noMerge{})
}

func (e *Engine) mergeAlts(g *Term, x, y []PtrAlt) []PtrAlt {
	c := e.c
	ng := c.Not(g)
	var out []PtrAlt
	for _, a := range x {
		if gg := c.And(g, a.g); !gg.isFalse() {
			out = append(out, PtrAlt{gg, a.obj, a.path})
		}
	}
next:
	for _, b := range y {
		gg := c.And(ng, b.g)
		if gg.isFalse() {
			continue
		}
		for i := range out {
			o := &out[i]
			if o.obj == b.obj && samePathShape(o.path, b.path) {
				if !samePath(o.path, b.path) {
					np := make([]PathElem, len(o.path))
					for k := range np {
						np[k] = o.path[k]
						if np[k].idx != nil {
							np[k].idx = c.Ite(g, o.path[k].idx, b.path[k].idx)
						}
					}
					o.path = np
				}
				o.g = c.Or(o.g, gg)
				continue next
			}
		}
		out = append(out, PtrAlt{gg, b.obj, b.path})
	}
	if len(out) > 12 {
		panic(noMerge{})
	}
	return out
}

func (e *Engine) mergeSAlts(g *Term, x, y []SAlt) []SAlt {
	c := e.c
	ng := c.Not(g)
	var out []SAlt
	for _, a := range x {
		if gg := c.And(g, a.g); !gg.isFalse() {
			a.g = gg
			out = append(out, a)
		}
	}
next:
	for _, b := range y {
		gg := c.And(ng, b.g)
		if gg.isFalse() {
			continue
		}
		for i := range out {
			o := &out[i]
			if o.obj == b.obj && o.node == b.node && samePath(o.path, b.path) {
				if o.off != b.off {
					if e.layoutDiffers(o.off, b.off) {
						panic(noMerge{})
					}
					o.off = c.Ite(g, o.off, b.off)
				}
				o.g = c.Or(o.g, gg)
				continue next
			}
		}
		b.g = gg
		out = append(out, b)
	}
	if len(out) > 12 {
		panic(noMerge{})
	}
	return out
}

func (e *Engine) mergeIAlts(g *Term, x, y []IAlt) []IAlt {
	c := e.c
	ng := c.Not(g)
	var out []IAlt
	for _, a := range x {
		if gg := c.And(g, a.g); !gg.isFalse() {
			a.g = gg
			out = append(out, a)
		}
	}
next:
	for _, b := range y {
		gg := c.And(ng, b.g)
		if gg.isFalse() {
			continue
		}
		for i := range out {
			o := &out[i]
			if o.typ == nil && b.typ == nil {
				o.g = c.Or(o.g, gg)
				continue next
			}
			if o.typ != nil && b.typ != nil && types.Identical(o.typ, b.typ) {
				if v, ok := e.tryMerge(g, o.val, b.val); ok {
					o.val = v
					o.g = c.Or(o.g, gg)
					continue next
				}
			}
		}
		b.g = gg
		out = append(out, b)
	}
	if len(out) > 12 {
		panic(noMerge{})
	}
	return out
}

func (e *Engine) tryMerge(g *Term, a, b Value) (v Value, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(noMerge); is {
				v, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return e.merge(g, a, b), true
}

func (e *Engine) mergeMaps(g *Term, x, y *MapC) *MapC {
	r := &MapC{zero: x.zero}
	// common syntactic prefix
	i := 0
	for i < len(x.ents) && i < len(y.ents) && e.sameValue(x.ents[i].key, y.ents[i].key) {
		r.ents = append(r.ents, MapEntry{
			key:     x.ents[i].key,
			present: e.c.Ite(g, x.ents[i].present, y.ents[i].present),
			val:     e.merge(g, x.ents[i].val, y.ents[i].val),
		})
		i++
	}
	keys := []Value{}
	addk := func(k Value) {
		for _, q := range keys {
			if e.sameValue(q, k) {
				return
			}
		}
		keys = append(keys, k)
	}
	for _, en := range x.ents[i:] {
		addk(en.key)
	}
	for _, en := range y.ents[i:] {
		addk(en.key)
	}
	for _, k := range keys {
		px, vx := e.mapGet(x, k)
		py, vy := e.mapGet(y, k)
		r.ents = append(r.ents, MapEntry{key: k, present: e.c.Ite(g, px, py), val: e.merge(g, vx, vy)})
	}
	return r
}

// sameValue reports syntactic equality.
func (e *Engine) sameValue(a, b Value) bool {
	if a == b {
		return true
	}
	if x, ok := a.(*StrV); ok {
		if y, ok := b.(*StrV); ok {
			sx, ok1 := e.concStr(nil, x)
			sy, ok2 := e.concStr(nil, y)
			return ok1 && ok2 && sx == sy
		}
	}
	if x, ok := a.(*IfaceV); ok {
		if y, ok := b.(*IfaceV); ok && len(x.alts) == 1 && len(y.alts) == 1 {
			p, q := x.alts[0], y.alts[0]
			return p.typ != nil && q.typ != nil && types.Identical(p.typ, q.typ) && e.sameValue(p.val, q.val)
		}
	}
	return false
}

func (e *Engine) mapGet(m *MapC, k Value) (*Term, Value) {
	present, val := e.c.False, m.zero
	for _, en := range m.ents {
		q := e.valEq(nil, en.key, k)
		if q.isFalse() {
			continue
		}
		if q.isTrue() {
			present, val = en.present, e.merge(en.present, en.val, m.zero)
			continue
		}
		present = e.c.Ite(q, en.present, present)
		val = e.merge(q, e.merge(en.present, en.val, m.zero), val)
	}
	return present, val
}

func (e *Engine) mapPut(m *MapC, k Value, present *Term, v Value) *MapC {
	r := &MapC{zero: m.zero}
	r.ents = append(r.ents, m.ents...)
	n := len(r.ents)
	if n > 0 && e.sameValue(r.ents[n-1].key, k) {
		r.ents[n-1] = MapEntry{k, present, v}
		return r
	}
	// Replacing an older entry in place is sound when every later key is
	// certainly different.
	for i := n - 1; i >= 0; i-- {
		if e.sameValue(r.ents[i].key, k) {
			r.ents[i] = MapEntry{k, present, v}
			return r
		}
		if !e.valEq(nil, r.ents[i].key, k).isFalse() {
			break
		}
	}
	if present.isFalse() && n == 0 {
		return r
	}
	r.ents = append(r.ents, MapEntry{k, present, v})
	return r
}

// mapPutIf performs the update only under guard g.
func (e *Engine) mapPutIf(g *Term, m *MapC, k Value, present *Term, v Value) *MapC {
	if g.isTrue() {
		return e.mapPut(m, k, present, v)
	}
	p0, v0 := e.mapGet(m, k)
	return e.mapPut(m, k, e.c.Ite(g, present, p0), e.merge(g, v, v0))
}

// live[i]: entry i holds a present key that no later entry shadows.
func (e *Engine) mapLive(m *MapC) []*Term {
	out := make([]*Term, len(m.ents))
	for i := range m.ents {
		t := m.ents[i].present
		for j := i + 1; j < len(m.ents); j++ {
			t = e.c.And(t, e.c.Not(e.valEq(nil, m.ents[i].key, m.ents[j].key)))
		}
		out[i] = t
	}
	return out
}

func (e *Engine) mapLen(m *MapC) *Term {
	n := e.k64(0)
	for _, l := range e.mapLive(m) {
		n = e.c.Add(n, e.c.Ite(l, e.k64(1), e.k64(0)))
	}
	return n
}

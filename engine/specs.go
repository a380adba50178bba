package main

import "time"

type P map[string]int

// with returns p with the entries of q added.
func (p P) with(q P) P { return merge(p, q) }

func merge(p, q P) P {
	r := P{}
	for k, v := range p {
		r[k] = v
	}
	for k, v := range q {
		r[k] = v
	}
	return r
}

// Record shapes of the built messages (see harness/h/build.go).
var (
	// one record, every shape
	one = P{"k": 1, "tag": 3, "prefix": 3, "pay": 300, "new": 300, "fixpay": 0, "varlens": 2046, "rawlens": 2046,
		"roleLo": 0, "roleHi": 5, "fullLo": 0, "fullHi": 1, "kLo": 0, "kHi": 14}
	// one record, payload lengths around the length of their prefix
	oneFix = merge(one, P{"fixpay": 1, "pay": 129, "new": 129})
	// one record, few shapes
	small = merge(one, P{"tag": 1, "prefix": 1, "pay": 20, "new": 20, "varlens": 6, "rawlens": 6})
	// two records of minimal and one-byte-padded shapes
	two = merge(one, P{"k": 2, "tag": 1, "prefix": 1, "varlens": 6, "rawlens": 6})
	// two records, more shapes
	twoWide = merge(one, P{"k": 2, "tag": 2, "prefix": 2, "varlens": 1542, "rawlens": 1030})
	// three records of minimal shape
	three = merge(one, P{"k": 3, "tag": 1, "prefix": 1, "varlens": 2, "rawlens": 6})
)

const shapes1 = "1 record (k=1): tags of 1..tag bytes (padded ones included), every wire type, varints of every length 1..10 (padded included), length prefixes of 1..prefix bytes, payload 0..pay bytes of any content; field ids, values and contents symbolic; replaced or appended value 0..new bytes, varints of every length; buffer with and without spare capacity"
const shapesK = "k records; tags of 1..tag bytes, varints of the lengths in the bit mask varlens, length prefixes of 1..prefix bytes, payload 0..pay bytes; field ids, values and contents symbolic; written varints of the lengths in the bit mask rawlens, payloads 0..new bytes; buffer with and without spare capacity"

const shapesLarge = "k records, the first a bytes record of 17000, 70000 or 65526..65526+near-1 bytes of any content, so that what follows starts below, at and beyond byte 65535, the others of minimal shape with payloads of 3 bytes; replaced or appended value of 0 or one of those lengths; field ids, values and contents symbolic; buffer with and without spare capacity"

// specTable lists what decides each property.
func specTable() []*Spec {
	var t []*Spec
	add := func(prop, fn string, params P, fs ...func(*Spec)) {
		s := &Spec{Prop: prop, Pkg: "h", Func: fn, Params: params}
		for _, f := range fs {
			f(s)
		}
		t = append(t, s)
	}
	quick := func(s *Spec) { s.Tier = "quick" }
	deep := func(s *Spec) { s.Tier = "thorough"; s.Budget = 2 * time.Hour }
	conc := func(s *Spec) {
		s.Conc = true
		s.Shards = 8
		s.Bound = shapesK
		if s.Params["k"] == 1 {
			s.Bound = shapes1
		}
	}
	// what the step harness verifies
	const wSet, wOther, wFresh, wRef, wRep = 1, 2, 4, 8, 16
	steps := func(prop, fn string, what int, restrict P) {
		w := P{"what": what}
		add(prop, fn, one.with(w).with(restrict), conc)
		add(prop, fn, oneFix.with(w).with(P{"tag": 2, "roleHi": 3, "varlens": 2, "rawlens": 2}).with(restrict), conc)
		add(prop, fn, two.with(w).with(restrict), quick, conc)
		if fn == "Step" {
			// two records besides the replaced one
			add(prop, fn, three.with(w).with(P{"kLo": 2, "kHi": 2, "pay": 5, "new": 5, "fullHi": 0, "roleHi": 4}).with(restrict), quick, conc)
		}
		add(prop, fn, twoWide.with(w).with(restrict), deep, conc)
		add(prop, fn, three.with(w).with(restrict), deep, conc)
	}

	add("C01", "DecodeTotal", P{"n": 12}, quick)
	add("C01", "DecodeTotal", P{"n": 20}, deep)

	add("C02", "DecodeExact", P{"n": 8, "k": 4}, quick)
	add("C02", "DecodeTail", one, conc)
	add("C02", "DecodeTail", one.with(P{"k": 0}), conc)
	add("C02", "DecodeExact", P{"n": 10, "k": 5}, deep)
	add("C02", "DecodeTail", two.with(P{"tag": 2, "prefix": 2}), deep, conc)

	add("C03", "GetScalar", one.with(P{"roleHi": 3}), conc)
	add("C03", "GetScalar", two.with(P{"roleHi": 3, "varlens": 1542, "tag": 2}), quick, conc)
	add("C03", "GetScalar", two.with(P{"roleHi": 3, "varlens": 2046, "tag": 2, "prefix": 2}), deep, conc)
	add("C03", "GetScalar", three.with(P{"roleHi": 3, "varlens": 1030}), deep, conc)

	add("C04", "GetPayload", one, conc)
	add("C04", "GetPayload", two, quick, conc)
	add("C04", "GetPayload", twoWide.with(P{"prefix": 3}), deep, conc)
	add("C04", "GetPayload", three, deep, conc)

	wide := P{"wide": 1, "k": 1, "tag": 3}
	steps("C05", "Step", wSet, nil)
	add("C05", "Step", one.with(wide).with(P{"what": wSet, "varlens": 1030, "rawlens": 1030}), conc)
	steps("C06", "Step", wOther|wRep, nil)
	add("C06", "Step", one.with(wide).with(P{"what": wOther | wRep, "varlens": 1030, "rawlens": 1030}), conc)
	steps("C06", "Append", wOther, nil)
	steps("C07", "Step", wRef|wOther, nil)
	steps("C07", "Append", wRef|wOther, nil)
	steps("C08", "Step", wFresh|wOther|wRep, nil)
	steps("C08", "Append", wFresh|wSet, nil)
	for _, p := range []string{"C05", "C06", "C07", "C08"} {
		add(p, "Sparse", P{"maxtag": 2, "maxfield": 40}, func(s *Spec) { s.Unwind = 2200 })
		add(p, "Sparse", P{"maxtag": 3, "maxfield": 2049}, func(s *Spec) { s.Unwind = 2200 })
	}

	add("C09", "Canonical", one.with(P{"maxtag": 3, "maxfield": 2100}), conc)
	add("C09", "Canonical", one.with(P{"maxtag": 5, "maxfield": 1 << 29}), deep, conc)

	add("C10", "Iterate", one, conc)
	add("C10", "Iterate", two.with(P{"tag": 2, "prefix": 2}), quick, conc)
	// an element and an unknown record with a tag of any length
	add("C10", "Iterate", small.with(P{"k": 2, "tag": 10, "varlens": 2, "pay": 3, "fullHi": 0, "roles": 143}), conc)
	add("C10", "Iterate", two.with(P{"tag": 2, "prefix": 3, "varlens": 2046}), deep, conc)
	add("C10", "Iterate", three, conc)
	steps("C11", "Append", wSet, nil)

	add("C12", "Reuse", one.with(P{"k": 0}), conc)
	add("C12", "Reuse", one.with(P{"noset": 1}), conc)
	add("C12", "Reuse", one.with(P{"tag": 1, "prefix": 1, "roleHi": 0, "fullHi": 0, "varlens": 1030, "rawlens": 1030, "pay": 20, "new": 20}), conc)
	add("C12", "Reuse", two.with(P{"noset": 1}), deep, conc)
	add("C12", "Reuse", two.with(P{"roleHi": 1, "fullHi": 0, "varlens": 6, "rawlens": 1026, "pay": 20, "new": 20}), deep, conc)
	edges := small.with(P{"fixpay": 3, "kLo": 13, "new": 1 << 21})
	add("C05", "Step", edges.with(P{"what": wSet | wRef, "roleHi": 1}), conc)
	add("C09", "Canonical", edges.with(P{"maxtag": 3, "maxfield": 2100}), conc)
	add("C11", "Append", edges.with(P{"what": wSet | wRef}), conc)
	add("C13", "Table", P{"ops": 1})
	add("C13", "Table", P{"ops": 2}, deep)

	add("C14", "NoAlloc", one, conc)
	add("C14", "NoAlloc", two, conc)
	add("C14", "NoAlloc", small.with(P{"dirty": 1}), conc)
	add("C14", "NoAlloc", two.with(P{"fixpay": 2, "near": 8, "prefix": 3, "pay": 70000, "new": 70000, "varlens": 2, "rawlens": 2, "roleHi": 4}), func(s *Spec) { conc(s); s.Bound = shapesLarge + "; only messages that stay below 65535 bytes" })
	add("C14", "NoAlloc", twoWide, deep, conc)
	add("C15", "Nested", P{"pay": 20, "growslack": 1000000}, func(s *Spec) { s.Conc = true })
	add("C16", "Isolated", one, conc)
	add("C16", "Isolated", two, conc)
	add("C16", "Grow", P{"pay": 20, "growslack": 1000000}, func(s *Spec) { s.Conc = true })
	alias := one.with(P{"tag": 2, "varlens": 1030, "rawlens": 1030})
	add("C17", "SelfAlias", alias, conc)
	add("C17", "SelfAlias", two.with(P{"pay": 40, "new": 40, "varlens": 2, "rawlens": 2}), quick, conc)
	add("C17", "SelfAlias", one, deep, conc)
	add("C17", "SelfAlias", two.with(P{"pay": 130, "prefix": 2}), deep, conc)
	add("C18", "HostileBuilt", two, conc)
	add("C18", "HostileBuilt", small.with(P{"k": 2, "tag": 10, "varlens": 2, "pay": 3, "fullHi": 0, "roles": 143}), conc)
	add("C18", "HostileBuilt", twoWide, deep, conc)
	add("C18", "Hostile", P{"n": 5, "k": 2}, func(s *Spec) { s.Lazy = -1 })
	gen := func(prop, fn string, params P, shards int, fs ...func(*Spec)) {
		s := &Spec{Prop: prop, Pkg: "hgen", Func: fn, Params: params.with(P{"fork": 1, "growconst": 65536}), Fork: true, Shards: shards}
		for _, f := range fs {
			f(s)
		}
		t = append(t, s)
	}
	gen("C19", "Fields", P{"digLo": 1, "digHi": 9, "where": 0}, 8)
	gen("C19", "Fields", P{"digLo": 1, "digHi": 1, "where": 5}, 8)
	gen("C19", "Fields", P{"digLo": 1, "digHi": 9, "where": 5}, 8, deep)
	gen("C20", "Tables", P{"k": 0, "digLo": 1, "digHi": 1}, 1)
	gen("C20", "Tables", P{"k": 1, "digLo": 1, "digHi": 9}, 1)
	gen("C20", "Tables", P{"k": 2, "digLo": 1, "digHi": 2}, 8, quick)
	gen("C20", "Tables", P{"k": 2, "digLo": 1, "digHi": 5}, 8, deep)
	gen("C20", "Tables", P{"k": 3, "digLo": 1, "digHi": 1}, 8, deep)
	gen("C21", "Files", P{"k": 0, "n": 1}, 1)
	gen("C21", "Files", P{"k": 1, "n": 12}, 1)
	gen("C21", "Files", P{"k": 2, "n": 3, "nil": 1}, 8)
	gen("C21", "Files", P{"k": 3, "n": 1}, 8)
	gen("C21", "Files", P{"k": 4, "n": 2, "nil": 1}, 8, deep)
	gen("C22", "Names", P{"n": 5}, 8, quick)
	gen("C22", "Names", P{"n": 3, "any": 1}, 8, quick)
	gen("C22", "Names", P{"n": 7}, 8, deep)
	gen("C22", "Names", P{"n": 4, "any": 1}, 8, deep)
	gen("C23", "Tree", P{"k": 0, "n": 0, "digs": 0, "depth": 3}, 1)
	gen("C23", "Tree", P{"k": 1, "n": 2, "digs": 10, "depth": 20}, 1)
	gen("C23", "Tree", P{"k": 2, "n": 1, "digs": 1, "depth": 3}, 8)
	gen("C23", "Tree", P{"k": 2, "n": 2, "digs": 3, "depth": 5}, 8, deep)
	gen("C23", "Tree", P{"k": 3, "n": 0, "digs": 0, "depth": 3}, 8, deep)
	cmd := func(s *Spec) { s.Pkg, s.Fork = "hcmd", true }
	add("C24", "Plugin", P{"fork": 1}, cmd)
	add("C24", "Text", P{"fork": 1}, cmd)
	add("C26", "Unknown", two.with(P{"varlens": 6, "rawlens": 1030}), conc)
	add("C26", "Unknown", one, conc)
	add("C26", "Unknown", small.with(P{"tag": 10, "roleLo": 3, "roleHi": 3}), conc)
	add("C26", "Unknown", twoWide, deep, conc)
	// a large bytes record in front of one of minimal shape
	large := two.with(P{"fixpay": 2, "near": 6, "prefix": 3, "pay": 70000, "new": 70000, "varlens": 2, "rawlens": 2, "roleHi": 4})
	far := func(s *Spec) { conc(s); s.Bound = shapesLarge }
	steps31 := large.with(P{"what": 31})
	add("C27", "Step", steps31.with(P{"kHi": 12}), far)
	add("C27", "Step", steps31.with(P{"kLo": 14, "roleHi": 1}), far)
	add("C27", "Step", steps31.with(P{"kLo": 14, "roleHi": 1, "near": 3, "again": 1}), far)
	add("C27", "Step", steps31.with(P{"rawlens": 6, "k": 3, "kLo": 2, "kHi": 2, "near": 3, "roleHi": 2}), far)
	// a large record between, behind and before records of other fields
	four := P{"rawlens": 6, "k": 4, "kLo": 2, "kHi": 2, "near": 3, "fullHi": 0, "roles": 10212, "bigAt": 1}
	add("C27", "Step", steps31.with(four), func(s *Spec) {
		far(s)
		s.Bound = "4 records: the field set, a large one, another field and a third, each of minimal shape; " + s.Bound
	})
	add("C27", "Append", steps31, far)
	add("C27", "Iterate", large.with(P{"roleHi": 5}), far)
	add("C27", "GetScalar", large, far)
	add("C27", "GetPayload", large, far)
	add("C27", "Step", steps31.with(P{"kLo": 13, "near": 10, "roleHi": 5}), deep, far)
	add("C27", "Step", steps31.with(P{"k": 3, "near": 3, "roleHi": 1, "kLo": 14}), deep, far)
	add("C27", "Reuse", large.with(P{"kLo": 14, "fullHi": 0, "roleHi": 1}), deep, far)
	add("C08", "Step", large.with(P{"what": wFresh | wOther, "kLo": 14, "roleHi": 1}), far)
	add("C28", "ReadOnly", one, conc)
	add("C28", "ReadOnly", two, conc)
	add("C28", "ReadOnly", twoWide, deep, conc)
	return t
}

package h

import (
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// A swcase is one alternative of a switch.
type swcase struct {
	vals []int64 // case values; nil: the default
	d    D
	skip int
}

func caseTag(k string, own bool, opts string) reflect.StructTag {
	if own {
		t := string(stag(opts))
		if t != "" {
			t += " "
		}
		return reflect.StructTag(t + "struct-case:" + strconv.Quote(k))
	}
	return stag(join(opts, "case="+k))
}

// C12_Int: integer discriminators of every type, cases in every order, with and without default.
func C12_Int() {
	restruct.EnableExprBeta()
	it := ints[sym.Choose("type", len(ints))]
	own := sym.Choose("own", 2) == 1
	ds := []D{u(tU8, "", 8), u(tU32, "", 32), st(b1(dU16), b1(dU8)), arrD{n: 3, e: dU8}}
	type cs struct {
		lit string
		val int64
		def bool
	}
	all := []cs{{lit: "1", val: 1}, {lit: "3", val: 3}, {lit: "K2", val: 3}, {def: true}}
	if it.signed {
		all[0] = cs{lit: "-1", val: -1}
	}
	// a permutation of the cases: two same-valued ones, so that the first must win
	perms := [][]int{{0, 1, 2, 3}, {3, 2, 1, 0}, {1, 3, 0, 2}, {0, 1}, {2, 0}, {3}, {3, 1}}
	perm := perms[sym.Choose("perm", len(perms))]
	var fs []reflect.StructField
	for i, k := range perm {
		c := all[k]
		f := reflect.StructField{Name: gname(i), Type: ds[i].Type()}
		if c.def {
			f.Tag = stag("default")
		} else {
			f.Tag = caseTag(c.lit, own, "")
		}
		fs = append(fs, f)
	}
	vt := reflect.StructOf(fs)
	t := reflect.StructOf([]reflect.StructField{sf("K", it.t, ""), sf("K2", tI64, ""), etag("V", vt, "", "switch", "K", own), sf("Z", tU16, "")})
	o, le := order("order")
	v := reflect.New(t)
	raw := symFull("k", v.Elem().Field(0), it.signed)
	k2 := sym.I64("k2")
	v.Elem().Field(1).SetInt(k2)
	sw := v.Elem().Field(2)
	for i := range perm {
		ds[i].Gen(gname(i), sw.Field(i))
	}
	z := symFull("z", v.Elem().Field(3), false)
	// which alternative is it?
	pick, def := -1, -1
	for i, k := range perm {
		c := all[k]
		if c.def {
			def = i
			continue
		}
		hit := false
		if c.lit == "K2" {
			hit = raw == uint64(k2) && (it.signed || k2 >= 0)
		} else if it.signed {
			hit = int64(raw) == c.val
		} else {
			hit = raw == uint64(c.val)
		}
		if hit {
			pick = i
			break
		}
	}
	if pick < 0 {
		pick = def
	}
	w := &wr{}
	w.num(raw, it.bits, le)
	w.num(uint64(k2), 64, le)
	if pick >= 0 {
		sym.Cover("case")
		ds[pick].Enc(w, sw.Field(pick), le)
	} else {
		sym.Cover("none")
	}
	w.num(z, 16, le)
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "Pack encodes exactly the selected case")
	sizes(v.Interface(), w)
	x := reflect.New(t)
	xs := x.Elem().Field(2)
	for i := range perm {
		ds[i].Gen("old"+gname(i), xs.Field(i))
	}
	err = restruct.Unpack(w.b, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	for i := range perm {
		if i != pick {
			sw.Field(i).Set(reflect.Zero(ds[i].Type()))
		}
	}
	sym.Assert(sym.Same(x.Interface(), v.Interface()), "Unpack decodes the selected case and zeroes the others")
}

// C12_Str: string and bool discriminators; pointer cases.
func C12_Str() {
	restruct.EnableExprBeta()
	type in struct{ P, Q uint8 }
	type T struct {
		S string `struct:"[2]byte"`
		V struct {
			A *uint16   `struct-case:"$'ab'"`
			B *in       `struct-case:"\"cd\""`
			C uint8     `struct-case:"$'e'"`
			D *[3]uint8 `struct:"default"`
		} `struct-switch:"S"`
		B bool
		W struct {
			X uint16 `struct:"case=true"`
			Y uint8  `struct:"case=false"`
		} `struct:"switch=B"`
		Z uint8
	}
	o, le := order("order")
	b0, b1 := sym.U8("s0"), sym.U8("s1")
	sym.Assume(b0 != 0)
	var v T
	w := &wr{}
	w.put(uint64(b0), 8)
	w.put(uint64(b1), 8)
	v.S = string([]byte{b0, b1})
	if b1 == 0 {
		v.S = string([]byte{b0})
	}
	switch {
	case b0 == 'a' && b1 == 'b':
		x := sym.U16("a")
		v.V.A = &x
		w.num(uint64(x), 16, le)
	case b0 == 'c' && b1 == 'd':
		v.V.B = &in{sym.U8("p"), sym.U8("q")}
		w.put(uint64(v.V.B.P), 8)
		w.put(uint64(v.V.B.Q), 8)
	case b0 == 'e' && b1 == 0:
		v.V.C = sym.U8("c")
		w.put(uint64(v.V.C), 8)
	default:
		v.V.D = &[3]uint8{sym.U8("d0"), sym.U8("d1"), sym.U8("d2")}
		for _, y := range v.V.D {
			w.put(uint64(y), 8)
		}
	}
	v.B = sym.Bool("b")
	w.put(sym.Ite(v.B, 1, 0), 8)
	if v.B {
		v.W.X = sym.U16("x")
		w.num(uint64(v.W.X), 16, le)
	} else {
		v.W.Y = sym.U8("y")
		w.put(uint64(v.W.Y), 8)
	}
	v.Z = sym.U8("z")
	w.put(uint64(v.Z), 8)
	modelValue(o, reflect.ValueOf(&v), w)
	sizes(&v, w)
}

// C12_Nested: switches in slices, in switches, on expressions, with skip and order on the cases.
func C12_Nested() {
	restruct.EnableExprBeta()
	type in struct {
		K uint8
		V struct {
			A uint16 `struct:"little,case=0"`
			B uint16 `struct:"big,skip=1,case=1"`
			C uint8  `struct:"uint8:4,case=2"`
			D struct {
				E uint8 `struct:"default"`
				F int16 `struct:"case=true"`
			} `struct:"switch=K & 1 == 1,default"`
		} `struct:"switch=K % 5"`
	}
	type T struct {
		N uint8 `struct:"sizeof=L"`
		L []in
		Z uint8
	}
	o, le := order("order")
	n := sym.Choose("n", 3)
	if !sym.Thorough() && n > 1 {
		n = 1
	}
	v := T{N: uint8(n), L: make([]in, n), Z: sym.U8("z")}
	w := &wr{}
	w.put(uint64(n), 8)
	for i := range v.L {
		p := strconv.Itoa(i)
		x := &v.L[i]
		x.K = sym.U8("k" + p)
		w.put(uint64(x.K), 8)
		switch x.K % 5 {
		case 0:
			x.V.A = sym.U16("a" + p)
			w.num(uint64(x.V.A), 16, true)
		case 1:
			x.V.B = sym.U16("b" + p)
			w.zero(8)
			w.num(uint64(x.V.B), 16, false)
		case 2:
			x.V.C = sym.U8("c"+p) & 15
			w.put(uint64(x.V.C), 4)
		default:
			if x.K&1 == 1 {
				x.V.D.F = sym.I16("f" + p)
				w.num(uint64(x.V.D.F), 16, le)
			} else {
				x.V.D.E = sym.U8("e" + p)
				w.put(uint64(x.V.D.E), 8)
			}
		}
	}
	w.put(uint64(v.Z), 8)
	modelValue(o, reflect.ValueOf(&v), w)
	sizes(&v, w)
}

// C12_Bad: two defaults, fields that are no case, switches on non-structs are errors.
func C12_Bad() {
	restruct.EnableExprBeta()
	ts := []reflect.Type{
		tof(struct {
			A uint8 `struct:"default"`
			B uint8 `struct:"default"`
		}{}),
		tof(struct {
			A uint8
		}{}),
		tof(struct {
			A uint8 `struct:"case=Nope"`
		}{}),
		tof(struct {
			A uint8 `struct:"case=K / 0"`
		}{}),
		tU8, tof([2]uint8{}), tof([]uint8(nil)),
	}
	t := reflect.StructOf([]reflect.StructField{sf("K", tU8, ""), sf("V", ts[sym.Choose("t", len(ts))], "switch=K")})
	v := reflect.New(t)
	symFull("k", v.Elem().Field(0), false)
	o, _ := order("order")
	for _, e := range all(o, v.Interface(), sym.Bytes("data", 4)) {
		sym.Assert(e != nil, "a malformed switch is an error")
	}
}

// C12_Float: float discriminators of both widths; a literal takes the type of what is switched on.
func C12_Float() {
	restruct.EnableExprBeta()
	typ := sym.Choose("type", 4)
	t := []reflect.Type{tof(float32(0)), tof(float64(0)), tof(c12f32(0)), tof(c12f64(0))}[typ]
	type cs struct {
		lit string
		val float64
		def bool
	}
	all := []cs{{lit: "1.5", val: 1.5}, {lit: "0.1", val: 0.1}, {lit: "2", val: 2}, {lit: "1.5", val: 1.5}, {def: true}, {lit: "-3", val: -3}, {lit: "-0.25", val: -0.25}}
	perms := [][]int{{0, 1, 2, 4}, {4, 1, 0, 3}, {2, 5, 6}, {3, 0, 5}, {1}, {6, 4}}
	perm := perms[sym.Choose("perm", len(perms))]
	own := sym.Choose("own", 2) == 1
	ds := []D{dU8, dU32, st(b1(dU16), b1(dU8)), arrD{n: 3, e: dU8}}
	var fs []reflect.StructField
	for i, k := range perm {
		f := reflect.StructField{Name: gname(i), Type: ds[i].Type()}
		if c := all[k]; c.def {
			f.Tag = stag("default")
		} else {
			f.Tag = caseTag(c.lit, own, "")
		}
		fs = append(fs, f)
	}
	st := reflect.StructOf([]reflect.StructField{sf("K", t, ""), etag("V", reflect.StructOf(fs), "", "switch", "K", own), sf("Z", tU16, "")})
	o, le := order("order")
	v := reflect.New(st)
	sw := v.Elem().Field(1)
	w := &wr{}
	kd := D(f32D{})
	if t.Bits() == 64 {
		kd = f64D{}
	}
	kd.Gen("k", v.Elem().Field(0))
	kd.Enc(w, v.Elem().Field(0), le)
	k := v.Elem().Field(0).Float()
	pick, def := -1, -1
	for i, j := range perm {
		c := all[j]
		if c.def {
			def = i
			continue
		}
		want := c.val
		if t.Bits() == 32 {
			want = float64(float32(want))
		}
		if k == want {
			pick = i
			break
		}
	}
	if pick < 0 {
		pick = def
	}
	if pick >= 0 {
		sym.Cover("case")
		ds[pick].Gen("v", sw.Field(pick))
		ds[pick].Enc(w, sw.Field(pick), le)
	} else {
		sym.Cover("none")
	}
	w.num(symFull("z", v.Elem().Field(2), false), 16, le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

type (
	c12f32 float32
	c12f64 float64
)

// C12_Expr: the value switched on and the cases may be computed from fields, anew for every value.
func C12_Expr() {
	restruct.EnableExprBeta()
	type cs struct {
		src string
		val func(k, m uint8) uint8
	}
	ons := []cs{{"K", func(k, m uint8) uint8 { return k }}, {"K & 7", func(k, m uint8) uint8 { return k & 7 }}, {"K - M", func(k, m uint8) uint8 { return k - m }}}
	all := []cs{{"M + 1", func(k, m uint8) uint8 { return m + 1 }}, {"M ^ 3", func(k, m uint8) uint8 { return m ^ 3 }}, {"2", func(k, m uint8) uint8 { return 2 }}, {"K", func(k, m uint8) uint8 { return k }}, {"M > 9 ? 4 : M", func(k, m uint8) uint8 {
		if m > 9 {
			return 4
		}
		return m
	}}}
	on := ons[sym.Choose("on", len(ons))]
	perm := [][]int{{0, 1, 2}, {2, 4}, {1, 0, 3}}[sym.Choose("perm", 3)]
	ds := []D{dU8, dU16, st(b1(dU8), b1(dU16))}
	var fs []reflect.StructField
	for i, k := range perm {
		fs = append(fs, etag(gname(i), ds[i].Type(), "", "case", all[k].src, sym.Choose("own", 2) == 1))
	}
	el := reflect.StructOf([]reflect.StructField{sf("K", tU8, ""), sf("M", tU8, ""), etag("V", reflect.StructOf(append(fs, sf("D", tU32, "default"))), "", "switch", on.src, false)})
	t := reflect.StructOf([]reflect.StructField{sf("E", reflect.ArrayOf(2, el), ""), sf("Z", tU8, "")})
	o, le := order("order")
	v := reflect.New(t)
	w := &wr{}
	for i := 0; i < 2; i++ {
		e := v.Elem().Field(0).Index(i)
		k, m := sym.U8("k"+gname(i)), sym.U8("m"+gname(i))
		e.Field(0).SetUint(uint64(k))
		e.Field(1).SetUint(uint64(m))
		w.put(uint64(k), 8)
		w.put(uint64(m), 8)
		pick := 0
		for pick < len(perm) && on.val(k, m) != all[perm[pick]].val(k, m) {
			pick++
		}
		d := D(dU32)
		if pick < len(perm) {
			d = ds[pick]
			sym.Cover("case")
		} else {
			sym.Cover("default")
		}
		d.Gen("v"+gname(i), e.Field(2).Field(pick))
		d.Enc(w, e.Field(2).Field(pick), le)
	}
	w.num(symFull("z", v.Elem().Field(1), false), 8, le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
	// a second value of the same type, whose cases have other values
	if !sym.Thorough() {
		return
	}
	v.Elem().Field(0).Index(0).Field(1).SetUint(uint64(sym.U8("m2")))
	data, err := restruct.Pack(o, v.Interface())
	sym.Assert(err == nil, "Pack succeeds")
	x := reflect.New(t)
	err = restruct.Unpack(data, o, x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	again, err := restruct.Pack(o, x.Interface())
	sym.Assert(err == nil && sym.EqBytes(data, again), "Pack gives the same bytes")
}

// C12_Tags: a switch field has the tags of any other field, and so have its alternatives.
func C12_Tags() {
	restruct.EnableExprBeta()
	alts := []G{one{d: dU16, skip: 1}, b1(st(b1(dU16), b1(u(tU8, "uint8:3", 3)))), one{d: arrD{n: 2, e: dU16}, order: 'B', skip: 2}, one{d: ptrD{dU32}, order: 'L'},
		b1(cvD{}), b1(cstrD{2}), b1(boolD{wire: "uint16", bits: 16, variant: true}), b1(u(tU8, "uint8:5", 5))}
	n := len(alts)
	i := sym.Choose("alt", n)
	g := caseG{alts: []G{alts[i], alts[(i+1)%n], alts[(i+3)%n]}, order: ord("o"), skip: []int{0, 1, 3}[sym.Choose("skip", 3)], cond: sym.Choose("cond", 2) == 1}
	l := st(b1([]D{dU8, u(tU8, "uint8:3", 3)}[sym.Choose("first", 2)]), g, b1(dU16))
	if i == 4 || (i+1)%n == 4 || (i+3)%n == 4 {
		l = st(b1(dU8), g, b1(dU16)) // the methods take bytes
	}
	o, le := order("order")
	v := gen(l)
	w := encode(l, v.Elem(), le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// C12_Many: a switch with many alternatives.
func C12_Many() {
	restruct.EnableExprBeta()
	n := []int{9, 17, 40}[sym.Choose("n", 3)]
	ds := []D{dU8, dU16, st(b1(dU8), b1(dU16)), arrD{n: 2, e: dU8}, ptrD{dU8}, cstrD{1}}
	def := []int{-1, 0, n / 2, n - 1}[sym.Choose("def", 4)]
	var fs []reflect.StructField
	val := func(i int) int64 { return int64(i*7 + 3) }
	d := func(i int) D { return ds[(i*5+i/6)%len(ds)] }
	for i := 0; i < n; i++ {
		f := sf("F"+strconv.Itoa(i), d(i).Type(), join(d(i).Wire(), "case="+strconv.Itoa(int(val(i)))))
		if i == def {
			f = sf("F"+strconv.Itoa(i), d(i).Type(), join(d(i).Wire(), "default"))
		}
		fs = append(fs, f)
	}
	t := reflect.StructOf([]reflect.StructField{sf("K", tI32, ""), sf("V", reflect.StructOf(fs), "switch=K"), sf("Z", tU16, "")})
	pick := []int{0, 1, 7, 8, 15, 16, n / 2, n - 2, n - 1, -1}[sym.Choose("pick", 10)]
	if pick >= n {
		sym.Stop()
	}
	o, le := order("order")
	v := reflect.New(t)
	if pick < 0 || pick == def {
		k := sym.I32("k")
		for i := 0; i < n; i++ {
			sym.Assume(i == def || int64(k) != val(i))
		}
		pick = def
		v.Elem().Field(0).SetInt(int64(k))
	} else {
		v.Elem().Field(0).SetInt(val(pick))
	}
	v.Elem().Field(2).SetUint(uint64(sym.U16("z")))
	w := &wr{}
	w.num(uint64(v.Elem().Field(0).Int()), 32, le)
	if pick >= 0 {
		d(pick).Gen("v", v.Elem().Field(1).Field(pick))
		d(pick).Enc(w, v.Elem().Field(1).Field(pick), le)
	}
	w.num(v.Elem().Field(2).Uint(), 16, le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// C12_Conds: alternatives may be absent, or have a length or a width, depending on other fields.
func C12_Conds() {
	restruct.EnableExprBeta()
	type sub struct {
		X uint8
		Y uint16 `struct:"if=X == 1"`
	}
	type U struct {
		A uint16   `struct:"case=1,if=F == 1"`
		B sub      `struct:"case=2,if=F != 1,skip=1"`
		C []uint8  `struct:"case=3,size=F & 1"`
		D uint32   `struct:"case=4,big,bits=F & 7 + 1"`
		E *uint16  `struct:"case=5,if=F > 200"`
		G [2]uint8 `struct:"case=6,if=F & 2 == 2,skip=2"`
		H []uint16 `struct:"case=7,if=F == 9,size=1"`
		I string   `struct:"case=8,if=F == 3 || F == 4,size=1"`
		Z uint8    `struct:"default,if=F == 0"`
	}
	type T struct {
		K, F uint8
		U    U `struct:"switch=K"`
		N    uint8
	}
	o, le := order("order")
	k, f := uint8(sym.Choose("k", 10)), sym.U8("f")
	v := &T{K: k, F: f, N: sym.U8("n")}
	w := &wr{}
	w.put(uint64(k), 8)
	w.put(uint64(f), 8)
	a, b := sym.U16("a"), sym.U8("b")
	switch k {
	case 1:
		if f == 1 {
			v.U.A = a
			w.num(uint64(a), 16, le)
		}
	case 2:
		if f != 1 {
			v.U.B.X = b
			w.put(0, 8)
			w.put(uint64(b), 8)
			if b == 1 {
				v.U.B.Y = a
				w.num(uint64(a), 16, le)
			}
		}
	case 3:
		v.U.C = []uint8{}
		if f&1 == 1 {
			v.U.C = []uint8{b}
			w.put(uint64(b), 8)
		}
	case 4:
		n := sym.Pick(int(f&7)) + 1
		v.U.D = uint32(b) & (1<<uint(n) - 1)
		w.put(uint64(v.U.D), n)
	case 5:
		if f > 200 {
			v.U.E = &a
			w.num(uint64(a), 16, le)
		}
	case 6:
		if f&2 == 2 {
			v.U.G = [2]uint8{b, ^b}
			w.put(0, 16)
			w.put(uint64(b), 8)
			w.put(uint64(^b), 8)
		}
	case 7:
		if f == 9 {
			v.U.H = []uint16{a}
			w.num(uint64(a), 16, le)
		}
	case 8:
		if f == 3 || f == 4 {
			v.U.I = string([]byte{b})
			w.put(uint64(b), 8)
		}
	default:
		if f == 0 {
			v.U.Z = b
			w.put(uint64(b), 8)
		}
	}
	w.put(uint64(v.N), 8)
	sizes(v, w)
	modelValue(o, reflect.ValueOf(v), w)
}

package h

import (
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// pads are fields named _ of every kind with the bits they take.
func pads() []pad {
	l := []pad{
		{tof(false), "", 8}, {tU8, "", 8}, {tU16, "", 16}, {tU32, "", 32}, {tU64, "", 64}, {tI8, "", 8}, {tI16, "", 16}, {tI32, "", 32}, {tI64, "", 64},
		{tInt, "", 32}, {tUnt, "", 32}, {tof(float32(0)), "", 32}, {tof(float64(0)), "", 64}, {tof(complex64(0)), "", 64}, {tof(complex128(0)), "", 128},
		{tof([3]byte{}), "", 24}, {tof([2]uint16{}), "", 32}, {tof([2][2]uint8{}), "", 32}, {tof(struct{}{}), "", 0},
		{tof(struct {
			A uint8
			B uint16
		}{}), "", 24},
		{tof(struct {
			A uint8 `struct:"uint8:3"`
			B uint8 `struct:"uint8:4"`
		}{}), "", 7},
		{tof([2]struct {
			A uint8 `struct:"uint8:3"`
		}{}), "", 6},
		{tof(struct {
			A uint8
			B uint16 `struct:"skip=2"`
			_ uint8  `struct:"uint8:5"`
		}{}), "", 8 + 16 + 16 + 5},
		{tU32, "uint8", 8}, {tU8, "uint32", 32}, {tInt, "int16", 16}, {tof(false), "int32", 32}, {tof([2]int{}), "[2]int16", 32},
		{tof(struct{}{}), "skip=3", 24}, {tU8, "skip=1", 16}, {tof([0]byte{}), "", 0}, {tof([0]byte{}), "skip=2", 16},
	}
	for n := 1; n < 8; n++ {
		l = append(l, pad{tU8, "uint8:" + strconv.Itoa(n), n})
	}
	return append(l, pad{tU16, "uint16:9", 9}, pad{tU32, "uint32:31", 31}, pad{tU64, "uint64:63", 63}, pad{tI64, "int64:17", 17}, pad{tI8, "int8:6", 6})
}

// padded checks field A, padding, field B: zero on packing, don't care on unpacking.
func padded(d stD) {
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "padding is zero and exactly as wide as declared")
	sizes(v.Interface(), w)
	// set every padding bit to anything
	dirty := append([]byte(nil), w.b...)
	m := padMask(d, v.Elem())
	for i := range dirty {
		dirty[i] |= sym.U8("dirt"+strconv.Itoa(i)) & m[i]
	}
	x := reflect.New(d.Type())
	err = restruct.Unpack(dirty, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.Same(x.Interface(), v.Interface()), "padding contents do not influence any field")
	again, err := restruct.Pack(o, x.Interface())
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(again, w.b), "padding is zero again")
	// padding that is not there is an error; only its last bits in a byte of their own may be missing
	for n := max((w.last+7)/8, w.n/8) - 1; n >= 0; n -= 1 + n/2 {
		err = restruct.Unpack(dirty[:n:n], o, reflect.New(d.Type()).Interface())
		sym.Assert(err != nil, "Unpack of data without all padding fails")
	}
}

// padMask has a one in every padding bit of the layout.
func padMask(d D, v reflect.Value) []byte {
	w := &wr{}
	maskOf(w, d, v)
	for w.n%8 != 0 {
		w.bit(1)
	}
	return w.b
}

func maskOf(w *wr, d D, v reflect.Value) {
	one := func(n int) {
		for i := 0; i < n; i++ {
			w.bit(1)
		}
	}
	switch d := d.(type) {
	case stD:
		for i, g := range d.g {
			p := gname(i)
			switch g := g.(type) {
			case pad:
				one(g.bits)
			case one1:
				one(8 * g.skip)
				maskOf(w, g.d, v.FieldByName(p))
			default:
				t := &wr{}
				g.Enc(t, p, v, false)
				for i := 0; i < t.n; i++ {
					w.bit(0)
				}
			}
		}
	case arrD:
		for i := 0; i < d.n; i++ {
			maskOf(w, d.e, v.Index(i))
		}
	case ptrD:
		maskOf(w, d.e, v.Elem())
	default:
		t := &wr{}
		d.Enc(t, v, false)
		for i := 0; i < t.n; i++ {
			w.bit(0)
		}
	}
}

type one1 = one

// C09_Pads: every padding kind between fields at every bit offset.
func C09_Pads() {
	ps := pads()
	var gs []G
	if off := sym.Choose("off", 8); off > 0 {
		gs = append(gs, b1(u(tU8, "uint8:"+strconv.Itoa(off), off)))
	}
	gs = append(gs, ps[sym.Choose("pad", len(ps))])
	after := []G{b1(dU16), b1(u(tU8, "uint8:3", 3)), b1(arrD{n: 2, e: dU8})}
	gs = append(gs, after[sym.Choose("after", len(after))], b1(dU8))
	padded(stD{gs})
}

// C09_Two: two paddings in a row and around a field.
func C09_Two() {
	ps := pads()
	p, q := ps[sym.Choose("p", len(ps))], ps[sym.Choose("q", len(ps))]
	switch sym.Choose("shape", 3) {
	case 0:
		padded(st(p, q, b1(dU8)))
	case 1:
		padded(st(p, b1(u(tU8, "uint8:5", 5)), q, b1(dU16)))
	case 2:
		padded(st(b1(dU8), p, q))
	}
}

// C09_Skip: skip on every field kind.
func C09_Skip() {
	sk := 1 + sym.Choose("skip", 5)
	if sk == 5 {
		sk = 9
	}
	ds := []D{dU8, dU16, dI64, f32D{}, c128D{}, boolD{bits: 8}, s(tInt, "int16", 16), u(tU8, "uint8:3", 3), u(tU64, "uint64:41", 41), arrD{n: 2, e: dU16}, arrD{n: 2, e: st(b1(u(tU8, "uint8:3", 3)))}, fsD{n: 2, e: dU8},
		cstrD{2}, ptrD{dU16}, st(b1(dU8), b1(dU16)), st(one{d: dU8, skip: 1}), st()}
	d := ds[sym.Choose("d", len(ds))]
	var g G = one{d: d, skip: sk}
	if d.Wire() == "uint64:41" {
		g = one{d: d, skip: sk, order: 'B'}
	}
	gs := []G{g, b1(dU8)}
	if sym.Choose("prefix", 2) == 1 {
		gs = append([]G{b1(u(tU8, "uint8:3", 3))}, gs...)
	}
	switch sym.Choose("nest", 3) {
	case 0:
		padded(stD{gs})
	case 1:
		padded(st(b1(stD{gs}), b1(dU8)))
	case 2:
		padded(st(b1(arrD{n: 2, e: stD{gs}}), b1(dU8)))
	}
}

// C09_SkipVar: skip on counts, slices, strings and in front of sizefrom fields.
func C09_SkipVar() {
	type in struct {
		X uint8 `struct:"skip=1"`
	}
	type T struct {
		N uint8   `struct:"sizeof=S,skip=1"`
		S []uint8 `struct:"skip=2"`
		M uint16  `struct:"skip=1"`
		R string  `struct:"sizefrom=M,skip=1"`
		K int8    `struct:"sizeof=L"`
		L []in    `struct:"skip=2"`
		Z uint8
	}
	o, le := order("order")
	v := T{S: sym.Bytes("S", sym.Choose("s", 3)), R: sym.Str("R", sym.Choose("r", 3)), L: make([]in, sym.Choose("l", 3)), Z: sym.U8("Z")}
	v.N, v.M, v.K = uint8(len(v.S)), uint16(len(v.R)), int8(len(v.L))
	w, m := &wr{}, &wr{}
	d := func(x uint64, n int) { w.num(x, n, le); m.put(0, n) }
	z := func(n int) { w.put(0, 8*n); m.put(^uint64(0), 8*n) }
	z(1)
	d(uint64(len(v.S)), 8)
	z(2)
	for _, b := range v.S {
		d(uint64(b), 8)
	}
	z(1)
	d(uint64(len(v.R)), 16)
	z(1)
	for i := 0; i < len(v.R); i++ {
		d(uint64(v.R[i]), 8)
	}
	d(uint64(len(v.L)), 8)
	z(2)
	for i := range v.L {
		v.L[i].X = sym.U8("x" + strconv.Itoa(i))
		z(1)
		d(uint64(v.L[i].X), 8)
	}
	d(uint64(v.Z), 8)
	data, err := restruct.Pack(o, &v)
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "skipped bytes are zero and exactly as many as declared")
	sizes(&v, w)
	for i := range w.b {
		w.b[i] |= sym.U8("dirt"+strconv.Itoa(i)) & m.b[i]
	}
	var x T
	err = restruct.Unpack(w.b, o, &x)
	sym.Observe("x", x)
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.Same(x, v), "skipped contents do not influence any field")
	for n := 0; n < len(w.b); n++ {
		err = restruct.Unpack(w.b[:n:n], o, &x)
		sym.Assert(err != nil, "Unpack of data without all skipped bytes fails")
	}
}

// C09_SkipEnd: a skip in front of what takes no bytes, at the end of the data.
func C09_SkipEnd() {
	sk := 1 + sym.Choose("skip", 3)
	ds := []D{st(), arrD{n: 0, e: dU8}, fsD{n: 0, e: dU16}, cstrD{0}, ptrD{st()}, st(hidden{t: tU32, tag: "-"}), arrD{n: 2, e: st()}}
	k := sym.Choose("d", len(ds)+3)
	var g G
	switch {
	case k < len(ds):
		g = one{d: ds[k], skip: sk}
	case k == len(ds):
		g = vlen{cnt: dU8, e: dU8, skip: sk}
	case k == len(ds)+1:
		g = vlen{cnt: dU8, from: true, e: dU16, skip: sk}
	default:
		g = vlen{cnt: dU8, str: true, skip: sk}
	}
	in := st(g)
	var d stD
	switch sym.Choose("nest", 4) {
	case 0:
		d = st(b1(dU8), g)
	case 1:
		d = st(b1(in))
	case 2:
		d = st(b1(arrD{n: 2, e: in}))
	case 3:
		d = st(b1(u(tU8, "uint8:3", 3)), g)
	}
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
	for n := 0; n < w.n/8; n++ {
		err := restruct.Unpack(w.b[:n:n], o, reflect.New(d.Type()).Interface())
		sym.Assert(err != nil, "Unpack of data without all skipped bytes fails")
	}
}

// C09_Many: padding and skips in and after lists of many elements, and many bytes of padding.
func C09_Many() {
	restruct.EnableExprBeta()
	o, le := order("order")
	var d stD
	if sym.Choose("k", 2) == 0 {
		d = manyOf([]D{st(pad{t: tU16, bits: 16}, b1(dU8)), st(b1(u(tU8, "uint8:3", 3)), pad{t: tU8, wire: "uint8:5", bits: 5}), st(one{d: dU16, skip: 2}, pad{t: tU8, bits: 8}), st(b1(st(one{d: dU8, skip: 1})), b1(ptrD{st(pad{t: tU32, bits: 32}, b1(dU8))}))}, sizesRep()...)
	} else {
		n := []int{100, 255, 256, 300, 1000}[sym.Choose("n", 5)]
		g := []G{one{d: dU16, skip: n}, pad{t: reflect.ArrayOf(n, tU8), bits: 8 * n}, pad{t: reflect.ArrayOf(n, tU16), bits: 16 * n}, one{d: st(one{d: dU16, skip: n}), skip: 1}, vlen{cnt: dU8, e: dU8, max: 2, skip: n}}
		d = st(b1([]D{dU8, u(tU8, "uint8:3", 3)}[sym.Choose("first", 2)]), g[sym.Choose("g", len(g))], b1(dU8))
	}
	v := gen(d)
	w := encode(d, v.Elem(), le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// C09_Mixed: padding and skips among fields of every kind in combination, at several levels.
func C09_Mixed() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	d := mixed(9, 60)
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
	if len(w.pads) == 0 {
		return
	}
	sym.Cover("padding")
	dirt := sym.Bytes("dirt", len(w.b))
	mask := make([]byte, len(w.b))
	for i := 0; i < len(w.pads); i += 2 {
		for j := w.pads[i]; j < w.pads[i+1]; j++ {
			mask[j/8] |= 0x80 >> uint(j%8)
		}
	}
	for i := w.n; i < 8*len(w.b); i++ {
		mask[i/8] |= 0x80 >> uint(i%8)
	}
	for i := range dirt {
		dirt[i] = dirt[i]&mask[i] | w.b[i]
	}
	x := reflect.New(d.Type())
	err := restruct.Unpack(dirt, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.Same(x.Interface(), v.Interface()), "padding contents do not influence any field")
}

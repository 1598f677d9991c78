package h

import (
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// counts are the count field types: every integer type, wire conversions and bitfields.
func counts() []numD {
	l := []numD{}
	for _, it := range ints {
		l = append(l, numD{t: it.t, bits: it.bits, signed: it.signed})
	}
	return append(l, s(tInt, "int16", 16), s(tInt, "int32", 32), u(tUnt, "uint8", 8), u(tU64, "uint16", 16), s(tI32, "int64", 64), s(tI8, "int32", 32),
		u(tU8, "uint8:3", 3), u(tUnt, "uint32:24", 24), s(tI64, "int64:5", 5))
}

func between() []G {
	return []G{nil, hidden{t: tU32, tag: "-"}, hidden{t: tof([]byte(nil))}, pad{t: tU8, bits: 8}, pad{t: tU16, wire: "uint8:5", bits: 5}, b1(dU16), vlen{cnt: dU8, e: dU8, max: 1}}
}

func elems() []D {
	return []D{dU8, dU16, nil, st(b1(dU8), b1(dI16)), u(tU32, "uint8", 8), st(vlen{cnt: dU8, e: dU8, max: 1}), arrD{n: 2, e: dU8}, ptrD{dU16}}
}

// C07_Layouts: every count type, direction, element and neighbourhood; the count field may hold
// anything before packing.
func C07_Layouts() {
	cs, bt, es := counts(), between(), elems()
	g := vlen{cnt: cs[sym.Choose("cnt", len(cs))], from: sym.Choose("from", 2) == 1, max: 2}
	var pre []G
	if sym.Choose("pre", 2) == 1 {
		pre = append(pre, hidden{name: "H", t: tU16, tag: "-"}, hidden{t: tof("")}, pad{t: tU8, bits: 8})
	}
	if !sym.Thorough() {
		// vary the element or the neighbourhood, not both
		if k := sym.Choose("what", len(bt)+len(es)); k < len(bt) {
			g.mid, g.e = bt[k], dU8
		} else if g.e = es[k-len(bt)]; g.e == nil {
			g.str = true
		}
	} else {
		g.mid = bt[sym.Choose("mid", len(bt))]
		if g.e = es[sym.Choose("elem", len(es))]; g.e == nil {
			g.str = true
		}
	}
	d := stD{append(pre, g, b1(dU16))}
	o, le := order("order")
	v := gen(d)
	p := gname(len(pre))
	w := encode(d, v.Elem(), le)
	want := reflect.New(d.Type())
	want.Elem().Set(v.Elem())
	// Pack must take the length from the slice, whatever the count field holds.
	symFull("stale", v.Elem().FieldByName(p+"N"), g.cnt.signed)
	if f := v.Elem().FieldByName(p + "V"); !g.str && f.Len() == 0 && sym.Choose("nil", 2) == 1 {
		// A nil slice has no elements, as an empty one.
		f.Set(reflect.Zero(f.Type()))
	}
	before := reflect.New(d.Type())
	before.Elem().Set(v.Elem())
	before.Elem().FieldByName(p + "N").Set(want.Elem().FieldByName(p + "N"))
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "Pack stores the element count")
	sym.Assert(sym.Same(v.Interface(), before.Interface()), "the count field holds the element count afterwards")
	x := reflect.New(d.Type())
	symFull("old", x.Elem().FieldByName(p+"N"), g.cnt.signed)
	err = restruct.Unpack(w.b, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.Same(x.Interface(), want.Interface()), "Unpack reads exactly that many elements")
}

// C07_Decode: an arbitrary count in the data.
func C07_Decode() {
	cs, es := counts(), elems()
	g := vlen{cnt: cs[sym.Choose("cnt", len(cs))], from: sym.Choose("from", 2) == 1}
	esz := []int{1, 2, 1, 3, 1, -1, 2, 2}
	k := sym.Choose("elem", len(es))
	if g.e = es[k]; g.e == nil {
		g.str = true
	}
	if esz[k] < 0 {
		sym.Stop()
	}
	d := st(g)
	o, le := order("order")
	n := (g.cnt.bits+7)/8 + 6
	data := sym.Bytes("data", n)
	v := reflect.New(d.Type())
	err := restruct.Unpack(data, o, v.Interface())
	sym.Observe("v", v.Interface())
	sym.Observe("err", err)
	// the count as the wire has it
	var raw uint64
	if le && g.cnt.bits > 8 {
		for i := g.cnt.bits/8 - 1; i >= 0; i-- {
			raw = raw<<8 | uint64(data[i])
		}
	} else {
		for i := 0; i < g.cnt.bits; i++ {
			raw = raw<<1 | uint64(data[i/8]>>uint(7-i%8)&1)
		}
	}
	if g.cnt.signed {
		raw = uint64(sext(raw, g.cnt.bits))
		if b := g.cnt.t.Bits(); b < g.cnt.bits {
			raw = uint64(sext(raw, b)) // the Go type is narrower than the wire
		}
	}
	avail := uint64(8*n-g.cnt.bits) / 8 / uint64(esz[k])
	sym.Assert(sym.Implies(raw > avail, err != nil), "a count beyond the data, or a negative one, is an error")
	sym.Assert(sym.Implies(raw <= avail, err == nil), "a count within the data is accepted")
	if err == nil {
		sym.Cover("accepted")
		sym.Assert(uint64(v.Elem().FieldByName("AV").Len()) == raw, "exactly count elements are read")
	} else {
		sym.Cover("rejected")
	}
}

// C07_Overflow: a length the count type cannot hold is an error, one it just holds is not.
func C07_Overflow() {
	type lim struct {
		c   numD
		max int
	}
	ls := []lim{{dU8, 255}, {dI8, 127}, {u(tU8, "uint8:3", 3), 7}, {s(tI64, "int64:5", 5), 15}, {u(tU64, "uint8", 8), 255}, {s(tInt, "int8", 8), 127}, {u(tU32, "uint16:4", 4), 15}, {u(tU8, "uint16", 16), 255}, {s(tI8, "int32", 32), 127}, {u(tU16, "uint16:9", 9), 511}}
	l := ls[sym.Choose("cnt", len(ls))]
	g := vlen{cnt: l.c, from: sym.Choose("from", 2) == 1, str: sym.Choose("str", 2) == 1, e: dU8}
	d := st(g)
	o, le := order("order")
	n := l.max + sym.Choose("len", 3) - 1 // max-1, max, max+1
	if sym.Choose("far", 2) == 1 {
		n = 2 * (l.max + 1) // the low bits are those of 0
	}
	if le && l.c.bits > 8 && l.c.bits%8 != 0 {
		sym.Stop()
	}
	v := reflect.New(d.Type())
	f := v.Elem().FieldByName("AV")
	b := make([]byte, n)
	b[0] = sym.U8("first")
	if g.str {
		f.SetString(string(b))
	} else {
		f.SetBytes(b)
	}
	data, err := restruct.Pack(o, v.Interface())
	if n > l.max {
		sym.Assert(err != nil, "a length that does not fit is an error")
		sym.Cover("overflow")
		return
	}
	sym.Assert(err == nil, "a length that fits is packed")
	w := encode(d, v.Elem(), le)
	sym.Assert(sym.EqBytes(data, w.b), "Pack stores the element count")
	x := reflect.New(d.Type())
	err = restruct.Unpack(data, o, x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.Same(x.Interface(), v.Interface()), "Unpack reads exactly that many elements")
}

// C07_Several: several linked pairs in one struct and in nested structs, in different directions.
func C07_Several() {
	type in struct {
		K uint8 `struct:"sizeof=W"`
		L int16
		W []uint16
		V string `struct:"sizefrom=L"`
	}
	type T struct {
		A uint8 `struct:"sizeof=X"`
		B int32 `struct:"int16"`
		I []in  `struct:"sizefrom=C"`
		Z uint8 `struct:"-"`
		C int8
		X []in
		D []uint8 `struct:"sizefrom=B"`
	}
	// C comes after I here: the decoder could not know it, so it must be refused.
	o, _ := order("order")
	v := T{A: sym.U8("a")}
	_, err := restruct.Pack(o, &v)
	sym.Assert(err != nil, "sizefrom must name an earlier field")
}

func C07_Pairs() {
	type in struct {
		K uint8 `struct:"sizeof=W"`
		x int
		L int16
		W []uint16
		V string `struct:"sizefrom=L"`
	}
	type T struct {
		A uint8 `struct:"sizeof=X"`
		z []byte
		B int `struct:"int16"`
		C int8
		I []in  `struct:"sizefrom=C"`
		Z uint8 `struct:"-"`
		X []in
		D []uint8 `struct:"sizefrom=B"`
		E uint8
	}
	o, le := order("order")
	mk := func(p string, max int) []in {
		n := sym.Choose(p, max+1)
		l := make([]in, n)
		for i := range l {
			q := p + strconv.Itoa(i)
			l[i].W = make([]uint16, sym.Choose(q+"W", 2))
			for j := range l[i].W {
				l[i].W[j] = sym.U16(q + "w")
			}
			l[i].V = sym.Str(q+"v", sym.Choose(q+"V", 2))
			l[i].K, l[i].L = sym.U8(q+"k"), sym.I16(q+"l")
		}
		return l
	}
	v := T{A: sym.U8("a"), B: sym.Int("b"), C: sym.I8("c"), I: mk("i", 1), X: mk("x", 2), D: sym.Bytes("d", sym.Choose("D", 3)), E: sym.U8("e")}
	w := &wr{}
	ins := func(l []in) {
		for _, x := range l {
			w.put(uint64(len(x.W)), 8)
			w.num(uint64(len(x.V)), 16, le)
			for _, y := range x.W {
				w.num(uint64(y), 16, le)
			}
			for i := 0; i < len(x.V); i++ {
				w.put(uint64(x.V[i]), 8)
			}
		}
	}
	w.put(uint64(len(v.X)), 8)
	w.num(uint64(len(v.D)), 16, le)
	w.put(uint64(len(v.I)), 8)
	ins(v.I)
	ins(v.X)
	for _, b := range v.D {
		w.put(uint64(b), 8)
	}
	w.put(uint64(v.E), 8)
	modelValue(o, reflect.ValueOf(&v), w)
}

// C07_Many: counts of many elements, each with counts of its own.
func C07_Many() {
	restruct.EnableExprBeta()
	es := []D{st(vlen{cnt: dU8, e: dU8, max: 1}), st(vlen{cnt: s(tInt, "int16", 16), from: true, str: true, max: 1, mid: b1(dU8)}), st(vlen{cnt: u(tU8, "uint8:4", 4), e: dU16, max: 1, mid: b1(u(tU8, "uint8:4", 4))})}
	o, le := order("order")
	d := manyOf(es, sizesRep()...)
	v := gen(d)
	w := encode(d, v.Elem(), le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

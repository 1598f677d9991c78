package h

import (
	"reflect"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// dense are the kinds in which every bit matters.
func dense() []G {
	in := st(b1(dU8), b1(dU16))
	inb := st(b1(u(tU8, "uint8:4", 4)), b1(u(tU8, "uint8:5", 5)))
	return []G{
		b1(dU8), b1(dU16), b1(dU32), b1(dU64), b1(dI8), b1(dI16), b1(dI32), b1(dI64),
		b1(f64D{}), b1(c128D{}), b1(s(tInt, "", 32)), b1(u(tUnt, "", 32)), b1(s(tInt, "int16", 16)), b1(u(tU64, "uint8", 8)),
		b1(u(tU8, "uint8:3", 3)), b1(u(tU32, "uint32:24", 24)), b1(s(tI64, "int64:5", 5)), b1(u(tU16, "uint8:7", 7)),
		one{d: u(tU16, "uint16:12", 12), order: 'B'}, one{d: u(tU64, "uint64:41", 41), order: 'B'},
		b1(boolD{wire: "uint8:1", bits: 1}), b1(boolD{wire: "uint8:1", bits: 1, invr: true}),
		b1(arrD{n: 2, e: dU16}), b1(arrD{n: 2, e: in}), b1(arrD{n: 2, e: inb}), b1(arrD{n: 2, e: s(tInt, "int16", 16)}),
		b1(fsD{n: 2, e: u(tU32, "uint16", 16)}), b1(ptrD{dU16}), b1(ptrD{in}), b1(in), b1(inb),
		hidden{t: tU32, tag: "-"}, one{d: dU16, order: 'L'}, one{d: in, order: 'B'}, b1(arrD{n: 3, e: dU8}),
	}
}

// reencode unpacks arbitrary bytes and packs the value: the bytes must come back.
func reencode(d D, data []byte) {
	o, _ := order("order")
	v := reflect.New(d.Type())
	err := restruct.Unpack(data, o, v.Interface())
	sym.Observe("v", v.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	out, err := restruct.Pack(o, v.Interface())
	sym.Observe("out", out)
	sym.Assert(err == nil, "Pack of the unpacked value succeeds")
	sym.Assert(sym.EqBytes(out, data), "Pack gives the same bytes")
}

// bitsOf is the size of a fixed-size layout according to the reference model.
func bitsOf(d D) int {
	w := &wr{}
	z := reflect.New(d.Type()).Elem()
	zeroPtrs(z)
	d.Enc(w, z, false)
	return w.n
}

// zeroPtrs gives pointers an element and fixed slices their length.
func zeroPtrs(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		zeroPtrs(v.Elem())
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				zeroPtrs(v.Field(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			zeroPtrs(v.Index(i))
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), 2, 2))
	}
}

// exact gives arbitrary bytes of the layout's exact length, with the unused bits of the last byte 0.
func exact(d D) []byte {
	n := bitsOf(d)
	data := sym.Bytes("data", (n+7)/8)
	if n%8 != 0 {
		sym.Assume(data[len(data)-1]&(0xff>>uint(n%8)) == 0)
	}
	return data
}

func C02_Pairs() {
	d := pairs(dense())
	reencode(d, exact(d))
}

func C02_Nested() {
	gs := dense()
	in := st(gs[sym.Choose("g0", len(gs))], gs[sym.Choose("g1", len(gs))])
	var d stD
	switch sym.Choose("container", 4) {
	case 0:
		d = st(b1(in), b1(dU8))
	case 1:
		d = st(b1(arrD{n: 2, e: in}), b1(u(tU8, "uint8:2", 2)))
	case 2:
		d = st(b1(ptrD{in}))
	case 3:
		d = st(b1(u(tU8, "uint8:5", 5)), b1(fsD2{n: 1, e: in}), b1(u(tU8, "uint8:2", 2)))
	}
	reencode(d, exact(d))
}

func C02_Triples_T() {
	d := triples(dense())
	reencode(d, exact(d))
}

// C02_Var: layouts with counts; every count that fits the data.
func C02_Var() {
	es := []D{dU8, dU16, st(b1(dU8), b1(dU16)), u(tU16, "uint8", 8)}
	cs := []numD{dU8, dU16, s(tInt, "int16", 16), u(tU64, "uint32", 32), dI64, u(tU8, "uint8:4", 4)}
	g := vlen{cnt: cs[sym.Choose("cnt", len(cs))], from: sym.Choose("from", 2) == 1, max: 9}
	if k := sym.Choose("elem", len(es)+1); k < len(es) {
		g.e = es[k]
	} else {
		g.str = true
	}
	var d stD
	if g.cnt.bits == 4 {
		d = st(b1(u(tU8, "uint8:4", 4)), g, b1(dU8))
	} else {
		d = st(b1(dU8), g, b1(dU8))
	}
	o, _ := order("order")
	data := sym.Bytes("data", 12)
	v := reflect.New(d.Type())
	err := restruct.Unpack(data, o, v.Interface())
	if err != nil {
		sym.Stop()
	}
	sym.Cover("accepted")
	sym.Observe("v", v.Interface())
	out, err := restruct.Pack(o, v.Interface())
	sym.Observe("out", out)
	sym.Assert(err == nil, "Pack of the unpacked value succeeds")
	sym.Assert(len(out) <= len(data), "Pack is not longer than what was read")
	sym.Assert(sym.EqBytes(out, data[:len(out)]), "Pack gives the same bytes")
}

// C02_Lossy: with don't-care bits, unpack-pack-unpack gives the same value and pack-unpack-pack the
// same bytes.
func C02_Lossy() {
	gs := composites()
	gs = append(gs, b1(boolD{bits: 8}), b1(boolD{wire: "int32", bits: 32, variant: true}), b1(boolD{wire: "uint16:3", bits: 3, invr: true}), b1(cstrD{3}))
	hs := gs
	if !sym.Thorough() {
		hs = few()
	}
	d := pairsOf(gs, hs)
	o, _ := order("order")
	data := sym.Bytes("data", 12)
	v := reflect.New(d.Type())
	if restruct.Unpack(data, o, v.Interface()) != nil {
		sym.Stop()
	}
	sym.Cover("accepted")
	sym.Observe("v", v.Interface())
	out, err := restruct.Pack(o, v.Interface())
	sym.Observe("out", out)
	sym.Assert(err == nil, "Pack of the unpacked value succeeds")
	w := reflect.New(d.Type())
	err = restruct.Unpack(out, o, w.Interface())
	sym.Assert(err == nil, "Unpack of that succeeds")
	sym.Assert(sym.Same(v.Interface(), w.Interface()), "the value is the same")
	out2, err := restruct.Pack(o, w.Interface())
	sym.Assert(err == nil, "second Pack succeeds")
	sym.Assert(sym.EqBytes(out, out2), "the bytes are the same")
}

// C02_Many: lists of many elements.
func C02_Many() {
	restruct.EnableExprBeta()
	d := manyOf([]D{dU16, s(tInt, "int16", 16), st(b1(u(tU8, "uint8:3", 3)), b1(u(tU8, "uint8:5", 5)), b1(dU16)), cstrD{2}, ptrD{dI32}}, sizesRep()...)
	reencodes(d)
}

// reencodes takes the bytes of any value of the layout.
func reencodes(d D) {
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	data := append([]byte(nil), w.b...)
	x := reflect.New(d.Type())
	err := restruct.Unpack(data, o, x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	out, err := restruct.Pack(o, x.Interface())
	sym.Observe("out", out)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(out, w.b), "Pack of Unpack gives the bytes back")
}

// C02_Mixed: fields of every kind in combination, at several levels.
func C02_Mixed() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	reencodes(mixed(2, 50))
}

package h

import (
	"encoding/binary"
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// pairs picks a layout of two field kinds, byte aligned or behind a 3-bit field.
func pairs(gs []G) stD { return pairsOf(gs, gs) }

func pairsOf(g0, g1 []G) stD {
	var l []G
	if sym.Choose("prefix", 2) == 1 {
		l = append(l, b1(u(tU8, "uint8:3", 3)))
	}
	return stD{append(l, g0[sym.Choose("g0", len(g0))], g1[sym.Choose("g1", len(g1))])}
}

// triples picks three field kinds.
func triples(gs []G) stD {
	return stD{[]G{gs[sym.Choose("g0", len(gs))], gs[sym.Choose("g1", len(gs))], gs[sym.Choose("g2", len(gs))]}}
}

// few are representatives of every mechanism, for deeper combinations.
func few() []G {
	in := st(b1(dU8), b1(u(tU16, "uint8:3", 3)))
	return []G{
		b1(dU8), b1(dI16), b1(dU64), b1(f32D{}), b1(boolD{wire: "uint16", bits: 16, variant: true}), b1(s(tInt, "int16", 16)),
		b1(u(tU8, "uint8:3", 3)), b1(s(tI64, "int64:5", 5)), b1(arrD{n: 2, e: in}), b1(cstrD{2}),
		vlen{cnt: dU8, e: dU16, max: 1}, vlen{cnt: s(tInt, "int16", 16), from: true, str: true, max: 1, mid: hidden{t: tU32, tag: "-"}},
		b1(ptrD{dU16}), b1(in), one{d: dU16, skip: 1}, pad{t: tU8, wire: "uint8:3", bits: 3}, pad{t: tU16, bits: 16},
		hidden{t: tU32}, one{d: in, order: 'L'}, one{d: dU32, order: 'B'},
	}
}

// containers picks a nesting of the struct made of the given groups.
func containers(g ...G) stD {
	in := st(g...)
	switch sym.Choose("container", 7) {
	case 0:
		return st(b1(in), b1(dU8))
	case 1:
		return st(b1(arrD{n: 2, e: in}), b1(dU8))
	case 2:
		return st(vlen{cnt: dU8, e: in, max: 2}, b1(dU8))
	case 3:
		return st(b1(ptrD{in}), b1(dU8))
	case 4:
		return st(b1(u(tU8, "uint8:5", 5)), b1(st(b1(in), b1(dU8))), b1(dU8))
	case 5:
		return st(vlen{cnt: dU8, from: true, e: ptrD{in}, max: 1}, b1(dU8))
	}
	return st(b1(fsD2{n: 2, e: in}), b1(dU8))
}

// fsD2 is an array of pointers to its element.
type fsD2 struct {
	n int
	e D
}

func (d fsD2) Type() reflect.Type { return reflect.ArrayOf(d.n, reflect.PtrTo(d.e.Type())) }
func (d fsD2) Wire() string {
	if d.e.Wire() == "" {
		return ""
	}
	return "[" + strconv.Itoa(d.n) + "]*" + d.e.Wire()
}
func (d fsD2) Gen(name string, v reflect.Value) {
	for i := 0; i < d.n; i++ {
		ptrD{d.e}.Gen(name, v.Index(i))
	}
}
func (d fsD2) Enc(w *wr, v reflect.Value, le bool) {
	for i := 0; i < d.n; i++ {
		d.e.Enc(w, v.Index(i).Elem(), le)
	}
}

func gen(d D) reflect.Value {
	v := reflect.New(d.Type())
	d.Gen("v", v.Elem())
	return v
}

// roundTrip packs a symbolic value of the layout and unpacks the result.
func roundTrip(d D) {
	o, _ := order("order")
	roundTripValue(o, gen(d))
}

func roundTripValue(o binary.ByteOrder, v reflect.Value) {
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Observe("err", err)
	sym.Assert(err == nil, "Pack succeeds")
	w := reflect.New(v.Type().Elem())
	err = restruct.Unpack(data, o, w.Interface())
	sym.Observe("w", w.Interface())
	sym.Assert(err == nil, "Unpack of Pack succeeds")
	sym.Assert(sym.Same(v.Interface(), w.Interface()), "Unpack of Pack gives the value back")
}

// rt is roundTripValue for a pointer to a struct; it returns the bytes.
func rt(o binary.ByteOrder, v any) []byte {
	data, err := restruct.Pack(o, v)
	sym.Observe("data", data)
	sym.Observe("err", err)
	sym.Assert(err == nil, "Pack succeeds")
	w := reflect.New(reflect.TypeOf(v).Elem())
	err = restruct.Unpack(data, o, w.Interface())
	sym.Observe("w", w.Interface())
	sym.Assert(err == nil, "Unpack of Pack succeeds")
	sym.Assert(sym.Same(v, w.Interface()), "Unpack of Pack gives the value back")
	return data
}

// model checks Pack, SizeOf, BitSize and Unpack against the reference encoding.
func model(d D) {
	o, le := order("order")
	v := gen(d)
	modelValue(o, v, encode(d, v.Elem(), le))
}

func modelValue(o binary.ByteOrder, v reflect.Value, w *wr) {
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "Pack gives the documented bytes")
	x := reflect.New(v.Type().Elem())
	err = restruct.Unpack(w.b, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.Same(v.Interface(), x.Interface()), "Unpack gives the documented value")
}

func sizes(v any, w *wr) {
	n, err := restruct.SizeOf(v)
	sym.Assert(err == nil, "SizeOf succeeds")
	sym.Assert(n == len(w.b), "SizeOf is the encoded size")
	n, err = restruct.BitSize(v)
	sym.Assert(err == nil, "BitSize succeeds")
	sym.Assert(n == w.n, "BitSize is the encoded size in bits")
}

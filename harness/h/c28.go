package h

import (
	"math"
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// wires28 are the integer wire types, natives the Go types.
var wires28 = []intT{{tU8, "uint8", 8, false}, {tU16, "uint16", 16, false}, {tU32, "uint32", 32, false}, {tU64, "uint64", 64, false}, {tUnt, "uint", 32, false},
	{tI8, "int8", 8, true}, {tI16, "int16", 16, true}, {tI32, "int32", 32, true}, {tI64, "int64", 64, true}, {tInt, "int", 32, true}}

type nint int
type nu16 uint16

var natives28 = []reflect.Type{tU8, tU16, tU32, tU64, tUnt, tof(nu16(0)), tI8, tI16, tI32, tI64, tInt, tof(nint(0))}

func signed28(t reflect.Type) bool { return t.Kind() <= reflect.Int64 }

// pair28 picks a Go type and a wire type of the same signedness.
func pair28() numD {
	t := natives28[sym.Choose("native", len(natives28))]
	k := sym.Choose("wire", 5)
	if signed28(t) {
		k += 5
	}
	w := wires28[k]
	return numD{t: t, wire: w.name, bits: w.bits, signed: w.signed, full: true}
}

// shape28 is a place for the number.
func shape28(k int, d numD) G {
	switch k {
	case 0:
		return b1(d)
	case 1:
		return b1(arrD{n: 2, e: d})
	case 2:
		return vlen{cnt: dU8, e: d, max: 2}
	case 3:
		return b1(fsD{n: 2, e: d})
	case 4:
		return b1(arrD{n: 2, e: arrD{n: 2, e: d}})
	case 5:
		return b1(ptrD{d})
	case 6:
		return vlen{cnt: s(tI16, "", 16), from: true, e: arrD{n: 2, e: d}, max: 1}
	case 7:
		return b1(st(b1(d), b1(arrD{n: 1, e: d})))
	case 8:
		return b1(arrD{n: 2, e: ptrD{d}})
	case 9:
		return one{d: d, order: 'L', skip: 1}
	case 10:
		return one{d: arrD{n: 2, e: d}, order: 'B'}
	case 11:
		return b1(fsD{n: 1, e: fsD{n: 2, e: d}})
	}
	return vlen{cnt: dU8, e: ptrD{d}, max: 2}
}

// canon28 replaces each number by the one its wire form unpacks to.
func canon28(d numD, v reflect.Value) {
	if v.Type() == d.t {
		// only the numbers of the layout under test; counts are small
		d.canon(v)
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		canon28(d, v.Elem())
	case reflect.Array, reflect.Slice:
		for i := 0; i < v.Len(); i++ {
			canon28(d, v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			canon28(d, v.Field(i))
		}
	}
}

func check28(d numD, l stD, body int) {
	o, le := order("order")
	v := gen(l)
	w := encode(l, v.Elem(), le)
	sizes(v.Interface(), w)
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "the low bits of each value, extended to the wire width")
	want := clone(v.Elem())
	canon28(d, want.Field(body))
	if want.NumField() > body+2 {
		canon28(d, want.Field(body+1)) // the slice behind its count
	}
	x := reflect.New(l.Type())
	err = restruct.Unpack(w.b, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.Same(x.Elem().Interface(), want.Interface()), "the wire value extended to the Go type")
}

// C28_Ints: every Go type with every wire type, in every place.
func C28_Ints() {
	d := pair28()
	k := sym.Choose("shape", 13)
	if !sym.Thorough() && k > 3 && (len(d.wire)+d.t.Bits()/8+k)%3 != 0 {
		return
	}
	check28(d, st(shape28(k, d), b1(dU8)), 0)
}

// C28_Unaligned: the same behind a bitfield.
func C28_Unaligned() {
	d := pair28()
	k := sym.Choose("shape", 13)
	if !sym.Thorough() && k > 0 && (len(d.wire)+d.t.Bits()/8+k)%5 != 0 {
		return
	}
	check28(d, st(b1(u(tU8, "uint8:3", 3)), shape28(k, d), b1(dU8)), 1)
}

// C28_Data: every wire value unpacks to its extension, or its low bits if the Go type is smaller.
func C28_Data() {
	d := pair28()
	o, le := order("order")
	n := d.bits / 8
	data := sym.Bytes("data", 2*n)
	t := reflect.StructOf([]reflect.StructField{sf("A", d.t, d.wire), sf("B", reflect.ArrayOf(1, d.t), "[1]"+d.wire)})
	x := reflect.New(t)
	sym.Assert(restruct.Unpack(data, o, x.Interface()) == nil, "Unpack succeeds")
	sym.Observe("x", x.Interface())
	for i, f := range []reflect.Value{x.Elem().Field(0), x.Elem().Field(1).Index(0)} {
		var raw uint64
		for j := 0; j < n; j++ {
			if le {
				raw |= uint64(data[i*n+j]) << uint(8*j)
			} else {
				raw = raw<<8 | uint64(data[i*n+j])
			}
		}
		if d.signed {
			y := sext(raw, d.bits)
			sym.Assert(f.Int() == sext(uint64(y), d.t.Bits()), "the signed value")
		} else {
			y := raw
			if b := d.t.Bits(); b < 64 {
				y &= 1<<uint(b) - 1
			}
			sym.Assert(f.Uint() == y, "the unsigned value")
		}
	}
	// a Go type that holds the wire type gives the bytes back
	if d.t.Bits() >= d.bits {
		out, err := restruct.Pack(o, x.Interface())
		sym.Assert(err == nil && sym.EqBytes(out, data), "the same bytes")
	}
}

// fl28 is a float or complex number in another width.
type fl28 struct {
	t    reflect.Type
	wire string
}

// C28_Floats: floats and complex numbers convert between their two widths as Go does.
func C28_Floats() {
	type T struct {
		A float64    `struct:"float32"`
		B float32    `struct:"float64"`
		C complex128 `struct:"complex64"`
		D complex64  `struct:"complex128"`
		E [1]float64 `struct:"[1]float32"`
	}
	fs := []float64{0, math.Copysign(0, -1), 1.5, -1e300, 1e-300, math.Inf(1), 3.0000001, math.MaxFloat32, 1e-45}
	f := fs[sym.Choose("f", len(fs))]
	g := sym.F32("g")
	sym.Assume(g == g)
	v := T{A: f, B: g, C: complex(f, 2), D: complex(g, float32(f)), E: [1]float64{-f}}
	o, le := order("order")
	w := &wr{}
	f32 := func(x float32) { w.num(uint64(math.Float32bits(x)), 32, le) }
	f64 := func(x float64) { w.num(math.Float64bits(x), 64, le) }
	f32(float32(f))
	f64(float64(g))
	f32(float32(f))
	f32(2)
	f64(float64(g))
	f64(float64(float32(f)))
	f32(float32(-f))
	sizes(&v, w)
	data, err := restruct.Pack(o, &v)
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "the converted bits")
	var x T
	sym.Assert(restruct.Unpack(data, o, &x) == nil, "Unpack succeeds")
	sym.Observe("x", x)
	want := v
	want.A = float64(float32(f))
	want.C = complex(float64(float32(f)), 2)
	want.E[0] = float64(float32(-f))
	sym.Assert(sym.Same(x, want), "the converted values")
}

// bad28 are pairs of Go and wire types that do not go together.
func bad28() []reflect.StructField {
	var fs []reflect.StructField
	add := func(v any, wires ...string) {
		for _, w := range wires {
			fs = append(fs, sf("X", tof(v), w))
		}
	}
	add(uint8(1), "int8", "int16", "int64", "int", "float32", "float64", "complex64", "string", "[2]uint8", "*uint8", "[]uint8", "int8:3")
	add(int32(1), "uint8", "uint32", "uint64", "uint", "float32", "complex128", "bool", "string", "[4]uint8", "uint32:5")
	add(float64(1), "uint64", "int64", "bool", "complex128", "string", "[8]byte")
	add(complex64(1), "float32", "uint64", "[2]float32")
	add(true, "float32", "complex64", "string", "[1]bool", "*bool")
	add("ab", "uint16", "float32", "bool", "*byte")
	add([2]uint8{1}, "uint8", "uint16", "float32", "[2]int8", "[2]float32", "[2][1]uint8", "*[2]uint8", "[2]*uint8")
	add([]uint16{1}, "uint8", "float64", "[1]int16", "[]int16", "*uint16", "[1]float32")
	add(new(uint8), "uint8", "*int8", "[1]uint8")
	add(struct{ A uint8 }{1}, "uint8", "float32", "[1]uint8", "*uint8")
	add([]struct{ A uint8 }{{1}}, "[1]uint8", "[]uint8")
	add(map[string]int{"a": 1}, "uint8", "[1]uint8")
	return fs
}

// C28_Incompatible: Go and wire types of other kinds do not pack, and do not unpack.
func C28_Incompatible() {
	fs := bad28()
	f := fs[sym.Choose("f", len(fs))]
	t := reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), f, sf("Z", tU8, "")})
	o, _ := order("order")
	v := reflect.New(t)
	switch x := v.Elem().Field(1); x.Kind() {
	case reflect.Slice:
		x.Set(reflect.MakeSlice(x.Type(), 1, 1))
	case reflect.Ptr:
		x.Set(reflect.New(x.Type().Elem()))
	case reflect.String:
		x.SetString("ab")
	}
	_, err := restruct.Pack(o, v.Interface())
	sym.Assert(err != nil, "Pack is an error for "+f.Type.String()+" as "+string(f.Tag))
	if f.Tag.Get("struct")[0] == '[' && f.Tag.Get("struct")[1] == ']' {
		return // no count: no elements to disagree about
	}
	x := reflect.New(t)
	err = restruct.Unpack(sym.Bytes("data", 40), o, x.Interface())
	sym.Assert(err != nil, "Unpack is an error for "+f.Type.String()+" as "+string(f.Tag))
}

// C28_Counts: count fields may have another width too.
func C28_Counts() {
	d := pair28()
	if d.wire == "int" || d.wire == "uint" {
		return
	}
	d.full = false
	n := sym.Choose("n", 3)
	t := reflect.StructOf([]reflect.StructField{sf("N", d.t, d.wire+",sizeof=V"), sf("V", tof([]uint16{}), "[]uint8"), sf("Z", tU8, "")})
	v := reflect.New(t)
	val := make([]uint16, n)
	o, le := order("order")
	w := &wr{}
	w.num(uint64(n), d.bits, le)
	for i := range val {
		val[i] = uint16(sym.U8("v" + strconv.Itoa(i)))
		w.put(uint64(val[i]), 8)
	}
	z := sym.U8("z")
	w.put(uint64(z), 8)
	v.Elem().Field(1).Set(reflect.ValueOf(val))
	v.Elem().Field(2).SetUint(uint64(z))
	if signed28(d.t) {
		v.Elem().Field(0).SetInt(int64(n))
	} else {
		v.Elem().Field(0).SetUint(uint64(n))
	}
	sizes(v.Interface(), w)
	modelValue(o, v, w)
}

// C28_Deep: the same many levels down.
func C28_Deep() {
	d := pair28()
	d.full = false
	if !sym.Thorough() && d.t != tU64 && d.t != tInt && d.t != tI16 && d.t != tU32 {
		return
	}
	model(deepIn(d))
}

// C28_Many: lists of many numbers.
func C28_Many() {
	restruct.EnableExprBeta()
	d := pair28()
	if !sym.Thorough() && d.t != tU64 && d.t != tInt && d.t != tI16 && d.t != tU8 {
		return
	}
	d.full = false
	model(manyOf([]D{d}, sizesRep()[1:]...))
}

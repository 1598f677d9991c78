package h

import (
	"encoding/binary"
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// etag writes an expression either as an option of the struct tag or as a tag of its own.
func etag(name string, t reflect.Type, opts, key, e string, own bool) reflect.StructField {
	f := sf(name, t, opts)
	if own {
		tag := "struct-" + key + ":" + strconv.Quote(e)
		if f.Tag != "" {
			tag = string(f.Tag) + " " + tag
		}
		f.Tag = reflect.StructTag(tag)
		return f
	}
	f.Tag = stag(join(opts, key+"="+e))
	return f
}

// C11_If: the field is present exactly when the expression is true, for every kind of field.
func C11_If() {
	restruct.EnableExprBeta()
	conds := []struct {
		e string
		f func(a uint8, b int16) bool
	}{
		{"A & 4 != 0", func(a uint8, b int16) bool { return a&4 != 0 }},
		{"B < 0 || A == 7", func(a uint8, b int16) bool { return b < 0 || a == 7 }},
		{"!(A > 3) && B != 2", func(a uint8, b int16) bool { return !(a > 3) && b != 2 }},
		{"true", func(a uint8, b int16) bool { return true }},
		{"1 == 2", func(a uint8, b int16) bool { return false }},
		{"(A == 1 ? B > 0 : B < 0)", func(a uint8, b int16) bool { return a == 1 && b > 0 || a != 1 && b < 0 }},
	}
	ds := []D{dU8, dU32, f64D{}, boolD{bits: 8}, s(tInt, "int16", 16), u(tU8, "uint8:3", 3), arrD{n: 2, e: dU16}, cstrD{2}, ptrD{dU16}, st(b1(dU8), b1(dU16)), fsD{n: 2, e: dU8}}
	c := conds[sym.Choose("cond", len(conds))]
	d := ds[sym.Choose("d", len(ds))]
	own := sym.Choose("own", 2) == 1
	opts := d.Wire()
	skip := sym.Choose("skip", 2)
	if skip == 1 {
		opts = join(opts, "skip=1")
	}
	t := reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), sf("B", tI16, ""), etag("X", d.Type(), opts, "if", c.e, own), sf("C", tU16, "")})
	o, le := order("order")
	v := reflect.New(t)
	a := uint8(symFull("a", v.Elem().Field(0), false))
	b := int16(symFull("b", v.Elem().Field(1), true))
	d.Gen("x", v.Elem().Field(2))
	cc := symFull("c", v.Elem().Field(3), false)
	w := &wr{}
	w.put(uint64(a), 8)
	w.num(uint64(b), 16, le)
	on := c.f(a, b)
	if on {
		w.zero(8 * skip)
		d.Enc(w, v.Elem().Field(2), le)
		sym.Cover("present")
	} else {
		v.Elem().Field(2).Set(reflect.Zero(d.Type()))
		sym.Cover("absent")
	}
	w.num(cc, 16, le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// C11_Size: size= gives the element count of slices and strings in both directions.
func C11_Size() {
	restruct.EnableExprBeta()
	es := []struct {
		e string
		f func(a uint8, b int16) int
	}{
		{"A", func(a uint8, b int16) int { return int(a) }},
		{"B - 1", func(a uint8, b int16) int { return int(b - 1) }},
		{"A * 2", func(a uint8, b int16) int { return int(a * 2) }},
		{"(A == 0 ? B : 1)", func(a uint8, b int16) int {
			if a == 0 {
				return int(b)
			}
			return 1
		}},
		{"2", func(a uint8, b int16) int { return 2 }},
	}
	e := es[sym.Choose("e", len(es))]
	type el struct {
		t    reflect.Type
		wire string
		d    D
	}
	els := []el{{tof([]byte(nil)), "", dU8}, {tof([]uint16(nil)), "", dU16}, {tStr, "", nil}, {tof([]int(nil)), "[]int16", s(tInt, "int16", 16)}, {tof([]struct{ X, Y uint8 }(nil)), "", nil}}
	k := sym.Choose("el", len(els))
	own := sym.Choose("own", 2) == 1
	t := reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), sf("B", tI16, ""), etag("X", els[k].t, els[k].wire, "size", e.e, own), sf("C", tU16, "")})
	o, le := order("order")
	v := reflect.New(t)
	a := uint8(symFull("a", v.Elem().Field(0), false))
	b := int16(symFull("b", v.Elem().Field(1), true))
	n := e.f(a, b)
	l := sym.Choose("len", 3)
	w := &wr{}
	w.put(uint64(a), 8)
	w.num(uint64(b), 16, le)
	f := v.Elem().Field(2)
	switch k {
	case 2:
		str := sym.Str("s", l)
		f.SetString(str)
		for i := 0; i < l; i++ {
			w.put(uint64(str[i]), 8)
		}
	case 4:
		f.Set(reflect.MakeSlice(f.Type(), l, l))
		for i := 0; i < l; i++ {
			w.put(symFull("x", f.Index(i).Field(0), false), 8)
			w.put(symFull("y", f.Index(i).Field(1), false), 8)
		}
	default:
		f.Set(reflect.MakeSlice(f.Type(), l, l))
		for i := 0; i < l; i++ {
			els[k].d.Gen("e"+strconv.Itoa(i), f.Index(i))
			els[k].d.Enc(w, f.Index(i), le)
		}
	}
	w.num(symFull("c", v.Elem().Field(3), false), 16, le)
	if n != l {
		sym.Cover("mismatch")
		_, err := restruct.Pack(o, v.Interface())
		sym.Assert(err != nil, "a length other than the size expression is an error")
		x := reflect.New(t)
		err = restruct.Unpack(w.b, o, x.Interface())
		sym.Observe("err", err)
		if err == nil {
			sym.Assert(n >= 0 && x.Elem().Field(2).Len() == n, "exactly size elements are read")
		}
		return
	}
	sym.Cover("match")
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// C11_Bits: bits= gives the width of the field.
func C11_Bits() {
	restruct.EnableExprBeta()
	type T struct {
		W uint8
		X uint32 `struct:"big,bits=W & 31 + 1"`
		V int8
		Y int64 `struct:"int64,big" struct-bits:"V"`
		Z uint8 `struct:"uint8:3"`
	}
	o, le := order("order")
	v := T{W: sym.U8("w"), V: sym.I8("v"), X: sym.U32("x"), Y: sym.I64("y"), Z: sym.U8("z") & 7}
	// W & 31 + 1: & binds tighter than +
	wx, wy := sym.Pick(int(v.W&31+1)), int(v.V)
	sym.Assume(v.V > 0)
	sym.Assume(v.V <= 64)
	wy = sym.Pick(wy)
	if !sym.Thorough() && wx != 1 && wx != 32 && wx != 12 && wx != 9 && wy != 3 {
		sym.Stop()
	}
	if wx < 32 {
		v.X &= 1<<uint(wx) - 1
	}
	v.Y = sext(uint64(v.Y)<<uint(64-wy)>>uint(64-wy), wy)
	w := &wr{}
	w.put(uint64(v.W), 8)
	w.put(uint64(v.X), wx)
	w.put(uint64(v.V), 8)
	w.put(uint64(v.Y), wy)
	w.put(uint64(v.Z), 3)
	_ = le
	modelValue(o, reflect.ValueOf(&v), w)
	sizes(&v, w)
}

// C11_BitsRange: a negative width or one beyond the type is an error.
func C11_BitsRange() {
	restruct.EnableExprBeta()
	type T struct {
		W int8
		X uint16 `struct:"big,bits=W"`
		_ [20]uint8
	}
	o, _ := order("order")
	data := sym.Bytes("data", 23)
	var x T
	err := restruct.Unpack(data, o, &x)
	sym.Observe("err", err)
	w := int8(data[0])
	sym.Assert(sym.Implies(sym.Or(w < 0, w > 16), err != nil), "a width out of range is an error when unpacking")
	sym.Assert(sym.Implies(sym.And(w > 0, w <= 16), err == nil), "a width in range is accepted")
	v := T{W: sym.I8("w"), X: sym.U16("x")}
	v.W = int8(sym.Pick(int(v.W)))
	_, err = restruct.Pack(o, &v)
	sym.Assert(sym.Implies(sym.Or(v.W < 0, v.W > 16), err != nil), "a width out of range is an error when packing")
	sym.Assert(sym.Implies(sym.And(v.W > 0, v.W <= 16), err == nil), "a width in range is accepted when packing")
}

// C11_InOut: out= gives the packed value, in= the unpacked one.
func C11_InOut() {
	restruct.EnableExprBeta()
	type T struct {
		K uint8
		X uint16 `struct:"in=X - 3,out=X + 3"`
		Y int32  `struct:"int32" struct-in:"Y ^ 85" struct-out:"Y ^ 85"`
		Z uint8  `struct:"out=K * 2,in=K"`
		B bool   `struct:"uint8,in=!B,out=!B"`
		F uint64 `struct:"out=F,in=F << 1"`
		E uint8
	}
	o, le := order("order")
	v := T{sym.U8("k"), sym.U16("x"), sym.I32("y"), sym.U8("z"), sym.Bool("b"), sym.U64("f"), sym.U8("e")}
	keep := v
	w := &wr{}
	w.put(uint64(v.K), 8)
	w.num(uint64(v.X+3), 16, le)
	w.num(uint64(v.Y^85), 32, le)
	w.put(uint64(v.K*2), 8)
	w.put(sym.Ite(!v.B, 1, 0), 8)
	w.num(v.F, 64, le)
	w.put(uint64(v.E), 8)
	data, err := restruct.Pack(o, &v)
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "out= gives the packed value")
	sym.Assert(sym.Same(v, keep), "Pack does not store the value of out=")
	var x T
	err = restruct.Unpack(w.b, o, &x)
	sym.Observe("x", x)
	sym.Assert(err == nil, "Unpack succeeds")
	keep.Z = v.K
	keep.F = v.F << 1
	sym.Assert(sym.Same(x, keep), "in= gives the unpacked value")
}

// C11_While: elements are read exactly while the expression holds.
func C11_While() {
	restruct.EnableExprBeta()
	type el struct{ A, B uint8 }
	type T struct {
		K uint8
		L []uint8 `struct:"while=!_eof"`
	}
	type U struct {
		K    uint8
		Last uint8
		M    []el     `struct:"while=!_eof && K > 2"`
		N    [3]uint8 `struct:"[]uint8,while=!_eof"`
	}
	o, _ := order("order")
	n := sym.Choose("n", 6)
	spare := sym.Choose("spare", 4) // capacity behind the data, which is no data
	data := sym.Bytes("data", 1+n+spare)[:1+n]
	var x T
	x.L = make([]uint8, sym.Choose("old", 2)*2) // an earlier value does not count
	err := restruct.Unpack(data, o, &x)
	sym.Observe("x", x)
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(x.K == data[0] && sym.EqBytes(x.L, data[1:]), "every element up to the end is read")
	out, err := restruct.Pack(o, &x)
	sym.Assert(err == nil && sym.EqBytes(out, data), "Pack writes all elements")

	var y U
	data = sym.Bytes("more", 2+n+spare)[:2+n]
	err = restruct.Unpack(data, o, &y)
	sym.Observe("err", err)
	if data[0] > 2 {
		sym.Cover("elements")
		sym.Assert((err == nil) == (n%2 == 0), "elements are read to the end")
		if err == nil {
			sym.Assert(len(y.M) == n/2, "all elements are read")
			for i := range y.M {
				sym.Assert(y.M[i].A == data[2+2*i] && y.M[i].B == data[3+2*i], "each element is its bytes")
			}
		}
		return
	}
	sym.Cover("none")
	sym.Assert(len(y.M) == 0, "no element is read while the expression is false")
	sym.Assert((err == nil) == (n <= 3), "an array takes at most its length")
	for i := 0; i < n && err == nil; i++ {
		sym.Assert(y.N[i] == data[2+i], "each element is its byte")
	}
}

// C11_WhileCond: a while expression over the elements read so far.
func C11_WhileCond() {
	restruct.EnableExprBeta()
	type el struct {
		P *struct{} `struct:"-"`
		A uint8
	}
	type T struct {
		N uint8
		M uint8
		L []uint8 `struct:"while=N != M && !_eof"`
		Z []uint8 `struct:"while=N == M && !_eof"`
	}
	o, _ := order("order")
	data := sym.Bytes("data", 2+sym.Choose("n", 4))
	var x T
	err := restruct.Unpack(data, o, &x)
	sym.Observe("x", x)
	sym.Assert(err == nil, "Unpack succeeds")
	if data[0] != data[1] {
		sym.Assert(sym.EqBytes(x.L, data[2:]) && len(x.Z) == 0, "the first list")
	} else {
		sym.Assert(sym.EqBytes(x.Z, data[2:]) && len(x.L) == 0, "the second list")
	}
}

// C11_Scope: expressions see the struct they stand in, also in nested and repeated structs.
func C11_Scope() {
	restruct.EnableExprBeta()
	type in struct {
		K uint8
		X uint8   `struct:"if=K == 1"`
		Y []uint8 `struct:"size=K & 1"`
	}
	type T struct {
		K uint8
		A in
		B [2]in
		P *in
		X uint8 `struct:"if=K == 1"`
		Q uint8 `struct:"if=A.K == 2 || B[1].K == P.K"`
	}
	o, _ := order("order")
	mk := func(n string) in {
		v := in{K: sym.U8(n + "k"), X: sym.U8(n + "x"), Y: sym.Bytes(n+"y", 1)}
		if v.K != 1 {
			v.X = 0
		}
		if v.K&1 == 0 {
			v.Y = nil
		}
		return v
	}
	p := mk("p")
	v := T{K: sym.U8("k"), A: mk("a"), B: [2]in{mk("b"), mk("c")}, P: &p, X: sym.U8("x"), Q: sym.U8("q")}
	w := &wr{}
	enc := func(v in) {
		w.put(uint64(v.K), 8)
		if v.K == 1 {
			w.put(uint64(v.X), 8)
		}
		if v.K&1 == 1 {
			w.put(uint64(v.Y[0]), 8)
		}
	}
	w.put(uint64(v.K), 8)
	enc(v.A)
	enc(v.B[0])
	enc(v.B[1])
	enc(p)
	if v.K == 1 {
		w.put(uint64(v.X), 8)
	} else {
		v.X = 0
	}
	if v.A.K == 2 || v.B[1].K == p.K {
		w.put(uint64(v.Q), 8)
	} else {
		v.Q = 0
	}
	modelValue(o, reflect.ValueOf(&v), w)
	sizes(&v, w)
}

// all calls the four operations and reports their errors.
func all(o binary.ByteOrder, v any, data []byte) []error {
	_, e1 := restruct.Pack(o, v)
	_, e2 := restruct.SizeOf(v)
	_, e3 := restruct.BitSize(v)
	e4 := restruct.Unpack(data, o, v)
	return []error{e1, e2, e3, e4}
}

// C11_Errors: wrong types, unknown names and failing evaluations are errors.
func C11_Errors() {
	restruct.EnableExprBeta()
	bad := []struct{ key, e string }{
		{"if", "A"}, {"if", "A + 1"}, {"if", "1"}, {"if", "\"x\""}, {"if", "Nope == 1"}, {"if", "A / 0 == 1"}, {"if", "A == B"}, {"if", "A.X == 1"}, {"if", "A(1) == 2"}, {"if", "L[9] == 1"},
		{"size", "true"}, {"size", "Nope"}, {"size", "A / 0"}, {"size", "A + B"}, {"size", "S[0:1]"},
		{"bits", "true"}, {"bits", "Nope"}, {"bits", "A % 0"},
		{"in", "Nope"}, {"in", "A / 0"}, {"in", "true"}, {"out", "Nope"}, {"out", "S"}, {"out", "L"},
		{"while", "1"}, {"while", "Nope"}, {"while", "A / 0 == 1"},
		{"if", "A +"}, {"if", "(A"}, {"if", "A == "}, {"if", "&&"},
	}
	c := bad[sym.Choose("bad", len(bad))]
	t := tU8
	switch c.key {
	case "size", "while":
		t = tof([]uint8(nil))
	}
	typ := reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), sf("B", tU16, ""), sf("L", tof([2]uint8{}), ""), sf("S", tStr, "[2]byte"), etag("X", t, "", c.key, c.e, true), sf("C", tU8, "")})
	v := reflect.New(typ)
	symFull("a", v.Elem().Field(0), false)
	o, _ := order("order")
	es := all(o, v.Interface(), sym.Bytes("data", 16))
	sym.Observe("errs", es)
	unpackOnly := c.key == "in" || c.key == "while" || c.key == "size"
	packOnly := c.key == "out"
	if !unpackOnly {
		sym.Assert(es[0] != nil, "Pack reports the error")
	}
	if !packOnly {
		sym.Assert(es[3] != nil, "Unpack reports the error")
	}
	if c.key == "if" || c.key == "bits" {
		sym.Assert(es[1] != nil && es[2] != nil, "SizeOf and BitSize report the error")
	}
}

// C11_Disabled: without EnableExprBeta every expression tag is an error.
func C11_Disabled() {
	exprs := []struct {
		key, e string
		t      reflect.Type
	}{{"if", "true", tU8}, {"if", "false", tU8}, {"size", "1", tof([]uint8(nil))}, {"bits", "3", tU8}, {"in", "X", tU8}, {"out", "X", tU8}, {"while", "false", tof([]uint8(nil))}, {"switch", "A", tof(struct {
		P uint8 `struct:"default"`
	}{})}}
	c := exprs[sym.Choose("e", len(exprs))]
	typ := reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), etag("X", c.t, "", c.key, c.e, sym.Choose("own", 2) == 1), sf("C", tU8, "")})
	v := reflect.New(typ)
	if c.key == "size" {
		v.Elem().Field(1).SetBytes(sym.Bytes("x", 1))
	}
	o, _ := order("order")
	es := all(o, v.Interface(), sym.Bytes("data", 6))
	sym.Observe("errs", es)
	if c.key != "in" && c.key != "while" {
		sym.Assert(es[0] != nil, "Pack reports that expressions are disabled")
	}
	if c.key != "out" {
		sym.Assert(es[3] != nil, "Unpack reports that expressions are disabled")
	}
	if c.key == "if" || c.key == "bits" || c.key == "switch" {
		sym.Assert(es[1] != nil && es[2] != nil, "SizeOf and BitSize report that expressions are disabled")
	}
	// the same type works once they are enabled
	restruct.EnableExprBeta()
	es = all(o, v.Interface(), sym.Bytes("data", 6))
	for _, e := range es {
		sym.Assert(e == nil, "enabled expressions work")
	}
}

// C11_Invalid: size on fixed sizes and bits on non-numeric types are refused.
func C11_Invalid() {
	restruct.EnableExprBeta()
	cs := []struct {
		key string
		t   reflect.Type
	}{{"size", tU8}, {"size", tof([2]uint8{})}, {"size", tof(struct{}{})}, {"bits", tof([2]uint8{})}, {"bits", tStr}, {"bits", tof(struct{}{})}, {"bits", tof(false)}, {"bits", tof([]uint8(nil))}}
	c := cs[sym.Choose("c", len(cs))]
	typ := reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), etag("X", c.t, "", c.key, "1", sym.Choose("own", 2) == 1)})
	o, _ := order("order")
	es := all(o, reflect.New(typ).Interface(), sym.Bytes("data", 6))
	for _, e := range es {
		sym.Assert(e != nil, "the tag is refused")
	}
}

// C11_CountInOut: a count that is stored with an offset. out= sees the new count, and what in= makes of
// the stored number counts.
func C11_CountInOut() {
	restruct.EnableExprBeta()
	kind := sym.Choose("kind", 4)
	ct, vt := "sizeof=V,in=N - 1,out=N + 1", ""
	if kind%2 == 1 {
		ct, vt = "in=N - 1,out=N + 1", "sizefrom=N"
	}
	et, d := tof([]uint16(nil)), D(dU16)
	if kind >= 2 {
		et, d = tStr, nil
	}
	nt := []numD{dU8, dU16, s(tI32, "", 32), u(tU32, "uint16", 16)}[sym.Choose("count", 4)]
	t := reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), sf("N", nt.t, join(nt.wire, ct)), sf("B", tU8, ""), sf("V", et, vt), sf("C", tU16, "out=C ^ 1,in=C ^ 1")})
	o, le := order("order")
	v := reflect.New(t)
	e := v.Elem()
	a, b, c := symFull("a", e.Field(0), false), symFull("b", e.Field(2), false), symFull("c", e.Field(4), false)
	n := sym.Choose("len", 3)
	w := &wr{}
	w.put(a, 8)
	w.num(uint64(n+1), nt.bits, le)
	w.put(b, 8)
	f := e.Field(3)
	if d == nil {
		str := sym.Str("s", n)
		f.SetString(str)
		for i := 0; i < n; i++ {
			w.put(uint64(str[i]), 8)
		}
	} else {
		f.Set(reflect.MakeSlice(et, n, n))
		for i := 0; i < n; i++ {
			d.Gen("e"+strconv.Itoa(i), f.Index(i))
			d.Enc(w, f.Index(i), le)
		}
	}
	w.num(c^1, 16, le)
	old := uint64(n)
	if kind%2 == 0 && sym.Choose("stale", 2) == 1 { // Pack sets the count before anything else uses it
		old = 9
	}
	setCount := func(x uint64) {
		if nt.signed {
			e.Field(1).SetInt(int64(x))
		} else {
			e.Field(1).SetUint(x)
		}
	}
	setCount(old)
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Observe("err", err)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "out= is computed from the count of the elements")
	setCount(uint64(n))
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

type (
	n16 uint16
	n64 int64
	nfl float32
	nbo bool
)

// C11_InOutKinds: in= and out= compute with the field's own value and another's, whatever kind they have.
func C11_InOutKinds() {
	restruct.EnableExprBeta()
	ds := []D{dU8, dU16, dU32, dU64, dI8, dI16, dI32, dI64, u(tof(uint(0)), "uint16", 16), s(tInt, "int32", 32), u(tof(uint(0)), "", 32), s(tInt, "", 32), u(tof(uint(0)), "uint64", 64), s(tInt, "int64", 64), u(tof(n16(0)), "", 16), s(tof(n64(0)), "", 64), f32D{}, f64D{}, boolD{bits: 8}, boolD{wire: "uint16", bits: 16, invr: true}, cstrD{2}}
	d := ds[sym.Choose("d", len(ds))]
	own := sym.Choose("own", 2) == 1
	key, op := "in", " + "
	if d.Type().Kind() == reflect.Bool {
		op = " == "
	}
	if sym.Choose("key", 2) == 1 {
		key = "out"
		if d.Type().Kind() == reflect.String {
			sym.Stop()
		}
	}
	t := reflect.StructOf([]reflect.StructField{sf("P", d.Type(), d.Wire()), etag("X", d.Type(), d.Wire(), key, "X"+op+"P", own), sf("E", tU8, "")})
	o, le := order("order")
	v := reflect.New(t)
	p, x := v.Elem().Field(0), v.Elem().Field(1)
	d.Gen("p", p)
	d.Gen("x", x)
	e := symFull("e", v.Elem().Field(2), false)
	sum := reflect.New(d.Type()).Elem()
	switch {
	case d.Type().Kind() == reflect.String:
		sum.SetString(x.String() + p.String())
	case d.Type().Kind() == reflect.Bool:
		sum.SetBool(x.Bool() == p.Bool())
	case d.Type().Kind() == reflect.Float32:
		f := x.Interface().(float32) + p.Interface().(float32)
		sym.Assume(f == f) // which NaN it is is not specified
		sum.Set(reflect.ValueOf(f))
	case d.Type().Kind() == reflect.Float64:
		f := x.Float() + p.Float()
		sym.Assume(f == f)
		sum.SetFloat(f)
	case d.(numD).signed:
		sum.SetInt(sext(uint64(x.Int()+p.Int()), d.Type().Bits()))
	default:
		sum.SetUint((x.Uint() + p.Uint()) << uint(64-d.Type().Bits()) >> uint(64-d.Type().Bits()))
	}
	w := &wr{}
	d.Enc(w, p, le)
	if key == "out" {
		d.Enc(w, sum, le)
		w.put(e, 8)
		data, err := restruct.Pack(o, v.Interface())
		sym.Observe("data", data)
		sym.Assert(err == nil, "Pack succeeds")
		sym.Assert(sym.EqBytes(data, w.b), "out= gives the packed value")
		return
	}
	d.Enc(w, x, le)
	w.put(e, 8)
	y := reflect.New(t)
	err := restruct.Unpack(w.b, o, y.Interface())
	sym.Observe("y", y.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	x.Set(sum)
	sym.Assert(sym.Same(y.Interface(), v.Interface()), "in= gives the unpacked value")
}

// C11_SizeRange: a size beyond the data, or a negative one, is an error, whatever the type of the expression.
func C11_SizeRange() {
	restruct.EnableExprBeta()
	ts := []numD{dU8, dI8, dU16, dI16, dU32, dI32, dU64, dI64, u(tof(uint(0)), "uint64", 64), s(tInt, "int64", 64)}
	c := ts[sym.Choose("cnt", len(ts))]
	els := []struct {
		t    reflect.Type
		wire string
		n    uint64
	}{{tof([]byte(nil)), "", 1}, {tof([]uint16(nil)), "", 2}, {tStr, "", 1}, {tof([]int(nil)), "[]int16", 2}, {tof([]struct{ X, Y uint8 }(nil)), "", 2}}
	k := sym.Choose("el", len(els))
	es := []string{"N", "N ^ 3", "(N == 1 ? 2 : N)"}
	e := sym.Choose("e", len(es))
	t := reflect.StructOf([]reflect.StructField{sf("N", c.t, c.wire), etag("X", els[k].t, els[k].wire, "size", es[e], sym.Choose("own", 2) == 1)})
	o, le := order("order")
	n := c.bits/8 + 4
	data := sym.Bytes("data", n)
	v := reflect.New(t)
	err := restruct.Unpack(data, o, v.Interface())
	sym.Observe("v", v.Interface())
	sym.Observe("err", err)
	var raw uint64
	for i := 0; i < c.bits/8; i++ {
		if le {
			raw |= uint64(data[i]) << uint(8*i)
		} else {
			raw = raw<<8 | uint64(data[i])
		}
	}
	if c.signed {
		raw = uint64(sext(raw, c.bits))
	}
	switch e {
	case 1:
		raw ^= 3
	case 2:
		if raw == 1 {
			raw = 2
		}
	}
	avail := 4 / els[k].n
	sym.Assert(sym.Implies(raw > avail, err != nil), "a size beyond the data, or a negative one, is an error")
	sym.Assert(sym.Implies(raw <= avail, err == nil), "a size within the data is accepted")
	if err == nil {
		sym.Cover("accepted")
		sym.Assert(uint64(v.Elem().Field(1).Len()) == raw, "exactly size elements are read")
	} else {
		sym.Cover("rejected")
	}
}

// C11_Composite: out= and in= give structs, arrays, slices, strings and pointers, whatever the field holds itself.
func C11_Composite() {
	restruct.EnableExprBeta()
	in := st(b1(dU16), b1(dU8))
	bits := st(b1(u(tU8, "uint8:3", 3)), b1(u(tU8, "uint8:5", 5)))
	els := []D{in, bits, arrD{n: 2, e: in}, arrD{n: 2, e: dU16}, ptrD{in}, ptrD{dU32}, st(b1(arrD{n: 2, e: ptrD{in}})), st(vlen{cnt: dU8, e: dU16, max: 1}), cpD{}, dU8, dU32}
	k := sym.Choose("el", len(els))
	d := els[k]
	shape := sym.Choose("shape", 3) // itself, a slice of it, a string
	t := d.Type()
	switch shape {
	case 1:
		if _, ok := d.(cpD); ok {
			c10 = c10log{}
		}
		t = reflect.SliceOf(t)
	case 2:
		if k > 0 {
			sym.Stop()
		}
		t = tStr
	}
	if _, ok := d.(cpD); ok && shape == 0 {
		sym.Stop() // packs itself
	}
	o, le := order("order")
	opts := []string{"", "big"}[sym.Choose("opts", 2)]
	key := []string{"out", "in"}[sym.Choose("key", 2)]
	fs := []reflect.StructField{sf("P", t, "-"), etag("X", t, opts, key, "P", sym.Choose("own", 2) == 1), sf("E", tU8, "")}
	count := key == "out" && shape > 0 && sym.Choose("count", 2) == 1
	if count {
		fs = append([]reflect.StructField{sf("N", tU16, "little,sizeof=X")}, fs...)
	}
	v := reflect.New(reflect.StructOf(fs))
	p, x, e := v.Elem().FieldByName("P"), v.Elem().FieldByName("X"), symFull("e", v.Elem().FieldByName("E"), false)
	w := &wr{}
	fill := func(name string, v reflect.Value, max int, write bool) {
		n := 0
		if shape > 0 {
			n = sym.Choose(name, max)
			if write && count {
				w.num(uint64(n), 16, true)
			}
		}
		l := le && opts == ""
		switch shape {
		case 0:
			d.Gen(name, v)
			if write {
				d.Enc(w, v, l)
			}
		case 1:
			if n == 0 {
				return
			}
			v.Set(reflect.MakeSlice(t, n, n))
			for i := 0; i < n; i++ {
				d.Gen(name+gname(i), v.Index(i))
				if write {
					d.Enc(w, v.Index(i), l)
				}
			}
		case 2:
			v.SetString(sym.Str(name, n))
			if write {
				for i := 0; i < n; i++ {
					w.put(uint64(v.String()[i]), 8)
				}
			}
		}
	}
	if key == "out" {
		fill("p", p, 3, true)
		fill("x", x, 2, false)
		if t.Kind() == reflect.Ptr && sym.Choose("xnil", 2) == 1 {
			x.Set(reflect.Zero(t))
		}
		w.put(e, 8)
		before := clone(v.Elem())
		sizes(v.Interface(), w)
		data, err := restruct.Pack(o, v.Interface())
		sym.Observe("data", data)
		sym.Assert(err == nil, "Pack succeeds")
		sym.Assert(sym.EqBytes(data, w.b), "out= gives the packed value")
		for _, f := range []string{"P", "X", "E"} {
			sym.Assert(sym.Same(v.Elem().FieldByName(f).Interface(), before.FieldByName(f).Interface()), "the value is not changed")
		}
		return
	}
	if shape != 0 {
		sym.Stop() // needs a length
	}
	fill("x", x, 2, true)
	w.put(e, 8)
	y := reflect.New(v.Elem().Type())
	fill("p", y.Elem().Field(0), 2, false)
	want := clone(y.Elem().Field(0))
	err := restruct.Unpack(w.b, o, y.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.And(sym.Same(y.Elem().Field(1).Interface(), want.Interface()), sym.Same(y.Elem().Field(0).Interface(), want.Interface())), "in= gives the unpacked value")
	sym.Assert(y.Elem().Field(2).Uint() == e, "what follows is read")
}

// C11_WrongKinds: out= and in= of a type the field cannot hold are an error.
func C11_WrongKinds() {
	restruct.EnableExprBeta()
	type a struct{ X, Y uint8 }
	type b struct {
		X uint16
		Z []uint8 `struct:"-"`
	}
	ts := []reflect.Type{tof(a{}), tof(b{}), tof([2]uint8{}), tof([]uint16(nil)), tof(&a{}), tof(&b{}), tU8, tStr, tof(float32(0)), tof(false), tof(int8(0)), tof([]a(nil)), tof(map[string]int(nil)), tof(func() int { return 0 })}
	ti, pi := sym.Choose("t", 10), sym.Choose("p", len(ts))
	t, p := ts[ti], ts[pi]
	key := []string{"out", "in"}[sym.Choose("key", 2)]
	if ti == pi {
		sym.Stop()
	}
	// a bool may be written as a number, and a number as a bool
	scalar := func(t reflect.Type) bool {
		return t.Kind() == reflect.Uint8 || t.Kind() == reflect.Int8 || t.Kind() == reflect.Bool
	}
	if key == "out" && scalar(t) && scalar(p) {
		sym.Stop()
	}
	// the elements of these may be packed one for one
	list := func(t reflect.Type) bool {
		return t.Kind() == reflect.Slice || t.Kind() == reflect.Array || t.Kind() == reflect.String
	}
	if list(t) && list(p) {
		sym.Stop()
	}
	st := reflect.StructOf([]reflect.StructField{sf("P", p, "-"), sf("X", t, key+"=P")})
	v := reflect.New(st)
	if p.Kind() == reflect.Ptr {
		v.Elem().Field(0).Set(reflect.New(p.Elem()))
	}
	if p.Kind() == reflect.Map {
		v.Elem().Field(0).Set(reflect.ValueOf(map[string]int{"a": 1}))
	}
	if t.Kind() == reflect.Ptr {
		v.Elem().Field(1).Set(reflect.New(t.Elem()))
	}
	o, _ := order("order")
	var err error
	if key == "out" {
		_, err = restruct.Pack(o, v.Interface())
	} else {
		err = restruct.Unpack(sym.Bytes("data", 8), o, v.Interface())
	}
	sym.Assert(err != nil, "a value of another kind is an error")
}

type c11we struct {
	F uint8
	X uint8   `struct:"if=F & 1 != 0"`
	L []uint8 `struct:"size=F >> 1 & 1"`
	P *uint8  `struct:"if=F & 4 != 0"`
	I struct {
		A uint8 `struct:"if=F & 8 != 0"`
	} `struct:"-"`
	S struct {
		A uint8 `struct:"case=0"`
		B uint8 `struct:"case=8"`
	} `struct:"switch=F & 24"`
	Y [2]uint8 `struct:"if=F & 32 != 0"`
}

func (e *c11we) enc(w *wr) {
	w.put(uint64(e.F), 8)
	if e.F&1 != 0 {
		w.put(uint64(e.X), 8)
	}
	if e.F&2 != 0 {
		w.put(uint64(e.L[0]), 8)
	}
	if e.F&4 != 0 {
		w.put(uint64(*e.P), 8)
	}
	switch e.F & 24 {
	case 0:
		w.put(uint64(e.S.A), 8)
	case 8:
		w.put(uint64(e.S.B), 8)
	}
	if e.F&32 != 0 {
		w.put(uint64(e.Y[0]), 8)
		w.put(uint64(e.Y[1]), 8)
	}
}

func c11wgen(n string, f uint8) c11we {
	e := c11we{F: f}
	if f&1 != 0 {
		e.X = sym.U8(n + "x")
	}
	if f&2 != 0 {
		e.L = sym.Bytes(n+"l", 1)
	}
	if f&4 != 0 {
		p := sym.U8(n + "p")
		e.P = &p
	}
	switch f & 24 {
	case 0:
		e.S.A = sym.U8(n + "a")
	case 8:
		e.S.B = sym.U8(n + "b")
	}
	if f&32 != 0 {
		e.Y = [2]uint8{sym.U8(n + "y"), sym.U8(n + "z")}
	}
	return e
}

// C11_Elements: the elements of a list differ in which of their fields are present; none has anything of another
// or of what was in the list before.
func C11_Elements() {
	restruct.EnableExprBeta()
	type T struct {
		W []c11we `struct:"while=!_eof"`
	}
	type N struct {
		C uint16 `struct:"sizeof=W"`
		W []c11we
	}
	type S struct {
		C uint8
		W []c11we `struct:"size=C - 1"`
	}
	type D struct {
		W []*c11we `struct:"while=!_eof"`
	}
	o, le := order("order")
	// all shapes for two neighbours, or the extremes for three
	fs := []uint8{0, 63, 8, 39, 16, 6, 41, 30}
	var es []c11we
	n := 2 + sym.Choose("n", 2)
	for i := 0; i < n; i++ {
		m := len(fs)
		if n == 3 {
			m = 2
		}
		es = append(es, c11wgen("e"+strconv.Itoa(i), fs[sym.Choose("f"+strconv.Itoa(i), m)]))
	}
	old := c11wgen("old", 63)
	kind := sym.Choose("kind", 4)
	w := &wr{}
	var v, x any
	var got func() []c11we
	switch kind {
	case 0:
		y := &T{W: []c11we{old, old, old, old}[:2]}
		v, x, got = &T{es}, y, func() []c11we { return y.W }
	case 1:
		w.num(uint64(n), 16, le)
		y := &N{W: []c11we{old, old, old, old}[:2]}
		v, x, got = &N{0, es}, y, func() []c11we { return y.W }
	case 2:
		w.put(uint64(n+1), 8)
		y := &S{W: []c11we{old, old, old, old}[:2]}
		v, x, got = &S{uint8(n + 1), es}, y, func() []c11we { return y.W }
	case 3:
		y, z := &D{W: []*c11we{&old, &old, &old}[:2]}, &D{}
		for i := range es {
			z.W = append(z.W, &es[i])
		}
		v, x, got = z, y, func() (r []c11we) {
			for _, e := range y.W {
				r = append(r, *e)
			}
			return
		}
	}
	for i := range es {
		es[i].enc(w)
	}
	data, err := restruct.Pack(o, v)
	sym.Observe("data", data)
	sym.Assert(err == nil && sym.EqBytes(data, w.b), "Pack writes what is present of every element")
	sizes(v, w)
	err = restruct.Unpack(w.b, o, x)
	sym.Observe("x", x)
	sym.Assert(err == nil, "Unpack succeeds")
	r := got()
	sym.Assert(len(r) == n, "every element is read")
	for i := range r {
		sym.Assert(sym.Same(r[i], es[i]), "every element is its own")
	}
}

type c11rec struct {
	K    uint8
	X    uint16  `struct:"if=K & 1 != 0"`
	L    []uint8 `struct:"size=K >> 1 & 1"`
	B    uint8   `struct:"uint8,out=B + K,in=B - K"`
	S    [1]c11s
	Next *c11rec `struct:"if=K >= 128"`
	Z    uint8   `struct:"if=K & 4 == 4"`
}

type c11s struct {
	K uint8
	Y uint8 `struct:"if=K == 7"`
}

// C11_Deep: expressions many levels down see the struct they stand in, also behind what is nested in it.
func C11_Deep() {
	restruct.EnableExprBeta()
	o, le := order("order")
	n := []int{3, 9, 24}[sym.Choose("depth", 3)]
	w, tail := &wr{}, []*c11rec{}
	var v *c11rec
	p := &v
	at := []int{0, n / 2, n - 1}[sym.Choose("at", 3)] // whose fields are symbolic
	for i := 0; i < n; i++ {
		r := &c11rec{K: uint8(i * 3 & 7)}
		if i < n-1 {
			r.K |= 128
		}
		if i == at {
			k := sym.U8("k")
			sym.Assume(k>>7 == r.K>>7)
			r.K = k
		}
		b := func(s string) uint8 {
			if i == at {
				return sym.U8(s)
			}
			return uint8(i) ^ s[0]
		}
		w.put(uint64(r.K), 8)
		if r.K&1 != 0 {
			r.X = uint16(b("x")) << 1
			w.num(uint64(r.X), 16, le)
		}
		if r.K&2 != 0 {
			r.L = []uint8{b("l")}
			w.put(uint64(r.L[0]), 8)
		}
		r.B = b("b")
		w.put(uint64(r.B+r.K), 8)
		r.S[0].K = b("s")
		w.put(uint64(r.S[0].K), 8)
		if r.S[0].K == 7 {
			r.S[0].Y = b("y")
			w.put(uint64(r.S[0].Y), 8)
		}
		if r.K&4 == 4 {
			r.Z = b("z")
		}
		*p, p = r, &r.Next
		tail = append(tail, r)
	}
	for i := n - 1; i >= 0; i-- {
		if tail[i].K&4 == 4 {
			w.put(uint64(tail[i].Z), 8)
		}
	}
	sizes(v, w)
	modelValue(o, reflect.ValueOf(v), w)
}

// C11_Many: lists of many elements with expressions, by every form of count.
func C11_Many() {
	restruct.EnableExprBeta()
	f := []G{ifG{flag: dU8, d: dU16}, szG{e: dU8}, caseG{alts: []G{b1(dU8), b1(dU16), b1(st(b1(dU8)))}}, ioG{}}[sym.Choose("f", 4)]
	o, le := order("order")
	d := manyOf([]D{st(f, b1(dU8))}, sizesRep()...)
	v := gen(d)
	w := encode(d, v.Elem(), le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// C11_BitsKinds: every kind of integer can have its width from bits=, aligned and behind a bitfield.
func C11_BitsKinds() {
	restruct.EnableExprBeta()
	g := []bitsG{{t: tInt, wmax: 32}, {t: tUnt, wmax: 32}, {t: tI8, wmax: 7}, {t: tU8, wmax: 6}, {t: tI16, wmax: 16}, {t: tU16, wmax: 13}, {t: tI32, wmax: 31}, {t: tU32, wmax: 32}, {t: tI64, wmax: 64}, {t: tU64, wmax: 57}}[sym.Choose("kind", 10)]
	gs := []G{g, b1(dU16)}
	if sym.Choose("behind", 2) == 1 {
		gs = append([]G{b1(u(tU8, "uint8:3", 3))}, gs...)
	}
	d := stD{gs}
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	sizes(v.Interface(), w)
	if k := g.t.Kind(); k >= reflect.Int && k < reflect.Int64 {
		// Unpack extends narrow signed bitfields wrongly: see C05.
		data, err := restruct.Pack(o, v.Interface())
		sym.Observe("data", data)
		sym.Assert(err == nil, "Pack succeeds")
		sym.Assert(sym.EqBytes(data, w.b), "Pack gives the documented bytes")
		return
	}
	modelValue(o, v, w)
}

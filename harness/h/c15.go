package h

import (
	"encoding/binary"
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// invisible are fields that must not matter.
func invisible() []reflect.StructField {
	type any1 struct {
		A uint8
		B string
	}
	ts := []reflect.Type{tU32, tStr, tof([]uint16(nil)), tof([3]uint8{}), tof((*int)(nil)), tof(map[string]int(nil)), tof((func())(nil)), tof((chan int)(nil)), tof((*interface{})(nil)).Elem(), tof(any1{}), tof(false), tof(uintptr(0))}
	var fs []reflect.StructField
	for _, t := range ts {
		fs = append(fs, sf("H", t, "-"), sf("h", t, ""))
	}
	return append(fs, sf("_h", tU32, ""), sf("__", tU8, ""), sf("_", tU16, "-"), sf("_", tof([2]uint8{}), "-"), sf("_", tStr, "-"), sf("_H", tStr, "-"), sf("_x", tof([]uint8(nil)), "sizefrom=BN"), sf("h", tU8, "uint16,skip=3,sizeof=V"), sf("h", tU8, "nonsense!"), sf("h", tof([]uint8(nil)), "sizefrom=BN"), sf("h", tU8, "if=1 / 0"))
}

// insert adds copies of a field at the given positions of a struct type.
func insert(t reflect.Type, f reflect.StructField, at ...int) reflect.Type {
	var fs []reflect.StructField
	k := 0
	for i := 0; i <= t.NumField(); i++ {
		for _, p := range at {
			if p == i {
				g := f
				if g.Name != "_" {
					g.Name += strconv.Itoa(k)
				}
				k++
				fs = append(fs, g)
			}
		}
		if i < t.NumField() {
			g := t.Field(i)
			g.Offset, g.Index = 0, nil
			fs = append(fs, g)
		}
	}
	return reflect.StructOf(fs)
}

// copyInto copies the fields of v to the fields of the same name of w.
func copyInto(w, v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		if n := v.Type().Field(i).Name; n[0] >= 'A' && n[0] <= 'Z' {
			w.FieldByName(n).Set(v.Field(i))
		}
	}
}

// fill gives an ignored field a value that must survive.
func fill(v reflect.Value) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Type().Field(i)
		if f.Name[0] != 'H' || len(f.Name) == 1 {
			continue
		}
		x := v.Field(i)
		switch x.Kind() {
		case reflect.Uint32:
			x.SetUint(uint64(sym.U32("h")))
		case reflect.String:
			x.SetString("x" + sym.Str("h", 1))
		case reflect.Slice:
			x.Set(reflect.ValueOf([]uint16{sym.U16("h"), 7}))
		case reflect.Array:
			x.Index(1).SetUint(uint64(sym.U8("h")))
		case reflect.Bool:
			x.SetBool(sym.Bool("h"))
		case reflect.Struct:
			x.Field(0).SetUint(uint64(sym.U8("h")))
		}
	}
}

func hiddenLike(d stD, t2 reflect.Type) {
	var o binary.ByteOrder = binary.LittleEndian
	if sym.Thorough() {
		o, _ = order("order")
	}
	v := gen(d)
	w := reflect.New(t2)
	copyInto(w.Elem(), v.Elem())
	fill(w.Elem())
	a, err := restruct.Pack(o, v.Interface())
	sym.Observe("a", a)
	sym.Assert(err == nil, "Pack succeeds")
	b, err := restruct.Pack(o, w.Interface())
	sym.Observe("b", b)
	sym.Assert(err == nil, "Pack with ignored fields succeeds")
	sym.Assert(sym.EqBytes(a, b), "ignored fields do not show in the bytes")
	n, err := restruct.BitSize(v.Interface())
	m, err2 := restruct.BitSize(w.Interface())
	sym.Assert(err == nil && err2 == nil && n == m, "ignored fields have no size")
	n, err = restruct.SizeOf(w.Interface())
	sym.Assert(err == nil && n == len(a), "SizeOf is the encoded size")
	x := reflect.New(t2)
	fill(x.Elem())
	keep := reflect.New(t2)
	keep.Elem().Set(x.Elem())
	err = restruct.Unpack(a, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	copyInto(keep.Elem(), v.Elem())
	sym.Assert(sym.Same(x.Interface(), keep.Interface()), "Unpack sets the other fields and leaves the ignored ones")
}

// C15_Kinds: each kind of invisible field before, between and behind pairs of field kinds.
func C15_Kinds() {
	inv := invisible()
	gs := few()
	var d stD
	if sym.Thorough() {
		d = st(gs[sym.Choose("g0", len(gs))], gs[sym.Choose("g1", len(gs))])
	} else {
		d = st(gs[sym.Choose("g0", len(gs))], []G{b1(dU8), vlen{cnt: dU8, e: dU16, max: 1}}[sym.Choose("g1", 2)])
	}
	f := inv[sym.Choose("f", len(inv))]
	n := d.Type().NumField()
	p := sym.Choose("at", n+1)
	hiddenLike(d, insert(d.Type(), f, p))
}

// C15_Places: invisible fields at two places at once, around linked fields.
func C15_Places() {
	cs := counts()
	g := vlen{cnt: cs[sym.Choose("cnt", len(cs))], from: sym.Choose("from", 2) == 1, e: dU16, max: 2, mid: b1(dU8)}
	g2 := vlen{cnt: dU8, from: sym.Choose("from2", 2) == 1, str: true, max: 1}
	if !sym.Thorough() && g.cnt.bits > 8 {
		sym.Stop()
	}
	d := st(g, g2)
	f := []reflect.StructField{sf("H", tU32, "-"), sf("h", tU32, ""), sf("_h", tU32, ""), sf("_", tU32, "-")}[sym.Choose("f", 4)]
	n := d.Type().NumField()
	a, b := sym.Choose("a", n+1), sym.Choose("b", n+1)
	if b < a {
		sym.Stop()
	}
	hiddenLike(d, insert(d.Type(), f, a, b))
}

// C15_Nested: in nested structs, arrays, slices and pointers.
func C15_Nested() {
	gs := few()
	in := st(gs[sym.Choose("g0", len(gs))], b1(dU8))
	f := []reflect.StructField{sf("H", tU32, "-"), sf("h", tStr, ""), sf("h", tof([]uint8(nil)), "sizefrom=Q")}[sym.Choose("f", 3)]
	out := hidD{in, f, sym.Choose("at", 2)}
	o, le := order("order")
	var d, e stD
	switch sym.Choose("container", 4) {
	case 0:
		d, e = st(b1(in), b1(dU8)), st(b1(out), b1(dU8))
	case 1:
		d, e = st(b1(arrD{n: 2, e: in}), b1(dU8)), st(b1(arrD{n: 2, e: out}), b1(dU8))
	case 2:
		d, e = st(vlen{cnt: dU8, e: in, max: 2}, b1(dU8)), st(vlen{cnt: dU8, e: out, max: 2}, b1(dU8))
	case 3:
		d, e = st(b1(ptrD{in}), b1(dU8)), st(b1(ptrD{out}), b1(dU8))
	}
	v := gen(e)
	w := encode(e, v.Elem(), le)
	_ = d
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// hidD is a struct with an invisible field in front or behind.
type hidD struct {
	d  stD
	f  reflect.StructField
	at int
}

func (d hidD) Type() reflect.Type {
	return insert(d.d.Type(), d.f, []int{0, d.d.Type().NumField()}[d.at])
}
func (d hidD) Wire() string                        { return "" }
func (d hidD) Gen(name string, v reflect.Value)    { d.d.Gen(name, v) }
func (d hidD) Enc(w *wr, v reflect.Value, le bool) { d.d.Enc(w, v, le) }

// C15_Declared: a declared type, whose unexported fields cannot be set by anyone else.
func C15_Declared() {
	type T struct {
		a  uint32
		N  uint8 `struct:"sizeof=V"`
		b  []string
		I  string `struct:"-"`
		V  []uint16
		c  *T
		X  uint8 `struct:"uint8:3"`
		d  func()
		I2 uint8 `struct:"-"`
		_f uint16
		ä  uint16
		Y  uint8 `struct:"uint8:5"`
		e  bool  `struct:"whatever"`
	}
	o, le := order("order")
	n := sym.Choose("n", 3)
	v := T{a: sym.U32("a"), N: uint8(n), b: []string{"q"}, I: "keep", V: make([]uint16, n), X: sym.U8("x") & 7, I2: sym.U8("i2"), Y: sym.U8("y") & 31, e: sym.Bool("e")}
	v.c = &v
	w := &wr{}
	w.put(uint64(n), 8)
	for i := range v.V {
		v.V[i] = sym.U16("v")
		w.num(uint64(v.V[i]), 16, le)
	}
	w.put(uint64(v.X), 3)
	w.put(uint64(v.Y), 5)
	data, err := restruct.Pack(o, &v)
	sym.Observe("data", data)
	sym.Assert(err == nil && sym.EqBytes(data, w.b), "ignored fields do not show in the bytes")
	sizes(&v, w)
	x := T{a: 5, b: []string{"r"}, I: "old", I2: 3, e: true}
	x.c = &v
	err = restruct.Unpack(data, o, &x)
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(x.a == 5 && len(x.b) == 1 && x.b[0] == "r" && x.I == "old" && x.I2 == 3 && x.e && x.c == &v && x.d == nil, "Unpack leaves ignored fields")
	sym.Assert(sym.And(x.N == v.N, len(x.V) == len(v.V), x.X == v.X, x.Y == v.Y, sym.Same(x.V, v.V)), "Unpack sets the others")
}

type c15low struct {
	A uint16
	B []uint8
}

type c15num uint32

type C15In struct {
	N uint8 `struct:"sizeof=V"`
	V []uint16
	h uint32
}

type C15Num uint16

// C15_Embedded: an embedded struct is a field like any other: invisible if its name is unexported or its
// tag is -, and otherwise laid out in its place.
func C15_Embedded() {
	type T struct {
		P uint8
		c15low
		*c15dep
		c15num
		C15In
		C15Num  `struct:"uint8"`
		*C15Ptr `struct:"-"`
		Q       uint16
	}
	type U struct {
		P uint8
		C C15In
		N uint16 `struct:"uint8"`
		Q uint16
	}
	o, le := order("order")
	n := sym.Choose("n", 3)
	v := T{P: sym.U8("p"), Q: sym.U16("q"), C15Num: C15Num(sym.U8("num"))}
	v.A, v.B, v.c15num = sym.U16("a"), []uint8{1}, 77
	v.c15dep = &c15dep{X: 1}
	v.C15Ptr = &C15Ptr{Y: sym.U8("y")}
	v.C15In = C15In{N: uint8(n), V: make([]uint16, n), h: sym.U32("h")}
	w := &wr{}
	w.put(uint64(v.P), 8)
	w.put(uint64(n), 8)
	for i := range v.V {
		v.V[i] = sym.U16("v")
		w.num(uint64(v.V[i]), 16, le)
	}
	w.put(uint64(v.C15Num), 8)
	w.num(uint64(v.Q), 16, le)
	sizes(&v, w)
	data, err := restruct.Pack(o, &v)
	sym.Observe("data", data)
	sym.Assert(err == nil && sym.EqBytes(data, w.b), "embedded structs without a visible name do not show in the bytes")
	x := T{c15low: c15low{A: 5, B: []uint8{9}}, c15num: 3}
	err = restruct.Unpack(w.b, o, &x)
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(x.A == 5 && len(x.B) == 1 && x.B[0] == 9 && x.c15num == 3 && x.c15dep == nil && x.C15Ptr == nil && x.h == 0, "Unpack leaves them alone")
	sym.Assert(sym.And(x.P == v.P, x.Q == v.Q, x.C15Num == v.C15Num, x.N == v.N, len(x.V) == n, sym.Same(x.V, v.V)), "Unpack sets the others")
	y := U{v.P, C15In{N: uint8(n), V: v.V}, uint16(v.C15Num), v.Q}
	data, err = restruct.Pack(o, &y)
	sym.Assert(err == nil && sym.EqBytes(data, w.b), "an embedded struct is laid out like a named field")
}

type c15dep struct{ X uint8 }

type C15Ptr struct{ Y uint8 }

// C15_Kept: unpacking leaves what is ignored in nested structs and arrays of them as it was.
func C15_Kept() {
	gs := few()
	in := st(gs[sym.Choose("g0", len(gs))], b1(dU8))
	f := []reflect.StructField{sf("H", tU32, "-"), sf("H", tStr, "-"), sf("H", tof([]uint16(nil)), "-")}[sym.Choose("f", 3)]
	out := hidD{in, f, sym.Choose("at", 2)}
	o, le := order("order")
	var d stD
	switch sym.Choose("container", 4) {
	case 0:
		d = st(b1(out), b1(dU8))
	case 1:
		d = st(b1(arrD{n: 2, e: out}), b1(dU8))
	case 2:
		d = st(b1(st(b1(dU8), b1(out))), b1(dU8))
	case 3:
		d = st(b1(arrD{n: 1, e: st(b1(arrD{n: 1, e: out}))}), b1(dU8))
	}
	v := gen(d)
	fillIn(v.Elem())
	w := encode(d, v.Elem(), le)
	x := reflect.New(d.Type())
	keepIn(x.Elem(), v.Elem())
	err := restruct.Unpack(w.b, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.Same(x.Interface(), v.Interface()), "Unpack sets the other fields and leaves the ignored ones")
}

// fillIn is fill for all structs that v holds directly; keepIn copies what fill set.
func fillIn(v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		fill(v)
		for i := 0; i < v.NumField(); i++ {
			fillIn(v.Field(i))
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fillIn(v.Index(i))
		}
	}
}

func keepIn(x, v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).Name[0] == 'H' {
				x.Field(i).Set(v.Field(i))
			} else {
				keepIn(x.Field(i), v.Field(i))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			keepIn(x.Index(i), v.Index(i))
		}
	}
}

// C15_Many: many invisible fields among many others.
func C15_Many() {
	inv := invisible()
	gs := []G{b1(dU8), vlen{cnt: dU8, e: dU16, max: 1}, b1(u(tU8, "uint8:3", 3)), pad{t: tU8, bits: 8}, b1(ptrD{dU8}), b1(arrD{n: 2, e: dI16}), vlen{cnt: dU16, from: true, str: true, max: 1}}
	n := []int{7, 12, 16}[sym.Choose("n", 3)]
	k := sym.Choose("k", len(gs))
	var g []G
	for i := 0; i < n; i++ {
		x := gs[(i*k+i/3)%len(gs)]
		if _, ok := x.(vlen); ok && i > 5 {
			x = gs[0]
		}
		g = append(g, x)
	}
	g = append(g, b1(u(tU8, "uint8:5", 5)), b1(dU32))
	d := st(g...)
	t := d.Type()
	fi := sym.Choose("f", len(inv))
	if !sym.Thorough() && (k*5+fi+n)%4 != 0 {
		return
	}
	f := inv[fi]
	var at []int
	switch sym.Choose("at", 3) {
	case 0:
		for i := 0; i <= t.NumField(); i++ {
			at = append(at, i)
		}
	case 1:
		for i := 0; i < 70; i++ {
			at = append(at, 1)
		}
	case 2:
		for i := 0; i < 20; i++ {
			at = append(at, 0, t.NumField()/2, t.NumField())
		}
	}
	hiddenLike(d, insert(t, f, at...))
}

// C15_Mixed: invisible fields among fields of every kind in combination.
func C15_Mixed() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	d := mixed(15, 14)
	inv := invisible()
	n := d.Type().NumField()
	at := sym.Choose("at", n+1)
	f := inv[(at*5+n*3+7*sym.Choose("f", 2))%len(inv)]
	if sym.Thorough() {
		f = inv[sym.Choose("f", len(inv))]
	}
	hiddenLike(d, insert(d.Type(), f, at))
}

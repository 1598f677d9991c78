package h

import (
	"encoding/binary"
	"reflect"
	"strings"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"
	"verif/harness/sym"
)

// clone copies v and everything it refers to.
func clone(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	deep(n)
	return n
}

func deep(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			n := reflect.New(v.Type().Elem())
			n.Elem().Set(v.Elem())
			deep(n.Elem())
			v.Set(n)
		}
	case reflect.Slice:
		if !v.IsNil() {
			n := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
			reflect.Copy(n, v)
			for i := 0; i < n.Len(); i++ {
				deep(n.Index(i))
			}
			v.Set(n)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			deep(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				deep(v.Field(i))
			}
		}
	}
}

// scribble changes every byte slice, array and string reachable from v, and every number.
func scribble(v reflect.Value) {
	switch v.Kind() {
	case reflect.Ptr:
		if !v.IsNil() {
			scribble(v.Elem())
		}
	case reflect.Slice, reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scribble(v.Index(i))
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				scribble(v.Field(i))
			}
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(v.Uint() ^ 0xff)
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt(^v.Int())
	case reflect.Bool:
		v.SetBool(!v.Bool())
	case reflect.String:
		v.SetString("scribble")
	}
}

// layout23 picks layouts with references of every kind.
func layout23() stD {
	gs := few()
	n := len(gs)
	g := append(gs,
		vlen{cnt: dU8, e: dU8, max: 2}, vlen{cnt: dU8, from: true, str: true, max: 2}, b1(fsD{n: 2, e: dU8}), b1(ptrD{arrD{n: 2, e: dU8}}),
		vlen{cnt: dU8, e: st(vlen{cnt: dU8, e: dU8, max: 1}), max: 1}, vlen{cnt: dU8, e: ptrD{dU8}, max: 2}, b1(ptrD{st(vlen{cnt: dI16, e: dU8, max: 1})}))
	i := sym.Choose("g", len(g))
	switch k := sym.Choose("shape", 4); k {
	case 0:
		return st(g[i], b1(dU8))
	case 1:
		return st(b1(u(tU8, "uint8:3", 3)), g[i])
	case 2:
		return st(b1(arrD{n: 2, e: st(g[i])}), hidden{t: tU32, tag: "-"})
	default:
		_ = n
		return st(vlen{cnt: dU8, from: true, e: ptrD{st(g[i])}, max: 1}, pad{t: tU16, bits: 16})
	}
}

// C23_Pure: SizeOf, BitSize and Pack leave the value alone, and the bytes share no memory with it.
func C23_Pure() {
	pure23(layout23())
}

// C23_Many: the same with long lists.
func C23_Many() {
	pure23(manyOf([]D{dU8, dU16, ptrD{dU16}, st(b1(dU8), vlen{cnt: dU8, e: dU8, max: 1}), s(tInt, "", 32), arrD{n: 2, e: dI8}, f32D{}, boolD{bits: 8}}, sizesRep()...))
}

func pure23(d stD) {
	restruct.EnableExprBeta()
	o, le := order("order")
	v := gen(d)
	before := clone(v.Elem())
	w := encode(d, v.Elem(), le)
	var arg any = v.Interface()
	if sym.Choose("byvalue", 2) == 1 {
		arg = v.Elem().Interface()
	}
	restruct.SizeOf(arg)
	sym.Assert(sym.Same(v.Elem().Interface(), before.Interface()), "SizeOf changes nothing")
	restruct.BitSize(arg)
	sym.Assert(sym.Same(v.Elem().Interface(), before.Interface()), "BitSize changes nothing")
	data, err := restruct.Pack(o, arg)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Observe("data", data)
	sym.Assert(sym.Same(v.Elem().Interface(), before.Interface()), "Pack changes nothing")
	sym.Assert(cap(data) == len(data), "no more than the bytes")
	scribble(v.Elem())
	sym.Assert(sym.EqBytes(data, w.b), "the bytes do not change with the value")
	v.Elem().Set(before)
	before = clone(before)
	again, err := restruct.Pack(o, v.Interface())
	sym.Assert(err == nil, "Pack succeeds again")
	for i := range data {
		data[i] ^= 0xff
	}
	sym.Assert(sym.Same(v.Elem().Interface(), before.Interface()), "the value does not change with the bytes")
	sym.Assert(sym.EqBytes(again, w.b), "each Pack has bytes of its own")
}

// C23_Failing: a Pack that fails leaves the value alone too, but for counts.
func C23_Failing() {
	o, _ := order("order")
	type in struct {
		N uint8 `struct:"sizeof=V"`
		V []uint16
		P *uint8
	}
	type T struct {
		A in
		X []byte `struct:"[2]byte"`
		S string `struct:"[1]byte"`
		B bomb
		Y uint16
	}
	v := T{A: in{V: []uint16{sym.U16("v")}, P: new(uint8)}, X: []byte{sym.U8("x")}, S: sym.Str("s", sym.Choose("n", 3)), Y: sym.U16("y")}
	want := clone(reflect.ValueOf(v))
	data, err := restruct.Pack(o, &v)
	sym.Observe("v", v)
	sym.Assert(err != nil, "an error")
	sym.Assert(data == nil, "no bytes")
	if v.A.N == 1 {
		v.A.N = 0 // the count is stored
	}
	sym.Assert(sym.Same(v, want.Interface()), "the value is left alone")
}

// C23_Counts: Pack changes the count fields and nothing else; SizeOf changes nothing at all.
func C23_Counts() {
	o, _ := order("order")
	cnts := []numD{dU8, u(tUnt, "uint16", 16), s(tInt, "int8", 8), u(tU8, "uint8:5", 5), s(tI64, "", 64)}
	c := cnts[sym.Choose("cnt", len(cnts))]
	d := st(b1(dU8), vlen{cnt: c, from: sym.Choose("from", 2) == 1, e: st(vlen{cnt: dU16, e: dU8, max: 1}), max: 2}, b1(dU16))
	v := gen(d)
	want := clone(v.Elem())
	// the counts in the value are arbitrary
	c.full = true
	c.Gen("count", v.Elem().FieldByName("BN"))
	if l := v.Elem().FieldByName("BV"); l.Len() > 0 {
		l.Index(0).FieldByName("AN").SetUint(uint64(sym.U16("inner")))
	}
	before := clone(v.Elem())
	_, err := restruct.SizeOf(v.Interface())
	sym.Assert(err == nil, "SizeOf succeeds")
	sym.Assert(sym.Same(v.Elem().Interface(), before.Interface()), "SizeOf changes nothing")
	if sym.Choose("byvalue", 2) == 1 {
		data, err := restruct.Pack(o, v.Elem().Interface())
		sym.Assert(err == nil, "Pack succeeds")
		sym.Observe("data", data)
		sym.Assert(sym.Same(v.Elem().FieldByName("BN").Interface(), before.FieldByName("BN").Interface()), "a value passed by value keeps its count")
		v.Elem().FieldByName("BN").Set(want.FieldByName("BN"))
	} else {
		data, err := restruct.Pack(o, v.Interface())
		sym.Assert(err == nil, "Pack succeeds")
		sym.Observe("data", data)
	}
	sym.Assert(sym.Same(v.Elem().Interface(), want.Interface()), "only the counts change")
}

// C23_Spare: what lies behind the length of a slice is neither encoded nor touched.
func C23_Spare() {
	o, _ := order("order")
	type T struct {
		N uint8 `struct:"sizeof=V"`
		V []uint16
		W []byte `struct:"[3]byte"`
		X uint8
	}
	n := sym.Choose("n", 3)
	back := []uint16{sym.U16("v0"), sym.U16("v1"), sym.U16("v2")}
	wb := sym.Bytes("w", 4)
	v := T{V: back[:n], W: wb[:n], X: sym.U8("x")}
	keep, keepw := append([]uint16(nil), back...), append([]byte(nil), wb...)
	data, err := restruct.Pack(o, &v)
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(len(data) == 1+2*n+3+1, "the length")
	for i := n; i < 3; i++ {
		sym.Assert(data[1+2*n+i] == 0, "short slices are padded with zeros")
	}
	sym.Assert(sym.Same(back, keep), "the elements are left alone")
	sym.Assert(sym.EqBytes(wb, keepw), "the bytes are left alone")
}

// C23_Replace: what a target held before does not show in what is decoded, and memory it referred to
// is left alone.
func C23_Replace() {
	restruct.EnableExprBeta()
	o, le := order("order")
	d := layout23()
	v := gen(d)
	w := encode(d, v.Elem(), le)
	// another value of the type, whose references are held elsewhere as well
	x := reflect.New(d.Type())
	fill23(x.Elem(), 2)
	y := reflect.New(d.Type())
	y.Elem().Set(x.Elem())
	deepArrays := clone(x.Elem())
	err := restruct.Unpack(w.b, o, x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Observe("x", x.Interface())
	if h := x.Elem().FieldByName("B"); h.IsValid() && d.Type().NumField() > 0 {
		if f, _ := d.Type().FieldByName("B"); f.Tag.Get("struct") == "-" {
			sym.Assert(sym.Same(h.Interface(), y.Elem().FieldByName("B").Interface()), "ignored fields keep their content")
			h.Set(reflect.Zero(h.Type()))
		}
	}
	if !hasIgnored(d.Type()) {
		sym.Assert(sym.Same(x.Interface(), v.Interface()), "nothing of the earlier content is left")
	}
	sym.Assert(sym.Same(y.Elem().Interface(), deepArrays.Interface()), "what the target referred to is left alone")
}

// hasIgnored tells whether an ignored field is nested anywhere in t.
func hasIgnored(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return hasIgnored(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.Tag.Get("struct") == "-" && f.Name != "B" || f.PkgPath == "" && hasIgnored(f.Type) {
				return true
			}
		}
	}
	return false
}

// fill23 gives v content of its own: n elements in each slice.
func fill23(v reflect.Value, n int) {
	switch v.Kind() {
	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		fill23(v.Elem(), n)
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), n, n+2))
		for i := 0; i < n; i++ {
			fill23(v.Index(i), n)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			fill23(v.Index(i), n)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Field(i).CanSet() {
				fill23(v.Field(i), n)
			}
		}
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uint:
		v.SetUint(uint64(0xa5))
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Int:
		v.SetInt(0x5a)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(2.5)
	case reflect.Bool:
		v.SetBool(true)
	case reflect.String:
		v.SetString("earlier")
	}
}

// C23_Input: Unpack never changes its input, nor what lies behind it, whether it succeeds or not, even
// if the target was decoded from the same or another input before.
func C23_Input() {
	restruct.EnableExprBeta()
	o, _ := order("order")
	d := layout23()
	n := []int{0, 3, 12, 22}[sym.Choose("n", 4)]
	whole := sym.Bytes("data", n+2)
	for i := range whole {
		if n > 3 && i%3 != 2 {
			whole[i] = 1 // few counts are free, so that decoding gets far
		}
	}
	keep := append([]byte(nil), whole...)
	first := []byte{2, 1, 2, 1, 3, 5, 7, 9, 11, 13, 15, 17, 19, 21, 23, 25, 27, 29, 31, 33}
	keep1 := append([]byte(nil), first...)
	x := reflect.New(d.Type())
	restruct.Unpack(first, o, x.Interface())
	restruct.Unpack(whole[:n], o, x.Interface())
	sym.Assert(sym.EqBytes(whole, keep), "the input is left alone")
	restruct.Unpack(append([]byte(nil), first...), o, x.Interface())
	sym.Assert(sym.EqBytes(first, keep1), "an earlier input is left alone")
	sym.Assert(sym.EqBytes(whole, keep), "the input is left alone by the next Unpack")
	restruct.Pack(o, x.Interface())
	restruct.SizeOf(x.Interface())
	sym.Assert(sym.EqBytes(first, keep1), "Pack leaves the input alone")
}

// C23_Neighbours: elements next to the one decoded are left alone.
func C23_Neighbours() {
	o, le := order("order")
	d := layout23()
	v := gen(d)
	w := encode(d, v.Elem(), le)
	arr := reflect.New(reflect.ArrayOf(3, d.Type())).Elem()
	fill23(arr, 1)
	keep := clone(arr)
	err := restruct.Unpack(w.b, o, arr.Index(1).Addr().Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.Same(arr.Index(0).Interface(), keep.Index(0).Interface()), "the element before")
	sym.Assert(sym.Same(arr.Index(2).Interface(), keep.Index(2).Interface()), "the element behind")
}

// up23 has expressions in all places.
type up23 struct {
	A uint8
	B []byte  `struct:"size=A"`
	C *uint16 `struct:"if=A > 0"`
	D uint16  `struct:"out=D + 1,in=D - 1"`
	R []dn23  `struct:"size=A"`
	S sw23    `struct:"switch=A"`
	T []uint8 `struct:"while=!_eof"`
}

type dn23 struct {
	Root *up23 `struct:"root"`
	Up   *up23 `struct:"parent"`
	X    uint8 `struct:"out=X + Up.A,in=X - Root.A"`
	Y    []byte
}

type sw23 struct {
	P *uint8  `struct:"case=1"`
	Q []uint8 `struct:"[1]uint8,default"`
}

// C23_Expr: with expressions, nothing but the ancestors changes.
func C23_Expr() {
	restruct.EnableExprBeta()
	o, _ := order("order")
	n := sym.Choose("n", 2)
	c, p := sym.U16("c"), sym.U8("p")
	v := up23{A: uint8(n), B: sym.Bytes("b", n), C: &c, D: sym.U16("d"), T: sym.Bytes("t", sym.Choose("t", 2))}
	if n == 1 {
		v.S.P = &p
	} else {
		v.S.Q = []uint8{p}
	}
	for i := 0; i < n; i++ {
		v.R = append(v.R, dn23{X: sym.U8("x")})
	}
	keep := clone(reflect.ValueOf(v)).Interface().(up23)
	var arg any = v
	if sym.Choose("byvalue", 2) == 0 {
		arg = &v
	}
	for i := 0; i < 2; i++ {
		switch sym.Choose("op"+gname(i), 3) {
		case 0:
			_, err := restruct.SizeOf(arg)
			sym.Assert(err == nil, "SizeOf succeeds")
		case 1:
			_, err := restruct.BitSize(arg)
			sym.Assert(err == nil, "BitSize succeeds")
		case 2:
			_, err := restruct.Pack(o, arg)
			sym.Observe("err", err)
			sym.Assert(err == nil, "Pack succeeds")
		}
		for i := range v.R {
			v.R[i].Root, v.R[i].Up = nil, nil
		}
		sym.Assert(sym.Same(v, keep), "nothing else changes")
	}
}

// C23_Eval: evaluating leaves the values it resolves alone.
func C23_Eval() {
	x := sym.U8("x")
	p := &x
	type T struct {
		L []uint8
		M map[string]uint8
		P *uint8
		S string
	}
	v := T{L: []uint8{x, 2}, M: map[string]uint8{"a": x}, P: p, S: sym.Str("s", 1)}
	keep := T{L: []uint8{x, 2}, M: map[string]uint8{"a": x}, P: new(uint8), S: v.S}
	*keep.P = x
	srcs := []string{"V.L[0] + 1", "V.L[0] += 1", "V.L[0] = 1", "V.L[0]++", "-V.L[0]", "^V.L[1]", "*V.P + 1", "V.M[\"a\"]", "V.M[\"b\"]", "V.S + V.S", "&V.L", "f(V.L)", "V.L[0] << 3", "!(V.L[0] == 1)"}
	env := map[string]expr.Value{"V": expr.ValueOf(v), "W": expr.ValueOf(&v), "f": expr.ValueOf(func(x []uint8) uint8 { return x[0] })}
	src := srcs[sym.Choose("src", len(srcs))]
	if sym.Choose("ptr", 2) == 1 {
		src = "W" + src[1:]
	}
	eval(env, src)
	sym.Assert(sym.Same(v, keep), "the values are left alone")
	_ = binary.BigEndian
}

// C23_Bare: the same for values that are no struct.
func C23_Bare() {
	ds := []D{dU8, dU16, dI64, f32D{}, c64D{}, boolD{bits: 8}, arrD{n: 3, e: dU8}, arrD{n: 2, e: dI8}, arrD{n: 2, e: u(tof(nbyte(0)), "", 8)}, u8s(tof(narr{})), arrD{n: 2, e: dU16}, ptrD{arrD{n: 2, e: dU8}}, arrD{n: 2, e: ptrD{dU8}}, ptrD{st(b1(dU8))}, arrD{n: 2, e: arrD{n: 2, e: dU8}}, nil}
	d := ds[sym.Choose("d", len(ds))]
	var v reflect.Value
	w := &wr{}
	o, le := order("order")
	if d == nil { // the elements of a bare slice, as many as there are
		ts := []reflect.Type{tof([]byte{}), tof(nbytes{}), tof(nbs{}), tof([]int8{}), tof([]uint16{}), tof([][2]byte{}), tStr, tof(nstr("")), tof([]*uint8{})}
		v = reflect.New(ts[sym.Choose("t", len(ts))])
		n := 1 + sym.Choose("n", 3)
		if v.Elem().Kind() == reflect.String {
			s := sym.Str("s", n)
			v.Elem().SetString(s)
			for i := 0; i < n; i++ {
				w.put(uint64(s[i]), 8)
			}
		} else {
			spare := sym.Choose("spare", 2)
			v.Elem().Set(reflect.MakeSlice(v.Elem().Type(), n, n+spare))
			for i := 0; i < n; i++ {
				var e D
				switch t := v.Elem().Type().Elem(); t.Kind() {
				case reflect.Uint8:
					e = u(t, "", 8)
				case reflect.Int8:
					e = dI8
				case reflect.Uint16:
					e = dU16
				case reflect.Array:
					e = arrD{n: 2, e: dU8}
				case reflect.Ptr:
					e = ptrD{dU8}
				}
				e.Gen("e", v.Elem().Index(i))
				e.Enc(w, v.Elem().Index(i), le)
			}
		}
	} else {
		v = gen(d)
		d.Enc(w, v.Elem(), le)
	}
	before := clone(v.Elem())
	args := []any{v.Interface(), v.Elem().Interface()}
	arg := args[sym.Choose("byvalue", 2)]
	sizes(arg, w)
	data, err := restruct.Pack(o, arg)
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "the documented bytes")
	sym.Assert(cap(data) == len(data), "no more than the bytes")
	sym.Assert(sym.Same(v.Elem().Interface(), before.Interface()), "Pack changes nothing")
	for i := range data {
		data[i] ^= 0xff
	}
	sym.Assert(sym.Same(v.Elem().Interface(), before.Interface()), "the value does not change with the bytes")
	if v.Elem().Kind() != reflect.String {
		data, _ = restruct.Pack(o, arg)
		scribble(v.Elem())
		sym.Assert(sym.EqBytes(data, w.b), "the bytes do not change with the value")
	}
	// and back: an array, number or filled slice is read into
	if k := v.Elem().Kind(); k == reflect.Slice || k == reflect.String {
		return
	}
	x := reflect.New(v.Elem().Type())
	err = restruct.Unpack(w.b, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.Same(x.Elem().Interface(), before.Interface()), "the documented value")
	for i := range w.b {
		w.b[i] ^= 0xff
	}
	sym.Assert(sym.Same(x.Elem().Interface(), before.Interface()), "the value shares no memory with the data")
}

// C23_Cases: what a switch does not select and what is absent is left alone too, as is what is selected.
func C23_Cases() {
	restruct.EnableExprBeta()
	o, _ := order("order")
	alts := []G{b1(ptrD{dU8}), b1(st(b1(dU8), b1(ptrD{dU16}))), vslice{}, b1(cstrD{2}), b1(arrD{n: 2, e: ptrD{dU8}}), b1(dU16), one{d: ptrD{cvD{}}, order: 'L'}, b1(cbD{})}
	i := sym.Choose("alt", len(alts))
	g := caseG{alts: []G{alts[i], alts[(i+1)%len(alts)], alts[(i+3)%len(alts)]}, cond: sym.Choose("cond", 2) == 1}
	f := ifG{flag: dU8, d: []D{ptrD{dU16}, fsD{n: 1, e: dU8}, dU32}[sym.Choose("if", 3)]}
	l := st(b1(dU8), g, f)
	v := gen(l)
	for i, a := range g.alts {
		a.Gen(gname(i), v.Elem().FieldByName("BV"))
	}
	f.d.Gen("CV", v.Elem().FieldByName("CV"))
	keep := clone(v.Elem())
	switch sym.Choose("op", 3) {
	case 0:
		_, err := restruct.SizeOf(v.Interface())
		sym.Assert(err == nil, "SizeOf succeeds")
	case 1:
		_, err := restruct.BitSize(v.Interface())
		sym.Assert(err == nil, "BitSize succeeds")
	case 2:
		data, err := restruct.Pack(o, v.Interface())
		sym.Observe("data", data)
		sym.Assert(err == nil, "Pack succeeds")
	}
	sym.Assert(sym.Same(v.Elem().Interface(), keep.Interface()), "nothing changes, selected or not")
}

// vslice is a slice of two bytes.
type vslice struct{}

func (vslice) Fields(p string) []reflect.StructField {
	return []reflect.StructField{sf(p, tof([]uint8(nil)), "[2]uint8")}
}
func (vslice) Gen(p string, v reflect.Value) { v.FieldByName(p).SetBytes(sym.Bytes(p, 2)) }
func (vslice) Enc(w *wr, p string, v reflect.Value, le bool) {
	for i := 0; i < 2; i++ {
		w.put(v.FieldByName(p).Index(i).Uint(), 8)
	}
}

// C23_Mixed: fields of every kind in combination, at several levels.
func C23_Mixed() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	pure23(mixed(23, 40))
}

// C23_MixedOver: the same, decoded over earlier content.
func C23_MixedOver() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	d := mixed(123, 40)
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	x := reflect.New(d.Type())
	fill23(x.Elem(), 2)
	y := reflect.New(d.Type())
	y.Elem().Set(x.Elem())
	was := clone(x.Elem())
	err := restruct.Unpack(w.b, o, x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Observe("x", x.Interface())
	sym.Assert(sym.Same(y.Elem().Interface(), was.Interface()), "what the target referred to is left alone")
	if !keeps23(d.Type()) {
		sym.Cover("replaced")
		sym.Assert(sym.Same(x.Interface(), v.Interface()), "nothing of the earlier content is left")
	}
}

// keeps23 tells whether t has a field, at any level, that is ignored or may be absent and so keeps what it held.
func keeps23(t reflect.Type) bool {
	switch t.Kind() {
	case reflect.Ptr, reflect.Slice, reflect.Array:
		return keeps23(t.Elem())
	case reflect.Struct:
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if tag := f.Tag.Get("struct"); tag == "-" || strings.Contains(tag, "if=") || f.PkgPath == "" && keeps23(f.Type) {
				return true
			}
		}
	}
	return false
}

type str23 struct {
	N uint8 `struct:"sizeof=S"`
	S string
	A string `struct:"[2]byte"`
}

// C23_Strings: decoded strings stay what they are when the caller changes the input.
func C23_Strings() {
	type T struct {
		I str23
		K uint8 `struct:"sizeof=L"`
		L []str23
		P *str23
		W [1]str23
		F uint8  `struct:"uint8:4"`
		G uint8  `struct:"uint8:4"`
		Z string `struct:"[4]byte"`
	}
	o, _ := order("order")
	ss := []str23{}
	one := func(n string) []byte {
		k := sym.Choose(n+".n", 3)
		s := str23{uint8(k), string(sym.Bytes(n+".s", k)), "a" + string(sym.Bytes(n+".a", 1))}
		sym.Assume(s.A[1] != 0)
		ss = append(ss, s)
		return append(append([]byte{s.N}, s.S...), s.A...)
	}
	data := one("i")
	data = append(data, 1)
	data = append(data, one("l")...)
	data = append(data, one("p")...)
	data = append(data, one("w")...)
	data = append(data, 0x12, 'w', 'x', 'y', 'z')
	var x T
	err := restruct.Unpack(data, o, &x)
	sym.Assert(err == nil, "Unpack succeeds")
	for i := range data {
		data[i] ^= 0xff
	}
	sym.Assert(sym.And(x.I == ss[0], x.L[0] == ss[1], *x.P == ss[2], x.W[0] == ss[3], x.Z == "wxyz"), "decoded strings keep their content")
}

package h

import (
	"encoding/binary"
	"reflect"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// elems26 are element types a pointer may have, by their plain Go or wire type.
func elems26() []D {
	in := st(b1(dU8), b1(dU16))
	return []D{
		dU8, dU16, dU32, dU64, dI8, dI16, dI32, dI64, f32D{}, f64D{}, c64D{}, c128D{}, boolD{bits: 8}, s(tInt, "", 32), u(tUnt, "", 32),
		s(tInt, "int16", 16), u(tU64, "uint8", 8), u(tU16, "uint64", 64), s(tI8, "int32", 32), boolD{wire: "uint16", bits: 16},
		arrD{n: 2, e: dU16}, arrD{n: 2, e: u(tU32, "uint16", 16)}, fsD{n: 2, e: dU16}, cstrD{2}, arrD{n: 2, e: in}, arrD{n: 0, e: dU8},
		in, st(), st(vlen{cnt: dU8, e: dU16, max: 2}), st(b1(u(tU8, "uint8:3", 3)), b1(u(tU16, "uint8:6", 6))), st(one{d: dU16, skip: 1, order: 'L'}),
		st(vlen{cnt: dU8, from: true, str: true, max: 2}), st(pad{t: tU8, bits: 8}, hidden{t: tU32, tag: "-"}, b1(ptrD{in})), cpD{}, cvD{}, cbD{},
	}
}

// wrap26 puts the element behind pointers.
func wrap26(k int, d D) D {
	switch k {
	case 0:
		return ptrD{d}
	case 1:
		return ptrD{ptrD{d}}
	case 2:
		return arrD{n: 2, e: ptrD{d}}
	case 3:
		return ptrD{arrD{n: 2, e: d}}
	case 4:
		return fsD{n: 2, e: ptrD{d}}
	case 5:
		return ptrD{fsD{n: 2, e: ptrD{d}}}
	}
	return ptrD{st(b1(ptrD{d}))}
}

// plain26 is the same layout without the pointers.
func plain26(k int, d D) D {
	switch k {
	case 0, 1:
		return d
	case 6:
		return st(b1(d))
	}
	return arrD{n: 2, e: d}
}

// strip copies a value with pointers to one without.
func strip(dst, src reflect.Value) {
	for src.Kind() == reflect.Ptr && dst.Kind() != reflect.Ptr {
		src = src.Elem()
	}
	if dst.Type() == src.Type() {
		dst.Set(src)
		return
	}
	switch dst.Kind() {
	case reflect.Struct:
		for i := 0; i < dst.NumField(); i++ {
			strip(dst.Field(i), src.Field(i))
		}
	case reflect.Array:
		for i := 0; i < dst.Len(); i++ {
			strip(dst.Index(i), src.Index(i))
		}
	default:
		sym.Fail("cannot strip")
	}
}

// C26_InPlace: behind a pointer an element has the bytes and sizes it has in its place.
func C26_InPlace() {
	c10 = c10log{}
	es := elems26()
	i, k := sym.Choose("e", len(es)), sym.Choose("wrap", 7)
	if !sym.Thorough() && k > 0 && (i+k)%3 != 0 {
		return
	}
	e := es[i]
	if et := e.Type(); (k == 4 || k == 5) && (et.PkgPath() != "" || et.Kind() == reflect.Struct || et.Kind() == reflect.Array) {
		return // a tag cannot name the type
	}
	ord := []byte{0, 'B', 'L'}[sym.Choose("tag", 3)]
	skip := sym.Choose("skip", 2)
	if _, ok := e.(cpD); ok || i >= len(es)-3 {
		ord, skip = 0, 0 // tags do not reach custom types
	}
	var l []G
	if pre := sym.Choose("prefix", 2); pre == 1 && i < len(es)-3 && i != len(es)-4 {
		l = append(l, b1(u(tU8, "uint8:3", 3)))
	}
	dp := stD{append(append([]G(nil), l...), one{d: wrap26(k, e), order: ord, skip: skip}, b1(dU8))}
	o, le := order("order")
	v := gen(dp)
	w := encode(dp, v.Elem(), le)
	sizes(v.Interface(), w)
	modelValue(o, v, w)
	if k >= 2 && e.Wire() != "" || i >= len(es)-4 {
		return
	}
	dd := stD{append(append([]G(nil), l...), one{d: plain26(k, e), order: ord, skip: skip}, b1(dU8))}
	x := reflect.New(dd.Type())
	strip(x.Elem(), v.Elem())
	sizes(x.Interface(), w)
	modelValue(o, x, w)
}

// C26_Fresh: decoding makes new elements and leaves the ones that were there alone.
func C26_Fresh() {
	type in struct {
		A uint8
		B *uint16
	}
	type T struct {
		P *uint16
		Q **uint8
		S *in
		A [2]*uint8
		N uint8 `struct:"sizeof=V"`
		V []*uint8
	}
	b, x, y, q := sym.U16("b"), sym.U8("x"), sym.U16("y"), sym.U8("q")
	pq := &q
	v := T{P: &y, Q: &pq, S: &in{x, &b}, A: [2]*uint8{&x, &x}, N: 1, V: []*uint8{&x}}
	old := v
	o, _ := order("order")
	data := sym.Bytes("data", 12)
	n := sym.Choose("n", 2)
	sym.Assume(data[8] == byte(n+1))
	x0, y0, b0, q0 := x, y, b, q
	s0 := *v.S
	full := 9 + n + 1
	data = data[:sym.Pick(full-sym.Choose("short", 2)*full/2)]
	err := restruct.Unpack(data, o, &v)
	sym.Assert(sym.And(x == x0, y == y0, b == b0, q == q0), "the earlier elements keep their content")
	sym.Assert(*old.S == s0, "the earlier struct keeps its content")
	sym.Assert(old.V[0] == &x, "the earlier slice keeps its content")
	sym.Assert(pq == &q, "the earlier pointer keeps its content")
	if len(data) < full {
		sym.Assert(err != nil, "too short")
		return
	}
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(v.P != old.P && v.Q != old.Q && *v.Q != pq && v.S != old.S && v.S.B != s0.B && v.A[0] != &x && v.A[0] != v.A[1] && v.V[0] != &x, "elements of their own")
	u16 := o.Uint16
	sym.Assert(sym.And(*v.P == u16(data), **v.Q == data[2], v.S.A == data[3], *v.S.B == u16(data[4:]), *v.A[0] == data[6], *v.A[1] == data[7], int(v.N) == n+1, *v.V[0] == data[9], *v.V[n] == data[9+n]), "the values")
	// decoding again gives other elements
	w := v
	sym.Assert(restruct.Unpack(data, o, &w) == nil, "again")
	sym.Assert(w.P != v.P && w.S != v.S && w.V[0] != v.V[0] && w.A[0] != v.A[0], "new elements every time")
}

// nils26 is a layout with pointers everywhere; the mask tells which are nil.
type nils26 struct {
	P *uint16
	A uint8
	S *sub26 `struct:"skip=1,little"`
	Q **uint16
	R [2]*uint8
	N uint8 `struct:"sizeof=V"`
	V []*sub26
	I sub26
	Z uint8
}

type sub26 struct {
	X uint8 `struct:"uint8:4"`
	Y uint8 `struct:"uint8:4"`
	P *uint16
}

func (s *sub26) enc(w *wr, le bool) {
	w.put(uint64(s.X), 4)
	w.put(uint64(s.Y), 4)
	if s.P != nil {
		w.num(uint64(*s.P), 16, le)
	}
}

// C26_Nil: nil pointers take no space, in any place, and disturb nothing else.
func C26_Nil() {
	is := func(n string) bool { return sym.Choose(n, 2) == 1 }
	u16 := func(n string) *uint16 {
		if is(n + "nil") {
			return nil
		}
		x := sym.U16(n)
		return &x
	}
	mk := func(n string) sub26 {
		return sub26{X: sym.U8(n+"x") & 15, Y: sym.U8(n+"y") & 15, P: u16(n + "p")}
	}
	v := nils26{A: sym.U8("a"), Z: sym.U8("z")}
	v.P = u16("p")
	if !is("snil") {
		x := mk("s")
		v.S = &x
	}
	switch sym.Choose("q", 3) {
	case 1:
		var p *uint16
		v.Q = &p
	case 2:
		p := u16("qq")
		v.Q = &p
	}
	r := sym.U8("r")
	v.R = [][2]*uint8{{nil, &r}, {&r, nil}, {}, {&r, &r}}[sym.Choose("rs", 4)]
	x := mk("v")
	v.V = [][]*sub26{nil, {nil}, {&x}, {nil, &x}, {&x, nil}}[sym.Choose("vs", 5)]
	v.I = mk("i")
	o, le := order("order")
	w := &wr{}
	num := func(p *uint16, le bool) {
		if p != nil {
			w.num(uint64(*p), 16, le)
		}
	}
	num(v.P, le)
	w.put(uint64(v.A), 8)
	w.zero(8)
	if v.S != nil {
		v.S.enc(w, true)
	}
	if v.Q != nil {
		num(*v.Q, le)
	}
	for _, p := range v.R {
		if p != nil {
			w.put(uint64(*p), 8)
		}
	}
	w.put(uint64(len(v.V)), 8)
	for _, p := range v.V {
		if p != nil {
			p.enc(w, le)
		}
	}
	v.I.enc(w, le)
	w.put(uint64(v.Z), 8)
	sizes(&v, w)
	data, err := restruct.Pack(o, &v)
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "nil pointers take no space")
	sizes(v, w)
	data, err = restruct.Pack(o, v)
	sym.Assert(err == nil, "Pack of the value succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "nil pointers take no space in a value")
}

// C26_NilKinds: a nil pointer to any type of element, alone or among others.
func C26_NilKinds() {
	c10 = c10log{}
	es := elems26()
	i := sym.Choose("e", len(es))
	e := es[i]
	d := st(b1(u(tU8, "uint8:3", 3)), b1(ptrD{e}), b1(u(tU8, "uint8:5", 5)), b1(arrD{n: 2, e: ptrD{e}}), b1(ptrD{ptrD{e}}), b1(dU16))
	v := reflect.New(d.Type())
	a, b, c := sym.U8("a"), sym.U8("b"), sym.U16("c")
	v.Elem().Field(0).SetUint(uint64(a & 7))
	v.Elem().Field(2).SetUint(uint64(b & 31))
	v.Elem().Field(5).SetUint(uint64(c))
	o, le := order("order")
	w := &wr{}
	w.put(uint64(a), 3)
	w.put(uint64(b), 5)
	w.num(uint64(c), 16, le)
	n, err := restruct.SizeOf(v.Interface())
	data, err2 := restruct.Pack(o, v.Interface())
	sym.Assert((err == nil) == (err2 == nil), "SizeOf and Pack agree")
	if i >= len(es)-3 {
		return // the methods of a custom type decide
	}
	sym.Assert(err == nil, "nil pointers can be packed")
	sym.Assert(n == 3, "SizeOf")
	sym.Assert(sym.EqBytes(data, w.b), "Pack")
}

// node26 is a list whose end is marked in the data.
type node26 struct {
	X    uint8
	Next *node26 `struct:"if=X & 1 == 1"`
	Y    uint16
}

func (n *node26) enc(w *wr, le bool) {
	w.put(uint64(n.X), 8)
	if n.X&1 == 1 {
		n.Next.enc(w, le)
	}
	w.num(uint64(n.Y), 16, le)
}

func list26(k int) *node26 {
	n := &node26{X: sym.U8("x"), Y: sym.U16("y")}
	if k == 0 {
		sym.Assume(n.X&1 == 0)
		return n
	}
	sym.Assume(n.X&1 == 1)
	n.Next = list26(k - 1)
	return n
}

// C26_List: lists of every length come back.
func C26_List() {
	restruct.EnableExprBeta()
	max := 4
	if sym.Thorough() {
		max = 24
	}
	v := list26(sym.Choose("n", max+1))
	o, le := order("order")
	w := &wr{}
	v.enc(w, le)
	sizes(v, w)
	modelValue(o, reflect.ValueOf(v), w)
}

// C26_ListData: every input gives the list it describes or an error.
func C26_ListData() {
	restruct.EnableExprBeta()
	max := 7
	if sym.Thorough() {
		max = 12
	}
	data := sym.Bytes("data", sym.Choose("n", max+1))
	o, le := order("order")
	var v node26
	err := restruct.Unpack(data, o, &v)
	// the length is 3 for each node
	n := 0
	for n < len(data) && data[n]&1 == 1 {
		n++
	}
	need := 3 * (n + 1)
	if len(data) < need {
		sym.Assert(err != nil, "too short")
		return
	}
	sym.Assert(err == nil, "Unpack succeeds")
	w := &wr{}
	v.enc(w, le)
	sym.Assert(sym.EqBytes(w.b, data[:need]), "the list in the data")
}

// tree26 is a tree of counted branches of every form.
type tree26 struct {
	X uint8
	N uint8 `struct:"uint8:4,sizeof=C"`
	M uint8 `struct:"uint8:4,sizeof=D"`
	C []*tree26
	D []tree26
	P *leaf26 `struct:"if=X == 7"`
}

type leaf26 struct {
	T *tree26 `struct:"if=true"`
	Y uint16
}

func (t *tree26) enc(w *wr, le bool) {
	w.put(uint64(t.X), 8)
	w.put(uint64(len(t.C)), 4)
	w.put(uint64(len(t.D)), 4)
	for _, c := range t.C {
		c.enc(w, le)
	}
	for i := range t.D {
		t.D[i].enc(w, le)
	}
	if t.X == 7 {
		t.P.T.enc(w, le)
		w.num(uint64(t.P.Y), 16, le)
	}
}

func gen26(depth int) *tree26 {
	t := &tree26{X: sym.U8("x"), C: []*tree26{}, D: []tree26{}}
	if depth == 0 {
		sym.Assume(t.X != 7)
		return t
	}
	for i := sym.Choose("c", 3-depth/2); i > 0; i-- {
		t.C = append(t.C, gen26(depth-1))
	}
	for i := sym.Choose("d", 2); i > 0; i-- {
		t.D = append(t.D, *gen26(depth - 1))
	}
	t.N, t.M = uint8(len(t.C)), uint8(len(t.D))
	if t.X == 7 {
		t.P = &leaf26{T: gen26(0), Y: sym.U16("y")}
	}
	return t
}

// C26_Tree: trees of mutually recursive types.
func C26_Tree() {
	restruct.EnableExprBeta()
	depth := 2
	if sym.Thorough() {
		depth = 3
	}
	v := gen26(depth)
	o, le := order("order")
	w := &wr{}
	v.enc(w, le)
	sizes(v, w)
	modelValue(o, reflect.ValueOf(v), w)
}

type cyc26 struct {
	X    uint8
	Next *cyc26
	L    []cyc26
	Y    uint8
}

type self26 struct{ P *self26 }

type ptr26 *ptr26

type sli26 []sli26

// C26_Plain: values of a type with a plain pointer to itself can be packed as long as they end.
func C26_Plain() {
	var build func(n int) *cyc26
	build = func(n int) *cyc26 {
		c := &cyc26{X: sym.U8("x"), Y: sym.U8("y")}
		if n > 0 {
			if sym.Choose("next", 2) == 1 {
				c.Next = build(n - 1)
			}
			if sym.Choose("l", 2) == 1 {
				c.L = []cyc26{*build(n - 1), {}}
			}
		}
		return c
	}
	var enc func(w *wr, c *cyc26)
	enc = func(w *wr, c *cyc26) {
		w.put(uint64(c.X), 8)
		if c.Next != nil {
			enc(w, c.Next)
		}
		for i := range c.L {
			enc(w, &c.L[i])
		}
		w.put(uint64(c.Y), 8)
	}
	v := build(2)
	w := &wr{}
	enc(w, v)
	sizes(v, w)
	o, _ := order("order")
	data, err := restruct.Pack(o, v)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "the documented bytes")
	// but the data never ends the list
	var x cyc26
	sym.Assert(restruct.Unpack(sym.Bytes("data", 4), o, &x) != nil, "Unpack runs out of data")
}

func fails26(v any) {
	_, err := restruct.SizeOf(v)
	sym.Assert(err != nil, "SizeOf is an error")
	_, err = restruct.BitSize(v)
	sym.Assert(err != nil, "BitSize is an error")
	data, err := restruct.Pack(binary.BigEndian, v)
	sym.Assert(err != nil, "Pack is an error")
	sym.Assert(data == nil, "no bytes")
}

// C26_Cycles: values that contain themselves, and types that never end, give an error.
func C26_Cycles() {
	restruct.EnableExprBeta()
	switch sym.Choose("value", 9) {
	case 0:
		v := &self26{}
		v.P = v
		fails26(v)
	case 1:
		v := &cyc26{X: sym.U8("x")}
		v.Next = &cyc26{L: []cyc26{{Next: v}}}
		fails26(v)
	case 2:
		var p ptr26
		p = &p
		fails26(&struct{ P ptr26 }{p})
	case 3:
		s := sli26{nil}
		s[0] = s
		fails26(&struct{ S sli26 }{s})
	case 4:
		n := &node26{X: 1}
		n.Next = n
		fails26(n)
	case 5:
		err := restruct.Unpack(sym.Bytes("data", 2), binary.BigEndian, &self26{})
		sym.Assert(err != nil, "Unpack is an error")
	case 6:
		err := restruct.Unpack(nil, binary.LittleEndian, &struct{ P ptr26 }{})
		sym.Assert(err != nil, "Unpack is an error")
	case 7:
		t := &tree26{X: 1}
		t.C = []*tree26{t}
		fails26(t)
	case 8:
		v := self26{}
		w := &wr{}
		sizes(&v, w)
		data, err := restruct.Pack(binary.BigEndian, &self26{P: &self26{P: &v}})
		sym.Assert(err == nil && len(data) == 0, "a finite value of a recursive type")
	}
}

// C26_Wide: nesting is what is limited, not the number of pointers or structs side by side.
func C26_Wide() {
	o, _ := order("order")
	const n = 10050
	switch sym.Choose("value", 4) {
	case 0:
		type T struct {
			A [n]*uint8
			B uint16
		}
		wide26(o, &T{B: sym.U16("b")}, &T{}, n)
	case 1:
		type T struct {
			A [n]struct{}
			B uint16
		}
		wide26(o, &T{B: sym.U16("b")}, &T{}, 0)
	case 2:
		type T struct {
			A [n]*struct{}
			B uint16
		}
		wide26(o, &T{B: sym.U16("b")}, &T{}, 0)
	case 3:
		type T struct {
			A [n][0]uint8
			B uint16
		}
		wide26(o, &T{B: sym.U16("b")}, &T{}, 0)
	}
}

func wide26(o binary.ByteOrder, v, x any, n int) {
	b := uint16(reflect.ValueOf(v).Elem().Field(1).Uint())
	data := make([]byte, n+2)
	o.PutUint16(data[n:], b)
	err := restruct.Unpack(data, o, x)
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(uint16(reflect.ValueOf(x).Elem().Field(1).Uint()) == b, "what follows is read")
	k, err := restruct.SizeOf(x)
	sym.Assert(err == nil && k == len(data), "SizeOf succeeds")
	out, err := restruct.Pack(o, x)
	sym.Assert(err == nil && len(out) == len(data), "Pack succeeds")
	sym.Assert(sym.EqBytes(out[n:], data[n:]), "what follows is written")
}

// C26_Top: a pointer given to a call may point to pointers, which are laid out as pointer fields are.
func C26_Top() {
	ds := []D{dU8, dU32, s(tI16, "", 16), f32D{}, st(b1(dU16), b1(u(tU8, "uint8:4", 4)), b1(u(tU8, "uint8:4", 4))), arrD{n: 2, e: dU16}, st(few()[3], b1(dU8))}
	d := ds[sym.Choose("d", len(ds))]
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	depth := sym.Choose("depth", 3) + 1
	p := v
	for i := 0; i < depth; i++ {
		q := reflect.New(p.Type())
		q.Elem().Set(p)
		p = q
	}
	data, err := restruct.Pack(o, p.Interface())
	sym.Assert(err == nil && sym.EqBytes(data, w.b), "Pack lays out what is pointed to")
	sizes(p.Interface(), w)
	// into a chain of pointers of which the innermost ones are nil
	x := reflect.New(p.Type().Elem())
	y := x
	for i := sym.Choose("present", depth); i > 0; i-- {
		y.Elem().Set(reflect.New(y.Type().Elem().Elem()))
		y = y.Elem()
	}
	data, err = restruct.Pack(o, x.Interface())
	sym.Assert(err == nil && len(data) == 0, "nil pointers are packed as nothing")
	sizes(x.Interface(), &wr{})
	err = restruct.Unpack(w.b, o, x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	z := x.Elem()
	for i := 1; i < depth; i++ {
		sym.Assert(!z.IsNil(), "the pointers are allocated")
		z = z.Elem()
	}
	sym.Assert(!z.IsNil() && sym.Same(z.Interface(), v.Interface()), "Unpack reads what is pointed to")
	err = restruct.Unpack(w.b[:len(w.b)-1], o, x.Interface())
	sym.Assert(err != nil, "short data is an error")
}

// C26_Many: many pointers, each of which gets memory of its own.
func C26_Many() {
	restruct.EnableExprBeta()
	o, le := order("order")
	in := st(b1(dU8), b1(ptrD{dU16}))
	d := manyOf([]D{ptrD{dU8}, ptrD{dU32}, ptrD{in}, in, ptrD{ptrD{dU16}}, ptrD{arrD{n: 2, e: dU8}}, st(b1(ptrD{dU8}), b1(ptrD{dU16}))}, sizesRep()...)
	v := gen(d)
	w := encode(d, v.Elem(), le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
	// what an earlier call returned is not touched by a later one
	x, y := reflect.New(d.Type()), reflect.New(d.Type())
	if restruct.Unpack(w.b, o, x.Interface()) != nil {
		return
	}
	z := make([]byte, len(w.b))
	for i := range z {
		z[i] = ^w.b[i]
	}
	z[0] = w.b[0]
	restruct.Unpack(z, o, y.Interface())
	restruct.Unpack(w.b, o, y.Interface())
	sym.Assert(sym.Same(x.Interface(), v.Interface()), "what was unpacked before is left alone")
	sym.Assert(sym.Same(y.Interface(), v.Interface()), "unpacking again gives the same value")
}

// C26_Over: decoding over earlier content makes new elements of every type, and leaves the earlier ones alone.
func C26_Over() {
	c10 = c10log{}
	es := elems26()
	e, k := es[sym.Choose("e", len(es)-3)], sym.Choose("wrap", 7)
	if et := e.Type(); (k == 4 || k == 5) && (et.PkgPath() != "" || et.Kind() == reflect.Struct || et.Kind() == reflect.Array) {
		return // a tag cannot name the type
	}
	d := st(b1(wrap26(k, e)), b1(dU8))
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	x, y := reflect.New(d.Type()), reflect.New(d.Type())
	fill23(x.Elem(), 2)
	y.Elem().Set(x.Elem())
	was := clone(x.Elem())
	sym.Assert(restruct.Unpack(w.b, o, x.Interface()) == nil, "Unpack succeeds")
	sym.Observe("x", x.Interface())
	if !hasIgnored(d.Type()) {
		sym.Assert(sym.Same(x.Interface(), v.Interface()), "the value read is all there is")
	}
	sym.Assert(sym.Same(y.Elem().Interface(), was.Interface()), "the earlier elements keep their content")
}

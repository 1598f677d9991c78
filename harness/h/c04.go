package h

import (
	"encoding/binary"
	"reflect"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// multi are the kinds with more than one byte.
func multi() []D {
	return []D{dU16, dU32, dU64, dI16, dI32, dI64, f32D{}, f64D{}, c64D{}, c128D{}, s(tInt, "", 32), u(tUnt, "", 32),
		boolD{wire: "uint16", bits: 16, variant: false}, s(tInt, "int16", 16), u(tU64, "uint16", 16), u(tU32, "uint32:24", 24), s(tI8, "int64", 64)}
}

func ord(name string) byte { return []byte{0, 'B', 'L'}[sym.Choose(name, 3)] }

// C04_Flat: three fields, each with its own order or none; the one after an override is back in the
// order of the call.
func C04_Flat() {
	ms := multi()
	model(st(one{d: ms[sym.Choose("k0", len(ms))], order: ord("o0")}, one{d: dU16, order: ord("o1")}, one{d: ms[sym.Choose("k1", len(ms))]}))
}

// wrap puts d behind a container whose field has its own order.
func wrap(d D) D {
	switch sym.Choose("wrap", 6) {
	case 0:
		return st(one{d: d, order: ord("o2")}, b1(dU16))
	case 1:
		return arrD{n: 2, e: d}
	case 2:
		return ptrD{d}
	case 3:
		return st(b1(dU8), one{d: ptrD{d}, order: ord("o2")}, b1(dI32))
	case 4:
		return st(one{d: arrD{n: 2, e: d}, order: ord("o2")}, b1(dU32))
	}
	return st(one{d: st(one{d: d, order: ord("o3")}, b1(dU16)), order: ord("o2")}, b1(dU16))
}

// C04_Nested: overrides on containers reach their contents and end with them.
func C04_Nested() {
	ds := []D{dU16, st(one{d: dU16, order: ord("oi")}, b1(dI32)), arrD{n: 2, e: dU32}, f64D{}}
	model(st(one{d: wrap(ds[sym.Choose("d", len(ds))]), order: ord("o0")}, one{d: dU16, order: ord("o1")}, b1(dU32)))
}

// C04_Kinds: an override on an array, pointer, slice or struct of every kind.
func C04_Kinds() {
	ms := multi()
	m := ms[sym.Choose("k", len(ms))]
	var d D
	wire := m.Wire()
	if wire != "" && (wire[len(wire)-1] == '4' && len(wire) > 4 && wire[len(wire)-3] == ':' || m.Type().Kind() == reflect.Bool) {
		d = st(b1(m)) // bit widths and flags belong to the field itself
	} else {
		d = m
	}
	o := ord("o")
	var g G
	switch sym.Choose("c", 5) {
	case 0:
		g = one{d: arrD{n: 2, e: d}, order: o}
	case 1:
		g = one{d: ptrD{d}, order: o}
	case 2:
		g = one{d: st(b1(d), b1(d)), order: o}
	case 3:
		g = vord{vlen{cnt: dU16, e: d, max: 2}, o}
	case 4:
		g = vord{vlen{cnt: dU16, from: true, e: st(b1(d)), max: 2}, o}
	}
	model(st(g, b1(dU16)))
}

// vord is a counted slice whose slice field carries an order.
type vord struct {
	vlen
	order byte
}

func (g vord) Fields(p string) []reflect.StructField {
	fs := g.vlen.Fields(p)
	l := &fs[len(fs)-1]
	t := l.Tag.Get("struct")
	switch g.order {
	case 'B':
		t = join(t, "msb")
	case 'L':
		t = join(t, "lsb")
	}
	l.Tag = stag(t)
	return fs
}

func (g vord) Enc(w *wr, p string, v reflect.Value, le bool) {
	f := v.FieldByName(p + "V")
	w.num(uint64(f.Len()), g.cnt.bits, le)
	if g.order != 0 {
		le = g.order == 'L'
	}
	for i := 0; i < f.Len(); i++ {
		g.e.Enc(w, f.Index(i), le)
	}
}

// C04_Names: all spellings of the two orders.
func C04_Names() {
	names := []string{"big", "msb", "network", "little", "lsb"}
	k := sym.Choose("name", len(names))
	t := reflect.StructOf([]reflect.StructField{sf("A", tU16, ""), sf("B", tU32, names[k]), sf("C", tU16, "")})
	o, le := order("order")
	v := reflect.New(t)
	a, b, c := sym.U16("a"), sym.U32("b"), sym.U16("c")
	v.Elem().Field(0).SetUint(uint64(a))
	v.Elem().Field(1).SetUint(uint64(b))
	v.Elem().Field(2).SetUint(uint64(c))
	w := &wr{}
	w.num(uint64(a), 16, le)
	w.num(uint64(b), 32, k >= 3)
	w.num(uint64(c), 16, le)
	modelValue(o, v, w)
}

// absent is a field with a byte order of which nothing, or nothing but its padding, is on the wire.
type absent struct {
	k     int
	order byte
	e     D
}

func (g absent) Fields(p string) []reflect.StructField {
	o := map[byte]string{0: "", 'B': "big", 'L': "lsb"}[g.order]
	f := func(t reflect.Type, tag string) []reflect.StructField {
		return []reflect.StructField{sf(p, t, join(o, tag))}
	}
	switch g.k {
	case 0: // nil pointer
		return f(reflect.PtrTo(g.e.Type()), "")
	case 1:
		return f(reflect.PtrTo(g.e.Type()), "skip=2")
	case 2: // false conditions
		return f(g.e.Type(), join("if=false", g.e.Wire()))
	case 3:
		return f(reflect.ArrayOf(2, g.e.Type()), "if=1 == 2,skip=1")
	case 4: // no elements
		return f(reflect.ArrayOf(0, g.e.Type()), "")
	case 5:
		return f(reflect.SliceOf(g.e.Type()), "size=0")
	case 6:
		return f(reflect.StructOf(nil), "")
	case 7: // a struct of nothing
		return f(reflect.StructOf([]reflect.StructField{sf("X", g.e.Type(), join(g.e.Wire(), "if=false,little")), sf("Y", tU16, "-")}), "skip=1")
	case 8: // pointers that end in a struct with a nil pointer
		return f(reflect.ArrayOf(2, reflect.PtrTo(g.e.Type())), "")
	case 9: // ignored; its order is nobody's
		return []reflect.StructField{sf("x"+p, g.e.Type(), join(o, g.e.Wire()))}
	}
	return []reflect.StructField{sf("_", tU16, o)}
}
func (g absent) Gen(p string, v reflect.Value) {}
func (g absent) Enc(w *wr, p string, v reflect.Value, le bool) {
	w.zero(8 * []int{0, 2, 0, 0, 0, 0, 0, 1, 0, 0, 2}[g.k])
}

// C04_Absent: the order of a field of which nothing is written or read ends with it.
func C04_Absent() {
	restruct.EnableExprBeta()
	k := sym.Choose("k", 11)
	es := []D{dU16, st(one{d: dU16, order: 'L'}, b1(dI32))}
	e := es[sym.Choose("e", 2)]
	a := absent{k, ord("o1"), e}
	gs := []G{b1(dU16), a, b1(dU32), one{d: dI64, order: ord("o2")}, b1(f32D{})}
	var d D
	switch sym.Choose("in", 3) {
	case 0:
		d = st(gs...)
	case 1:
		d = st(one{d: st(gs...), order: ord("o0")}, b1(dU16))
	case 2:
		d = st(one{d: arrD{n: 2, e: st(gs[1:3]...)}, order: ord("o0")}, b1(dU16))
	}
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	sizes(v.Interface(), w)
	if k != 0 && k != 1 && k != 8 {
		modelValue(o, v, w)
		return
	}
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "Pack gives the documented bytes")
}

// swapped and plain are byte orders of a caller's own.
type swapped struct{ binary.ByteOrder }

type plain struct{}

func (plain) String() string         { return "plain" }
func (plain) Uint16(b []byte) uint16 { return uint16(b[1]) | uint16(b[0])<<8 }
func (plain) Uint32(b []byte) uint32 {
	return uint32(plain{}.Uint16(b[2:])) | uint32(plain{}.Uint16(b))<<16
}
func (plain) Uint64(b []byte) uint64 {
	return uint64(plain{}.Uint32(b[4:])) | uint64(plain{}.Uint32(b))<<32
}
func (plain) PutUint16(b []byte, x uint16) { b[0], b[1] = byte(x>>8), byte(x) }
func (p plain) PutUint32(b []byte, x uint32) {
	p.PutUint16(b, uint16(x>>16))
	p.PutUint16(b[2:], uint16(x))
}
func (p plain) PutUint64(b []byte, x uint64) {
	p.PutUint32(b, uint32(x>>32))
	p.PutUint32(b[4:], uint32(x))
}

// C04_Own: any implementation of a byte order gives what the standard one gives, for bitfields too.
func C04_Own() {
	gs := few()
	if sym.Thorough() {
		gs = append(scalars(), bitfields()...)
	}
	gs = append(gs, b1(u(tU32, "uint32:12", 12)), b1(u(tU64, "uint64:40", 40)), b1(s(tI64, "int64:24", 24)), b1(u(tU16, "uint16:8", 8)), one{d: u(tU32, "uint32:24", 24), order: 'L'}, one{d: u(tU32, "uint32:24", 24), order: 'B'})
	d := st(gs[sym.Choose("g0", len(gs))], b1(u(tU64, "uint64:32", 32)), gs[sym.Choose("g1", len(gs))])
	own := []binary.ByteOrder{binary.NativeEndian, swapped{binary.LittleEndian}, swapped{binary.BigEndian}, plain{}, &swapped{binary.LittleEndian}}
	k := sym.Choose("own", len(own))
	var base binary.ByteOrder = binary.LittleEndian
	if k == 2 || k == 3 {
		base = binary.BigEndian
	}
	v := gen(d)
	b, err := restruct.Pack(own[k], v.Interface())
	sym.Observe("b", b)
	want, err2 := restruct.Pack(base, v.Interface())
	sym.Assert(err == nil && err2 == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(b, want), "the bytes are in the order given")
	x, y := reflect.New(d.Type()), reflect.New(d.Type())
	err = restruct.Unpack(b, own[k], x.Interface())
	err2 = restruct.Unpack(b, base, y.Interface())
	sym.Assert(err == nil && err2 == nil, "Unpack succeeds")
	sym.Assert(sym.Same(x.Interface(), y.Interface()), "the values are read in the order given")
}

// C04_Switch: the alternatives of a switch have the order of the enclosing struct, that of the switch field,
// or their own, also behind pointers and in custom types.
func C04_Switch() {
	restruct.EnableExprBeta()
	ms := append(multi(), cvD{}, cpD{})
	if !sym.Thorough() {
		ms = []D{dU16, f64D{}, c64D{}, boolD{wire: "uint16", bits: 16}, s(tInt, "int16", 16), cvD{}, cpD{}}
	}
	m := ms[sym.Choose("k", len(ms))]
	if m.Wire() != "" {
		m = st(b1(m))
	}
	c := sym.Choose("c", 5)
	oe, oc := ord("oe"), ord("oc")
	oi := oc
	if c == 3 {
		oi = ord("oi")
	}
	d := []D{m, ptrD{m}, arrD{n: 2, e: m}, st(b1(dU8), one{d: m, order: oi}), ptrD{ptrD{m}}}[c]
	a, b := G(one{d: d, order: oc}), G(b1(dU16))
	if sym.Choose("def", 2) == 1 {
		a, b = b, a
	}
	model(st(one{d: st(caseG{alts: []G{a, b}, order: ord("os")}, b1(dU16)), order: oe}, b1(dU32)))
}

// C04_Deep: orders many levels up and down.
func C04_Deep() {
	ds := []D{dU16, f64D{}, cvD{}, st(one{d: dU32, order: ord("oi")}, b1(dU16))}
	d := deepIn(ds[sym.Choose("d", len(ds))])
	model(st(one{d: d, order: ord("oe")}, b1(dU16)))
}

// C04_Many: orders in lists of many elements.
func C04_Many() {
	restruct.EnableExprBeta()
	oi := ord("oi")
	ds := []D{st(one{d: dU16, order: oi}, b1(dI32)), ptrD{st(b1(dU16), one{d: dU32, order: oi})}, cvD{}}
	d := manyOf(ds, sizesRep()...)
	if sym.Choose("end", 2) == 1 {
		o := ord("oe")
		model(st(one{d: d, order: o}))
		return
	}
	model(d)
}

// C04_Mixed: fields of every kind in combination, at several levels.
func C04_Mixed() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	model(mixed(4, 60))
}

package h

import (
	"encoding/binary"
	"errors"
	"reflect"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// agree checks that p's element gives the same results passed by value as by pointer. The value
// goes first, because counts are stored through a pointer.
func agree(o binary.ByteOrder, p reflect.Value) (data []byte, err error) {
	v := p.Elem().Interface()
	before := clone(p.Elem())
	n1, e1 := restruct.SizeOf(v)
	b1, f1 := restruct.BitSize(v)
	d1, g1 := restruct.Pack(o, v)
	if !sharing {
		sym.Assert(sym.Same(before.Interface(), p.Elem().Interface()), "a value passed by value is not changed")
	}
	sym.Observe("by value", d1)
	n2, e2 := restruct.SizeOf(p.Interface())
	b2, f2 := restruct.BitSize(p.Interface())
	d2, g2 := restruct.Pack(o, p.Interface())
	sym.Observe("by pointer", d2)
	sym.Assert(text(e1) == text(e2), "SizeOf has the same outcome")
	sym.Assert(n1 == n2, "SizeOf is the same")
	sym.Assert(text(f1) == text(f2), "BitSize has the same outcome")
	sym.Assert(b1 == b2, "BitSize is the same")
	sym.Assert(text(g1) == text(g2), "Pack has the same outcome")
	sym.Assert((d1 == nil) == (d2 == nil), "Pack gives bytes or not")
	sym.Assert(sym.EqBytes(d1, d2), "Pack gives the same bytes")
	return d1, g1
}

// sharing is set while the value passed holds pointers or slices to what a call updates.
var sharing bool

func text(err error) string {
	if err == nil {
		return "none"
	}
	return err.Error()
}

// refuses checks that Unpack into v gives an error and changes neither v nor the data.
func refuses(o binary.ByteOrder, data []byte, p reflect.Value) {
	before := clone(p.Elem())
	in := append([]byte(nil), data...)
	err := restruct.Unpack(data, o, p.Elem().Interface())
	sym.Assert(err != nil, "Unpack into a value that cannot be set is an error")
	sym.Assert(sym.Same(before.Interface(), p.Elem().Interface()), "the value is not changed")
	sym.Assert(sym.EqBytes(in, data), "the data is not changed")
}

func byValue(d stD) {
	sharing = false
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	data, err := agree(o, v)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "the documented bytes")
	refuses(o, data, v)
}

// C25_Pairs: structs of two fields of every kind.
func C25_Pairs() {
	all := allGroups()
	gs := few()
	if sym.Thorough() {
		gs = all
	}
	byValue(pairsOf(all, gs))
}

// C25_Containers: nested layouts.
func C25_Containers() {
	gs := few()
	byValue(containers(gs[sym.Choose("g", len(gs))]))
}

// C25_Custom: custom types, which have their methods on values or on pointers, on their own and as fields.
func C25_Custom() {
	sharing = false
	ds := []D{cpD{}, cvD{}, cbD{}}
	d := ds[sym.Choose("type", 3)]
	o, le := order("order")
	l := d
	switch sym.Choose("place", 6) {
	case 1:
		l = st(b1(d), b1(dU16))
	case 2:
		l = st(b1(arrD{n: 2, e: d}))
	case 3:
		l = st(vlen{cnt: dU8, e: d, max: 2})
	case 4:
		l = st(b1(st(b1(d))), b1(ptrD{d}))
	case 5:
		l = st(one{d: st(b1(arrD{n: 1, e: ptrD{d}})), order: 'L'})
	}
	c10 = c10log{}
	v := gen(l)
	data, err := agree(o, v)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, encode(l, v.Elem(), le).b), "the documented bytes")
	refuses(o, data, v)
}

type c25pp struct{ X uint16 }

func (*c25pp) SizeOf() int  { return 3 }
func (*c25pp) BitSize() int { return 20 }

type c25vp struct{ X uint16 }

func (c25vp) SizeOf() int   { return 3 }
func (*c25vp) BitSize() int { return 20 }

type c25pv struct{ X uint16 }

func (*c25pv) SizeOf() int { return 3 }
func (c25pv) BitSize() int { return 20 }

type c25vv struct{ X uint16 }

func (c25vv) SizeOf() int  { return 3 }
func (c25vv) BitSize() int { return 20 }

type c25s struct{ X uint16 }

func (c25s) SizeOf() int { return 3 }
func (*c25s) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	buf[0] = 7
	return buf[3:], nil
}

type c25b struct{ X uint16 }

func (*c25b) BitSize() int { return 20 }
func (c25b) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	order.PutUint16(buf[1:], 7)
	return buf[3:], nil
}

// C25_Methods: types that report a size in bytes, in bits or both, on values or on pointers, with and
// without the methods that pack.
func C25_Methods() {
	sharing = true // what the pointer leads to
	ts := []reflect.Type{reflect.TypeOf(c25pp{}), reflect.TypeOf(c25vp{}), reflect.TypeOf(c25pv{}), reflect.TypeOf(c25vv{}), reflect.TypeOf(c25s{}), reflect.TypeOf(c25b{})}
	t := ts[sym.Choose("type", len(ts))]
	switch sym.Choose("place", 6) {
	case 1:
		t = reflect.StructOf([]reflect.StructField{sf("A", t, ""), sf("B", tU16, "")})
	case 2:
		t = reflect.ArrayOf(2, t)
	case 3:
		t = reflect.StructOf([]reflect.StructField{sf("A", reflect.PointerTo(t), "")})
	case 4:
		t = reflect.StructOf([]reflect.StructField{sf("F", tU8, "uint8:4"), sf("A", t, "")})
	case 5:
		t = reflect.PointerTo(t)
	}
	v := reflect.New(t)
	if t.Kind() == reflect.Ptr {
		v.Elem().Set(reflect.New(t.Elem()))
	}
	if t.Kind() == reflect.Struct && t.Field(0).Type.Kind() == reflect.Ptr {
		v.Elem().Field(0).Set(reflect.New(t.Field(0).Type.Elem()))
	}
	o, _ := order("order")
	agree(o, v)
	sym.Cover("compared")
}

// C25_Counts: counts that are not up to date are stored in a copy of a value passed by value.
func C25_Counts() {
	type in struct {
		N int16 `struct:"sizeof=V"`
		V []uint8
	}
	type T struct {
		A uint8 `struct:"sizeof=B"`
		B []uint16
		I in
		R [2]in
		S uint8
		T string `struct:"sizefrom=S"`
	}
	sharing = false
	v := T{A: sym.U8("a"), B: []uint16{sym.U16("b")}[:sym.Choose("nb", 2)], I: in{N: sym.I16("n"), V: sym.Bytes("v", sym.Choose("nv", 3))}, S: sym.U8("s"), T: sym.Str("t", sym.Choose("nt", 2))}
	v.R[1].N = sym.I16("n2")
	v.R[1].V = []byte{3}
	o, le := order("order")
	data, err := agree(o, reflect.ValueOf(&v))
	sym.Assert(err == nil, "Pack succeeds")
	w := &wr{}
	w.put(uint64(len(v.B)), 8)
	for _, x := range v.B {
		w.num(uint64(x), 16, le)
	}
	for _, i := range []in{v.I, v.R[0], v.R[1]} {
		w.num(uint64(len(i.V)), 16, le)
		for _, x := range i.V {
			w.put(uint64(x), 8)
		}
	}
	w.put(uint64(len(v.T)), 8)
	for i := 0; i < len(v.T); i++ {
		w.put(uint64(v.T[i]), 8)
	}
	sym.Assert(sym.EqBytes(data, w.b), "the documented bytes")
	sym.Assert(sym.And(int(v.A) == len(v.B), int(v.I.N) == len(v.I.V), v.R[0].N == 0, v.R[1].N == 1, int(v.S) == len(v.T)), "counts are stored through the pointer")
}

type c25k struct {
	R *c25t  `struct:"root"`
	X uint16 `struct:"if=R.A > 3"`
}

type c25t struct {
	A uint8
	B uint16 `struct:"if=A > 1"`
	C uint8  `struct:"out=C + A"`
	D []byte `struct:"size=A & 1"`
	E uint16 `struct:"bits=A & 7 + 1,big"`
	V struct {
		X uint16 `struct:"case=1"`
		Y uint8  `struct:"default"`
	} `struct:"switch=A"`
	K c25k
	L []c25k `struct:"while=!_eof"`
	P *c25k
}

// C25_Exprs: every expression tag, root and parent fields, whether they fail or not.
func C25_Exprs() {
	if sym.Choose("enabled", 2) == 1 {
		restruct.EnableExprBeta()
	}
	v := c25t{A: sym.U8("a"), B: sym.U16("b"), C: sym.U8("c"), E: sym.U16("e"), D: sym.Bytes("d", sym.Choose("nd", 2)), P: &c25k{X: sym.U16("px")}}
	v.V.X, v.V.Y = sym.U16("vx"), sym.U8("vy")
	v.K.X = sym.U16("kx")
	v.L = []c25k{{X: sym.U16("lx")}}[:sym.Choose("nl", 2)]
	sharing = true // the root fields behind pointers and in slices
	o, _ := order("order")
	data, _ := agree(o, reflect.ValueOf(&v))
	sym.Assert(v.K.R == &v || data == nil, "the root is the value passed by pointer")
}

// C25_Bad: tags and values that are refused are refused either way.
func C25_Bad() {
	sharing = false
	type a struct {
		X uint8 `struct:"nothing"`
	}
	type b struct {
		N uint8 `struct:"sizeof=Y"`
		X []uint8
	}
	type c struct {
		X uint8
		N uint8 `struct:"sizeof=S"`
		S []byte
		B bomb
	}
	type d struct {
		S string `struct:"[2]byte"`
		N uint8  `struct:"uint8:3,sizeof=V"`
		V []struct{}
	}
	type e struct {
		X float32 `struct:"uint8"`
	}
	type f struct {
		X []uint8 `struct:"size=N"`
	}
	x := sym.U8("x")
	vs := []any{&a{x}, &b{x, []byte{x}}, &c{X: x, S: []byte{x}}, &d{S: sym.Str("s", sym.Choose("n", 4)), V: make([]struct{}, sym.Choose("m", 9))}, &e{float32(x)}, &f{[]byte{x}}}
	o, _ := order("order")
	p := reflect.ValueOf(vs[sym.Choose("v", len(vs))])
	agree(o, p)
	refuses(o, []byte{x, 0, 1, 2, 3, 4, 5, 6, 7}, p)
}

// C25_Kinds: values that are not structs.
func C25_Kinds() {
	sharing = false
	x := sym.U16("x")
	type named []uint16
	vs := []any{&x, &[2]uint16{x, 1}, &[]uint16{x, 2}, &[][]uint8{{1}, {2, byte(x)}}, new(string), new(bool), new(float64), new(map[string]int), new(chan int),
		&named{x}, &[]any{x}, &[1]struct{ X uint16 }{{x}}, new(complex64), new(func()), new(uintptr), new(struct{}), new([0]uint8)}
	*vs[4].(*string) = sym.Str("s", 2)
	p := reflect.ValueOf(vs[sym.Choose("v", len(vs))])
	o, _ := order("order")
	agree(o, p)
	refuses(o, sym.Bytes("data", 3), p)
}

// C25_Targets: Unpack needs a pointer that is not nil.
func C25_Targets() {
	type T struct {
		A uint8
		B uint16
		C [2]uint8
		D []uint8
		P *uint8
	}
	data := sym.Bytes("data", sym.Choose("n", 9))
	in := append([]byte(nil), data...)
	o, _ := order("order")
	var v any
	switch sym.Choose("target", 12) {
	case 0:
	case 1:
		v = (*T)(nil)
	case 2:
		v = T{}
	case 3:
		v = 7
	case 4:
		v = "text"
	case 5:
		v = map[string]int{"a": 1}
	case 6:
		v = []byte{1, 2, 3}
	case 7:
		v = [2]uint8{1, 2}
	case 8:
		v = (*uint16)(nil)
	case 9:
		v = func() {}
	case 10:
		v = (*cp)(nil)
	case 11:
		v = struct{ cp }{}
	}
	err := restruct.Unpack(data, o, v)
	sym.Assert(err != nil, "an error")
	sym.Assert(sym.EqBytes(data, in), "the data is not changed")
}

// um and uw unpack although they are passed by value.
type um map[uint8]uint8

func (m um) SizeOf() int { return len(m) }
func (m um) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	return buf[len(m):], nil
}
func (m um) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	m[0] = buf[0]
	return buf[1:], nil
}

type uw struct{ p *uint16 }

var errC25 = errors.New("refused")

func (x uw) SizeOf() int { return 2 }
func (x uw) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	order.PutUint16(buf, *x.p)
	return buf[2:], nil
}
func (x uw) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	if len(buf) < 2 {
		return nil, errC25
	}
	*x.p = order.Uint16(buf)
	return buf[2:], nil
}

// C25_Unpackers: custom types that are reached by value may be passed by value.
func C25_Unpackers() {
	data := sym.Bytes("data", sym.Choose("n", 4))
	o, le := order("order")
	m := um{}
	x := uw{new(uint16)}
	if sym.Choose("byvalue", 2) == 0 {
		err := restruct.Unpack(data, o, x)
		sym.Assert((err == nil) == (len(data) >= 2), "the outcome")
		if len(data) > 0 {
			sym.Assert(restruct.Unpack(data, o, m) == nil, "the map unpacks")
		}
	} else {
		err := restruct.Unpack(data, o, &x)
		sym.Assert((err == nil) == (len(data) >= 2), "the outcome")
		if len(data) > 0 {
			sym.Assert(restruct.Unpack(data, o, &m) == nil, "the map unpacks")
		}
	}
	if len(data) > 0 {
		sym.Assert(sym.And(len(m) == 1, m[0] == data[0]), "the value")
	}
	if len(data) >= 2 {
		want := uint16(data[0])<<8 | uint16(data[1])
		if le {
			want = uint16(data[1])<<8 | uint16(data[0])
		}
		sym.Assert(*x.p == want, "the number")
		sharing = true
		agree(o, reflect.ValueOf(&x))
	}
}

// C25_Many: long lists.
func C25_Many() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	byValue(manyOf([]D{dU8, dU16, ptrD{dU16}, st(b1(dU8), vlen{cnt: dU8, e: dU8, max: 1}), s(tInt, "", 32), arrD{n: 2, e: dI8}, cvD{}, boolD{bits: 8}, st(b1(u(tU8, "uint8:3", 3)), b1(u(tU8, "uint8:5", 5)))}, sizesRep()...))
}

// C25_Mixed: fields of every kind in combination, at several levels.
func C25_Mixed() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	byValue(mixed(25, 50))
}

package h

import (
	"encoding/binary"
	"errors"
	"io"
	"reflect"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

var errC10 = errors.New("custom failure")

// c10 is what the methods of the custom types see.
type c10log struct {
	le   []bool
	left []int
	fail int // fail at this call (counting from 1)
	err  error
	how  int // what is returned together with the error
}

// rest is what a failing method returns besides the error.
func (l *c10log) rest(buf []byte) []byte {
	return [][]byte{nil, buf, buf[:0]}[l.how]
}

var c10 c10log

func (l *c10log) call(buf []byte, order binary.ByteOrder) error {
	l.le = append(l.le, order == binary.LittleEndian)
	l.left = append(l.left, len(buf))
	if l.fail == len(l.le) {
		if l.err != nil {
			return l.err
		}
		return errC10
	}
	return nil
}

// cp is a length-prefixed list of 16-bit values, with pointer receivers.
type cp struct{ V []uint16 }

func (c *cp) SizeOf() int { return 1 + 2*len(c.V) }
func (c *cp) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	if err := c10.call(buf, order); err != nil {
		return c10.rest(buf), err
	}
	buf[0] = byte(len(c.V)) ^ 0x80
	for i, x := range c.V {
		order.PutUint16(buf[1+2*i:], x)
	}
	return buf[c.SizeOf():], nil
}
func (c *cp) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	if err := c10.call(buf, order); err != nil {
		return c10.rest(buf), err
	}
	n := int(buf[0] ^ 0x80)
	c.V = make([]uint16, n)
	for i := range c.V {
		c.V[i] = order.Uint16(buf[1+2*i:])
	}
	return buf[1+2*n:], nil
}

// cv packs with value receivers and unpacks with a pointer receiver; it is an integer underneath.
type cv uint16

func (c cv) SizeOf() int { return 3 }
func (c cv) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	if err := c10.call(buf, order); err != nil {
		return c10.rest(buf), err
	}
	buf[0] = 0xee
	order.PutUint16(buf[1:], uint16(c))
	return buf[3:], nil
}
func (c *cv) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	if err := c10.call(buf, order); err != nil {
		return c10.rest(buf), err
	}
	*c = cv(order.Uint16(buf[1:]))
	return buf[3:], nil
}

// cb is a byte slice type with its own format (bytes in reverse behind a length byte).
type cb []byte

func (c cb) SizeOf() int { return 1 + len(c) }
func (c cb) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	if err := c10.call(buf, order); err != nil {
		return c10.rest(buf), err
	}
	buf[0] = byte(len(c))
	for i, x := range c {
		buf[len(c)-i] = x
	}
	return buf[1+len(c):], nil
}
func (c *cb) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	if err := c10.call(buf, order); err != nil {
		return c10.rest(buf), err
	}
	n := int(buf[0])
	*c = make(cb, n)
	for i := range *c {
		(*c)[i] = buf[n-i]
	}
	return buf[1+n:], nil
}

// cpD, cvD and cbD are their descriptors.
type cpD struct{}

func (cpD) Type() reflect.Type { return tof(cp{}) }
func (cpD) Wire() string       { return "" }
func (cpD) Gen(name string, v reflect.Value) {
	x := make([]uint16, sym.Choose(name+".n", 3))
	for i := range x {
		x[i] = sym.U16(name)
	}
	v.Set(reflect.ValueOf(cp{x}))
}
func (cpD) Enc(w *wr, v reflect.Value, le bool) {
	x := v.Interface().(cp).V
	w.put(uint64(len(x))^0x80, 8)
	for _, y := range x {
		w.num(uint64(y), 16, le)
	}
}

type cvD struct{}

func (cvD) Type() reflect.Type               { return tof(cv(0)) }
func (cvD) Wire() string                     { return "" }
func (cvD) Gen(name string, v reflect.Value) { v.SetUint(uint64(sym.U16(name))) }
func (cvD) Enc(w *wr, v reflect.Value, le bool) {
	w.put(0xee, 8)
	w.num(v.Uint(), 16, le)
}

type cbD struct{}

func (cbD) Type() reflect.Type { return tof(cb{}) }
func (cbD) Wire() string       { return "" }
func (cbD) Gen(name string, v reflect.Value) {
	v.Set(reflect.ValueOf(cb(sym.Bytes(name, sym.Choose(name+".n", 3)))))
}
func (cbD) Enc(w *wr, v reflect.Value, le bool) {
	w.put(uint64(v.Len()), 8)
	for i := v.Len() - 1; i >= 0; i-- {
		w.put(v.Index(i).Uint(), 8)
	}
}

// orders records the byte order the model expects at each custom value, in sequence.
type watch struct {
	D
	le  *[]bool
	pos *[]int
}

func (d watch) Enc(w *wr, v reflect.Value, le bool) {
	*d.le = append(*d.le, le)
	*d.pos = append(*d.pos, w.n/8)
	d.D.Enc(w, v, le)
}

// C10_Everywhere: custom types as field, element, behind pointers, nested, with orders.
func C10_Everywhere() {
	var les []bool
	var pos []int
	ds := []D{cpD{}, cvD{}, cbD{}}
	d := D(watch{ds[sym.Choose("type", 3)], &les, &pos})
	var g G
	switch sym.Choose("place", 9) {
	case 0:
		g = b1(d)
	case 1:
		g = b1(arrD{n: 2, e: d})
	case 2:
		g = vlen{cnt: dU8, e: d, max: 2}
	case 3:
		g = b1(ptrD{d})
	case 4:
		g = vlen{cnt: dU16, from: true, e: ptrD{d}, max: 2}
	case 5:
		g = b1(st(b1(dU16), b1(d)))
	case 6:
		g = one{d: st(b1(d), b1(dU16), b1(d)), order: ord("so")}
	case 7:
		g = one{d: arrD{n: 2, e: st(b1(d))}, order: ord("ao")}
	case 8:
		g = one{d: ptrD{st(b1(arrD{n: 1, e: d}))}, order: ord("po")}
	}
	full := st(one{d: dU16, order: ord("o")}, g, b1(dU16))
	o, le := order("order")
	v := gen(full)
	w := encode(full, v.Elem(), le)
	c10 = c10log{}
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "custom values are packed by their own methods")
	seen(c10, les, pos, len(w.b))
	sizes(v.Interface(), w)
	tail := append(append([]byte(nil), w.b...), sym.Bytes("tail", 1)...)
	x := reflect.New(full.Type())
	c10 = c10log{}
	err = restruct.Unpack(tail, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.Same(x.Interface(), v.Interface()), "custom values are unpacked by their own methods")
	seen(c10, les, pos, len(tail))
	// an error from any of the calls is the error of the whole operation
	if len(les) > 0 {
		k, how := 1+sym.Choose("fail", len(les)), sym.Choose("rest", 3)
		want := []error{errC10, io.ErrUnexpectedEOF, errC10}[how]
		c10 = c10log{fail: k, how: how, err: want}
		out, err := restruct.Pack(o, v.Interface())
		sym.Assert(err == want, "Pack returns the custom error itself")
		sym.Assert(out == nil, "no data with an error")
		sym.Assert(len(c10.le) == k, "packing stops at the error")
		c10 = c10log{fail: k, how: how, err: want}
		err = restruct.Unpack(tail, o, reflect.New(full.Type()).Interface())
		sym.Assert(err == want, "Unpack returns the custom error itself")
		sym.Assert(len(c10.le) == k, "unpacking stops at the error")
	}
}

// seen: the methods were called in order, each with the byte order in force and the remaining buffer.
func seen(l c10log, les []bool, pos []int, total int) {
	sym.Assert(len(l.le) == len(les), "every custom value is handled by exactly one call")
	for i := range les {
		sym.Assert(l.le[i] == les[i], "the byte order in force is passed")
		sym.Assert(l.left[i] == total-pos[i], "the remaining buffer is passed")
	}
}

// C10_Top: custom types given to the API directly, by value and by pointer.
func C10_Top() {
	o, le := order("order")
	x := cp{[]uint16{sym.U16("a"), sym.U16("b")}}
	w := encode(cpD{}, reflect.ValueOf(x), le)
	c10 = c10log{}
	d1, e1 := restruct.Pack(o, x)
	d2, e2 := restruct.Pack(o, &x)
	sym.Assert(e1 == nil && e2 == nil, "Pack succeeds")
	sym.Assert(sym.And(sym.EqBytes(d1, w.b), sym.EqBytes(d2, w.b)), "Pack uses the custom method")
	sizes(x, w)
	sizes(&x, w)
	var y cp
	err := restruct.Unpack(w.b, o, &y)
	sym.Assert(err == nil && sym.Same(x, y), "Unpack uses the custom method")
	z := cv(sym.U16("z"))
	w = encode(cvD{}, reflect.ValueOf(z), le)
	d1, e1 = restruct.Pack(o, z)
	d2, e2 = restruct.Pack(o, &z)
	sym.Assert(e1 == nil && e2 == nil, "Pack succeeds")
	sym.Assert(sym.And(sym.EqBytes(d1, w.b), sym.EqBytes(d2, w.b)), "Pack uses the custom method")
	var q cv
	err = restruct.Unpack(w.b, o, &q)
	sym.Assert(err == nil && q == z, "Unpack uses the custom method")
	sym.Assert(len(c10.le) == 6, "every call reaches the custom method")
	for _, l := range c10.le {
		sym.Assert(l == le, "the byte order is passed")
	}
	c10 = c10log{fail: 1}
	_, err = restruct.Pack(o, &x)
	sym.Assert(err == errC10, "Pack returns the custom error itself")
	c10 = c10log{fail: 1}
	err = restruct.Unpack(d1, o, &q)
	sym.Assert(err == errC10, "Unpack returns the custom error itself")
}

// sz has a size of its own but no packer; bsz a size in bits.
type sz struct{ A uint16 }

func (s *sz) SizeOf() int { return 5 }

type bsz struct{ N uint8 }

func (s bsz) BitSize() int { return int(s.N) }

type bszp struct{ N uint8 }

func (s *bszp) BitSize() int { return int(s.N) * 2 }
func (s *bszp) SizeOf() int  { return 1 }

// C10_Sizes: the reported size is what is reserved; BitSize wins over SizeOf.
func C10_Sizes() {
	n, m := sym.U8("n"), sym.U8("m")
	type T struct {
		A uint8
		S sz
		B bsz
		P *bszp
		L []bsz
		Q [2]*bszp
	}
	k := sym.Choose("l", 3)
	v := T{B: bsz{n}, P: &bszp{m}, L: make([]bsz, k), Q: [2]*bszp{{m}, {n}}}
	want := 8 + 40 + int(n) + 2*int(m) + 2*int(m) + 2*int(n)
	for i := range v.L {
		v.L[i].N = sym.U8("l")
		want += int(v.L[i].N)
	}
	b, err := restruct.BitSize(&v)
	sym.Observe("b", b)
	sym.Assert(err == nil && b == want, "BitSize adds up the reported sizes")
	s, err := restruct.SizeOf(&v)
	sym.Assert(err == nil && s == (want+7)/8, "SizeOf adds up the reported sizes")
	b, err = restruct.BitSize(v)
	sym.Assert(err == nil && b == want, "BitSize of the value")
}

// C10_Bits: what follows a custom value starts where it stopped, at any bit position before.
func C10_Following() {
	type T struct {
		A uint8 `struct:"uint8:4"`
		B uint8 `struct:"uint8:4"`
		C cb
		D uint8 `struct:"uint8:3"`
		E uint8 `struct:"uint8:5"`
		F *cv
		N uint8 `struct:"sizeof=G"`
		G []cb
		H int16
	}
	o, le := order("order")
	v := T{A: sym.U8("a") & 15, B: sym.U8("b") & 15, C: cb(sym.Bytes("c", sym.Choose("cn", 3))), D: sym.U8("d") & 7, E: sym.U8("e") & 31, H: sym.I16("h")}
	f := cv(sym.U16("f"))
	v.F = &f
	v.N = uint8(sym.Choose("n", 3))
	v.G = make([]cb, v.N)
	w := &wr{}
	w.put(uint64(v.A), 4)
	w.put(uint64(v.B), 4)
	cbD{}.Enc(w, reflect.ValueOf(v.C), le)
	w.put(uint64(v.D), 3)
	w.put(uint64(v.E), 5)
	cvD{}.Enc(w, reflect.ValueOf(f), le)
	w.put(uint64(v.N), 8)
	for i := range v.G {
		v.G[i] = cb(sym.Bytes("g", i))
		cbD{}.Enc(w, reflect.ValueOf(v.G[i]), le)
	}
	w.num(uint64(v.H), 16, le)
	c10 = c10log{}
	modelValue(o, reflect.ValueOf(&v), w)
	sizes(&v, w)
}

// C10_Nested: tags of the field a custom value is in reach it through arrays, slices and pointers, inside
// structs that are tagged themselves.
func C10_Nested() {
	var les []bool
	var pos []int
	ds := []D{cpD{}, cvD{}, cbD{}}
	d := D(watch{ds[sym.Choose("type", 3)], &les, &pos})
	var e D
	switch sym.Choose("in", 5) {
	case 0:
		e = d
	case 1:
		e = ptrD{d}
	case 2:
		e = arrD{n: 1, e: d}
	case 3:
		e = arrD{n: 2, e: ptrD{d}}
	case 4:
		e = ptrD{arrD{n: 1, e: d}}
	}
	in := st(one{d: e, order: ord("io")}, b1(d))
	var g G
	out := sym.Choose("out", 4)
	if !sym.Thorough() && d.Type().Kind() != reflect.Uint16 && out != 1 {
		sym.Stop()
	}
	switch out {
	case 0:
		g = one{d: in, order: ord("so")}
	case 1:
		g = one{d: arrD{n: 1, e: in}, order: ord("so")}
	case 2:
		g = one{d: ptrD{in}, order: ord("so")}
	case 3:
		g = vlen{cnt: dU8, e: in, max: 1}
	}
	full := st(g, b1(d))
	o, le := order("order")
	v := gen(full)
	w := encode(full, v.Elem(), le)
	c10 = c10log{}
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "custom values are packed by their own methods")
	seen(c10, les, pos, len(w.b))
	x := reflect.New(full.Type())
	c10 = c10log{}
	err = restruct.Unpack(w.b, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.Same(x.Interface(), v.Interface()), "custom values are unpacked by their own methods")
	seen(c10, les, pos, len(w.b))
}

// C10_Tags: a custom type has the tags of any other field: it is there when its condition holds, behind the bytes
// to skip, and its methods get its byte order.
func C10_Tags() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	d := []D{cpD{}, cvD{}, cbD{}, ptrD{cpD{}}, ptrD{cvD{}}, arrD{n: 2, e: cvD{}}, fsD2{n: 2, e: cvD{}}}[sym.Choose("d", 7)]
	opts := ""
	od := ord("o")
	switch od {
	case 'B':
		opts = "big"
	case 'L':
		opts = "little"
	}
	skip := sym.Choose("skip", 3)
	if skip != 0 {
		opts = join(opts, []string{"", "skip=1", "skip=3"}[skip])
		skip = 2*skip - 1
	}
	cond := sym.Choose("cond", 2) == 1
	if cond {
		opts = join(opts, "if=A & 6 == 2")
	}
	t := reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), sf("X", d.Type(), opts), sf("C", tU16, "")})
	o, le := order("order")
	v := reflect.New(t)
	a := uint8(symFull("a", v.Elem().Field(0), false))
	d.Gen("x", v.Elem().Field(1))
	cc := symFull("c", v.Elem().Field(2), false)
	w := &wr{}
	w.put(uint64(a), 8)
	on := !cond || a&6 == 2
	xle := le
	if od != 0 {
		xle = od == 'L'
	}
	if on {
		w.zero(8 * skip)
		d.Enc(w, v.Elem().Field(1), xle)
		sym.Cover("present")
	} else {
		v.Elem().Field(1).Set(reflect.Zero(d.Type()))
		sym.Cover("absent")
	}
	w.num(cc, 16, le)
	modelValue(o, v, w)
	for _, l := range c10.le {
		sym.Assert(l == xle, "the methods get the byte order of the field")
	}
	sym.Assert(on == (len(c10.le) > 0), "the methods of an absent field are not called")
	sizes(v.Interface(), w)
}

// C10_Many: lists of many elements with methods of their own.
func C10_Many() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	o, le := order("order")
	d := manyOf([]D{cvD{}, cpD{}, cbD{}, ptrD{cpD{}}, ptrD{cvD{}}, st(b1(dU8), b1(cvD{}), b1(ptrD{cbD{}}))}, sizesRep()...)
	v := gen(d)
	w := encode(d, v.Elem(), le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// k10D describes a custom type of c10k.go; Gen records the content in c.
type k10D struct {
	k k10
	c *[]uint8
	n *int
}

func (d k10D) Type() reflect.Type { return d.k.t }
func (d k10D) Wire() string       { return "" }
func (d k10D) Gen(name string, v reflect.Value) {
	c := sym.U8(name)
	if d.k.t.Kind() == reflect.Bool {
		c &= 1
	}
	*d.c = append(*d.c, c)
	v.Set(reflect.ValueOf(d.k.mk(c)))
}
func (d k10D) Enc(w *wr, v reflect.Value, le bool) {
	w.put(uint64(d.k.id), 8)
	w.put(uint64(^(*d.c)[*d.n]), 8)
	*d.n++
}

// C10_Kinds: named types of all kinds, with value and with pointer receivers, wherever they can be.
func C10_Kinds() {
	var les []bool
	var pos []int
	var cs []uint8
	n := 0
	k := k10s[sym.Choose("k", len(k10s))]
	d := D(watch{k10D{k, &cs, &n}, &les, &pos})
	var g G
	switch sym.Choose("place", 10) {
	case 0:
		g = b1(d)
	case 1:
		g = one{d: d, order: 'L'}
	case 2:
		g = b1(arrD{n: 2, e: d})
	case 3:
		g = vlen{cnt: dU8, e: d, max: 2}
	case 4:
		g = b1(ptrD{d})
	case 5:
		g = vlen{cnt: dU16, from: true, e: ptrD{d}, max: 1}
	case 6:
		g = b1(st(b1(dU8), b1(d)))
	case 7:
		g = one{d: arrD{n: 2, e: ptrD{d}}, order: 'B'}
	case 8:
		g = b1(arrD{n: 1, e: arrD{n: 2, e: d}})
	case 9:
		g = vlen{cnt: dU8, e: st(b1(ptrD{d}), b1(d)), max: 1}
	}
	full := st(b1(dU8), g, b1(dU16))
	o, le := order("order")
	v := gen(full)
	w := encode(full, v.Elem(), le)
	c10 = c10log{}
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "custom values are packed by their own methods")
	seen(c10, les, pos, len(w.b))
	sizes(v.Interface(), w)
	x := reflect.New(full.Type())
	c10 = c10log{}
	err = restruct.Unpack(w.b, o, x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	seen(c10, les, pos, len(w.b))
	data, err = restruct.Pack(o, x.Interface())
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "custom values are unpacked by their own methods")
	// into a value that has a content already
	y := gen(full)
	c10 = c10log{}
	err = restruct.Unpack(w.b, o, y.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	seen(c10, les, pos, len(w.b))
	data, err = restruct.Pack(o, y.Interface())
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "custom values are unpacked by their own methods")
	c10 = c10log{fail: 1 + sym.Choose("fail", len(les)+1)}
	if c10.fail <= len(les) {
		_, err = restruct.Pack(o, x.Interface())
		sym.Assert(err == errC10, "Pack returns the custom error itself")
		c10 = c10log{fail: c10.fail}
		err = restruct.Unpack(w.b, o, reflect.New(full.Type()).Interface())
		sym.Assert(err == errC10, "Unpack returns the custom error itself")
	}
}

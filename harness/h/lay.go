package h

// Reference model of the wire format, written from the documentation: descriptors of fields that
// know their Go type, their tag, how to make a symbolic value and which bits it must become.

import (
	"encoding/binary"
	"math"
	"reflect"
	"strconv"

	"verif/harness/sym"
)

// wr collects expected bits, most significant bit of each byte first.
type wr struct {
	b    []byte
	n    int
	last int   // end of the last bit that carries data
	pads []int // first bit and end of each run of padding bits
}

func (w *wr) bit(x byte) {
	if w.n%8 == 0 {
		w.b = append(w.b, 0)
	}
	w.b[len(w.b)-1] |= (x & 1) << uint(7-w.n%8)
	w.n++
}

// put appends the low n bits of x, most significant first.
func (w *wr) put(x uint64, n int) {
	w.put0(x, n)
	w.last = w.n
}

func (w *wr) put0(x uint64, n int) {
	if w.n%8 == 0 && n%8 == 0 {
		for i := n - 8; i >= 0; i -= 8 {
			w.b = append(w.b, byte(x>>uint(i)))
		}
		w.n += n
		return
	}
	for i := n - 1; i >= 0; i-- {
		w.bit(byte(x >> uint(i)))
	}
}

// num appends an n-bit number in the given byte order.
func (w *wr) num(x uint64, n int, le bool) {
	if !le || n <= 8 {
		w.put(x, n)
		return
	}
	for i := 0; i < n; i += 8 {
		w.put(x>>uint(i), 8)
	}
}

// zero appends n padding bits.
func (w *wr) zero(n int) {
	if n > 0 {
		w.pads = append(w.pads, w.n, w.n+n)
	}
	for ; n > 64; n -= 64 {
		w.put0(0, 64)
	}
	w.put0(0, n)
}

// A D describes the Go and wire type of one value.
type D interface {
	Type() reflect.Type
	Wire() string // wire type for the tag, or ""
	Gen(name string, v reflect.Value)
	Enc(w *wr, v reflect.Value, le bool)
}

// num is an integer of Go type t and wire width bits.
type numD struct {
	t      reflect.Type
	wire   string
	bits   int
	signed bool
	full   bool // any Go value, even one the wire type cannot hold
}

func (d numD) Type() reflect.Type { return d.t }
func (d numD) Wire() string       { return d.wire }
func symBits(name string, n int) uint64 {
	switch {
	case n <= 8:
		return uint64(sym.U8(name)) & (1<<uint(n) - 1)
	case n <= 16:
		return uint64(sym.U16(name)) & (1<<uint(n) - 1)
	case n <= 32:
		return uint64(sym.U32(name)) & (1<<uint(n) - 1)
	case n < 64:
		return sym.U64(name) & (1<<uint(n) - 1)
	}
	return sym.U64(name)
}
func sext(x uint64, n int) int64 { return int64(x<<uint(64-n)) >> uint(64-n) }
func (d numD) Gen(name string, v reflect.Value) {
	n := d.bits
	if d.full || n > v.Type().Bits() {
		n = v.Type().Bits()
	}
	x := symBits(name, n)
	if d.signed {
		v.SetInt(sext(x, n))
	} else {
		v.SetUint(x)
	}
}
func (d numD) Enc(w *wr, v reflect.Value, le bool) {
	if d.signed {
		w.num(uint64(v.Int()), d.bits, le)
	} else {
		w.num(v.Uint(), d.bits, le)
	}
}

// canon is the value Unpack must give back for v.
func (d numD) canon(v reflect.Value) {
	if d.signed {
		v.SetInt(sext(uint64(v.Int()), min(d.bits, 64)))
	} else if d.bits < 64 {
		v.SetUint(v.Uint() & (1<<uint(d.bits) - 1))
	}
}

type f32D struct{}

func (d f32D) Type() reflect.Type { return reflect.TypeOf(float32(0)) }
func (d f32D) Wire() string       { return "" }
func (d f32D) Gen(name string, v reflect.Value) {
	v.Set(reflect.ValueOf(noSNaN32(sym.F32(name))).Convert(v.Type()))
}
func (d f32D) Enc(w *wr, v reflect.Value, le bool) {
	w.num(uint64(math.Float32bits(v.Convert(tof(float32(0))).Interface().(float32))), 32, le)
}

func noSNaN32(f float32) float32 {
	b := math.Float32bits(f)
	sym.Assume(sym.Or(b&0x7f800000 != 0x7f800000, b&0x7fffff == 0, b&0x400000 != 0))
	return f
}

type f64D struct{}

func (d f64D) Type() reflect.Type { return reflect.TypeOf(float64(0)) }
func (d f64D) Wire() string       { return "" }
func (d f64D) Gen(name string, v reflect.Value) {
	v.Set(reflect.ValueOf(sym.F64(name)).Convert(v.Type()))
}
func (d f64D) Enc(w *wr, v reflect.Value, le bool) { w.num(math.Float64bits(v.Float()), 64, le) }

type c64D struct{}

func (d c64D) Type() reflect.Type { return reflect.TypeOf(complex64(0)) }
func (d c64D) Wire() string       { return "" }
func (d c64D) Gen(name string, v reflect.Value) {
	v.Set(reflect.ValueOf(complex(noSNaN32(sym.F32(name+".re")), noSNaN32(sym.F32(name+".im")))))
}
func (d c64D) Enc(w *wr, v reflect.Value, le bool) {
	c := v.Interface().(complex64)
	w.num(uint64(math.Float32bits(real(c))), 32, le)
	w.num(uint64(math.Float32bits(imag(c))), 32, le)
}

type c128D struct{}

func (d c128D) Type() reflect.Type { return reflect.TypeOf(complex128(0)) }
func (d c128D) Wire() string       { return "" }
func (d c128D) Gen(name string, v reflect.Value) {
	v.Set(reflect.ValueOf(complex(sym.F64(name+".re"), sym.F64(name+".im"))))
}
func (d c128D) Enc(w *wr, v reflect.Value, le bool) {
	c := v.Interface().(complex128)
	w.num(math.Float64bits(real(c)), 64, le)
	w.num(math.Float64bits(imag(c)), 64, le)
}

// boolD is a bool in an integer wire type.
type boolD struct {
	wire          string
	bits          int
	variant, invr bool
}

func (d boolD) Type() reflect.Type { return reflect.TypeOf(false) }
func (d boolD) Wire() string {
	s := d.wire
	if d.variant {
		s = join(s, "variantbool")
	}
	if d.invr {
		s = join(s, "invertedbool")
	}
	return s
}
func (d boolD) Gen(name string, v reflect.Value) { v.SetBool(sym.Bool(name)) }
func (d boolD) Enc(w *wr, v reflect.Value, le bool) {
	t := uint64(1)
	if d.variant {
		t = ^uint64(0)
	}
	w.num(sym.Ite(v.Bool() != d.invr, t, 0), d.bits, le)
}

// arrD is a Go array; its elements are laid out one after another.
type arrD struct {
	n    int
	e    D
	wire string
}

func (d arrD) Type() reflect.Type { return reflect.ArrayOf(d.n, d.e.Type()) }
func (d arrD) Wire() string {
	if d.e.Wire() == "" {
		return ""
	}
	return "[" + strconv.Itoa(d.n) + "]" + d.e.Wire()
}
func (d arrD) Gen(name string, v reflect.Value) {
	for i := 0; i < d.n; i++ {
		d.e.Gen(name+strconv.Itoa(i), v.Index(i))
	}
}
func (d arrD) Enc(w *wr, v reflect.Value, le bool) {
	for i := 0; i < d.n; i++ {
		d.e.Enc(w, v.Index(i), le)
	}
}

// fsD is a Go slice with an array wire type: always n elements.
type fsD struct {
	n int
	e D
}

func (d fsD) Type() reflect.Type { return reflect.SliceOf(d.e.Type()) }
func (d fsD) Wire() string {
	w := d.e.Wire()
	if w == "" {
		w = d.e.Type().String()
	}
	return "[" + strconv.Itoa(d.n) + "]" + w
}
func (d fsD) Gen(name string, v reflect.Value) {
	v.Set(reflect.MakeSlice(d.Type(), d.n, d.n))
	for i := 0; i < d.n; i++ {
		d.e.Gen(name+strconv.Itoa(i), v.Index(i))
	}
}
func (d fsD) Enc(w *wr, v reflect.Value, le bool) {
	for i := 0; i < d.n; i++ {
		d.e.Enc(w, v.Index(i), le)
	}
}

// cstrD is a string in a byte array, padded with NULs.
type cstrD struct{ n int }

func (d cstrD) Type() reflect.Type { return reflect.TypeOf("") }
func (d cstrD) Wire() string       { return "[" + strconv.Itoa(d.n) + "]byte" }
func (d cstrD) Gen(name string, v reflect.Value) {
	l := sym.Choose(name+".len", d.n+1)
	s := sym.Str(name, l)
	for i := 0; i < l; i++ {
		sym.Assume(s[i] != 0)
	}
	v.SetString(s)
}
func (d cstrD) Enc(w *wr, v reflect.Value, le bool) {
	s := v.String()
	for i := 0; i < d.n; i++ {
		if i < len(s) {
			w.put(uint64(s[i]), 8)
		} else {
			w.put(0, 8)
		}
	}
}

// ptrD is a pointer to its element.
type ptrD struct{ e D }

func (d ptrD) Type() reflect.Type { return reflect.PtrTo(d.e.Type()) }
func (d ptrD) Wire() string {
	if d.e.Wire() == "" {
		return ""
	}
	return "*" + d.e.Wire()
}
func (d ptrD) Gen(name string, v reflect.Value) {
	v.Set(reflect.New(d.e.Type()))
	d.e.Gen(name, v.Elem())
}
func (d ptrD) Enc(w *wr, v reflect.Value, le bool) { d.e.Enc(w, v.Elem(), le) }

// A G is a group of one or more struct fields that belong together.
type G interface {
	Fields(p string) []reflect.StructField
	Gen(p string, v reflect.Value)
	Enc(w *wr, p string, v reflect.Value, le bool)
}

func join(a, b string) string {
	if a == "" {
		return b
	}
	if b == "" {
		return a
	}
	return a + "," + b
}

func stag(s string) reflect.StructTag {
	if s == "" {
		return ""
	}
	return reflect.StructTag("struct:" + strconv.Quote(s))
}

func sf(name string, t reflect.Type, tag string) reflect.StructField {
	f := reflect.StructField{Name: name, Type: t, Tag: stag(tag)}
	if name[0] == '_' || name[0] >= 'a' && name[0] <= 'z' {
		f.PkgPath = "verif/harness/h"
	}
	return f
}

// one is a single field.
type one struct {
	d     D
	order byte // 0, 'B' or 'L'
	skip  int
}

func (g one) Fields(p string) []reflect.StructField {
	t := g.d.Wire()
	switch g.order {
	case 'B':
		t = join(t, "big")
	case 'L':
		t = join(t, "little")
	}
	if g.skip != 0 {
		t = join(t, "skip="+strconv.Itoa(g.skip))
	}
	return []reflect.StructField{sf(p, g.d.Type(), t)}
}
func (g one) Gen(p string, v reflect.Value) { g.d.Gen(p, v.FieldByName(p)) }
func (g one) Enc(w *wr, p string, v reflect.Value, le bool) {
	if g.order != 0 {
		le = g.order == 'L'
	}
	w.zero(8 * g.skip)
	g.d.Enc(w, v.FieldByName(p), le)
}

// pad is a field named _.
type pad struct {
	t    reflect.Type
	wire string
	bits int
}

func (g pad) Fields(p string) []reflect.StructField {
	return []reflect.StructField{sf("_", g.t, g.wire)}
}
func (g pad) Gen(p string, v reflect.Value)                 {}
func (g pad) Enc(w *wr, p string, v reflect.Value, le bool) { w.zero(g.bits) }

// hidden is an ignored ("-" tag) or unexported field.
type hidden struct {
	name string // appended to the prefix
	t    reflect.Type
	tag  string
}

func (g hidden) Fields(p string) []reflect.StructField {
	if g.tag == "-" {
		return []reflect.StructField{sf(p+g.name, g.t, "-")}
	}
	return []reflect.StructField{sf("x"+p+g.name, g.t, g.tag)}
}
func (g hidden) Gen(p string, v reflect.Value)                 {}
func (g hidden) Enc(w *wr, p string, v reflect.Value, le bool) {}

// vlen is a slice or string with a count field; between them may stand another group.
type vlen struct {
	cnt  numD
	from bool // sizefrom on the slice instead of sizeof on the count
	str  bool
	e    D // element
	max  int
	mid  G
	wire string
	skip int // bytes skipped in front of the slice
}

func (g vlen) Fields(p string) []reflect.StructField {
	t := reflect.TypeOf("")
	if !g.str {
		t = reflect.SliceOf(g.e.Type())
	}
	ct, vt := g.cnt.wire, g.wire
	if vt == "" && !g.str && g.e.Wire() != "" {
		vt = "[]" + g.e.Wire()
	}
	if g.from {
		vt = join(vt, "sizefrom="+p+"N")
	} else {
		ct = join(ct, "sizeof="+p+"V")
	}
	fs := []reflect.StructField{sf(p+"N", g.cnt.t, ct)}
	if g.mid != nil {
		fs = append(fs, g.mid.Fields(p+"M")...)
	}
	if g.skip != 0 {
		vt = join(vt, "skip="+strconv.Itoa(g.skip))
	}
	return append(fs, sf(p+"V", t, vt))
}
func (g vlen) Gen(p string, v reflect.Value) {
	n := sym.Choose(p+".len", g.max+1)
	c := v.FieldByName(p + "N")
	if g.cnt.signed {
		c.SetInt(int64(n))
	} else {
		c.SetUint(uint64(n))
	}
	if g.mid != nil {
		g.mid.Gen(p+"M", v)
	}
	f := v.FieldByName(p + "V")
	if g.str {
		f.SetString(sym.Str(p+"V", n))
		return
	}
	f.Set(reflect.MakeSlice(f.Type(), n, n))
	for i := 0; i < n; i++ {
		g.e.Gen(p+"V"+strconv.Itoa(i), f.Index(i))
	}
}
func (g vlen) Enc(w *wr, p string, v reflect.Value, le bool) {
	f := v.FieldByName(p + "V")
	w.num(uint64(f.Len()), g.cnt.bits, le)
	if g.mid != nil {
		g.mid.Enc(w, p+"M", v, le)
	}
	w.zero(8 * g.skip)
	for i := 0; i < f.Len(); i++ {
		if g.str {
			w.put(uint64(f.Index(i).Uint()), 8)
		} else {
			g.e.Enc(w, f.Index(i), le)
		}
	}
}

// stD is a struct made of groups.
type stD struct{ g []G }

func gname(i int) string { return string(rune('A' + i)) }

func (d stD) Type() reflect.Type {
	var fs []reflect.StructField
	for i, g := range d.g {
		fs = append(fs, g.Fields(gname(i))...)
	}
	return reflect.StructOf(fs)
}
func (d stD) Wire() string { return "" }
func (d stD) Gen(name string, v reflect.Value) {
	for i, g := range d.g {
		genIn(name, g, gname(i), v)
	}
}

// genIn lets nested structs have distinct input names only by order, which is all that is needed.
func genIn(name string, g G, p string, v reflect.Value) { g.Gen(p, v) }

func (d stD) Enc(w *wr, v reflect.Value, le bool) {
	for i, g := range d.g {
		g.Enc(w, gname(i), v, le)
	}
}

func st(g ...G) stD { return stD{g} }

// order picks a byte order.
func order(name string) (binary.ByteOrder, bool) {
	if sym.Choose(name, 2) == 0 {
		return binary.BigEndian, false
	}
	return binary.LittleEndian, true
}

func encode(d D, v reflect.Value, le bool) *wr {
	w := &wr{}
	d.Enc(w, v, le)
	return w
}

func tof(x any) reflect.Type { return reflect.TypeOf(x) }

var (
	tU8  = tof(uint8(0))
	tU16 = tof(uint16(0))
	tU32 = tof(uint32(0))
	tU64 = tof(uint64(0))
	tI8  = tof(int8(0))
	tI16 = tof(int16(0))
	tI32 = tof(int32(0))
	tI64 = tof(int64(0))
	tInt = tof(int(0))
	tUnt = tof(uint(0))
	tStr = tof("")
)

func u(t reflect.Type, wire string, bits int) numD { return numD{t: t, wire: wire, bits: bits} }
func s(t reflect.Type, wire string, bits int) numD {
	return numD{t: t, wire: wire, bits: bits, signed: true}
}

var (
	dU8  = u(tU8, "", 8)
	dU16 = u(tU16, "", 16)
	dU32 = u(tU32, "", 32)
	dU64 = u(tU64, "", 64)
	dI8  = s(tI8, "", 8)
	dI16 = s(tI16, "", 16)
	dI32 = s(tI32, "", 32)
	dI64 = s(tI64, "", 64)
)

func b1(d D) G { return one{d: d} }

// scalars are the fixed-size kinds.
func scalars() []G {
	return []G{
		b1(dU8), b1(dU16), b1(dU32), b1(dU64), b1(dI8), b1(dI16), b1(dI32), b1(dI64),
		b1(f32D{}), b1(f64D{}), b1(c64D{}), b1(c128D{}),
		b1(s(tInt, "", 32)), b1(u(tUnt, "", 32)),
		b1(boolD{bits: 8}), b1(boolD{wire: "uint16", bits: 16, variant: true}), b1(boolD{wire: "int32", bits: 32, invr: true, variant: true}),
		b1(s(tInt, "int16", 16)), b1(u(tU64, "uint8", 8)), b1(s(tI8, "int32", 32)), b1(u(tU16, "uint64", 64)),
	}
}

// bitfields are the sub-byte kinds; all but the last two work in both byte orders.
func bitfields() []G {
	return []G{
		b1(u(tU8, "uint8:3", 3)), b1(u(tU32, "uint32:24", 24)), b1(s(tI64, "int64:5", 5)), b1(u(tU16, "uint8:7", 7)),
		b1(boolD{wire: "uint8:1", bits: 1}),
		one{d: u(tU16, "uint16:12", 12), order: 'B'}, one{d: u(tU64, "uint64:41", 41), order: 'B'},
	}
}

// composites are arrays, strings, slices, pointers, nested structs and padding.
func composites() []G {
	in := st(b1(dU8), b1(dU16))
	inb := st(b1(u(tU8, "uint8:4", 4)), b1(u(tU8, "uint8:5", 5)))
	return []G{
		b1(arrD{n: 2, e: dU16}), b1(arrD{n: 2, e: arrD{n: 2, e: dU8}}), b1(arrD{n: 2, e: in}), b1(arrD{n: 2, e: inb}),
		b1(arrD{n: 2, e: s(tInt, "int16", 16)}), b1(fsD{n: 2, e: dU16}), b1(fsD{n: 2, e: u(tU32, "uint16", 16)}),
		b1(cstrD{2}),
		vlen{cnt: u(tU8, "", 8), e: dU8, max: 2}, vlen{cnt: s(tInt, "int16", 16), from: true, e: dU16, max: 1},
		vlen{cnt: u(tU8, "", 8), str: true, max: 2, mid: b1(dU8)},
		vlen{cnt: u(tU8, "uint8:3", 3), from: true, e: inb, max: 2, mid: pad{t: tU8, bits: 8}},
		vlen{cnt: dU16, e: in, max: 1, mid: hidden{t: tU32, tag: "-"}},
		b1(ptrD{dU16}), b1(ptrD{in}), b1(in), b1(inb), b1(st()),
		one{d: dU16, skip: 1}, one{d: in, skip: 2}, one{d: arrD{n: 2, e: dU8}, skip: 1},
		pad{t: tU16, bits: 16}, pad{t: tU8, wire: "uint8:3", bits: 3}, pad{t: reflect.TypeOf([3]byte{}), bits: 24},
		hidden{t: tU32, tag: "-"}, hidden{t: tU32},
		one{d: dU16, order: 'L'}, one{d: in, order: 'B'}, one{d: arrD{n: 2, e: dU32}, order: 'L'},
	}
}

func allGroups() []G {
	return append(append(scalars(), bitfields()...), composites()...)
}

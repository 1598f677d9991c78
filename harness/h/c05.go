package h

import (
	"encoding/binary"
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

type intT struct {
	t      reflect.Type
	name   string
	bits   int
	signed bool
}

var ints = []intT{{tU8, "uint8", 8, false}, {tU16, "uint16", 16, false}, {tU32, "uint32", 32, false}, {tU64, "uint64", 64, false},
	{tI8, "int8", 8, true}, {tI16, "int16", 16, true}, {tI32, "int32", 32, true}, {tI64, "int64", 64, true}}

// symFull gives an arbitrary value of v's integer type and returns its bits.
func symFull(name string, v reflect.Value, signed bool) uint64 {
	n := v.Type().Bits()
	x := symBits(name, n)
	if signed {
		v.SetInt(sext(x, n))
		return uint64(sext(x, n))
	}
	v.SetUint(x)
	return x
}

// leBits appends a w-bit field as the current little-endian code does when w is not a multiple of 8:
// the bytes in little-endian order, of which the first loses its top bits (recorded finding).
func leBits(w *wr, x uint64, n int) {
	nb := (n + 7) / 8
	for i := n - 1; i >= 0; i-- {
		b := byte(x >> uint(8*(nb-1-i/8)))
		w.bit(b >> uint(i%8))
	}
	w.last = w.n
}

// bitLayout checks one bitfield at a bit offset, with a guard behind it, in both directions.
func bitLayout(it intT, width, off int, o binary.ByteOrder, le bool) {
	var fs []reflect.StructField
	if off > 0 {
		fs = append(fs, sf("P", tU8, "uint8:"+strconv.Itoa(off)))
	}
	fs = append(fs, sf("X", it.t, it.name+":"+strconv.Itoa(width)), sf("G", tU8, "uint8:3"))
	t := reflect.StructOf(fs)
	v := reflect.New(t)
	var p uint64
	if off > 0 {
		p = symFull("p", v.Elem().FieldByName("P"), false)
	}
	x := symFull("x", v.Elem().FieldByName("X"), it.signed)
	g := symFull("g", v.Elem().FieldByName("G"), false)
	w := &wr{}
	w.put(p, off)
	w.num2(x, width, le)
	w.put(g, 3)
	lossy := le && width > 8 && width%8 != 0
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	if lossy {
		bad := &wr{}
		bad.put(p, off)
		leBits(bad, x, width)
		bad.put(g, 3)
		sym.AssertKnown("le-bitfield", sym.EqBytes(data, bad.b), sym.EqBytes(data, w.b), "Pack of a little-endian bitfield keeps its bits")
	} else {
		sym.Assert(sym.EqBytes(data, w.b), "Pack puts every field's low bits at its own positions")
	}
	n, err := restruct.BitSize(v.Interface())
	sym.Assert(err == nil && n == off+width+3, "BitSize is the sum of the widths")

	// unpack arbitrary bits
	y := reflect.New(t)
	if off > 0 {
		symFull("q", y.Elem().FieldByName("P"), false) // earlier contents must not survive
	}
	symFull("y", y.Elem().FieldByName("X"), it.signed)
	err = restruct.Unpack(w.b, o, y.Interface())
	sym.Observe("y", y.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	if off > 0 {
		sym.Assert(y.Elem().FieldByName("P").Uint() == p&(1<<uint(off)-1), "the field before is intact")
	}
	sym.Assert(y.Elem().FieldByName("G").Uint() == g&7, "the field after is intact")
	m := x & (1<<uint(width) - 1)
	var got uint64
	if it.signed {
		got = uint64(y.Elem().FieldByName("X").Int())
	} else {
		got = y.Elem().FieldByName("X").Uint()
	}
	if lossy {
		return
	}
	if !it.signed {
		sym.Assert(got == m, "Unpack reads exactly the field's bits, zero-extended")
		return
	}
	want := uint64(sext(m, width))
	if it.bits == 64 {
		sym.Assert(got == want, "Unpack reads exactly the field's bits, sign-extended")
		return
	}
	// recorded finding: the narrow signed types test the lowest bit of the field, shifted
	sh := m & 1 << uint(width-1)
	bad := sym.Ite(sh != 0, uint64(sext((m|^(1<<uint(width)-1))&(1<<uint(it.bits)-1), it.bits)), uint64(sext(m, it.bits)))
	sym.AssertKnown("narrow-sign-extension", got == bad, got == want, "Unpack of a signed bitfield sign-extends")
}

// num2 appends a bitfield: most significant bit first, whole little-endian bytes reversed.
func (w *wr) num2(x uint64, n int, le bool) {
	if le && n > 8 && n%8 == 0 {
		w.num(x, n, true)
		return
	}
	w.put(x, n)
}

// C05_Widths: every width of every integer type at every bit offset.
func C05_Widths() {
	it := ints[sym.Choose("type", 8)]
	width := 1 + sym.Choose("width", it.bits-1)
	o, le := order("order")
	if !sym.Thorough() && it.bits == 64 && width > 12 && width%8 != 0 && width%8 != 1 && width%8 != 7 {
		sym.Stop()
	}
	bitLayout(it, width, sym.Choose("off", 8), o, le)
}

// C05_Runs: runs of four fields of different widths and types.
func C05_Runs() {
	pool := []G{b1(u(tU8, "uint8:1", 1)), b1(u(tU8, "uint8:7", 7)), b1(u(tU16, "uint16:6", 6)), b1(s(tI64, "int64:3", 3)), b1(u(tU32, "uint32:16", 16)),
		b1(boolD{wire: "uint8:2", bits: 2}), b1(dU8), b1(dU16), b1(u(tU64, "uint8:4", 4)), b1(st(b1(u(tU8, "uint8:5", 5)))), b1(arrD{n: 3, e: st(b1(u(tU8, "uint8:3", 3)))}),
		pad{t: tU8, wire: "uint8:2", bits: 2}}
	var gs []G
	n := 3
	if sym.Thorough() {
		n = 4
	}
	for i := 0; i < n; i++ {
		gs = append(gs, pool[sym.Choose("g"+strconv.Itoa(i), len(pool))])
	}
	model(stD{gs})
}

// C05_Overflow: bits above the width do not reach the neighbours.
func C05_Overflow() {
	type T struct {
		A uint8  `struct:"uint8:3"`
		B uint16 `struct:"uint16:6"`
		C int64  `struct:"int64:7"`
		D uint32 `struct:"uint8:4"`
		E int32  `struct:"int64:4"`
		F uint8
	}
	o, _ := order("order")
	v := T{sym.U8("a"), sym.U16("b"), sym.I64("c"), sym.U32("d"), sym.I32("e"), sym.U8("f")}
	w := &wr{}
	w.put(uint64(v.A), 3)
	w.put(uint64(v.B), 6)
	w.put(uint64(v.C), 7)
	w.put(uint64(v.D), 4)
	w.put(uint64(v.E), 4)
	w.put(uint64(v.F), 8)
	data, err := restruct.Pack(o, &v)
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "every field stays in its own bits")
	var x T
	err = restruct.Unpack(w.b, o, &x)
	sym.Observe("x", x)
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.And(x.A == v.A&7, x.B == v.B&63, x.C == sext(uint64(v.C)&127, 7), x.D == v.D&15, x.E == int32(sext(uint64(v.E)&15, 4)), x.F == v.F), "Unpack reads exactly the bits")
}

// C05_Data: arbitrary bytes: each field is its bits of the input, everything else is untouched.
func C05_Data() {
	type T struct {
		A uint32 `struct:"uint32:11,big"`
		B int64  `struct:"int64:13,big"`
		C bool   `struct:"uint8:1"`
		D uint64 `struct:"uint64:50,big"`
		E uint8  `struct:"uint8:5"`
	}
	o, _ := order("order")
	data := sym.Bytes("data", 10)
	var x T
	err := restruct.Unpack(data, o, &x)
	sym.Observe("x", x)
	sym.Assert(err == nil, "Unpack succeeds")
	at := func(p, n int) uint64 {
		var r uint64
		for i := p; i < p+n; i++ {
			r = r<<1 | uint64(data[i/8]>>uint(7-i%8)&1)
		}
		return r
	}
	sym.Assert(uint64(x.A) == at(0, 11), "A")
	sym.Assert(x.B == sext(at(11, 13), 13), "B")
	sym.Assert(x.C == (at(24, 1) != 0), "C")
	sym.Assert(x.D == at(25, 50), "D")
	sym.Assert(uint64(x.E) == at(75, 5), "E")
}

// C05_Many: long runs of bitfields.
func C05_Many() {
	var gs []G
	n := []int{20, 70}[sym.Choose("n", 2)]
	seed := 1 + sym.Choose("seed", 5)
	for i := 0; i < n; i++ {
		w := 1 + (i*i+i*seed)%7
		if i%9 == 8 {
			w = 8
		}
		gs = append(gs, bitsNG{"F" + strconv.Itoa(i), w, i%11 == 3 || i > n-3})
	}
	o, le := order("order")
	d := stD{gs}
	v := gen(d)
	w := encode(d, v.Elem(), le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// bitsNG is a named bitfield of w bits.
type bitsNG struct {
	name string
	w    int
	sym  bool
}

func (g bitsNG) Fields(p string) []reflect.StructField {
	if g.w == 8 {
		return []reflect.StructField{sf(g.name, tU8, "")}
	}
	return []reflect.StructField{sf(g.name, tU8, "uint8:"+strconv.Itoa(g.w))}
}
func (g bitsNG) Gen(p string, v reflect.Value) {
	x := uint64(g.w*31+len(g.name)) * 13
	if g.sym {
		x = uint64(sym.U8(g.name))
	}
	v.FieldByName(g.name).SetUint(x & (1<<uint(g.w) - 1))
}
func (g bitsNG) Enc(w *wr, p string, v reflect.Value, le bool) {
	w.put(v.FieldByName(g.name).Uint(), g.w)
}

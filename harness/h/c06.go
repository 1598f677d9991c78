package h

import (
	"encoding/binary"
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

func boolTag(wire string, variant, inv bool) string {
	t := wire
	if variant {
		t = join(t, "variantbool")
	}
	if inv {
		t = join(t, "invertedbool")
	}
	return t
}

// checkBool decides a bool of the given wire type between two other fields.
func checkBool(wire string, bits, off int, variant, inv bool, o binary.ByteOrder, le bool) {
	var fs []reflect.StructField
	if off > 0 {
		fs = append(fs, sf("P", tU8, "uint8:"+strconv.Itoa(off)))
	}
	fs = append(fs, sf("X", tof(false), boolTag(wire, variant, inv)), sf("G", tU8, ""))
	t := reflect.StructOf(fs)
	v := reflect.New(t)
	w := &wr{}
	if off > 0 {
		w.put(symFull("p", v.Elem().FieldByName("P"), false), off)
	}
	b := sym.Bool("b")
	v.Elem().FieldByName("X").SetBool(b)
	one := uint64(1)
	if variant {
		one = ^uint64(0)
	}
	w.num2(sym.Ite(b != inv, one, 0), bits, le)
	w.put(symFull("g", v.Elem().FieldByName("G"), false), 8)
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "Pack writes the documented encoding of the bool")
	// any wire value
	x := &wr{}
	if off > 0 {
		x.put(uint64(sym.U8("q")), off)
	}
	raw := symBits("raw", bits)
	x.num2(raw, bits, le)
	x.put(uint64(sym.U8("h")), 8)
	y := reflect.New(t)
	y.Elem().FieldByName("X").SetBool(sym.Bool("old"))
	err = restruct.Unpack(x.b, o, y.Interface())
	sym.Observe("y", y.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(y.Elem().FieldByName("X").Bool() == ((raw != 0) != inv), "any non-zero wire value is true, unless inverted")
	sym.Assert(y.Elem().FieldByName("G").Uint() == uint64(x.byteAt(off+bits)), "the next field is intact")
}

func (w *wr) byteAt(p int) byte {
	var r byte
	for i := p; i < p+8; i++ {
		r = r<<1 | w.b[i/8]>>uint(7-i%8)&1
	}
	return r
}

// C06_Types: every integer wire type and flag combination.
func C06_Types() {
	o, le := order("order")
	k := sym.Choose("type", len(ints)+4)
	var wire string
	var bits int
	switch {
	case k < len(ints):
		wire, bits = ints[k].name, ints[k].bits
	case k == len(ints):
		wire, bits = "", 8
	case k == len(ints)+1:
		wire, bits = "bool", 8
	case k == len(ints)+2:
		wire, bits = "int", 32
	default:
		wire, bits = "uint", 32
	}
	checkBool(wire, bits, []int{0, 3}[sym.Choose("off", 2)], sym.Choose("variant", 2) == 1, sym.Choose("inv", 2) == 1, o, le)
}

// C06_Bits: bools in bitfields of every width.
func C06_Bits() {
	it := ints[sym.Choose("type", 8)]
	o, le := order("order")
	width := 1 + sym.Choose("width", it.bits-1)
	if le && width > 8 && width%8 != 0 { // see the le-bitfield finding of C05
		sym.Stop()
	}
	if !sym.Thorough() && width > 17 && width%8 != 0 && width%8 != 7 {
		sym.Stop()
	}
	checkBool(it.name+":"+strconv.Itoa(width), width, []int{0, 5}[sym.Choose("off", 2)], sym.Choose("variant", 2) == 1, sym.Choose("inv", 2) == 1, o, le)
}

// C06_Mixed: several bools with different flags do not influence each other.
func C06_Mixed() {
	type T struct {
		A bool `struct:"invertedbool"`
		B bool
		C bool `struct:"int16,variantbool"`
		D bool `struct:"uint8:2,variantbool,invertedbool"`
		E bool `struct:"uint8:2"`
		F bool `struct:"uint8:4,invertedbool"`
		G [2]bool
		H int8
	}
	o, _ := order("order")
	v := T{sym.Bool("a"), sym.Bool("b"), sym.Bool("c"), sym.Bool("d"), sym.Bool("e"), sym.Bool("f"), [2]bool{sym.Bool("g0"), sym.Bool("g1")}, sym.I8("h")}
	n := func(b bool, t uint64) uint64 { return sym.Ite(b, t, 0) }
	w := &wr{}
	w.put(n(!v.A, 1), 8)
	w.put(n(v.B, 1), 8)
	w.put(n(v.C, 0xffff), 16)
	w.put(n(!v.D, 3), 2)
	w.put(n(v.E, 1), 2)
	w.put(n(!v.F, 1), 4)
	w.put(n(v.G[0], 1), 8)
	w.put(n(v.G[1], 1), 8)
	w.put(uint64(v.H), 8)
	modelValue(o, reflect.ValueOf(&v), w)
	sizes(&v, w)
	data := sym.Bytes("data", 8)
	var x T
	err := restruct.Unpack(data, o, &x)
	sym.Observe("x", x)
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Assert(sym.And(x.A == (data[0] == 0), x.B == (data[1] != 0), x.C == sym.Or(data[2] != 0, data[3] != 0),
		x.D == (data[4]>>6 == 0), x.E == (data[4]>>4&3 != 0), x.F == (data[4]&15 == 0), x.G[0] == (data[5] != 0), x.G[1] == (data[6] != 0), uint8(x.H) == data[7]), "every wire value decodes as documented")
}

// C06_Places: the flags of a bool hold wherever the bool is: as element, behind a pointer, as alternative of a
// switch, when it is there only under a condition.
func C06_Places() {
	restruct.EnableExprBeta()
	d := boolD{variant: sym.Choose("variant", 2) == 1, invr: sym.Choose("inv", 2) == 1}
	k := sym.Choose("type", 4)
	d.wire, d.bits = []string{"uint8", "int16", "uint64", "uint32"}[k], []int{8, 16, 64, 32}[k]
	var g G
	switch sym.Choose("place", 11) {
	case 0:
		g = b1(arrD{n: 2, e: d})
	case 1:
		g = b1(ptrD{d})
	case 2:
		g = vlen{cnt: dU8, e: d, max: 2}
	case 3:
		g = caseG{alts: []G{b1(d), b1(dU8)}}
	case 4:
		g = caseG{alts: []G{b1(dU8), b1(d)}}
	case 5:
		g = caseG{alts: []G{one{d: d, order: 'L', skip: 1}, b1(ptrD{d})}, order: 'B'}
	case 6:
		g = ifG{flag: dU8, d: d, skip: 1}
	case 7:
		g = b1(arrD{n: 2, e: arrD{n: 2, e: d}})
	case 8:
		g = b1(fsD{n: 2, e: d})
	case 9:
		g = caseG{alts: []G{b1(arrD{n: 2, e: d}), one{d: d, skip: 2}}}
	case 10:
		g = szG{e: d, mul: true}
	}
	l := st(b1([]D{dU8, u(tU8, "uint8:3", 3)}[sym.Choose("first", 2)]), g, b1(dU8))
	o, le := order("order")
	v := gen(l)
	w := encode(l, v.Elem(), le)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// C06_Many: lists of many bools, and of structs with bools.
func C06_Many() {
	restruct.EnableExprBeta()
	b := boolD{wire: "uint8", bits: 8, variant: sym.Choose("variant", 2) == 1, invr: sym.Choose("inv", 2) == 1}
	c := boolD{wire: "uint8:1", bits: 1, variant: b.variant, invr: b.invr}
	o, le := order("order")
	d := manyOf([]D{b, boolD{wire: "int16", bits: 16, variant: b.variant, invr: b.invr}, st(b1(c), b1(u(tU8, "uint8:6", 6)), b1(c)), ptrD{b}}, sizesRep()[0])
	v := gen(d)
	modelValue(o, v, encode(d, v.Elem(), le))
}

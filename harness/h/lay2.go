package h

import (
	"reflect"
	"strconv"

	"verif/harness/sym"
)

// Groups of fields whose layout depends on expressions. EnableExprBeta must have been called.

// ifG is a flag and a field that is present when the flag is set.
type ifG struct {
	flag numD
	d    D
	skip int
	neg  bool // present when the flag is not set
}

func (g ifG) Fields(p string) []reflect.StructField {
	op := " != 0"
	if g.neg {
		op = " == 0"
	}
	t := join(g.d.Wire(), "if="+p+"F"+op)
	if g.skip != 0 {
		t = join(t, "skip="+strconv.Itoa(g.skip))
	}
	return []reflect.StructField{sf(p+"F", g.flag.t, g.flag.wire), sf(p+"V", g.d.Type(), t)}
}
func (g ifG) on(p string, v reflect.Value) bool { return (v.FieldByName(p+"F").Uint() != 0) != g.neg }
func (g ifG) Gen(p string, v reflect.Value) {
	g.flag.Gen(p+"F", v.FieldByName(p+"F"))
	if g.on(p, v) {
		g.d.Gen(p+"V", v.FieldByName(p+"V"))
	}
}
func (g ifG) Enc(w *wr, p string, v reflect.Value, le bool) {
	g.flag.Enc(w, v.FieldByName(p+"F"), le)
	if g.on(p, v) {
		w.zero(8 * g.skip)
		g.d.Enc(w, v.FieldByName(p+"V"), le)
	}
}

// szG is a slice or string of one element less than the number in front of it, or twice as many.
type szG struct {
	e    D // nil for a string
	mul  bool
	skip int
}

func (g szG) Fields(p string) []reflect.StructField {
	t, tag := tStr, "size="+p+"N - 1"
	if g.e != nil {
		t = reflect.SliceOf(g.e.Type())
		if g.e.Wire() != "" {
			tag = join("[]"+g.e.Wire(), tag)
		}
	}
	if g.mul {
		tag = tag[:len(tag)-1-len(p+"N - ")] + "2 * " + p + "N"
	}
	if g.skip != 0 {
		tag = join("skip="+strconv.Itoa(g.skip), tag)
	}
	return []reflect.StructField{sf(p+"N", tU8, ""), sf(p+"V", t, tag)}
}
func (g szG) Gen(p string, v reflect.Value) {
	n := sym.Choose(p+".len", 2)
	if g.mul {
		v.FieldByName(p + "N").SetUint(uint64(n))
		n *= 2
	} else {
		v.FieldByName(p + "N").SetUint(uint64(n + 1))
	}
	f := v.FieldByName(p + "V")
	if g.e == nil {
		f.SetString(sym.Str(p+"V", n))
		return
	}
	f.Set(reflect.MakeSlice(f.Type(), n, n))
	for i := 0; i < n; i++ {
		g.e.Gen(p+"V"+strconv.Itoa(i), f.Index(i))
	}
}
func (g szG) Enc(w *wr, p string, v reflect.Value, le bool) {
	dU8.Enc(w, v.FieldByName(p+"N"), le)
	w.zero(8 * g.skip)
	f := v.FieldByName(p + "V")
	for i := 0; i < f.Len(); i++ {
		if g.e == nil {
			w.put(uint64(f.Index(i).Uint()), 8)
		} else {
			g.e.Enc(w, f.Index(i), le)
		}
	}
}

// bitsG is a width and a number of that width.
type bitsG struct {
	t     reflect.Type
	wmax  int
	sub   int // widths offered in the number of bits field
	order byte
}

func (g bitsG) Fields(p string) []reflect.StructField {
	return []reflect.StructField{sf(p+"W", tU8, ""), sf(p+"V", g.t, "big,bits="+p+"W")}
}
func (g bitsG) Gen(p string, v reflect.Value) {
	n := []int{1, 5, 8, g.wmax}[sym.Choose(p+".w", 4)]
	v.FieldByName(p + "W").SetUint(uint64(n))
	f := v.FieldByName(p + "V")
	if x := symBits(p+"V", n); f.CanInt() {
		f.SetInt(sext(x, n))
	} else {
		f.SetUint(x)
	}
}
func (g bitsG) Enc(w *wr, p string, v reflect.Value, le bool) {
	n := v.FieldByName(p + "W").Uint()
	w.put(n, 8)
	f := v.FieldByName(p + "V")
	if f.CanInt() {
		w.num(uint64(f.Int()), int(n), false)
	} else {
		w.num(f.Uint(), int(n), false)
	}
}

// swG is a key and a switch on it: case 1 a number, case 2 a struct with padding, case 3 a slice of
// KEY elements, otherwise the default, if any.
type swG struct{ def bool }

var swIn = reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), sf("_", tU8, ""), sf("B", tU16, "")})

func (g swG) Fields(p string) []reflect.StructField {
	fs := []reflect.StructField{sf("P", tU16, "case=1"), sf("Q", swIn, "case=2"), sf("R", tof([2]uint8{}), "case=3")}
	if g.def {
		fs = append(fs, sf("Z", tU32, "default"))
	}
	return []reflect.StructField{sf(p+"K", tU8, ""), sf(p+"V", reflect.StructOf(fs), "switch="+p+"K")}
}
func (g swG) Gen(p string, v reflect.Value) {
	dU8.Gen(p+"K", v.FieldByName(p+"K"))
	k := v.FieldByName(p + "K").Uint()
	f := v.FieldByName(p + "V")
	switch {
	case k == 1:
		dU16.Gen(p+"P", f.Field(0))
	case k == 2:
		dU8.Gen(p+"A", f.Field(1).Field(0))
		dU16.Gen(p+"B", f.Field(1).Field(2))
	case k == 3:
		arrD{n: 2, e: dU8}.Gen(p+"R", f.Field(2))
	case g.def:
		dU32.Gen(p+"Z", f.Field(3))
	}
}
func (g swG) Enc(w *wr, p string, v reflect.Value, le bool) {
	k := v.FieldByName(p + "K").Uint()
	w.put(k, 8)
	f := v.FieldByName(p + "V")
	switch {
	case k == 1:
		dU16.Enc(w, f.Field(0), le)
	case k == 2:
		dU8.Enc(w, f.Field(1).Field(0), le)
		w.zero(8)
		dU16.Enc(w, f.Field(1).Field(2), le)
	case k == 3:
		arrD{n: 2, e: dU8}.Enc(w, f.Field(2), le)
	case g.def:
		dU32.Enc(w, f.Field(3), le)
	}
}

// ioG is a number stored with an offset.
type ioG struct{}

func (g ioG) Fields(p string) []reflect.StructField {
	return []reflect.StructField{sf(p, tU16, "in="+p+" - 3,out="+p+" + 3")}
}
func (g ioG) Gen(p string, v reflect.Value) { dU16.Gen(p, v.FieldByName(p)) }
func (g ioG) Enc(w *wr, p string, v reflect.Value, le bool) {
	w.num(uint64(uint16(v.FieldByName(p).Uint()+3)), 16, le)
}

// exprGroups are representatives of every expression tag.
func exprGroups() []G {
	in := st(b1(dU8), b1(dU16))
	inb := st(b1(u(tU8, "uint8:4", 4)), ifG{flag: u(tU8, "uint8:1", 1), d: u(tU8, "uint8:5", 5)})
	b := u(tU8, "uint8:1", 1)
	return []G{
		ifG{flag: dU8, d: dU16}, ifG{flag: b, d: u(tU8, "uint8:3", 3), neg: true}, ifG{flag: b, d: in, skip: 1}, ifG{flag: dU8, d: arrD{n: 2, e: dU8}, neg: true},
		ifG{flag: b, d: cstrD{2}}, ifG{flag: b, d: ptrD{in}, skip: 2}, ifG{flag: b, d: st(vlen{cnt: dU8, e: dU8, max: 1, skip: 1})},
		szG{e: dU16}, szG{e: inb, mul: true}, szG{skip: 1}, szG{e: dU8, skip: 2, mul: true}, szG{e: u(tU32, "uint16", 16)},
		bitsG{t: tU16, wmax: 12}, bitsG{t: tI64, wmax: 41},
		swG{def: true}, swG{},
		ioG{},
		b1(inb), b1(arrD{n: 2, e: inb}), vlen{cnt: dU8, e: inb, max: 2, skip: 1}, vlen{cnt: dU8, from: true, e: st(szG{e: dU8}), max: 1},
	}
}

// nilD is a pointer that may be nil: nothing is packed for it.
type nilD struct{ e D }

func (d nilD) Type() reflect.Type { return reflect.PtrTo(d.e.Type()) }
func (d nilD) Wire() string       { return ptrD{d.e}.Wire() }
func (d nilD) Gen(name string, v reflect.Value) {
	if sym.Choose(name+".nil", 2) == 1 {
		ptrD{d.e}.Gen(name, v)
	}
}
func (d nilD) Enc(w *wr, v reflect.Value, le bool) {
	if !v.IsNil() {
		d.e.Enc(w, v.Elem(), le)
	}
}

// caseG is a key and a switch on it, whose alternatives are groups of one field; the last one is the default.
type caseG struct {
	alts  []G
	order byte // of the switch field
	skip  int  // in front of the selected case
	cond  bool // the switch is there only if the key is not 9
}

// tagged adds an option to the tag of the first field.
func tagged(fs []reflect.StructField, opt string) reflect.StructField {
	if len(fs) != 1 {
		panic("one field expected")
	}
	f := fs[0]
	f.Tag = stag(join(f.Tag.Get("struct"), opt))
	return f
}

func (g caseG) Fields(p string) []reflect.StructField {
	var fs []reflect.StructField
	for i, a := range g.alts {
		opt := "case=" + strconv.Itoa(i)
		if i == len(g.alts)-1 {
			opt = "default"
		}
		fs = append(fs, tagged(a.Fields(gname(i)), opt))
	}
	t := join(map[byte]string{0: "", 'B': "msb", 'L': "little"}[g.order], "switch="+p+"K")
	if g.skip != 0 {
		t = join("skip="+strconv.Itoa(g.skip), t)
	}
	if g.cond {
		t = join(t, "if="+p+"K != 9")
	}
	return []reflect.StructField{sf(p+"K", tU8, ""), sf(p+"V", reflect.StructOf(fs), t)}
}

// pick is the selected alternative; -1: none.
func (g caseG) pick(p string, v reflect.Value) int {
	k := int(v.FieldByName(p + "K").Uint())
	if g.cond && k == 9 {
		return -1
	}
	return sym.Pick(min(k, len(g.alts)-1))
}

func (g caseG) Gen(p string, v reflect.Value) {
	k := uint64(sym.Choose(p+".case", len(g.alts)))
	if k == uint64(len(g.alts)-1) {
		k = uint64(sym.U8(p + "K"))
		sym.Assume(k >= uint64(len(g.alts)-1))
	}
	v.FieldByName(p + "K").SetUint(k)
	if i := g.pick(p, v); i >= 0 {
		g.alts[i].Gen(gname(i), v.FieldByName(p+"V"))
	}
}

func (g caseG) Enc(w *wr, p string, v reflect.Value, le bool) {
	w.put(v.FieldByName(p+"K").Uint(), 8)
	i := g.pick(p, v)
	if i < 0 {
		return
	}
	if g.order != 0 {
		le = g.order == 'L'
	}
	w.zero(8 * g.skip)
	g.alts[i].Enc(w, gname(i), v.FieldByName(p+"V"), le)
}

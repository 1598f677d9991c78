package h

import (
	"math"
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

func consume(d D) {
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	sizes(v.Interface(), w)
	data, err := restruct.Pack(o, v.Interface())
	sym.Assert(err == nil, "Pack succeeds")
	sym.Observe("data", data)
	sym.Assert(len(data) == len(w.b), "len(Pack) is the encoded size")
	more := append(append([]byte(nil), data...), sym.Bytes("tail", 2)...)
	x := reflect.New(d.Type())
	err = restruct.Unpack(more, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil, "Unpack with trailing bytes succeeds")
	sym.Assert(sym.Same(v.Interface(), x.Interface()), "trailing bytes do not matter")
	if need := (w.last + 7) / 8; need > 0 {
		y := reflect.New(d.Type())
		err = restruct.Unpack(data[:need-1:need-1], o, y.Interface())
		sym.Assert(err != nil, "one byte fewer fails")
	}
	n, err := restruct.SizeOf(x.Interface())
	sym.Assert(err == nil && n == len(data), "SizeOf of the unpacked value")
}

func C03_Pairs() {
	if sym.Thorough() {
		consume(pairs(allGroups()))
		return
	}
	consume(pairsOf(few(), allGroups()))
}

func C03_Nested() {
	gs := few()
	if !sym.Thorough() {
		consume(containers(gs[sym.Choose("g0", len(gs))], gs[5+sym.Choose("g1", 7)]))
		return
	}
	consume(containers(gs[sym.Choose("g0", len(gs))], gs[sym.Choose("g1", len(gs))]))
}

func C03_Triples_T() { consume(triples(allGroups())) }

// C03_Expr: sizes that depend on expressions.
func C03_Expr() {
	restruct.EnableExprBeta()
	consume(exprPair(few()[6:11]))
}

func C03_ExprNested() {
	restruct.EnableExprBeta()
	gs := exprGroups()
	consume(containers(gs[sym.Choose("g0", len(gs))]))
}

// C03_Skip: skips in front of everything of variable size, also when it is empty.
func C03_Skip() { consume(pairsOf(skips(), append(few()[8:13], skips()...))) }

// C03_Nil: nothing is packed for nil pointers, wherever they stand.
func C03_Nil() {
	in := st(b1(dU8), b1(nilD{dU16}))
	inb := st(b1(u(tU8, "uint8:3", 3)), b1(nilD{st(b1(u(tU8, "uint8:2", 2)))}))
	ds := []D{nilD{dU8}, nilD{in}, arrD{n: 2, e: nilD{dU16}}, arrD{n: 3, e: nilD{in}}, in, arrD{n: 2, e: in}, inb, arrD{n: 2, e: inb}, nilD{nilD{dU16}}, nilD{arrD{n: 2, e: nilD{dU8}}}, fsD2{n: 2, e: in}}
	gs := []G{vlen{cnt: dU8, e: nilD{dU16}, max: 2}, vlen{cnt: dU8, e: in, max: 2}, one{d: nilD{dU16}, skip: 1}, one{d: arrD{n: 2, e: nilD{in}}, skip: 1}}
	for _, d := range ds {
		gs = append(gs, b1(d))
	}
	o, le := order("order")
	g := gs[sym.Choose("g", len(gs))]
	d := st(b1(dU8), g, b1(dU16))
	if sym.Choose("prefix", 2) == 1 {
		d = st(b1(u(tU8, "uint8:3", 3)), g, b1(dU16))
	}
	if sym.Choose("nest", 2) == 1 {
		d = st(vlen{cnt: dU8, e: d, max: 1}, b1(arrD{n: 1, e: d}))
	}
	v := gen(d)
	w := encode(d, v.Elem(), le)
	sizes(v.Interface(), w)
	data, err := restruct.Pack(o, v.Interface())
	sym.Assert(err == nil, "Pack succeeds")
	sym.Observe("data", data)
	sym.Assert(sym.EqBytes(data, w.b), "Pack writes nothing for nil pointers")
}

// wireD gives a custom type a wire type in the tag, which does not apply to it.
type wireD struct {
	D
	wire string
}

func (d wireD) Wire() string { return d.wire }

// floatBits is a float or complex number of which only the low bits of each part are kept.
type floatBits struct {
	t    reflect.Type
	bits int
}

func (d floatBits) Type() reflect.Type { return d.t }
func (d floatBits) Wire() string       { return d.t.String() + ":" + strconv.Itoa(d.bits) }
func (d floatBits) part(name string) float64 {
	return float64(math.Float32frombits(uint32(symBits(name, d.bits))))
}
func (d floatBits) Gen(name string, v reflect.Value) {
	if d.t.Kind() == reflect.Float32 {
		v.SetFloat(d.part(name))
	} else {
		v.SetComplex(complex(d.part(name+"r"), d.part(name+"i")))
	}
}
func (d floatBits) Enc(w *wr, v reflect.Value, le bool) {
	if d.t.Kind() == reflect.Float32 {
		w.num(uint64(math.Float32bits(float32(v.Float()))), d.bits, le)
		return
	}
	w.num(uint64(math.Float32bits(float32(real(v.Complex())))), d.bits, le)
	w.num(uint64(math.Float32bits(float32(imag(v.Complex())))), d.bits, le)
}

// C03_FloatBits: floats and complex numbers with a width; a complex number is two parts of that width.
func C03_FloatBits() {
	f, c := tof(float32(0)), tof(complex64(0))
	ds := []D{floatBits{f, 8}, floatBits{f, 16}, floatBits{c, 8}, floatBits{c, 16}, floatBits{f, 5}, floatBits{c, 6}, floatBits{c, 3}}
	d := ds[sym.Choose("d", len(ds))]
	consume(st(b1(u(tU8, "uint8:2", 2)), b1(d), b1(dU8)))
}

// C03_Casts: elements whose Go type decides on their size, not the wire type in the tag.
func C03_Casts() {
	ds := []D{wireD{cvD{}, "uint8"}, wireD{cvD{}, "uint32"}, wireD{cpD{}, "uint8"}, wireD{cbD{}, "[]uint8"}, cstrD{2}, arrD{n: 1, e: wireD{cvD{}, "uint16"}}, ptrD{wireD{cvD{}, "uint8"}}}
	d := ds[sym.Choose("d", len(ds))]
	gs := []G{b1(d), b1(arrD{n: 2, e: d}), b1(fsD{n: 2, e: d}), vlen{cnt: dU8, e: d, max: 2}, vlen{cnt: dI8, e: d, max: 2, from: true}}
	consume(st(b1(dU8), gs[sym.Choose("g", len(gs))], b1(dU16)))
}

// shortD is a slice with an array wire type that may have fewer elements; zero values make up for the rest.
type shortD struct{ fsD }

func (d shortD) Gen(name string, v reflect.Value) {
	n := sym.Choose(name+".len", d.n+1)
	fsD{n, d.e}.Gen(name, v)
}
func (d shortD) Enc(w *wr, v reflect.Value, le bool) {
	for i := 0; i < d.n; i++ {
		if i < v.Len() {
			d.e.Enc(w, v.Index(i), le)
		} else {
			d.e.Enc(w, reflect.New(d.e.Type()).Elem(), le)
		}
	}
}

// C03_Padded: the size of an array wire type that is not filled.
func C03_Padded() {
	ds := []D{dU16, wireD{cvD{}, "uint8"}, wireD{cpD{}, "uint8"}, wireD{cbD{}, "[]uint8"}, cstrD{2}, arrD{n: 2, e: wireD{cvD{}, "uint16"}}, wireD{nilD{dU16}, "*uint16"}}
	o, le := order("order")
	d := st(b1(dU8), b1(shortD{fsD{2, ds[sym.Choose("d", len(ds))]}}), b1(dU16))
	v := gen(d)
	w := encode(d, v.Elem(), le)
	sizes(v.Interface(), w)
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "the data is that of the elements and zero values for the rest")
}

// C03_Large: the same with many elements.
func C03_Large() { consume(large(sizesMany()[1:]...)) }

// C03_Deep: sizes many levels down.
func C03_Deep() {
	ds := []D{dU16, boolD{wire: "uint16", bits: 16, variant: true}, cstrD{2}, st(b1(u(tU8, "uint8:3", 3)), b1(dU16)), cpD{}, st(vlen{cnt: dU8, e: dU16, max: 2})}
	d := deepIn(ds[sym.Choose("d", len(ds))])
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	sizes(v.Interface(), w)
	modelValue(o, v, w)
}

// C03_Mixed: fields of every kind in combination, at several levels.
func C03_Mixed() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	consume(mixed(3, 60))
}

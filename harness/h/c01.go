package h

import (
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// C01_Pairs: every ordered pair of field kinds, byte aligned or behind a 3-bit field.
func C01_Pairs() { roundTrip(pairs(allGroups())) }

// C01_Nested: a pair of representative kinds inside every container.
func C01_Nested() {
	gs := few()
	roundTrip(containers(gs[sym.Choose("g0", len(gs))], gs[sym.Choose("g1", len(gs))]))
}

func C01_Triples_T() { roundTrip(triples(allGroups())) }

// C01_Expr: layouts that depend on expressions, before and after every other kind.
func C01_Expr() {
	restruct.EnableExprBeta()
	roundTrip(exprPair(few()[5:13]))
}

// exprPair picks an expression group and another one, in either order.
func exprPair(others []G) stD {
	gs := exprGroups()
	if sym.Thorough() {
		others = append(append([]G(nil), others...), gs...)
	} else {
		others = append(append([]G(nil), others...), gs[2], gs[9], gs[11], gs[14])
	}
	d := pairsOf(gs, others)
	if n := len(d.g); sym.Choose("swap", 2) == 1 {
		d.g[n-1], d.g[n-2] = d.g[n-2], d.g[n-1]
	}
	return d
}

// C01_ExprNested: the same inside containers.
func C01_ExprNested() {
	restruct.EnableExprBeta()
	gs := exprGroups()
	if sym.Thorough() {
		roundTrip(containers(gs[sym.Choose("g0", len(gs))], few()[sym.Choose("g1", len(few()))]))
		return
	}
	roundTrip(containers(gs[sym.Choose("g0", len(gs))]))
}

// C01_Skip: skips in front of slices and strings of every length, also empty ones.
func C01_Skip() {
	gs := skips()
	roundTrip(pairsOf(gs, append(few(), gs...)))
}

// skips are skips in front of everything with a variable size.
func skips() []G {
	in := st(one{d: dU8, skip: 1})
	return []G{
		vlen{cnt: dU8, e: dU8, max: 2, skip: 1}, vlen{cnt: dU16, e: in, max: 1, skip: 2}, vlen{cnt: dI8, str: true, max: 1, skip: 1},
		vlen{cnt: dU8, from: true, e: dU16, max: 1, skip: 3}, vlen{cnt: dU8, from: true, str: true, max: 1, skip: 1, mid: one{d: dU8, skip: 1}},
		one{d: arrD{n: 0, e: dU8}, skip: 1}, one{d: fsD{n: 0, e: dU8}, skip: 2}, one{d: cstrD{0}, skip: 1}, one{d: cstrD{2}, skip: 1}, one{d: fsD{n: 1, e: dU16}, skip: 1},
		one{d: ptrD{in}, skip: 1}, one{d: ptrD{st()}, skip: 1}, one{d: st(), skip: 2},
	}
}

// C01_Large: lists, strings, arrays and structs with many elements.
func C01_Large() { roundTrip(large(sizesMany()...)) }

// C01_Deep: values many levels down.
func C01_Deep() {
	ds := []D{dU16, s(tInt, "int16", 16), f64D{}, boolD{wire: "uint16", bits: 16, variant: true}, cstrD{2}, st(b1(u(tU8, "uint8:3", 3)), b1(dU16)), ptrD{cvD{}}, arrD{n: 2, e: dI32}}
	roundTrip(deepIn(ds[sym.Choose("d", len(ds))]))
}

// C01_Mixed: fields of every kind in combination, at several levels.
func C01_Mixed() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	roundTrip(mixed(1, 60))
}

// sliceD is an array with a slice wire type: its elements follow each other as in an array.
type sliceD struct{ arrD }

func (d sliceD) Wire() string {
	w := d.e.Wire()
	if w == "" {
		w = d.e.Type().String()
	}
	return "[]" + w
}

// C01_Slices: Go arrays whose wire type is a slice, which has no count.
func C01_Slices() {
	es := []D{dU8, dU16, s(tI64, "int8", 8), u(tU8, "uint32", 32), boolD{bits: 8}, f32D{}, c64D{}, arrD{n: 2, e: dU16}, ptrD{dU16}, arrD{n: 1, e: u(tU16, "uint8", 8)}}
	e := es[sym.Choose("e", len(es))]
	d := D(sliceD{arrD{n: sym.Choose("n", 4), e: e}})
	switch sym.Choose("in", 3) {
	case 1:
		d = st(b1(u(tU8, "uint8:3", 3)), b1(d))
	case 2:
		d = arrD{n: 2, e: d}
	}
	o, le := order("order")
	l := st(b1(d), b1(dU16))
	v := gen(l)
	w := encode(l, v.Elem(), le)
	sizes(v.Interface(), w)
	modelValue(o, v, w)
}

// longD is an array that has more elements on the wire; zero values make up for the rest.
type longD struct {
	arrD
	wire int
}

func (d longD) Wire() string {
	w := d.e.Wire()
	if w == "" {
		w = d.e.Type().String()
	}
	return "[" + strconv.Itoa(d.wire) + "]" + w
}
func (d longD) Enc(w *wr, v reflect.Value, le bool) {
	d.arrD.Enc(w, v, le)
	for i := d.n; i < d.wire; i++ {
		d.e.Enc(w, reflect.New(d.e.Type()).Elem(), le)
	}
}

// C01_Longer: Go arrays that are shorter than their wire type.
func C01_Longer() {
	es := []D{dU8, dU16, s(tI64, "int8", 8), u(tU8, "uint32", 32), boolD{bits: 8}, f32D{}, c64D{}, arrD{n: 2, e: dU16}, arrD{n: 1, e: u(tU16, "uint8", 8)}}
	n := sym.Choose("n", 3)
	d := D(longD{arrD{n: n, e: es[sym.Choose("e", len(es))]}, n + sym.Choose("more", 3)})
	switch sym.Choose("in", 3) {
	case 1:
		d = st(b1(u(tU8, "uint8:3", 3)), b1(d))
	case 2:
		d = arrD{n: 2, e: d}
	}
	o, le := order("order")
	l := st(b1(d), b1(dU16))
	v := gen(l)
	w := encode(l, v.Elem(), le)
	sizes(v.Interface(), w)
	modelValue(o, v, w)
}

package h

import (
	"reflect"
	"strconv"

	"verif/harness/sym"
)

// manyG is a group with n elements, bytes or fields. A few of them are symbolic, the others follow a pattern.
type manyG struct{ kind, n int }

const kindsMany = 11

// bit8 is an element that does not end at a byte.
type bit8 struct {
	A uint8 `struct:"uint8:3"`
	B uint8 `struct:"uint8:6"`
}

func (g manyG) Fields(p string) []reflect.StructField {
	n := strconv.Itoa(g.n)
	switch g.kind {
	case 0:
		return []reflect.StructField{sf(p+"N", tU16, "sizeof="+p), sf(p, tof([]byte(nil)), "")}
	case 1:
		return []reflect.StructField{sf(p+"N", tU32, "uint16"), sf(p, tStr, "sizefrom="+p+"N")}
	case 2:
		return []reflect.StructField{sf(p+"N", tU64, "uint64"), sf(p, tof([]uint16(nil)), "sizefrom="+p+"N")}
	case 3:
		return []reflect.StructField{sf(p, reflect.ArrayOf(g.n, tU8), "")}
	case 4:
		return []reflect.StructField{sf(p, tof([]byte(nil)), "["+n+"]byte")}
	case 5:
		return []reflect.StructField{sf(p, tStr, "["+n+"]byte")}
	case 6:
		return []reflect.StructField{sf(p+"N", tU16, "sizeof="+p), sf(p, tof([]bit8(nil)), "")}
	case 7:
		return []reflect.StructField{sf("_", reflect.ArrayOf(g.n, tU8), ""), sf(p, tU8, "")}
	case 8:
		return []reflect.StructField{sf(p, tU8, "skip="+n)}
	case 9:
		return []reflect.StructField{sf(p, reflect.ArrayOf(g.n, tof(false)), "")}
	}
	fs := []reflect.StructField{}
	for i := 0; i < g.n; i++ {
		t := tU8
		if i%5 == 3 {
			t = tU16
		}
		fs = append(fs, sf(p+"F"+strconv.Itoa(i), t, ""))
	}
	return fs
}

// special are the indices whose content is symbolic.
func (g manyG) special(i int) bool {
	if g.kind == 9 {
		return i == g.n-2
	}
	return i < 1 || i >= g.n-2 || i&(i+1) == 0 && i > 60
}

func (g manyG) byte(p string, i int) uint8 {
	if g.special(i) {
		return sym.U8(p + strconv.Itoa(i))
	}
	return uint8(i*37+i>>8) | 1
}

func (g manyG) Gen(p string, v reflect.Value) {
	if c := v.FieldByName(p + "N"); c.IsValid() {
		c.SetUint(uint64(g.n))
	}
	bs := make([]byte, g.n)
	for i := range bs {
		bs[i] = g.byte(p, i)
	}
	f := v.FieldByName(p)
	switch g.kind {
	case 0, 4:
		f.SetBytes(bs)
	case 1:
		f.SetString(string(bs))
	case 2:
		x := make([]uint16, g.n)
		for i, b := range bs {
			x[i] = uint16(b)<<8 | uint16(i)&0xff
		}
		f.Set(reflect.ValueOf(x))
	case 3:
		reflect.Copy(f, reflect.ValueOf(bs))
	case 5:
		for _, b := range bs {
			sym.Assume(b != 0)
		}
		f.SetString(string(bs))
	case 6:
		x := make([]bit8, g.n)
		for i, b := range bs {
			x[i] = bit8{b >> 5, b & 63}
		}
		f.Set(reflect.ValueOf(x))
	case 7, 8:
		f.SetUint(uint64(bs[0]))
	case 9:
		for i, b := range bs {
			f.Index(i).SetBool(b&2 != 0)
		}
	default:
		for i, b := range bs {
			x := uint64(b)
			if i%5 == 3 {
				x = x<<8 | uint64(i)&0xff
			}
			v.FieldByName(p + "F" + strconv.Itoa(i)).SetUint(x)
		}
	}
}

func (g manyG) Enc(w *wr, p string, v reflect.Value, le bool) {
	f := v.FieldByName(p)
	switch g.kind {
	case 0, 6:
		w.num(uint64(f.Len()), 16, le)
	case 1:
		w.num(uint64(f.Len()), 16, le)
	case 2:
		w.num(uint64(f.Len()), 64, le)
	case 7, 8:
		w.zero(8 * g.n)
		w.put(f.Uint(), 8)
		return
	}
	for i := 0; i < g.n; i++ {
		switch g.kind {
		case 2:
			w.num(f.Index(i).Uint(), 16, le)
		case 6:
			w.put(f.Index(i).Field(0).Uint(), 3)
			w.put(f.Index(i).Field(1).Uint(), 6)
		case 9:
			w.put(uint64(b2i(f.Index(i).Bool())), 8)
		case 10:
			x := v.FieldByName(p + "F" + strconv.Itoa(i))
			w.num(x.Uint(), 8*int(x.Type().Size()), le)
		default:
			w.put(uint64(f.Index(i).Uint()), 8)
		}
	}
}

// large is a layout with many elements, behind a field that may leave it unaligned.
func large(sizes ...int) stD {
	k := sym.Choose("kind", kindsMany)
	n := sizes[sym.Choose("n", len(sizes))]
	if k == 10 && n > 300 {
		n = 300
	}
	return st(b1([]D{dU8, u(tU8, "uint8:3", 3)}[sym.Choose("first", 2)]), manyG{k, n}, b1(dU16))
}

// sizesMany are numbers of elements around those where an implementation may change its ways.
func sizesMany() []int {
	if sym.Thorough() {
		return []int{63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 4096, 4097}
	}
	return []int{256, 520}
}

// nested wraps d into n levels of structs, pointers, arrays and slices; every level has bytes of its own behind it,
// some a byte order.
func nested(n, seed int, d D) D {
	for i := 0; i < n; i++ {
		switch (i*seed + seed) % 7 {
		case 0:
			d = st(b1(d), b1(dU8))
		case 1:
			d = ptrD{d}
		case 2:
			d = arrD{n: 1, e: st(one{d: d, order: 'L'})}
		case 3:
			d = st(b1(dU16), vlen1{d})
		case 4:
			d = st(one{d: d, order: 'B', skip: 1})
		case 5:
			d = st(b1(u(tU8, "uint8:4", 4)), b1(u(tU8, "uint8:4", 4)), b1(ptrD{d}))
		case 6:
			d = st(b1(st(b1(st(b1(d))))))
		}
	}
	return d
}

// vlen1 is a slice of one element behind its count.
type vlen1 struct{ e D }

func (g vlen1) Fields(p string) []reflect.StructField {
	return vlen{cnt: dU8, e: g.e}.Fields(p)
}
func (g vlen1) Gen(p string, v reflect.Value) {
	v.FieldByName(p + "N").SetUint(1)
	f := v.FieldByName(p + "V")
	f.Set(reflect.MakeSlice(f.Type(), 1, 1))
	g.e.Gen(p+"V", f.Index(0))
}
func (g vlen1) Enc(w *wr, p string, v reflect.Value, le bool) {
	w.put(1, 8)
	g.e.Enc(w, v.FieldByName(p+"V").Index(0), le)
}

// deepIn picks a depth and a way of nesting for d.
func deepIn(d D) stD {
	ns := []int{6, 13, 30}
	if sym.Thorough() {
		ns = []int{5, 9, 10, 17, 33, 40, 65}
	}
	return st(b1(nested(ns[sym.Choose("depth", len(ns))], 1+sym.Choose("way", 6), d)), b1(dU16))
}

// repD are n elements of e, of which three are different, in no simple pattern.
type repD struct {
	n    int
	e    D
	form int
}

const formsRep = 4

func (g repD) at(i int) int { return (i*i + i/5) % 3 }

func (g repD) Fields(p string) []reflect.StructField {
	t, w := reflect.SliceOf(g.e.Type()), g.e.Wire()
	n := strconv.Itoa(g.n)
	lw := ""
	if w != "" {
		lw = "[]" + w
	}
	switch g.form {
	case 0:
		return []reflect.StructField{sf(p+"N", tU16, "sizeof="+p), sf(p, t, lw)}
	case 1:
		if w != "" {
			w = "[" + n + "]" + w
		}
		return []reflect.StructField{sf(p, reflect.ArrayOf(g.n, g.e.Type()), w)}
	case 2:
		return []reflect.StructField{sf(p+"N", tI16, ""), sf(p, t, join(lw, "size="+p+"N + 1"))}
	}
	return []reflect.StructField{sf(p, t, join(lw, "while=!_eof"))}
}

func (g repD) Gen(p string, v reflect.Value) {
	tm := reflect.New(reflect.ArrayOf(3, g.e.Type())).Elem()
	for i := 0; i < 3; i++ {
		g.e.Gen(p+strconv.Itoa(i), tm.Index(i))
	}
	f := v.FieldByName(p)
	if f.Kind() == reflect.Slice {
		f.Set(reflect.MakeSlice(f.Type(), g.n, g.n))
	}
	for i := 0; i < g.n; i++ {
		f.Index(i).Set(tm.Index(g.at(i)))
	}
	switch g.form {
	case 0:
		v.FieldByName(p + "N").SetUint(uint64(g.n))
	case 2:
		v.FieldByName(p + "N").SetInt(int64(g.n - 1))
	}
}

func (g repD) Enc(w *wr, p string, v reflect.Value, le bool) {
	switch g.form {
	case 0:
		w.num(uint64(g.n), 16, le)
	case 2:
		w.num(uint64(g.n-1), 16, le)
	}
	for i := 0; i < g.n; i++ {
		g.e.Enc(w, v.FieldByName(p).Index(i), le)
	}
}

// manyOf is a layout with many elements of one of the kinds.
func manyOf(es []D, sizes ...int) stD {
	e := es[sym.Choose("e", len(es))]
	g := repD{n: sizes[sym.Choose("n", len(sizes))], e: e, form: sym.Choose("form", formsRep)}
	if g.form == 3 {
		return st(b1(dU8), g) // up to the end
	}
	return st(b1(dU8), g, b1(dU16))
}

// sizesRep are numbers of elements.
func sizesRep() []int {
	if sym.Thorough() {
		return []int{9, 17, 33, 65, 129, 257, 300, 513}
	}
	return []int{17, 70}
}

package h

import (
	"encoding/binary"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

type (
	nbyte  byte
	nbytes []byte
	nstr   string
	narr   [2]byte
	nbs    []nbyte
)

// str27 is a string of any content in n bytes.
type str27 struct {
	n int
	t reflect.Type
}

func (d str27) Type() reflect.Type { return d.t }
func (d str27) Wire() string       { return "[" + strconv.Itoa(d.n) + "]byte" }
func (d str27) Gen(name string, v reflect.Value) {
	v.SetString(sym.Str(name, sym.Choose(name+".len", d.n+1)))
}
func (d str27) Enc(w *wr, v reflect.Value, le bool) { cstrD{d.n}.Enc(w, v, le) }

// by27 is a byte slice of any length up to n in n bytes.
type by27 struct {
	n int
	t reflect.Type
}

func (d by27) Type() reflect.Type { return d.t }
func (d by27) Wire() string {
	if d.t.Elem() != tU8 {
		return "[" + strconv.Itoa(d.n) + "]uint8"
	}
	return "[" + strconv.Itoa(d.n) + "]byte"
}
func (d by27) Gen(name string, v reflect.Value) {
	n := sym.Choose(name+".len", d.n+1)
	v.Set(reflect.MakeSlice(d.t, n, n))
	for i := 0; i < n; i++ {
		v.Index(i).SetUint(uint64(sym.U8(name)))
	}
}
func (d by27) Enc(w *wr, v reflect.Value, le bool) {
	for i := 0; i < d.n; i++ {
		if i < v.Len() {
			w.put(v.Index(i).Uint(), 8)
		} else {
			w.put(0, 8)
		}
	}
}

// canon27 turns a value into the one its bytes unpack to.
func canon27(d D, v reflect.Value) {
	switch d := d.(type) {
	case str27:
		s := v.String()
		if i := strings.IndexByte(s, 0); i >= 0 {
			v.SetString(s[:i])
		}
	case by27:
		n := reflect.MakeSlice(d.t, d.n, d.n)
		reflect.Copy(n, v)
		v.Set(n)
	case arrD:
		for i := 0; i < v.Len(); i++ {
			canon27(d.e, v.Index(i))
		}
	case fsD:
		for i := 0; i < v.Len(); i++ {
			canon27(d.e, v.Index(i))
		}
	case ptrD:
		canon27(d.e, v.Elem())
	case stD:
		for i, g := range d.g {
			switch g := g.(type) {
			case one:
				canon27(g.d, v.Field(i))
			}
		}
	}
}

// kinds27 are fields of bytes and strings of fixed size.
func kinds27() []D {
	return []D{
		str27{0, tStr}, str27{1, tStr}, str27{2, tStr}, str27{3, tStr}, str27{2, tof(nstr(""))}, str27{5, tStr},
		arrD{n: 2, e: str27{2, tStr}}, fsD{n: 2, e: str27{1, tStr}}, ptrD{str27{2, tStr}}, ptrD{ptrD{str27{1, tStr}}}, arrD{n: 2, e: ptrD{str27{1, tStr}}}, arrD{n: 1, e: arrD{n: 2, e: str27{1, tStr}}},
		arrD{n: 0, e: dU8}, arrD{n: 1, e: dU8}, arrD{n: 3, e: dU8}, arrD{n: 2, e: dI8}, arrD{n: 2, e: arrD{n: 2, e: dU8}}, ptrD{arrD{n: 2, e: dU8}}, arrD{n: 2, e: u(tof(nbyte(0)), "", 8)}, u8s(tof(narr{})),
		by27{0, tof([]byte{})}, by27{3, tof([]byte{})}, by27{2, tof(nbytes{})}, by27{2, tof(nbs{})}, ptrD{by27{2, tof([]byte{})}}, arrD{n: 2, e: by27{2, tof([]byte{})}},
		st(one{d: str27{2, tStr}}), arrD{n: 2, e: st(one{d: str27{1, tStr}}, one{d: by27{1, tof([]byte{})}})},
	}
}

// u8s is a named array of bytes.
type arrT struct {
	arrD
	t reflect.Type
}

func (d arrT) Type() reflect.Type { return d.t }
func u8s(t reflect.Type) D        { return arrT{arrD{n: t.Len(), e: dU8}, t} }

// at27 checks the layout at a bit offset.
func at27(off int, d stD) {
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	sizes(v.Interface(), w)
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "the bytes, padded with NULs")
	want := clone(v.Elem())
	canon27(d, want)
	for i := 0; i < 2; i++ {
		x := reflect.New(d.Type())
		err = restruct.Unpack(w.b, o, x.Interface())
		sym.Observe("x", x.Interface())
		sym.Assert(err == nil, "Unpack succeeds")
		sym.Assert(sym.Same(x.Elem().Interface(), want.Interface()), "the bytes up to the first NUL")
		w.b = append(w.b, sym.U8("tail")) // and with more data behind it
	}
}

func pre27(off int, g ...G) stD {
	if off > 0 {
		g = append([]G{b1(u(tU8, "uint8:"+strconv.Itoa(off), off))}, g...)
	}
	return stD{g}
}

// C27_Fixed: every fixed-size kind at every bit offset.
func C27_Fixed() {
	ks := kinds27()
	d := ks[sym.Choose("kind", len(ks))]
	off := sym.Choose("off", 8)
	tag := []byte{0, 'B', 'L'}[sym.Choose("tag", 3)]
	skip := sym.Choose("skip", 2)
	if !sym.Thorough() && (tag != 0 || skip != 0) && off%5 != 3 {
		return
	}
	at27(off, pre27(off, one{d: d, order: tag, skip: skip}, b1(dU8)))
}

// C27_Last: at the end of the data, with nothing behind.
func C27_Last() {
	ks := kinds27()
	d := ks[sym.Choose("kind", len(ks))]
	off := sym.Choose("off", 8)
	at27(off, pre27(off, b1(d)))
}

// C27_Two: two of them behind one another, and bitfields after them.
func C27_Two() {
	ks := kinds27()
	i, j := sym.Choose("k0", len(ks)), sym.Choose("k1", len(ks))
	off := sym.Choose("off", 3) * 3
	if !sym.Thorough() && (i*5+j+off)%23 != 0 {
		return
	}
	at27(off, pre27(off, b1(ks[i]), b1(u(tU8, "uint8:2", 2)), b1(ks[j])))
}

// var27 is a byte slice or string with a count.
func var27(k int) G {
	cnt := []numD{dU8, s(tI32, "int16", 16), u(tU8, "uint8:3", 3)}[k%3]
	from := k/3%2 == 1
	switch k / 6 {
	case 0:
		return vlen{cnt: cnt, from: from, e: dU8, max: 3}
	case 1:
		return vlen{cnt: cnt, from: from, str: true, max: 3}
	case 2:
		return vlen{cnt: cnt, from: from, str: true, wire: "[]byte", max: 2}
	case 3:
		return vlen{cnt: cnt, from: from, str: true, wire: "string", max: 2}
	case 4:
		return vlen{cnt: cnt, from: from, e: dI8, max: 2}
	case 5:
		return vlen{cnt: cnt, from: from, e: u(tof(nbyte(0)), "", 8), max: 2}
	case 6:
		return vlen{cnt: cnt, from: from, e: dU8, wire: "[]byte", max: 2}
	case 7:
		return vlen{cnt: cnt, from: from, e: u(tU16, "uint8", 8), max: 2}
	}
	return vlen{cnt: cnt, from: from, e: arrD{n: 2, e: dU8}, max: 2}
}

// C27_Var: counted bytes and strings at every bit offset.
func C27_Var() {
	k, off := sym.Choose("kind", 54), sym.Choose("off", 8)
	if !sym.Thorough() && (k+off)%3 != 0 {
		return
	}
	at27(off, pre27(off, var27(k), b1(u(tU8, "uint8:2", 2)), b1(dU16)))
}

// C27_Strings: counted slices of fixed-size strings.
func C27_Strings() {
	off := sym.Choose("off", 8)
	n := sym.Choose("n", 3)
	d := pre27(off, vlen{cnt: dU8, e: cstrD{n}, max: 2}, b1(dU8))
	at27(off, d)
}

// C27_Raw: whatever the bytes are, they are read exactly, and packed back.
func C27_Raw() {
	off := sym.Choose("off", 8)
	n := sym.Choose("n", 4)
	k := sym.Choose("kind", 7)
	var f reflect.StructField
	ns := strconv.Itoa(n)
	switch k {
	case 0:
		f = sf("S", tStr, "["+ns+"]byte")
	case 1:
		f = sf("S", tof([]byte{}), "["+ns+"]byte")
	case 2:
		f = sf("S", reflect.ArrayOf(n, tU8), "")
	case 3:
		f = sf("S", tof([]byte{}), "size="+ns)
	case 4:
		f = sf("S", tStr, "size="+ns)
	case 5:
		f = sf("S", reflect.ArrayOf(n, tof(nbyte(0))), "")
	case 6:
		f = sf("S", tof(nbytes{}), "size="+ns)
	}
	restruct.EnableExprBeta()
	fs := []reflect.StructField{f, sf("G", tU8, "")}
	if off > 0 {
		fs = append([]reflect.StructField{sf("P", tU8, "uint8:"+strconv.Itoa(off))}, fs...)
	}
	t := reflect.StructOf(fs)
	o, _ := order("order")
	data := sym.Bytes("data", n+1+(off+7)/8)
	in := append([]byte(nil), data...)

	get := func(i int) byte {
		if i%8 == 0 {
			return data[i/8]
		}
		return data[i/8]<<uint(i%8) | data[i/8+1]>>uint(8-i%8)
	}

	x := reflect.New(t)
	err := restruct.Unpack(data, o, x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	sym.Observe("x", x.Interface())
	got := x.Elem().FieldByName("S")
	if k == 0 {
		l := 0
		for l < n && get(off+8*l) != 0 {
			l++
		}
		sym.Assert(got.Len() == l, "the length")
	} else {
		sym.Assert(got.Len() == n, "the length")
	}
	for i := 0; i < got.Len(); i++ {
		sym.Assert(byte(got.Index(i).Uint()) == get(off+8*i), "a byte")
	}
	sym.Assert(byte(x.Elem().FieldByName("G").Uint()) == get(off+8*n), "what follows")
	sym.Assert(sym.EqBytes(data, in), "the data is not changed")
	if k == 0 {
		return
	}
	if off > 0 {
		data[len(data)-1] &= 0xff << uint(8-off)
	}
	out, err := restruct.Pack(o, x.Interface())
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(out, data), "the same bytes")
}

// C27_Short: data that ends within the bytes is an error.
func C27_Short() {
	off := sym.Choose("off", 8)
	n := 1 + sym.Choose("n", 3)
	ns := strconv.Itoa(n)
	fs := []reflect.StructField{[]reflect.StructField{sf("S", tStr, "["+ns+"]byte"), sf("S", tof([]byte{}), "["+ns+"]byte"), sf("S", reflect.ArrayOf(n, tU8), ""),
		sf("S", tof([]byte{}), "size="+ns), sf("S", tStr, "size="+ns), sf("S", tof([]string{}), "["+ns+"][1]byte")}[sym.Choose("kind", 6)]}
	restruct.EnableExprBeta()
	if off > 0 {
		fs = append([]reflect.StructField{sf("P", tU8, "uint8:"+strconv.Itoa(off))}, fs...)
	}
	o, _ := order("order")
	full := n + (off+7)/8
	data := sym.Bytes("data", sym.Choose("len", full))
	x := reflect.New(reflect.StructOf(fs))
	sym.Assert(restruct.Unpack(data, o, x.Interface()) != nil, "too short")
}

// C27_Long: more bytes than there is room for is an error, whatever else is in the struct.
func C27_Long() {
	off := sym.Choose("off", 8)
	n := sym.Choose("n", 4)
	extra := 1 + sym.Choose("extra", 2)
	ns := strconv.Itoa(n)
	long := sym.Str("s", n+extra)
	var f reflect.StructField
	var val reflect.Value
	switch sym.Choose("kind", 6) {
	case 0:
		f, val = sf("S", tStr, "["+ns+"]byte"), reflect.ValueOf(long)
	case 1:
		f, val = sf("S", tof([]byte{}), "["+ns+"]byte"), reflect.ValueOf([]byte(long))
	case 2:
		f, val = sf("S", tof([2]string{}), "[2]["+ns+"]byte"), reflect.ValueOf([2]string{"", long})
	case 3:
		f, val = sf("S", tof(&long), "*["+ns+"]byte"), reflect.ValueOf(&long)
	case 4:
		f, val = sf("S", tof([2]string{}), "[2]["+ns+"]byte"), reflect.ValueOf([2]string{long, ""})
	case 5:
		f, val = sf("S", tof([]string{}), "[1]["+ns+"]byte"), reflect.ValueOf([]string{long})
	}
	fs := []reflect.StructField{f}
	if off > 0 {
		fs = append([]reflect.StructField{sf("P", tU8, "uint8:"+strconv.Itoa(off))}, fs...)
	}
	switch sym.Choose("after", 8) {
	case 1:
		fs = append(fs, sf("G", tU32, ""))
	case 2:
		fs = append(fs, sf("_", tU32, ""))
	case 3:
		fs = append(fs, sf("G", tof([4]byte{}), ""))
	case 4:
		fs = append(fs, sf("G", tof(struct{}{}), "skip=4"))
	case 5:
		fs = append(fs, sf("G", tStr, "[4]byte"))
	case 6:
		fs = append(fs, sf("G", tof(new(uint32)), ""))
	case 7:
		fs = append(fs, sf("N", tU8, "sizeof=G"), sf("G", tof([]byte{}), ""))
	}
	v := reflect.New(reflect.StructOf(fs))
	v.Elem().FieldByName("S").Set(val)
	if g := v.Elem().FieldByName("G"); g.IsValid() && g.Kind() == reflect.Ptr {
		g.Set(reflect.ValueOf(new(uint32)))
	}
	o, _ := order("order")
	data, err := restruct.Pack(o, v.Interface())
	sym.Assert(err != nil, "too long")
	sym.Assert(data == nil, "no bytes")
}

// C27_While: bytes up to the end of the data.
func C27_While() {
	restruct.EnableExprBeta()
	type T struct {
		P uint16 `struct:"uint16,little"`
		S []byte `struct:"while=!_eof"`
	}
	n := sym.Choose("n", 5)
	data := sym.Bytes("data", 2+n)
	var v T
	o, _ := order("order")
	sym.Assert(restruct.Unpack(data, o, &v) == nil, "Unpack succeeds")
	sym.Assert(sym.EqBytes(v.S, data[2:]), "all the rest")
	sym.Assert(v.P == binary.LittleEndian.Uint16(data), "what comes before")
	out, err := restruct.Pack(o, &v)
	sym.Assert(err == nil && sym.EqBytes(out, data), "the same bytes")
}

// C27_Alias: the decoded bytes are those of the data at the time, in strings and arrays for good.
func C27_Alias() {
	type T struct {
		S string `struct:"[2]byte"`
		A [2]byte
		N uint8 `struct:"sizeof=V"`
		V string
		P uint8 `struct:"uint8:4"`
		Q uint8 `struct:"uint8:4"`
	}
	data := sym.Bytes("data", 8)
	in := append([]byte(nil), data...)
	sym.Assume(data[4] == 2)
	sym.Assume(sym.And(data[0] != 0, data[1] != 0))
	var v T
	o, _ := order("order")
	sym.Assert(restruct.Unpack(data, o, &v) == nil, "Unpack succeeds")
	for i := range data {
		data[i] ^= 0xff
	}
	sym.Assert(sym.EqBytes([]byte(v.S), in[:2]), "the string keeps its bytes")
	sym.Assert(sym.EqBytes(v.A[:], in[2:4]), "the array keeps its bytes")
	sym.Assert(sym.EqBytes([]byte(v.V), in[5:7]), "the counted string keeps its bytes")
	sym.Assert(v.P<<4|v.Q == in[7], "the bits")
}

// C27_Size: with size=, the number of bytes must be the size, whatever the bytes are.
func C27_Size() {
	restruct.EnableExprBeta()
	ts := []reflect.Type{tStr, tof([]byte{}), tof(nstr("")), tof(nbytes{}), tof([]int8{}), tof(nbs{})}
	k := sym.Choose("kind", len(ts))
	wire := ""
	if k < 2 {
		wire = []string{"", "[]byte"}[sym.Choose("wire", 2)]
	}
	off := sym.Choose("off", 2) * 3
	fs := []reflect.StructField{sf("N", tU8, ""), sf("S", ts[k], join(wire, "size=N")), sf("Z", tU8, "")}
	if off > 0 {
		fs = append([]reflect.StructField{sf("P", tU8, "uint8:3")}, fs...)
	}
	v := reflect.New(reflect.StructOf(fs))
	n := sym.U8("n")
	l := sym.Choose("len", 4)
	v.Elem().FieldByName("N").SetUint(uint64(n))
	b := sym.Bytes("s", l)
	f := v.Elem().FieldByName("S")
	w := &wr{}
	w.put(0, off)
	w.put(uint64(n), 8)
	if f.Kind() == reflect.String {
		f.SetString(string(b))
	} else {
		f.Set(reflect.MakeSlice(ts[k], l, l))
	}
	for i := 0; i < l; i++ {
		if f.Kind() == reflect.Slice {
			if f.Index(i).CanInt() {
				f.Index(i).SetInt(int64(int8(b[i])))
			} else {
				f.Index(i).SetUint(uint64(b[i]))
			}
		}
		w.put(uint64(b[i]), 8)
	}
	z := sym.U8("z")
	v.Elem().FieldByName("Z").SetUint(uint64(z))
	w.put(uint64(z), 8)
	o, _ := order("order")
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	if int(n) != l {
		sym.Cover("mismatch")
		sym.Assert(err != nil, "a number of bytes other than the size is an error")
		return
	}
	sym.Cover("match")
	sym.Assert(err == nil && sym.EqBytes(data, w.b), "exactly these bytes")
	x := reflect.New(v.Type().Elem())
	err = restruct.Unpack(data, o, x.Interface())
	sym.Observe("x", x.Interface())
	sym.Assert(err == nil && sym.Same(x.Interface(), v.Interface()), "the bytes come back")
}

// C27_Wide: longer strings, byte slices and arrays, filled up to their end or nearly.
func C27_Wide() {
	ns := []int{8, 9, 15, 16, 17, 20, 24, 31, 32, 33, 63, 64, 65}
	n := ns[sym.Choose("n", len(ns))]
	off := sym.Choose("off", 2) * 3
	l := n - sym.Choose("free", 3)
	k := sym.Choose("kind", 6)
	var t reflect.Type
	wire := "[" + strconv.Itoa(n) + "]byte"
	switch k {
	case 0:
		t = tStr
	case 1:
		t = tof([]byte{})
	case 2:
		t, wire = reflect.ArrayOf(n, tU8), ""
	case 3:
		t = reflect.ArrayOf(1, tStr)
		wire = "[1]" + wire
	case 4:
		t, wire = tStr, ""
	case 5:
		t, wire = tof([]byte{}), ""
	}
	fs := []reflect.StructField{sf("X", t, wire), sf("Z", tU8, "")}
	if k >= 4 {
		fs[0] = sf("X", t, "sizefrom=N")
	}
	fs = append([]reflect.StructField{sf("N", tU8, "")}, fs...)
	if off > 0 {
		fs = append([]reflect.StructField{sf("P", tU8, "uint8:"+strconv.Itoa(off))}, fs...)
	}
	v := reflect.New(reflect.StructOf(fs))
	o, _ := order("order")
	w := &wr{}
	if off > 0 {
		p := sym.U8("p") & (1<<uint(off) - 1)
		v.Elem().FieldByName("P").SetUint(uint64(p))
		w.put(uint64(p), off)
	}
	x := v.Elem().FieldByName("X")
	cnt := sym.U8("cnt")
	if k >= 4 {
		cnt = uint8(l)
	}
	v.Elem().FieldByName("N").SetUint(uint64(cnt))
	w.put(uint64(cnt), 8)
	s := sym.Str("s", l)
	if k == 0 || k == 3 { // NULs are C27_Raw's; only the last byte may be one here
		for i := 0; i+1 < l; i++ {
			sym.Assume(s[i] != 0)
		}
	}
	for i := 0; i < n && (i < l || k < 4); i++ {
		if i < l {
			w.put(uint64(s[i]), 8)
		} else {
			w.put(0, 8)
		}
	}
	switch k {
	case 0, 4:
		x.SetString(s)
	case 1, 5:
		x.SetBytes([]byte(s))
	case 2:
		reflect.Copy(x, reflect.ValueOf([]byte(s)))
	case 3:
		x.Index(0).SetString(s)
	}
	z := sym.U8("z")
	v.Elem().FieldByName("Z").SetUint(uint64(z))
	w.put(uint64(z), 8)
	sizes(v.Interface(), w)
	data, err := restruct.Pack(o, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "the bytes, padded with NULs")
	y := reflect.New(v.Elem().Type())
	err = restruct.Unpack(w.b, o, y.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	switch k {
	case 0, 3:
		if s[l-1] == 0 {
			s = s[:l-1]
		}
		if k == 0 {
			x.SetString(s)
		} else {
			x.Index(0).SetString(s)
		}
	case 1:
		b := make([]byte, n)
		copy(b, s)
		x.SetBytes(b)
	}
	sym.Observe("y", y.Interface())
	sym.Assert(sym.Same(y.Interface(), v.Interface()), "the bytes up to the first NUL")
}

// C27_Large: long strings and byte slices, with a NUL in places.
func C27_Large() {
	n := []int{256, 300, 1000}[sym.Choose("size", 2+b2i(sym.Thorough()))]
	at := []int{-1, 0, 1, 100, 254, 255, 256, 257, n - 1}[sym.Choose("nul", 9)]
	str := sym.Choose("str", 2) == 0
	o, _ := order("order")
	off := sym.Choose("off", 2)
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(i) | 1
	}
	b[n/2], b[n-1] = sym.U8("mid")|1, sym.U8("last")|1
	if at >= n {
		sym.Stop()
	}
	if at >= 0 {
		b[at] = 0
	}
	t := tof([]byte(nil))
	if str {
		t = tStr
	}
	st := reflect.StructOf([]reflect.StructField{sf("A", tU8, []string{"", "uint8:3"}[off]), sf("S", t, "["+strconv.Itoa(n)+"]byte"), sf("Z", tU16, "")})
	v := reflect.New(st)
	v.Elem().Field(0).SetUint(uint64(sym.U8("A") & 7))
	v.Elem().Field(2).SetUint(uint64(sym.U16("Z")))
	if str {
		v.Elem().Field(1).SetString(string(b))
	} else {
		v.Elem().Field(1).SetBytes(b)
	}
	w := &wr{}
	w.put(v.Elem().Field(0).Uint(), []int{8, 3}[off])
	for _, c := range b {
		w.put(uint64(c), 8)
	}
	w.num(v.Elem().Field(2).Uint(), 16, o == binary.LittleEndian)
	data, err := restruct.Pack(o, v.Interface())
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "every byte is packed")
	x := reflect.New(st)
	err = restruct.Unpack(w.b, o, x.Interface())
	sym.Assert(err == nil, "Unpack succeeds")
	if str && at >= 0 {
		v.Elem().Field(1).SetString(string(b[:at]))
	}
	sym.Assert(sym.Same(x.Interface(), v.Interface()), "a string ends at its first NUL, bytes do not")
	if str {
		v.Elem().Field(1).SetString(string(b) + "a")
	} else {
		v.Elem().Field(1).SetBytes(append(b, 1))
	}
	_, err = restruct.Pack(o, v.Interface())
	sym.Assert(err != nil, "a longer one is an error")
}

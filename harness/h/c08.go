package h

import (
	"encoding/binary"
	"reflect"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// arbitrary unpacks any bytes into a fresh target and checks what holds whatever happens.
func arbitrary(t reflect.Type, data []byte) {
	o, _ := order("order")
	// the input sits in a larger buffer: reading past it would see the marker bytes
	n := len(data)
	big := make([]byte, n+16)
	copy(big, data)
	for i := n; i < len(big); i++ {
		big[i] = 0xa5
	}
	v := reflect.New(t)
	err := restruct.Unpack(big[:n], o, v.Interface())
	sym.Observe("err", err)
	sym.Assert(sym.EqBytes(big[:n], data), "Unpack does not write to its input")
	ok := true
	for i := n; i < len(big); i++ {
		ok = ok && big[i] == 0xa5
	}
	sym.Assert(ok, "Unpack does not write behind its input")
	if err != nil {
		sym.Cover("error")
		return
	}
	sym.Cover("nil")
	sym.Observe("v", v.Interface())
	// nothing past the end was read: an input with another tail, or none at all, gives the same.
	exactv := reflect.New(t)
	err = restruct.Unpack(append(make([]byte, 0, n), data...)[:n:n], o, exactv.Interface())
	sym.Assert(err == nil, "the same bytes in an exact buffer are accepted")
	sym.Assert(sym.Same(v.Interface(), exactv.Interface()), "the bytes behind the input do not matter")
}

// need checks that data accepted is long enough for what was decoded.
func need(d D, data []byte) {
	o, le := order("order")
	v := reflect.New(d.Type())
	err := restruct.Unpack(data[:len(data):len(data)], o, v.Interface())
	sym.Observe("err", err)
	if err != nil {
		sym.Cover("error")
		return
	}
	sym.Cover("nil")
	sym.Observe("v", v.Interface())
	w := encode(d, v.Elem(), le)
	sym.Assert(w.last <= 8*len(data), "a nil error means there was data for every field")
}

// C08_Pairs: every pair of field kinds on every truncation of arbitrary data.
func C08_Pairs() {
	gs := few()
	if sym.Thorough() {
		gs = allGroups()
	}
	d := pairs(gs)
	max := 8
	if sym.Thorough() {
		max = 12
	}
	need(d, sym.Bytes("data", sym.Choose("n", max)))
}

// C08_Short: truncations of valid encodings always fail while a data bit is missing.
func C08_Short() {
	gs := allGroups()
	last := append(gs[:12:12], pad{t: tU8, bits: 8}, pad{t: tof([3]byte{}), bits: 24}, pad{t: tU32, bits: 32}, pad{t: tU8, wire: "uint8:5", bits: 5}, hidden{t: tU16})
	d := st(gs[sym.Choose("g0", len(gs))], last[sym.Choose("g1", len(last))])
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	k := sym.Choose("cut", len(w.b)+1)
	x := reflect.New(d.Type())
	err := restruct.Unpack(w.b[:k:k], o, x.Interface())
	sym.Observe("err", err)
	if 8*k < w.last {
		sym.Assert(err != nil, "missing data is an error")
		sym.Cover("short")
	} else if k < w.n/8 {
		sym.Assert(err != nil, "missing padding bytes are an error")
		sym.Cover("padding")
	}
	if k == len(w.b) {
		sym.Assert(err == nil, "complete data is accepted")
	}
}

type c8in struct {
	N uint8 `struct:"sizeof=B"`
	B []uint16
	S string `struct:"[3]byte"`
}

type c8counts struct {
	A uint16 `struct:"sizeof=X"`
	X []c8in
	L int32 `struct:"sizeof=S"`
	S string
	M int64 `struct:"uint64:40,big,sizeof=T"`
	T []*c8bits
}

type c8bits struct {
	A uint8  `struct:"uint8:3"`
	B uint16 `struct:"uint16:11,big"`
	C bool   `struct:"uint8:1"`
	D int64  `struct:"int64:9,big"`
}

type c8expr struct {
	Flags uint8
	Opt   uint32  `struct-if:"Flags & 1 != 0"`
	Len   int16   `struct:"int16"`
	Data  []uint8 `struct-size:"Len - 1"`
	W     uint8
	F     uint64  `struct:"big" struct-bits:"W"`
	List  []uint8 `struct-while:"!_eof"`
}

type c8switch struct {
	K uint8
	V struct {
		A *c8bits `struct:"case=1"`
		B *struct {
			D []uint8 `struct:"size=1"`
		} `struct:"case=2"`
		C *c8switch `struct:"case=3"`
		D *[2]int64 `struct:"default"`
	} `struct:"switch=K"`
	Z uint8
}

type c8index struct {
	N uint8
	I uint8
	A [3]uint8
	X []uint8  `struct:"size=A[I]"`
	Y uint8    `struct:"if=X[N] / N == 2"`
	Z []uint16 `struct:"while=!_eof && N != 7"`
}

type c8nest struct {
	A [2]c8bits
	B struct {
		X float32
		Y complex128
		_ [2]uint8
		Z [2]string `struct:"[2][2]byte"`
	}
	C *c8in
}

type c8par struct {
	K uint8
	V struct {
		R *c8par `struct:"root"`
		A *struct {
			P *c8par  `struct:"parent"`
			D []uint8 `struct:"size=P.K"`
			E uint8   `struct:"bits=P.K"`
		}
	}
	D []uint8 `struct:"size=V.A.D[0]"`
}

// C08_Parents: as C08_Types, for values that refer to themselves.
func C08_Parents() {
	restruct.EnableExprBeta()
	o, _ := order("order")
	data := sym.Bytes("data", sym.Choose("n", 7))
	var x c8par
	err := restruct.Unpack(data, o, &x)
	sym.Observe("err", err)
	if err == nil {
		sym.Cover("nil")
		sym.Assert(len(data) >= 2+int(x.K)+len(x.D), "a nil error means there was data for every field")
	}
}

func c8types() []reflect.Type {
	return []reflect.Type{tof(c8in{}), tof(c8counts{}), tof(c8bits{}), tof(c8expr{}), tof(c8switch{}), tof(c8index{}), tof(c8nest{})}
}

// C08_Types: arbitrary bytes of every length into layouts with counts, bits, expressions, switches.
func C08_Types() {
	restruct.EnableExprBeta()
	ts := c8types()
	t := ts[sym.Choose("type", len(ts))]
	max := 7
	if sym.Thorough() {
		max = 11
	}
	arbitrary(t, sym.Bytes("data", sym.Choose("n", max)))
}

// C08_Counts: counts of every width with arbitrary values never cause anything but an error.
func C08_Counts() {
	cs := counts()
	g := vlen{cnt: cs[sym.Choose("cnt", len(cs))], from: sym.Choose("from", 2) == 1}
	switch sym.Choose("elem", 5) {
	case 0:
		g.e = dU8
	case 1:
		g.str = true
	case 2:
		g.e = dU32
	case 3:
		g.e = st(b1(u(tU8, "uint8:3", 3)))
	case 4:
		g.e = st(vlen{cnt: dU8, e: dU8})
	}
	max := 5
	if sym.Thorough() {
		max = 8
	}
	need(st(g), sym.Bytes("data", max0((g.cnt.bits+7)/8+sym.Choose("n", max)-2)))
}

// C08_Top: targets that are not structs.
func C08_Top() {
	o := []binary.ByteOrder{binary.BigEndian, binary.LittleEndian}[sym.Choose("order", 2)]
	data := sym.Bytes("data", sym.Choose("n", 9))
	var err error
	switch sym.Choose("target", 9) {
	case 0:
		var x uint32
		err = restruct.Unpack(data, o, &x)
		sym.Assert((err == nil) == (len(data) >= 4), "needs four bytes")
	case 1:
		var x [3]uint16
		err = restruct.Unpack(data, o, &x)
		sym.Assert((err == nil) == (len(data) >= 6), "needs six bytes")
	case 2:
		var x float64
		err = restruct.Unpack(data, o, &x)
		sym.Assert((err == nil) == (len(data) >= 8), "needs eight bytes")
	case 3:
		var x bool
		err = restruct.Unpack(data, o, &x)
		sym.Assert((err == nil) == (len(data) >= 1), "needs a byte")
	case 4:
		err = restruct.Unpack(data, o, nil)
		sym.Assert(err != nil, "nil target is an error")
	case 5:
		var x *c8in
		err = restruct.Unpack(data, o, x)
		sym.Assert(err != nil, "nil pointer target is an error")
	case 6:
		var x struct {
			A chan int
			B uint8
		}
		err = restruct.Unpack(data, o, &x)
	case 7:
		var x struct {
			A map[string]int `struct:"uint8"`
			B func()
		}
		err = restruct.Unpack(data, o, &x)
	case 8:
		var x struct {
			A interface{} `struct:"uint8"`
		}
		err = restruct.Unpack(data, o, &x)
	}
	sym.Observe("err", err)
}

func max0(a int) int { return max(a, 0) }

// C08_Large: truncations of encodings with many elements.
func C08_Large() {
	d := large(sizesMany()[1:]...)
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	n := len(w.b)
	k := []int{n, n - 1, n - 3, n - 258, 0, n - 2, n / 2, n - 256, 1}[sym.Choose("cut", 5+4*b2i(sym.Thorough()))]
	if k < 0 {
		sym.Stop()
	}
	in := append([]byte(nil), w.b[:k]...)
	err := restruct.Unpack(in[:k:k], o, reflect.New(d.Type()).Interface())
	sym.Assert((err == nil) == (8*k >= w.last), "data is missing exactly if there is an error")
	sym.Assert(sym.EqBytes(in, w.b[:k]), "the input is not written to")
}

// C08_Deep: truncations of encodings of values many levels down.
func C08_Deep() {
	ds := []D{dU16, cstrD{2}, st(b1(u(tU8, "uint8:3", 3)), b1(dU16)), st(vlen{cnt: dU8, e: dU16, max: 2})}
	d := deepIn(ds[sym.Choose("d", len(ds))])
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	n := len(w.b)
	k := []int{n, n - 1, n / 2, n - 2, n - 3, 0, 3 * n / 4}[sym.Choose("cut", 7)]
	in := append([]byte(nil), w.b[:k]...)
	err := restruct.Unpack(in[:k:k], o, reflect.New(d.Type()).Interface())
	sym.Assert((err == nil) == (8*k >= w.last), "data is missing exactly if there is an error")
	sym.Assert(sym.EqBytes(in, w.b[:k]), "the input is not written to")
}

// C08_Mixed: truncations of fields of every kind in combination, at several levels.
func C08_Mixed() {
	restruct.EnableExprBeta()
	c10 = c10log{}
	d := mixed(8, 40)
	o, le := order("order")
	v := gen(d)
	w := encode(d, v.Elem(), le)
	n := len(w.b)
	k := []int{n, n - 1, n / 2, n - 2, n / 3, 0, 3 * n / 4}[sym.Choose("cut", 7)]
	if k < 0 {
		sym.Stop()
	}
	in := append([]byte(nil), w.b[:k]...)
	err := restruct.Unpack(in[:k:k], o, reflect.New(d.Type()).Interface())
	sym.Assert((err == nil) == (8*k >= w.last && k >= w.n/8), "data is missing exactly if there is an error")
	sym.Assert(sym.EqBytes(in, w.b[:k]), "the input is not written to")
}

// C08_While: a list that goes on to the end of the data must not end inside an element.
func C08_While() {
	restruct.EnableExprBeta()
	e := []D{dU8, dU16, dI32, dU64, f32D{}, c64D{}, boolD{wire: "uint16", bits: 16}, u(tU64, "uint16", 16), arrD{n: 3, e: dU8}, arrD{n: 2, e: dU16}, ptrD{dU16}, cstrD{3}, st(b1(dU8), b1(dU16)), st(b1(u(tU8, "uint8:4", 4)), one{d: u(tU16, "uint16:12", 12), order: 'B'})}[sym.Choose("e", 14)]
	tag := "while=!_eof"
	if e.Wire() != "" {
		tag = "[]" + e.Wire() + "," + tag
	}
	fs := []reflect.StructField{sf("L", reflect.SliceOf(e.Type()), tag)}
	head := sym.Choose("head", 2)
	if head == 1 {
		fs = append([]reflect.StructField{sf("H", tU8, "")}, fs...)
	}
	o, le := order("order")
	w := &wr{}
	v := reflect.New(e.Type()).Elem()
	e.Gen("v", v)
	e.Enc(w, v, le)
	n := sym.Choose("n", 4)
	data := []byte{7}[:head]
	for i := 0; i < n; i++ {
		data = append(data, w.b...)
	}
	cut := 0
	if n > 0 {
		cut = sym.Choose("cut", len(w.b))
	}
	x := reflect.New(reflect.StructOf(fs))
	err := restruct.Unpack(data[:len(data)-cut], o, x.Interface())
	if cut > 0 {
		sym.Assert(err != nil, "an element that is cut off is an error")
		return
	}
	sym.Assert(err == nil, "Unpack succeeds")
	l := x.Elem().Field(head)
	sym.Assert(l.Len() == n, "all elements")
	for i := 0; i < n; i++ {
		sym.Assert(sym.Same(l.Index(i).Interface(), v.Interface()), "the elements")
	}
}

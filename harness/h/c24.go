package h

import (
	"encoding/binary"
	"reflect"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"
	"github.com/go-restruct/restruct/formats/png"
	"verif/harness/sym"
)

// A job24 is one goroutine's work: done runs it, check judges it afterwards.
type job24 struct {
	v, x       reflect.Value
	o          binary.ByteOrder
	w          *wr
	n, bits    int
	data       []byte
	e1, e2, e3 error
	e4         error
	order      int
}

func newJob(d D, v reflect.Value, o binary.ByteOrder, order int) *job24 {
	return &job24{v: v, x: reflect.New(d.Type()), o: o, w: encode(d, v.Elem(), o == binary.LittleEndian), order: order}
}

func (j *job24) run() {
	switch j.order {
	case 0:
		j.n, j.e1 = restruct.SizeOf(j.v.Interface())
		j.data, j.e2 = restruct.Pack(j.o, j.v.Interface())
		j.e3 = restruct.Unpack(j.w.b, j.o, j.x.Interface())
	case 1:
		j.e3 = restruct.Unpack(j.w.b, j.o, j.x.Interface())
		j.data, j.e2 = restruct.Pack(j.o, j.v.Interface())
		j.n, j.e1 = restruct.SizeOf(j.v.Interface())
	case 2: // only one of them
		j.n, j.data = len(j.w.b), j.w.b
		j.e3 = restruct.Unpack(j.w.b, j.o, j.x.Interface())
	case 3:
		j.n = len(j.w.b)
		j.x = j.v
		j.data, j.e2 = restruct.Pack(j.o, j.v.Interface())
	}
}

func (j *job24) check() {
	sym.Assert(j.e1 == nil, "SizeOf succeeds")
	sym.Assert(j.e2 == nil, "Pack succeeds")
	sym.Assert(j.e3 == nil, "Unpack succeeds")
	sym.Assert(j.n == len(j.w.b), "the size it has alone")
	sym.Assert(sym.EqBytes(j.data, j.w.b), "the bytes it has alone")
	sym.Assert(sym.Same(j.x.Interface(), j.v.Interface()), "the value it has alone")
}

func preempt(q, t int) {
	if sym.Thorough() {
		sym.Preempt(t)
	} else {
		sym.Preempt(q)
	}
}

// layouts24 are layouts that use every part of the code.
func layouts24() []stD {
	in := st(b1(dU16), b1(u(tU8, "uint8:3", 3)))
	return []stD{
		st(b1(dU8)),
		st(b1(in), b1(dU16)),
		st(b1(arrD{n: 2, e: in})),
		st(vlen{cnt: dU8, e: in, max: 1}),
		st(vlen{cnt: dU8, str: true, max: 1}, b1(ptrD{in}), pad{t: tU8, bits: 8}),
		st(b1(u(tU8, "uint8:3", 3)), b1(boolD{wire: "uint16", bits: 16, variant: true}), one{d: dU32, order: 'L'}),
		st(b1(cstrD{1}), b1(fsD{n: 1, e: dU8}), hidden{t: tU32, tag: "-"}),
		st(b1(f32D{}), b1(c128D{}), b1(dI64)),
	}
}

// C24_Same: two goroutines meet a type for the first time.
func C24_Same() {
	ls := layouts24()
	l := sym.Choose("layout", len(ls))
	d := ls[l]
	if l == 1 || l == 3 {
		preempt(2, 3)
	} else {
		preempt(1, 2)
	}
	os := []binary.ByteOrder{binary.BigEndian, binary.LittleEndian}
	ja, jb := sym.Choose("a", 4), sym.Choose("b", 4)
	if !sym.Thorough() && ja > jb {
		return // symmetric but for the byte orders
	}
	a, b := newJob(d, gen(d), os[0], ja), newJob(d, gen(d), os[1], jb)
	sym.Par(a.run, b.run)
	sym.NoRace()
	a.check()
	b.check()
}

// C24_Related: two goroutines handle types that contain each other.
func C24_Related() {
	preempt(2, 3)
	in := st(b1(dU16), b1(u(tU8, "uint8:3", 3)))
	out := []stD{st(b1(in), b1(dU8)), st(b1(arrD{n: 2, e: in})), st(vlen{cnt: dU8, e: in, max: 1}), st(b1(ptrD{in})), st(one{d: in, order: 'L'})}
	x := out[sym.Choose("x", len(out))]
	y := in
	if sym.Choose("y", 2) == 1 {
		y = out[3]
	}
	a := newJob(x, gen(x), binary.BigEndian, 2*sym.Choose("a", 2))
	b := newJob(y, gen(y), binary.BigEndian, 2*sym.Choose("b", 2))
	sym.Par(a.run, b.run)
	sym.NoRace()
	a.check()
	b.check()
}

type sw24 struct {
	K uint8
	V struct {
		A struct{ B struct{ C uint16 } } `struct:"case=0"`
		D []struct{ E uint8 }            `struct:"default,size=2"`
	} `struct:"switch=K"`
}

type new24 struct{ N struct{ X uint8 } }

// C24_Warm: a goroutine works on types met before while another meets a new one.
func C24_Warm() {
	preempt(1, 2)
	restruct.EnableExprBeta()
	var a *job24
	ls := layouts24()
	if l := sym.Choose("layout", len(ls)+1); l < len(ls) {
		a = newJob(ls[l], gen(ls[l]), binary.BigEndian, 1+sym.Choose("a", 3))
		restruct.SizeOf(a.v.Interface())
	} else {
		v := &sw24{K: uint8(sym.Choose("k", 2))}
		w := &wr{}
		w.put(uint64(v.K), 8)
		if v.K == 0 {
			v.V.A.B.C = sym.U16("c")
			w.put(uint64(v.V.A.B.C), 16)
		} else {
			v.V.D = []struct{ E uint8 }{{sym.U8("e")}, {sym.U8("f")}}
			w.put(uint64(v.V.D[0].E), 8)
			w.put(uint64(v.V.D[1].E), 8)
		}
		a = &job24{v: reflect.ValueOf(v), x: reflect.ValueOf(&sw24{}), o: binary.BigEndian, w: w, order: 1 + sym.Choose("a", 3)}
		restruct.SizeOf(v)
		restruct.SizeOf(&sw24{K: 1 - v.K})
	}
	var n int
	var err error
	sym.Par(a.run, func() { n, err = restruct.SizeOf(&new24{}) })
	sym.NoRace()
	a.check()
	sym.Assert(err == nil && n == 1, "the size it has alone")
	sym.Cover("together")
}

// C24_Three: three goroutines, one of which has met the type before.
func C24_Three() {
	preempt(1, 2)
	d := st(b1(st(b1(dU16))), vlen{cnt: dU8, e: dU8, max: 1})
	if sym.Choose("warm", 2) == 1 {
		restruct.SizeOf(reflect.New(d.Type()).Interface())
	}
	a := newJob(d, gen(d), binary.BigEndian, 3)
	b := newJob(d, gen(d), binary.LittleEndian, 2)
	c := newJob(st(b1(dU16)), gen(st(b1(dU16))), binary.LittleEndian, 0)
	sym.Par(a.run, b.run, c.run)
	sym.NoRace()
	a.check()
	b.check()
	c.check()
}

// C24_Failing: a goroutine whose calls fail or panic inside does not disturb another.
func C24_Failing() {
	preempt(2, 3)
	restruct.EnableExprBeta()
	d := st(b1(st(b1(dU16))), vlen{cnt: dU8, e: dU8, max: 1})
	a := newJob(d, gen(d), binary.BigEndian, 2*sym.Choose("a", 2))
	bad := sym.Choose("bad", 5)
	b := func() {
		switch bad {
		case 0:
			restruct.Unpack(nil, binary.BigEndian, reflect.New(d.Type()).Interface())
		case 1:
			restruct.Pack(binary.BigEndian, &bomb{})
		case 2:
			restruct.SizeOf(&struct {
				A []uint16
				X uint8 `struct:"nothing"`
			}{})
		case 3:
			restruct.SizeOf(&struct {
				A uint8
				B complex64 `struct:"if=A +"`
			}{})
		case 4:
			restruct.Pack(binary.BigEndian, &struct {
				A uint8
				C complex64
				B uint8 `struct:"if=C == 1"`
			}{})
		}
		// a call that succeeds afterwards
		restruct.SizeOf(reflect.New(d.Type()).Interface())
	}
	sym.Par(a.run, b)
	sym.NoRace()
	a.check()
}

type par24 struct {
	A uint8
	B []uint16 `struct:"size=A"`
	C uint16   `struct:"if=A > 0,out=C + 1,in=C - 1"`
	S swi24    `struct:"switch=A"`
	P pin24
	W []uint8 `struct:"while=!_eof"`
}

type swi24 struct {
	X uint8  `struct:"case=1"`
	Y uint16 `struct:"default"`
}

type pin24 struct {
	Up *par24 `struct:"parent"`
	Z  uint16 `struct:"bits=Up.A * 8 + 8,big"`
}

func par24value(n int, p string) (*par24, []byte) {
	v := &par24{A: uint8(n)}
	w := &wr{}
	w.put(uint64(n), 8)
	if n == 1 {
		v.B = []uint16{sym.U16(p + "b")}
		w.put(uint64(v.B[0]), 16)
		v.C = sym.U16(p + "c")
		w.put(uint64(v.C+1), 16)
		v.S.X = sym.U8(p + "x")
		w.put(uint64(v.S.X), 8)
	} else {
		v.S.Y = sym.U16(p + "y")
		w.put(uint64(v.S.Y), 16)
	}
	v.P.Z = sym.U16(p+"z") >> uint(8-8*n)
	w.put(uint64(v.P.Z), 8+8*n)
	if n == 1 {
		v.W = []byte{sym.U8(p + "w")}
		w.put(uint64(v.W[0]), 8)
	}
	return v, w.b
}

// C24_ExprTags: two goroutines handle a struct with every kind of expression.
func C24_ExprTags() {
	preempt(1, 2)
	restruct.EnableExprBeta()
	switch sym.Choose("warm", 3) {
	case 1:
		restruct.SizeOf(&par24{A: 1, B: make([]uint16, 1)})
	case 2:
		restruct.SizeOf(&pin24{})
	}
	n, m := sym.Choose("n", 2), sym.Choose("m", 2)
	v1, w1 := par24value(n, "1")
	v2, w2 := par24value(m, "2")
	var d1 []byte
	var e1, e2 error
	x2 := &par24{}
	sym.Par(func() { d1, e1 = restruct.Pack(binary.BigEndian, v1) },
		func() { e2 = restruct.Unpack(w2, binary.BigEndian, x2) })
	sym.NoRace()
	sym.Observe("d1", d1)
	sym.Assert(e1 == nil, "Pack succeeds")
	sym.Assert(e2 == nil, "Unpack succeeds")
	sym.Assert(sym.EqBytes(d1, w1), "the bytes it has alone")
	sym.Assert(x2.P.Up == x2, "its own parent")
	x2.P.Up = nil
	v2.P.Up = nil
	if len(v2.B) == 0 {
		x2.B, x2.W = nil, nil
	}
	sym.Assert(sym.Same(x2, v2), "the value it has alone")
}

// C24_Eval: goroutines evaluate expressions on values of related types, some the very same program.
func C24_Eval() {
	preempt(2, 3)
	x, y := sym.U8("x"), sym.U16("y")
	vs := vals22(x, y)
	type pr struct {
		v    int
		src  string
		want any
	}
	ps := []pr{{0, "A.X + 1", x + 1}, {0, "A.M.R.X", x}, {1, "A.R.X", x}, {1, "A.L[0].X == A.R.X", true}, {4, "A[0].X", x}, {8, "A(7)", uint8(7)}, {0, "A.P == nil ? A.M.Y : 0", y}, {6, "(*A).X", x}, {2, "A.Nope", nil}}
	pi, qi := sym.Choose("p", len(ps)), sym.Choose("q", len(ps))
	if !sym.Thorough() && pi > qi {
		return
	}
	p, q := ps[pi], ps[qi]
	prog := expr.ParseString(p.src)
	prog2 := prog
	if p.src != q.src {
		prog2 = expr.ParseString(q.src)
	}
	var r1, r2 any
	var e1, e2 error
	sym.Par(func() { r1, e1 = expr.EvalProgram(expr.NewMapResolver(env1(vs[p.v])), prog) },
		func() { r2, e2 = expr.EvalProgram(expr.NewMapResolver(env1(vs[q.v])), prog2) })
	sym.NoRace()
	sym.Observe("r1", r1)
	sym.Observe("r2", r2)
	sym.Assert((e1 == nil) == (p.want != nil), "the outcome it has alone")
	sym.Assert((e2 == nil) == (q.want != nil), "the outcome it has alone")
	if e1 == nil {
		sym.Assert(sym.Same(r1, p.want), "the value it has alone")
	}
	if e2 == nil {
		sym.Assert(sym.Same(r2, q.want), "the value it has alone")
	}
}

// C24_Types: goroutines convert types that refer to each other.
func C24_Types() {
	preempt(2, 3)
	vs := vals22(1, 2)
	i, j := sym.Choose("i", len(vs)), sym.Choose("j", len(vs))
	var t1, t2 expr.Type
	sym.Par(func() { t1 = expr.TypeOf(vs[i]) }, func() { t2 = expr.TypeOf(vs[j]) })
	sym.NoRace()
	sym.Assert(expr.TypeEqual(t1, expr.TypeOf(vs[i])), "the type it has alone")
	sym.Assert(expr.TypeEqual(t2, expr.TypeOf(vs[j])), "the type it has alone")
	sym.Assert(expr.TypeEqual(t1, t2) == (i == j), "types are equal if they are the same")
}

// C24_Png: two goroutines decode files.
func C24_Png() {
	preempt(1, 2)
	restruct.EnableExprBeta()
	f1, f2 := png24("1"), png24("2")
	var p1, p2 png.File
	var e1, e2 error
	sym.Par(func() { e1 = restruct.Unpack(f1, binary.BigEndian, &p1) }, func() { e2 = restruct.Unpack(f2, binary.BigEndian, &p2) })
	sym.NoRace()
	sym.Assert(e1 == nil, "Unpack succeeds")
	sym.Assert(e2 == nil, "Unpack succeeds")
	d1, e1 := restruct.Pack(binary.BigEndian, &p1)
	sym.Assert(e1 == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(d1, f1), "the bytes it had")
	d2, e2 := restruct.Pack(binary.BigEndian, &p2)
	sym.Assert(e2 == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(d2, f2), "the bytes it had")
}

func png24(p string) []byte {
	w := &wr{}
	for _, c := range []byte{0x89, 'P', 'N', 'G', '\r', '\n', 0x1a, '\n', 0, 0, 0, 1, 'I', 'D', 'A', 'T'} {
		w.put(uint64(c), 8)
	}
	w.put(uint64(sym.U8(p+"data")), 8)
	w.put(uint64(sym.U32(p+"crc")), 32)
	return w.b
}

package h

import (
	"encoding/binary"
	"errors"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"
	"verif/harness/sym"
)

// use puts v through every operation, whatever comes of it.
func use(o binary.ByteOrder, v any, data []byte) {
	restruct.SizeOf(v)
	restruct.BitSize(v)
	restruct.Pack(o, v)
	restruct.Unpack(data, o, v)
}

// retag is a type of the same names and Go types as t with other tags.
func retag(t reflect.Type, f func(i int, tag string) string) reflect.Type {
	var fs []reflect.StructField
	for i := 0; i < t.NumField(); i++ {
		x := t.Field(i)
		x.Tag = stag(f(i, x.Tag.Get("struct")))
		x.Offset, x.Index = 0, nil
		fs = append(fs, x)
	}
	return reflect.StructOf(fs)
}

// errC22 is what the failing custom type panics with.
var errC22 = errors.New("history")

// bomb is a custom type whose methods panic.
type bomb struct{ X uint8 }

func (b *bomb) SizeOf() int { return 1 }
func (b *bomb) Pack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	panic(errC22)
}
func (b *bomb) Unpack(buf []byte, order binary.ByteOrder) ([]byte, error) {
	panic(errC22)
}

// history does something with the layout or its relatives before it is probed.
func history(d stD, o binary.ByteOrder) {
	t := d.Type()
	other := binary.ByteOrder(binary.LittleEndian)
	if o == other {
		other = binary.BigEndian
	}
	buf := []byte{1, 2, 0x83, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32}
	zero := func(t reflect.Type) any { return reflect.New(t).Interface() }
	switch sym.Choose("history", 13) {
	case 0: // the other byte order
		use(other, zero(t), buf)
	case 1: // failing for lack of data, at any point
		x := reflect.New(t)
		restruct.Unpack(buf[:sym.Choose("cut", 4)], o, x.Interface())
		restruct.Pack(o, x.Interface())
	case 2: // as element of other types with a byte order of their own
		use(o, zero(reflect.StructOf([]reflect.StructField{sf("P", tU8, "uint8:3"), sf("L", t, "little"), sf("M", reflect.ArrayOf(2, t), "big")})), buf)
	case 3: // behind pointers, in slices and arrays
		use(o, zero(reflect.StructOf([]reflect.StructField{sf("P", reflect.PtrTo(t), ""), sf("N", tU8, "sizeof=S"), sf("S", reflect.SliceOf(t), "")})), buf)
	case 4: // the same fields without tags
		use(o, zero(retag(t, func(i int, tag string) string { return "" })), buf)
	case 5: // the same fields with more tags
		use(o, zero(retag(t, func(i int, tag string) string { return join(tag, []string{"little", "big"}[i%2]) })), buf)
	case 6: // the same fields with broken tags
		use(o, zero(retag(t, func(i int, tag string) string { return join(tag, "nothing") })), buf)
	case 7: // some fields ignored
		use(o, zero(retag(t, func(i int, tag string) string {
			if i%2 == 1 {
				return "-"
			}
			return tag
		})), buf)
	case 8: // nil and wrong values
		use(o, reflect.Zero(reflect.PtrTo(t)).Interface(), buf)
		use(o, reflect.Zero(t).Interface(), buf)
		use(o, nil, buf)
		use(o, 7, buf)
		use(o, "x", buf)
	case 9: // next to a custom type that panics
		use(o, zero(reflect.StructOf([]reflect.StructField{sf("A", t, ""), sf("B", tof(bomb{}), ""), sf("C", t, "")})), buf)
		use(o, zero(reflect.StructOf([]reflect.StructField{sf("B", tof(&bomb{}), ""), sf("C", t, "")})), buf)
	case 10: // its fields on their own
		for i := 0; i < t.NumField(); i++ {
			f := t.Field(i)
			if f.PkgPath == "" {
				use(o, zero(f.Type), buf)
				f.Offset, f.Index = 0, nil
				use(other, zero(reflect.StructOf([]reflect.StructField{f})), buf)
			}
		}
	case 11: // with a flagged and with an expression field in front
		use(o, zero(reflect.StructOf([]reflect.StructField{sf("B", tof(false), "uint8,invertedbool"), sf("F", tU8, "if=B"), sf("A", t, "skip=1"), sf("Z", t, "if=false")})), buf)
	case 12: // nothing
	}
}

// probe checks the layout against the reference in all operations, and again.
func probe(d stD, o binary.ByteOrder, le bool, v reflect.Value, w *wr) {
	sizes(v.Interface(), w)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
	modelValue(o, v, w)
}

func after(d stD) {
	restruct.EnableExprBeta()
	o, le := order("order")
	history(d, o)
	v := gen(d)
	probe(d, o, le, v, encode(d, v.Elem(), le))
}

// C22_Pairs: layouts of two field kinds after every history.
func C22_Pairs() {
	gs := few()
	a, b := sym.Choose("g0", len(gs)), sym.Choose("g1", len(gs))
	if !sym.Thorough() && (a*7+b)%5 != 0 {
		return
	}
	after(st(gs[a], gs[b]))
}

// C22_All: each field kind after every history.
func C22_All() {
	gs := allGroups()
	after(st(gs[sym.Choose("g", len(gs))], b1(dU16)))
}

// C22_Containers: nested layouts after every history.
func C22_Containers() {
	gs := few()
	i := sym.Choose("g", len(gs))
	if !sym.Thorough() && i%3 != 1 {
		return
	}
	after(containers(gs[i]))
}

// same22 returns values of four types that share their package, name and field names.
func same22(i int, a uint8, b uint16) any {
	switch i {
	case 0:
		type T struct {
			A uint8
			B uint16
		}
		return &T{a, b}
	case 1:
		type T struct {
			A uint8  `struct:"uint16"`
			B uint16 `struct:"little"`
		}
		return &T{a, b}
	case 2:
		type T struct {
			B uint16 `struct:"uint8,skip=1"`
			A uint8
		}
		return &T{b & 0xff, a}
	case 3:
		type T struct {
			A uint8  `struct:"uint8:4"`
			B uint16 `struct:"uint16:12,big"`
		}
		return &T{a & 15, b & 0xfff}
	}
	type T struct {
		A uint8
		B uint16 `struct:"if=A > 5"`
	}
	if a > 5 {
		return &T{a, b}
	}
	return &T{a, 0}
}

func bytes22(i int, a uint8, b uint16) *wr {
	w := &wr{}
	switch i {
	case 0:
		w.put(uint64(a), 8)
		w.put(uint64(b), 16)
	case 1:
		w.put(uint64(a), 16)
		w.num(uint64(b), 16, true)
	case 2:
		w.zero(8)
		w.put(uint64(b), 8)
		w.put(uint64(a), 8)
	case 3:
		w.put(uint64(a), 4)
		w.put(uint64(b), 12)
	case 4:
		w.put(uint64(a), 8)
		if a > 5 {
			w.put(uint64(b), 16)
		}
	}
	return w
}

// C22_SameName: types that share their name, in every order.
func C22_SameName() {
	restruct.EnableExprBeta()
	i, j, k := sym.Choose("i", 5), sym.Choose("j", 5), sym.Choose("k", 5)
	use(binary.BigEndian, same22(i, 1, 0x1234), []byte{1, 2, 3})
	use(binary.BigEndian, same22(j, 1, 0x1234), []byte{1})
	a, b := sym.U8("a"), sym.U16("b")
	v := reflect.ValueOf(same22(k, a, b))
	modelValue(binary.BigEndian, v, bytes22(k, a, b))
	sizes(v.Interface(), bytes22(k, a, b))
}

// C22_Repeat: decoding the same bytes again gives the same again, whatever happened in between.
func C22_Repeat() {
	restruct.EnableExprBeta()
	o, _ := order("order")
	gs := few()
	gi := sym.Choose("g", len(gs))
	g := gs[gi]
	shape := sym.Choose("shape", 2)
	if _, ok := g.(hidden); ok && shape == 1 || !sym.Thorough() && (gi+shape)%4 != 0 {
		return // elements of no size are out of bounds
	}
	d := []stD{st(g, b1(dU8)), st(vlen{cnt: dU8, e: st(g), max: 1})}[shape]
	ns := []int{0, 2, 4, 5}
	if !sym.Thorough() {
		ns = []int{3}
	}
	data := sym.Bytes("data", ns[sym.Choose("n", len(ns))])
	x := reflect.New(d.Type())
	e1 := restruct.Unpack(data, o, x.Interface())
	history(d, o)
	y := reflect.New(d.Type())
	e2 := restruct.Unpack(data, o, y.Interface())
	sym.Assert((e1 == nil) == (e2 == nil), "the same outcome")
	if e1 != nil {
		return
	}
	sym.Observe("x", x.Interface())
	sym.Observe("y", y.Interface())
	sym.Assert(sym.Same(x.Interface(), y.Interface()), "the same value")
	b1, p1 := restruct.Pack(o, x.Interface())
	b2, p2 := restruct.Pack(o, y.Interface())
	sym.Assert((p1 == nil) == (p2 == nil), "Pack has the same outcome")
	sym.Assert(sym.EqBytes(b1, b2), "Pack gives the same bytes")
}

type rec22 struct {
	X uint8
	P *rec22
	M *mut22
}

type mut22 struct {
	Y uint16
	R *rec22
	L []rec22
}

type map22 map[string]struct {
	X uint8
	M map22
}

// vals22 are values whose types share structure in the expression type cache.
func vals22(x uint8, y uint16) []any {
	type T struct{ X, Y uint8 }
	t1 := T{X: x}
	var t2 any
	{
		type T struct {
			Y uint16
			X uint16
		}
		t2 = T{X: uint16(x), Y: y}
	}
	return []any{
		rec22{X: x, M: &mut22{Y: y, R: &rec22{X: x}}},
		mut22{Y: y, R: &rec22{X: x}, L: []rec22{{X: x}}},
		t1, t2, []T{t1}, map[string]T{"a": t1}, &t1, [1]*T{&t1}, func(a uint8) uint8 { return a }, map22{"a": {X: x, M: map22{"b": {}}}},
	}
}

func env1(a any) map[string]expr.Value { return map[string]expr.Value{"A": expr.ValueOf(a)} }

// C22_Expr: expressions give the same result whatever was evaluated, or failed, before.
func C22_Expr() {
	x, y := sym.U8("x"), sym.U16("y")
	vs := vals22(x, y)
	before := []string{"A", "A.X", "A == A", "*A", "A[0]", "A(1)", "A +", "A.Nope", "nil == A", "A.M.R", "1 / 0"}
	if h := sym.Choose("h", len(vs)+2); h < len(vs) {
		eval(env1(vs[h]), before[sym.Choose("src", len(before))])
	} else {
		// a type that has no expression type, around one that has
		type T struct {
			R *rec22
			C complex64
		}
		func() {
			defer func() { recover() }()
			if h == len(vs) {
				expr.ValueOf(T{})
			} else {
				expr.ValueOf(func(x []rec22, y *mut22, c chan int) {})
			}
		}()
	}
	type pr struct {
		v    int
		src  string
		want any
	}
	ps := []pr{{0, "A.X", x}, {0, "A.M.Y", y}, {0, "A.M.R.X + 1", x + 1}, {0, "A.P == nil", true}, {1, "A.Y", y}, {1, "A.R.X", x}, {1, "A.L[0].X", x}, {2, "A.X", x}, {2, "A.Y", uint8(0)},
		{3, "A.X", uint16(x)}, {3, "A.Y", y}, {4, "A[0].X", x}, {5, "A[\"a\"].X", x}, {6, "A.X", x}, {6, "(*A).X", x}, {7, "A[0].X", x}, {8, "A(7)", uint8(7)}, {9, "A[\"a\"].X", x}, {9, "A[\"a\"].M[\"b\"].X", uint8(0)}}
	p := ps[sym.Choose("probe", len(ps))]
	for i := 0; i < 2; i++ {
		v, err := eval(env1(vs[p.v]), p.src)
		sym.Observe("err", err)
		sym.Observe("v", v)
		sym.Assert(err == nil, "evaluates")
		sym.Assert(sym.Same(v, p.want), "the value")
	}
}

// C22_Program: a program serves values of any types, one after the other.
func C22_Program() {
	x, y := sym.U8("x"), sym.I16("y")
	p := expr.ParseString("A + A")
	vs := []any{x, y, sym.Str("s", 1), 2.5, uint64(x), true}
	want := []any{x + x, y + y, vs[2].(string) + vs[2].(string), 5.0, uint64(x) * 2, nil}
	for i := 0; i < 3; i++ {
		k := sym.Choose("v"+gname(i), len(vs))
		v, err := expr.EvalProgram(expr.NewMapResolver(env1(vs[k])), p)
		sym.Observe("err", err)
		if want[k] == nil {
			sym.Assert(err != nil, "an error")
		} else {
			sym.Assert(err == nil, "evaluates")
			sym.Assert(sym.Same(v, want[k]), "the value")
		}
	}
}

type c22a struct {
	N uint8 `struct:"sizeof=V"`
	V []c22e
	T uint8
}

type c22e struct {
	R *c22a  `struct:"root"`
	X uint16 `struct:"if=_.T22 == 0"`
}

type c22r struct {
	A uint8
	P []c22s `struct:"size=A"`
}

type c22s struct {
	Up *c22r `struct:"parent"`
	X  uint8 `struct:"size=0"`
}

type c22k struct {
	A uint8
	B []uint8 `struct:"size=A"`
	C uint8   `struct:"if=A > 1"`
	D uint8   `struct:"in=D - 1,out=D + 1"`
	E struct {
		X uint16 `struct:"case=1"`
		Y uint8  `struct:"default"`
	} `struct:"switch=A"`
	G uint16  `struct:"bits=A + 3"`
	H uint32  `struct:"bits=13 - A"`
	F []uint8 `struct:"while=!_eof"`
}

// C22_ExprTags: a struct with every expression tag, after calls on it that failed or used other values.
func C22_ExprTags() {
	switch sym.Choose("enable", 2) {
	case 0:
		// refused while expressions are off; not held against the type
		use(binary.BigEndian, &c22k{}, []byte{1, 2, 3, 4, 5, 6, 7, 8})
	}
	restruct.EnableExprBeta()
	switch sym.Choose("history", 6) {
	case 0:
		restruct.Unpack([]byte{2, 1}, binary.BigEndian, &c22k{})
	case 1:
		restruct.Pack(binary.LittleEndian, &c22k{A: 3})
	case 2:
		restruct.Unpack([]byte{0, 1, 2, 3, 4, 5, 6}, binary.LittleEndian, &c22k{})
	case 3:
		use(binary.BigEndian, &c22a{V: make([]c22e, 1)}, []byte{1, 0, 2})
	case 4:
		use(binary.BigEndian, &c22r{A: 1, P: make([]c22s, 1)}, []byte{1, 0, 2})
	case 5:
		restruct.SizeOf(&c22k{A: 1, F: []byte{1, 2}})
	}
	v := &c22k{A: uint8(sym.Choose("A", 3)), D: sym.U8("D"), F: sym.Bytes("F", sym.Choose("f", 2))}
	v.B = sym.Bytes("B", int(v.A))
	w := &wr{}
	w.put(uint64(v.A), 8)
	for _, x := range v.B {
		w.put(uint64(x), 8)
	}
	if v.A > 1 {
		v.C = sym.U8("C")
		w.put(uint64(v.C), 8)
	}
	w.put(uint64(v.D+1), 8)
	if v.A == 1 {
		v.E.X = sym.U16("X")
		w.put(uint64(v.E.X), 16)
	} else {
		v.E.Y = sym.U8("Y")
		w.put(uint64(v.E.Y), 8)
	}
	v.G, v.H = sym.U16("G")&(8<<v.A-1), sym.U32("H")&(0x1fff>>v.A)
	w.put(uint64(v.G), int(v.A)+3)
	w.put(uint64(v.H), 13-int(v.A))
	for _, x := range v.F {
		w.put(uint64(x), 8)
	}
	probe22(v, w)
}

type c22x struct {
	N uint8
	A uint16  `struct:"bits=N"`
	B uint8   `struct:"if=N > 8"`
	C []uint8 `struct:"size=N & 3"`
	D struct {
		X uint16   `struct:"case=16"`
		Y uint8    `struct:"case=8"`
		Z [3]uint8 `struct:"default"`
	} `struct:"switch=N"`
	E uint8 `struct:"bits=N > 9 ? 8 : 3"`
	F struct {
		V uint16 `struct:"out=V + 1,in=V - 1"`
	} `struct:"if=N != 5"`
	K uint8
	W struct {
		P uint8  `struct:"case=K"`
		Q uint16 `struct:"case=K + 1"`
	} `struct:"switch=N & 1"`
}

func c22xValue(n int, p string) (*c22x, *wr) {
	v := &c22x{N: uint8(n)}
	w := &wr{}
	w.put(uint64(n), 8)
	v.A = sym.U16(p+"A") & (1<<uint(n) - 1)
	w.put(uint64(v.A), n)
	if n > 8 {
		v.B = sym.U8(p + "B")
		w.put(uint64(v.B), 8)
	}
	v.C = sym.Bytes(p+"C", n&3)
	for _, x := range v.C {
		w.put(uint64(x), 8)
	}
	switch n {
	case 16:
		v.D.X = sym.U16(p + "X")
		w.put(uint64(v.D.X), 16)
	case 8:
		v.D.Y = sym.U8(p + "Y")
		w.put(uint64(v.D.Y), 8)
	default:
		v.D.Z = [3]uint8{1, sym.U8(p + "Z"), 3}
		for _, x := range v.D.Z {
			w.put(uint64(x), 8)
		}
	}
	e := 3
	if n > 9 {
		e = 8
	}
	v.E = sym.U8(p+"E") & (1<<uint(e) - 1)
	w.put(uint64(v.E), e)
	if n != 5 {
		v.F.V = sym.U16(p + "V")
		w.put(uint64(v.F.V+1), 16)
	}
	v.K = uint8(n >> 3 & 1)
	w.put(uint64(v.K), 8)
	switch uint8(n & 1) {
	case v.K:
		v.W.P = sym.U8(p + "P")
		w.put(uint64(v.W.P), 8)
	case v.K + 1:
		v.W.Q = sym.U16(p + "Q")
		w.put(uint64(v.W.Q), 16)
	}
	return v, w
}

// C22_ExprValues: the values expressions gave in earlier calls do not matter.
func C22_ExprValues() {
	restruct.EnableExprBeta()
	ns := []int{16, 8, 9, 1, 5}
	for i, c := range []string{"first", "second"} {
		n := ns[sym.Choose(c, len(ns))]
		v, w := c22xValue(n, c)
		if i == 1 {
			probe22(v, w)
			break
		}
		switch sym.Choose("history", 3) {
		case 0:
			restruct.Pack(binary.LittleEndian, v)
		case 1:
			restruct.Unpack(w.b, binary.BigEndian, &c22x{})
		case 2:
			restruct.SizeOf(v)
		}
	}
}

func probe22(v any, w *wr) {
	for i := 0; i < 2; i++ {
		sizes(v, w)
		modelValue(binary.BigEndian, reflect.ValueOf(v), w)
	}
}

// C22_Tags: tags that share prefixes, names and expressions mean their own.
func C22_Tags() {
	restruct.EnableExprBeta()
	tags := []string{"uint16", "uint16,little", "uint16,big", "uint16,skip=1", "uint16:12,big", "uint16,out=X + 1", "uint16,if=X > 5", "[2]uint8", "", "-", "uint16,bits=9,big"}
	t := func(tag string) reflect.Type { return reflect.StructOf([]reflect.StructField{sf("X", tU32, tag)}) }
	i, j := sym.Choose("i", len(tags)), sym.Choose("j", len(tags))
	use(binary.BigEndian, reflect.New(t(tags[i])).Interface(), []byte{1, 2, 3})
	if sym.Choose("alias", 2) == 1 {
		// the same tag on another field type, and in a key of its own
		use(binary.BigEndian, reflect.New(reflect.StructOf([]reflect.StructField{sf("X", tI64, tags[j])})).Interface(), []byte{1, 2, 3})
		use(binary.BigEndian, reflect.New(reflect.StructOf([]reflect.StructField{sf("Y", tU32, tags[j]), sf("X", tU32, tags[i])})).Interface(), []byte{1, 2, 3})
	}
	x := sym.U32("x")
	w := &wr{}
	switch tg := tags[j]; {
	case tg == "uint16", tg == "uint16,big":
		w.put(uint64(x), 16)
	case tg == "uint16,little":
		w.num(uint64(x), 16, true)
	case tg == "uint16,skip=1":
		w.zero(8)
		w.put(uint64(x), 16)
	case tg == "uint16:12,big":
		w.put(uint64(x), 12)
	case strings.HasPrefix(tg, "uint16,out"):
		w.put(uint64(x+1), 16)
	case strings.HasPrefix(tg, "uint16,if"):
		if x > 5 {
			w.put(uint64(x), 16)
		}
	case tg == "":
		w.put(uint64(x), 32)
	case tg == "-":
	case tg == "uint16,bits=9,big":
		w.put(uint64(x), 9)
	default:
		v := reflect.New(t(tg))
		_, err := restruct.Pack(binary.BigEndian, v.Interface())
		sym.Assert(err != nil, "incompatible types are an error")
		return
	}
	v := reflect.New(t(tags[j]))
	v.Elem().Field(0).SetUint(uint64(x))
	data, err := restruct.Pack(binary.BigEndian, v.Interface())
	sym.Observe("data", data)
	sym.Observe("err", err)
	sym.Assert(err == nil, "Pack succeeds")
	sym.Assert(sym.EqBytes(data, w.b), "Pack gives the documented bytes")
}

// bad22 are types that no operation takes.
func bad22(i int) reflect.Type {
	in := reflect.StructOf([]reflect.StructField{sf("X", tU8, "nonsense")})
	switch i {
	case 0:
		return in
	case 1:
		return reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), sf("B", in, "")})
	case 2:
		return reflect.StructOf([]reflect.StructField{sf("B", reflect.ArrayOf(2, in), "")})
	case 3:
		return reflect.StructOf([]reflect.StructField{sf("A", tU16, "sizefrom=Nope")})
	case 4:
		return reflect.StructOf([]reflect.StructField{sf("N", tU8, "sizeof=Nope"), sf("B", tof([]uint8(nil)), "")})
	case 5:
		return reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), sf("B", tU8, "if=Nope")})
	case 6:
		return reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), sf("B", tU8, "if=A +")})
	case 7:
		return reflect.StructOf([]reflect.StructField{sf("A", tU16, "uint16:17")})
	case 8:
		return reflect.StructOf([]reflect.StructField{sf("A", tU8, "skip=x")})
	case 9:
		return reflect.StructOf([]reflect.StructField{sf("A", tU8, "size=1,,nope"), sf("C", tU8, "")})
	}
	return reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), sf("B", reflect.PtrTo(in), "")})
}

// C22_Failed: a type that is refused once is refused every time, by every operation, and does not
// hurt its relatives.
func C22_Failed() {
	restruct.EnableExprBeta()
	t := bad22(sym.Choose("type", 11))
	o, le := order("order")
	buf := sym.Bytes("buf", 8)
	v := reflect.New(t)
	if f := v.Elem().FieldByName("B"); f.IsValid() && f.Kind() == reflect.Ptr {
		f.Set(reflect.New(f.Type().Elem()))
	}
	try := func(op int) error {
		var err error
		switch op {
		case 0:
			_, err = restruct.SizeOf(v.Interface())
		case 1:
			_, err = restruct.BitSize(v.Interface())
		case 2:
			_, err = restruct.Pack(o, v.Interface())
		case 3:
			err = restruct.Unpack(buf, o, v.Interface())
		}
		return err
	}
	sym.Assert(try(sym.Choose("first", 4)) != nil, "refused")
	switch sym.Choose("between", 3) {
	case 1:
		w := st(b1(dU8), b1(dU16))
		x := gen(w)
		probe(w, o, le, x, encode(w, x.Elem(), le))
	case 2:
		use(o, reflect.New(reflect.StructOf([]reflect.StructField{sf("P", tU8, ""), sf("T", t, "")})).Interface(), buf)
	}
	for op := 0; op < 4; op++ {
		sym.Assert(try(op) != nil, "refused again")
	}
	for op := 0; op < 4; op++ {
		sym.Assert(try(op) != nil, "refused for ever")
	}
}

type c22in struct {
	A uint8
	B uint16 `struct:"little"`
	C [5]uint8
	D uint32
}

func (x *c22in) put(w *wr) {
	w.put(uint64(x.A), 8)
	w.num(uint64(x.B), 16, true)
	for _, y := range x.C {
		w.put(uint64(y), 8)
	}
	for _, y := range []uint32{x.D} {
		w.put(uint64(y), 32)
	}
}

type c22out struct {
	N uint8 `struct:"sizeof=L"`
	L []c22in
	P *c22in
	D uint8 `struct:"uint16"`
	E uint8
}

// C22_Others: however many other types were used since a type was, it is handled the same.
func C22_Others() {
	fresh := 0
	others := func(n int) {
		for ; n > 0; n-- {
			fresh++
			fs := []reflect.StructField{sf("F"+strconv.Itoa(fresh), tU8, "uint32")}
			if fresh%3 == 0 {
				fs = append(fs, sf("G", tU16, ""), sf("H", tU32, ""))
			}
			restruct.SizeOf(reflect.New(reflect.StructOf(fs)).Interface())
		}
	}
	max := 72
	if sym.Thorough() {
		max = 270
	}
	n := sym.Choose("n", max)
	in := &c22in{A: sym.U8("A"), B: sym.U16("B"), D: sym.U32("ID")}
	v := &c22out{1, []c22in{{A: sym.U8("LA"), B: sym.U16("LB"), D: sym.U32("LD")}}, in, sym.U8("D"), sym.U8("E")}
	wi, w := &wr{}, &wr{}
	in.put(wi)
	w.put(1, 8)
	v.L[0].put(w)
	in.put(w)
	w.put(uint64(v.D), 16)
	w.put(uint64(v.E), 8)
	use := func(k int) {
		if k == 0 {
			sizes(in, wi)
			modelValue(binary.BigEndian, reflect.ValueOf(in), wi)
		} else {
			sizes(v, w)
			modelValue(binary.BigEndian, reflect.ValueOf(v), w)
		}
	}
	switch sym.Choose("first", 4) {
	case 0:
		use(0)
		use(1)
	case 1:
		use(1)
	case 2:
		use(0)
		others(3)
		use(1)
		others(2)
	case 3:
		use(1)
		others(1)
		use(0)
	}
	others(n)
	use(sym.Choose("then", 2))
	use(1)
	use(0)
}

// C22_Mixed: fields of every kind in combination, at several levels, after every history.
func C22_Mixed() {
	restruct.EnableExprBeta()
	after(mixed(22, 8))
}

package h

import (
	"encoding/binary"
	"math/bits"
	"reflect"
	"strconv"

	"github.com/go-restruct/restruct"
	"github.com/go-restruct/restruct/expr"
	"verif/harness/sym"
)

// wantVal checks that src gives exactly want, or an error if want is nil.
func wantVal(env map[string]expr.Value, src string, want any) {
	v, err := eval(env, src)
	if want == nil {
		sym.Cover("error")
		sym.Assert(err != nil, "what cannot be selected is an error")
		return
	}
	sym.Assert(err == nil, "what exists can be selected")
	sym.Assert(reflect.TypeOf(v) == reflect.TypeOf(want), "the selected value has its type")
	sym.Assert(sym.Same(v, want), "exactly the selected value is given")
	sym.Cover("value")
}

type emb20 struct {
	E uint16
	X uint32
}

type s20 struct {
	X  uint8
	Y  string
	z  uint8
	P  *s20
	Q  *uint16
	L  []uint8
	A  [2]uint16
	M  map[string]uint8
	F  func(uint8) uint8
	In struct{ X, W int32 }
	emb20
	Emb20
	F64 float64
	B   bool
}

type Emb20 struct{ G uint8 }

// C20_Dot: field selection from structs, through pointers, of embedded fields and from packages.
func C20_Dot() {
	x, y, w, e, q := sym.U8("x"), sym.Str("y", 1), sym.I32("w"), sym.U16("e"), sym.U16("q")
	f := sym.F64("f")
	s := s20{X: x, Y: y, z: 1, Q: &q, L: []uint8{x, 1}, A: [2]uint16{q, e}, M: map[string]uint8{"k": x}, F: func(n uint8) uint8 { return n + x }, F64: f, B: x > 3}
	s.In.X, s.In.W = w, -w
	s.G = x ^ 1
	s.emb20 = emb20{E: e, X: 9}
	s.P = &s20{X: x + 1, P: nil}
	env := map[string]expr.Value{"S": expr.ValueOf(s), "R": expr.ValueOf(&s), "N": expr.ValueOf((*s20)(nil)), "K": expr.ValueOf(expr.NewPackage(map[string]expr.Value{"X": expr.ValueOf(x), "S": expr.ValueOf(s), "P": expr.ValueOf(expr.NewPackage(map[string]expr.Value{"Y": expr.ValueOf(q)}))})),
		"X": expr.ValueOf(uint64(77)), "T": expr.ValueOf([]s20{s}), "PP": expr.ValueOf(&s.P), "G": expr.ValueOf(func() s20 { return s }), "H": expr.ValueOf(func() *s20 { return s.P })}
	cs := []struct {
		src  string
		want any
	}{
		{"S.X", x}, {"S.Y", y}, {"S.In.X", w}, {"S.In.W", -w}, {"S.A[0]", q}, {"S.A[1]", e}, {"S.L[0]", x}, {"S.M[\"k\"]", x}, {"S.F(1)", x + 1}, {"S.F64", f}, {"S.B", x > 3}, {"S.G", x ^ 1}, {"S.Emb20.G", x ^ 1}, {"S.P.X", x + 1}, {"*S.Q", q},
		{"R.X", x}, {"R.Y", y}, {"R.In.W", -w}, {"R.P.X", x + 1}, {"*R.Q", q}, {"(*R).Y", y}, {"R.A[1]", e}, {"R.G", x ^ 1}, {"T[0].In.X", w}, {"G().X", x}, {"H().X", x + 1}, {"(*PP).X", x + 1}, {"R.F(R.X)", x + x},
		{"K.X", x}, {"K.S.Y", y}, {"K.P.Y", q}, {"X", uint64(77)}, {"S.E", e}, {"S.emb20", nil},
		{"S.z", nil}, {"R.z", nil}, {"S.Nope", nil}, {"R.Nope", nil}, {"N.X", nil}, {"*N", nil}, {"S.P.P.X", nil}, {"R.P.P.X", nil}, {"K.Nope", nil}, {"K.P.X", nil}, {"X.X", nil}, {"S.X.X", nil}, {"S.L.X", nil}, {"S.x", nil}, {"*S", nil}, {"*X", nil}, {"S.Y.X", nil}, {"PP.X", x + 1},
		{"*S.P.Q", nil}, {"Nope", nil}, {"Nope.X", nil}, {"S.F.X", nil}, {"S.M.k", nil}, {"S", s.In},
	}
	c := cs[sym.Choose("case", len(cs)-1)]
	wantVal(env, c.src, c.want)
}

// C20_Index: every index into arrays, slices, strings and maps, in range or not.
func C20_Index() {
	n := sym.Choose("n", 4)
	i := sym.Int("i")
	k := sym.U8("k")
	b := sym.Bytes("b", n)
	var a [3]uint16
	for j := range a {
		a[j] = sym.U16("a" + gname(j))
	}
	var want any
	env := map[string]expr.Value{"I": expr.ValueOf(i), "K": expr.ValueOf(k)}
	in := sym.And(i >= 0, i < n)
	src := "L[I]"
	at := func(l []byte) any {
		if !in {
			return nil
		}
		var x byte
		for j := 0; j < len(l); j++ {
			x = byte(sym.Ite(i == j, uint64(l[j]), uint64(x)))
		}
		return x
	}
	switch sym.Choose("kind", 9) {
	case 0:
		env["L"] = expr.ValueOf(b)
		want = at(b)
	case 1:
		env["L"] = expr.ValueOf(string(b))
		want = at(b)
	case 2:
		env["L"] = expr.ValueOf(nStr(b))
		want = at(b)
	case 3:
		n = 3
		env["L"] = expr.ValueOf(a)
		in = sym.And(i >= 0, i < 3)
		if in {
			want = uint16(sym.Ite(i == 0, uint64(a[0]), sym.Ite(i == 1, uint64(a[1]), uint64(a[2]))))
		}
	case 4: // slices of slices
		env["L"] = expr.ValueOf([][]byte{nil, b})
		src = "L[1][I]"
		want = at(b)
	case 5: // arrays of structs
		l := make([]c17s, n)
		for j := range l {
			l[j].Y = b[j]
		}
		env["L"] = expr.ValueOf(l)
		src = "L[I].Y"
		want = at(b)
	case 6: // maps give the zero value for what they do not hold
		env["L"] = expr.ValueOf(map[uint8]uint16{1: 10, 200: 20})
		src = "L[K]"
		want = uint16(sym.Ite(k == 1, 10, sym.Ite(k == 200, 20, 0)))
	case 7: // an index of another type
		env["L"] = expr.ValueOf(b)
		src = "L[K]"
	case 8: // computed
		env["L"] = expr.ValueOf(b)
		i++
		in = sym.And(i >= 0, i < n)
		src = "L[I + 1]"
		want = at(b)
	}
	if src == "L[K]" && want == nil {
		_, err := eval(env, src)
		_ = err // only int indices are supported: no claim
		return
	}
	wantVal(env, src, want)
}

// C20_IndexConst: constant indices.
func C20_IndexConst() {
	b := sym.Bytes("b", 2)
	env := map[string]expr.Value{"L": expr.ValueOf(b), "S": expr.ValueOf(string(b)), "A": expr.ValueOf([2]uint8{b[0], b[1]}), "M": expr.ValueOf(map[string]uint8{"a": b[0], "": b[1]}), "D": expr.ValueOf(map[int8]uint8{-1: b[0], 1: b[1]}), "T": expr.ValueOf(map[bool]uint8{true: b[0]}), "N": expr.ValueOf(map[string]uint8(nil))}
	cs := []struct {
		src  string
		want any
	}{
		{"L[0]", b[0]}, {"L[1]", b[1]}, {"L[2]", nil}, {"L[-1]", nil}, {"S[0]", b[0]}, {"S[1]", b[1]}, {"S[2]", nil}, {"S[-1]", nil}, {"A[0]", b[0]}, {"A[1]", b[1]}, {"A[2]", nil}, {"A[-1]", nil}, {"L[9223372036854775807]", nil}, {"L['\\x01']", b[1]}, {"L[true]", nil}, {"L[\"a\"]", nil}, {"L[nil]", nil}, {"L[0.5]", nil},
		{"M[\"a\"]", b[0]}, {"M[\"\"]", b[1]}, {"M[\"b\"]", uint8(0)}, {"M[1]", nil}, {"M[nil]", nil}, {"D[-1]", b[0]}, {"D[1]", b[1]}, {"D[0]", uint8(0)}, {"D[\"a\"]", nil}, {"T[true]", b[0]}, {"T[false]", uint8(0)}, {"N[\"a\"]", uint8(0)}, {"1[0]", nil}, {"L[0][0]", nil}, {"nil[0]", nil}, {"\"ab\"[0]", uint8('a')}, {"\"ab\"[2]", nil}, {"L[1 - 1]", b[0]}, {"L[4 >> 2]", b[1]},
	}
	c := cs[sym.Choose("case", len(cs))]
	wantVal(env, c.src, c.want)
}

// C20_Call: arguments arrive in order and converted; results are what the function returns.
func C20_Call() {
	a, b, c := sym.U8("a"), sym.U16("b"), sym.I32("c")
	s := sym.Str("s", 1)
	p := sym.Bool("p")
	calls := 0
	env := map[string]expr.Value{
		"A": expr.ValueOf(a), "B": expr.ValueOf(b), "C": expr.ValueOf(c), "S": expr.ValueOf(s), "P": expr.ValueOf(p),
		"F": expr.ValueOf(func(x uint8, y uint16, z int32) int64 { return int64(x)<<48 | int64(y)<<32 | int64(uint32(z)) }),
		"G": expr.ValueOf(func(x, y string) string { return x + "|" + y }), "H": expr.ValueOf(func(x bool, y float64) bool { return x && y < 2 }),
		"Z": expr.ValueOf(func() uint8 { return a }), "T": expr.ValueOf(func(x uint8) func(uint8) uint8 { return func(y uint8) uint8 { return x*2 + y } }),
		"V": expr.ValueOf(func() {}), "W": expr.ValueOf(func() (uint8, uint8) { return a, a }), "N": expr.ValueOf(func(x *uint8) bool { return x == nil }), "L": expr.ValueOf(func(x []uint8, m map[string]int) bool { return x == nil && m == nil }),
		"D": expr.ValueOf(func(x uint64) uint64 { return x }), "E": expr.ValueOf(func(x int8) int8 { return x }), "K": expr.ValueOf((func() uint8)(nil)), "X": expr.ValueOf(func() uint8 { calls++; return 1 }),
		"I": expr.ValueOf(func(x s20x) s20x { x.A++; return x }), "J": expr.ValueOf(s20x{a, b}), "O": expr.ValueOf(func(x [2]uint8) uint8 { return x[1] }), "Q": expr.ValueOf([2]uint8{1, a}),
	}
	f3 := func(x uint8, y uint16, z int32) int64 { return int64(x)<<48 | int64(y)<<32 | int64(uint32(z)) }
	cs := []struct {
		src  string
		want any
	}{
		{"F(A, B, C)", f3(a, b, c)}, {"F(A+1, B*2, -C)", f3(a+1, b*2, -c)}, {"F(1, 2, -3)", f3(1, 2, -3)}, {"F(A,2,C)", f3(a, 2, c)}, {"G(S, \"x\")", s + "|x"}, {"G(\"x\", S)", "x|" + s}, {"G(G(S, S), S)", s + "|" + s + "|" + s}, {"H(P, 1.5)", p}, {"H(P, 2)", false}, {"H(true, 1)", true}, {"H(A == A, 1.0)", true},
		{"Z()", a}, {"Z( )", a}, {"T(A)(3)", a*2 + 3}, {"T(1)(A)", 2 + a}, {"T(T(1)(2))(Z())", 8 + a}, {"N(nil)", true}, {"L(nil, nil)", true}, {"D(18446744073709551615)", ^uint64(0)}, {"E(-128)", int8(-128)}, {"(Z)()", a}, {"I(J).A", a + 1}, {"I(I(J)).B", b}, {"I(J).A - J.A", uint8(1)}, {"O(Q)", a},
		{"V()", nil}, {"W()", nil}, {"K()", nil}, {"F()", nil}, {"F(A)", nil}, {"F(A, B)", nil}, {"F(A, B, C, C)", nil}, {"Z(1)", nil}, {"F(B, A, C)", nil}, {"F(A, B, S)", nil}, {"G(A, S)", nil}, {"G(1, S)", nil}, {"H(1, 1)", nil}, {"H(P, P)", nil}, {"A()", nil}, {"1()", nil}, {"S()", nil}, {"T(1)", T20}, {"T(1)(2)(3)", nil}, {"N(1)", nil}, {"F(nil, B, C)", nil}, {"D(1.5)", nil}, {"O(J)", nil}, {"Nope()", nil}, {"F(Nope, B, C)", nil},
	}
	i := sym.Choose("case", len(cs))
	if cs[i].want == T20 {
		sym.Stop()
	}
	if sym.Choose("once", 2) == 1 {
		v, err := eval(env, "X() + 1")
		sym.Assert(err == nil && v == uint8(2), "functions are called")
		sym.Assert(calls == 1, "a function is called once")
		return
	}
	wantVal(env, cs[i].src, cs[i].want)
}

var T20 any = "function"

type s20x struct {
	A uint8
	B uint16
}

// C20_Ref: & of what is addressable points to the very variable.
func C20_Ref() {
	s := &s20{X: sym.U8("x"), L: sym.Bytes("l", 2)}
	env := map[string]expr.Value{"R": expr.ValueOf(s), "S": expr.ValueOf(*s), "L": expr.ValueOf(s.L)}
	switch sym.Choose("case", 5) {
	case 0:
		v, err := expr.Eval(expr.NewMapResolver(env), "&R.X")
		p, ok := v.(*uint8)
		sym.Assert(err == nil && ok, "& gives a pointer")
		sym.Assert(p == &s.X, "& points to the variable")
	case 1:
		v, err := expr.Eval(expr.NewMapResolver(env), "&L[1]")
		p, ok := v.(*uint8)
		sym.Assert(err == nil && ok, "& gives a pointer")
		sym.Assert(p == &s.L[1], "& points to the element")
	case 2:
		wantVal(env, "*&R.X", s.X)
	case 3:
		wantVal(env, "&S.X", nil)
	case 4:
		wantVal(env, "*&L[0] + 1", s.L[0]+1)
	}
}

// C20_Resolvers: earlier resolvers win; what none has is an error.
func C20_Resolvers() {
	names := []string{"A", "B", "C"}
	type st struct {
		B uint8
		C uint8
	}
	var vals [3][3]any // resolver, name
	m := expr.NewMetaResolver()
	tm := expr.NewMetaTypeResolver()
	var has [3][3]bool
	nr := sym.Choose("resolvers", 4)
	for r := 0; r < nr; r++ {
		env := map[string]expr.Value{}
		kind := sym.Choose("kind"+gname(r), 3)
		if kind == 2 {
			s := st{sym.U8("s.B" + gname(r)), sym.U8("s.C" + gname(r))}
			vals[r] = [3]any{nil, s.B, s.C}
			has[r] = [3]bool{false, true, true}
			m.AddResolver(expr.NewStructResolver(reflect.ValueOf(s)))
			tm.AddResolver(expr.NewStructTypeResolver(s))
			continue
		}
		tenv := map[string]expr.Type{}
		for i, n := range names {
			if (i+r)%2 == kind {
				// Each resolver gives its values a type of its own.
				switch vals[r][i] = sym.U8(n + gname(r)); r {
				case 1:
					vals[r][i] = sym.U16(n + gname(r))
				case 2:
					vals[r][i] = int8(sym.U8(n + gname(r)))
				}
				has[r][i] = true
				env[n] = expr.ValueOf(vals[r][i])
				tenv[n] = expr.TypeOf(vals[r][i])
			}
		}
		m.AddResolver(expr.NewMapResolver(env))
		if kind == 0 {
			tm.AddResolver(expr.NewMapTypeResolver(tenv))
		} else {
			tm.AddResolver(expr.NewTypeResolverAdapter(expr.NewMapResolver(env)))
		}
	}
	i := sym.Choose("name", 3)
	var want any
	for r := nr - 1; r >= 0; r-- {
		if has[r][i] {
			want = vals[r][i]
		}
	}
	v, err := expr.Eval(m, names[i])
	t := tm.TypeResolve(names[i])
	if want == nil {
		sym.Assert(err != nil, "an unknown name is an error")
		sym.Assert(t == nil, "an unknown name has no type")
		return
	}
	sym.Assert(err == nil, "a known name resolves")
	sym.Assert(sym.Same(v, want), "the earliest resolver that has the name wins")
	sym.Assert(t != nil && expr.TypeEqual(t, expr.TypeOf(want)), "a name has the type of its value")
}

// C20_ResolverKinds: the earliest resolver that has the name wins, whatever the values are.
func C20_ResolverKinds() {
	type st struct{ X uint8 }
	kinds := 13
	var xs [3]uint8
	// mk gives a value and what name.X is in it, or nil if that is an error
	mk := func(k int, x uint8) (v, want any) {
		switch k {
		case 0:
			return expr.NewPackage(map[string]expr.Value{"X": expr.ValueOf(x)}), x
		case 1:
			return st{x}, x
		case 2:
			return &st{x}, x
		case 3:
			return (*st)(nil), nil
		case 4:
			return uint8(0), nil
		case 5:
			return false, nil
		case 6:
			return "", nil
		case 7:
			return []st{}, nil
		case 8:
			return func() uint8 { return x }, nil
		case 9:
			return expr.NewPackage(nil), nil
		case 10:
			return []st(nil), nil
		case 11:
			return map[string]st(nil), nil
		case 12:
			return st{}, uint8(0)
		}
		return nil, nil
	}
	m := expr.NewMetaResolver()
	var want any
	found := false
	for r := 0; r < 3; r++ {
		xs[r] = sym.U8("x" + gname(r))
		k := sym.Choose("kind"+gname(r), kinds+1)
		v, w := mk(k, xs[r])
		env := map[string]expr.Value{"B": expr.ValueOf(1)}
		if v != nil {
			env["A"] = expr.ValueOf(v)
			if !found {
				found, want = true, w
			}
		}
		if v != nil && k != 0 && k != 9 && sym.Choose("struct"+gname(r), 2) == 1 {
			sv := reflect.New(reflect.StructOf([]reflect.StructField{sf("A", reflect.TypeOf(v), "")})).Elem()
			sv.Field(0).Set(reflect.ValueOf(v))
			m.AddResolver(expr.NewStructResolver(sv))
		} else {
			m.AddResolver(expr.NewMapResolver(env))
		}
	}
	v, err := expr.Eval(m, "A.X")
	sym.Observe("v", v)
	if want == nil {
		sym.Assert(err != nil, "a later resolver does not stand in for an earlier one")
		return
	}
	sym.Assert(err == nil, "the name resolves")
	sym.Assert(sym.Same(v, want), "the earliest resolver that has the name wins")
}

// bitsFn is one function of the bits package by tag expression and reference.
func bitsFns() []struct {
	src  string
	want func(a8 uint8, a16 uint16, a32 uint32, a64 uint64) uint64
} {
	type f = func(a8 uint8, a16 uint16, a32 uint32, a64 uint64) uint64
	type e = struct {
		src  string
		want func(a8 uint8, a16 uint16, a32 uint32, a64 uint64) uint64
	}
	i8 := func(g func(uint8) int) f {
		return func(a uint8, _ uint16, _ uint32, _ uint64) uint64 { return uint64(g(a)) }
	}
	i16 := func(g func(uint16) int) f {
		return func(_ uint8, a uint16, _ uint32, _ uint64) uint64 { return uint64(g(a)) }
	}
	i32 := func(g func(uint32) int) f {
		return func(_ uint8, _ uint16, a uint32, _ uint64) uint64 { return uint64(g(a)) }
	}
	i64 := func(g func(uint64) int) f {
		return func(_ uint8, _ uint16, _ uint32, a uint64) uint64 { return uint64(g(a)) }
	}
	return []e{
		{"LeadingZeros8(A)", i8(bits.LeadingZeros8)}, {"LeadingZeros16(B)", i16(bits.LeadingZeros16)}, {"LeadingZeros32(C)", i32(bits.LeadingZeros32)}, {"LeadingZeros64(D)", i64(bits.LeadingZeros64)},
		{"Len8(A)", i8(bits.Len8)}, {"Len16(B)", i16(bits.Len16)}, {"Len32(C)", i32(bits.Len32)}, {"Len64(D)", i64(bits.Len64)},
		{"OnesCount8(A)", i8(bits.OnesCount8)}, {"OnesCount16(B)", i16(bits.OnesCount16)}, {"OnesCount32(C)", i32(bits.OnesCount32)}, {"OnesCount64(D)", i64(bits.OnesCount64)},
		{"TrailingZeros8(A)", i8(bits.TrailingZeros8)}, {"TrailingZeros16(B)", i16(bits.TrailingZeros16)}, {"TrailingZeros32(C)", i32(bits.TrailingZeros32)}, {"TrailingZeros64(D)", i64(bits.TrailingZeros64)},
		{"LeadingZeros(E)", i64(bits.LeadingZeros64)}, {"Len(E)", i64(bits.Len64)}, {"OnesCount(E)", i64(bits.OnesCount64)}, {"TrailingZeros(E)", i64(bits.TrailingZeros64)},
	}
}

type bits20 struct {
	A uint8
	B uint16
	C uint32
	D uint64
	E uint
	N int
}

// C20_Bits: every function of the built-in bits package on every argument.
func C20_Bits() {
	restruct.EnableExprBeta()
	fns := bitsFns()
	src := []string{"Reverse8(A)", "Reverse16(B)", "Reverse32(C)", "Reverse64(D)", "Reverse(E)", "ReverseBytes16(B)", "ReverseBytes32(C)", "ReverseBytes64(D)", "ReverseBytes(E)", "RotateLeft8(A, N)", "RotateLeft16(B, N)", "RotateLeft32(C, N)", "RotateLeft64(D, N)", "RotateLeft(E, N)", "RotateLeft8(A, -1)", "Len(1)", "Nope(A)"}
	k := sym.Choose("fn", len(fns)+len(src))
	s := bits20{A: sym.U8("a"), B: sym.U16("b"), C: sym.U32("c"), D: sym.U64("d"), E: uint(sym.U32("e")), N: sym.Choose("n", 3)*9 - 9}
	var fn string
	var t reflect.Type
	var want uint64
	if k < len(fns) {
		fn, t = fns[k].src, reflect.TypeOf(int64(0))
		d := s.D
		if fn[len(fn)-2] == 'E' {
			d = uint64(s.E)
		}
		want = fns[k].want(s.A, s.B, s.C, d)
	} else {
		fn = src[k-len(fns)]
		rt := func(v any) {
			t = reflect.TypeOf(v)
			want = u64(v)
		}
		switch fn {
		case "Reverse8(A)":
			rt(bits.Reverse8(s.A))
		case "Reverse16(B)":
			rt(bits.Reverse16(s.B))
		case "Reverse32(C)":
			rt(bits.Reverse32(s.C))
		case "Reverse64(D)":
			rt(bits.Reverse64(s.D))
		case "Reverse(E)":
			rt(uint64(bits.Reverse(s.E)))
		case "ReverseBytes16(B)":
			rt(bits.ReverseBytes16(s.B))
		case "ReverseBytes32(C)":
			rt(bits.ReverseBytes32(s.C))
		case "ReverseBytes64(D)":
			rt(bits.ReverseBytes64(s.D))
		case "ReverseBytes(E)":
			rt(uint64(bits.ReverseBytes(s.E)))
		case "RotateLeft8(A, N)":
			rt(bits.RotateLeft8(s.A, s.N))
		case "RotateLeft16(B, N)":
			rt(bits.RotateLeft16(s.B, s.N))
		case "RotateLeft32(C, N)":
			rt(bits.RotateLeft32(s.C, s.N))
		case "RotateLeft64(D, N)":
			rt(bits.RotateLeft64(s.D, s.N))
		case "RotateLeft(E, N)":
			rt(uint64(bits.RotateLeft(s.E, s.N)))
		case "RotateLeft8(A, -1)":
			rt(bits.RotateLeft8(s.A, -1))
		case "Len(1)":
			rt(int64(1))
		default:
			t = reflect.TypeOf(int64(0))
		}
	}
	f := reflect.StructField{Name: "Out", Type: t, Tag: reflect.StructTag(`struct:"` + t.Kind().String() + `,out=bits.` + fn + `"`)}
	in := reflect.TypeOf(s)
	lt := reflect.StructOf([]reflect.StructField{{Name: "A", Type: in.Field(0).Type}, {Name: "B", Type: in.Field(1).Type}, {Name: "C", Type: in.Field(2).Type}, {Name: "D", Type: in.Field(3).Type}, {Name: "E", Type: in.Field(4).Type}, {Name: "N", Type: in.Field(5).Type}, f})
	v := reflect.New(lt)
	for i := 0; i < 6; i++ {
		v.Elem().Field(i).Set(reflect.ValueOf(s).Field(i))
	}
	data, err := restruct.Pack(binary.BigEndian, v.Interface())
	sym.Observe("data", data)
	if fn == "Nope(A)" {
		sym.Assert(err != nil, "an unknown function is an error")
		return
	}
	sym.Assert(err == nil, "the bits package is available")
	w := &wr{}
	w.num(want, int(t.Size())*8, false)
	sym.Assert(len(data) == 23+int(t.Size()), "the result is packed")
	sym.Assert(sym.EqBytes(data[23:], w.b), "bits functions give what math/bits gives")
}

type in20 struct {
	N uint8
	X uint8 `struct:"uint8,out=N + 1"`
}
type in20b struct {
	X uint8 `struct:"uint8,out=N + 1"`
}

// C20_Scope: names in tags are fields of the nearest enclosing struct only; built-ins come first.
func C20_Scope() {
	restruct.EnableExprBeta()
	n, m, x := sym.U8("n"), sym.U8("m"), sym.U8("x")
	switch sym.Choose("case", 6) {
	case 0: // the inner struct's own field
		v := struct {
			N uint8
			S in20
			Y uint8 `struct:"uint8,out=N - 1"`
		}{n, in20{m, x}, x}
		d, err := restruct.Pack(binary.BigEndian, &v)
		sym.Assert(err == nil, "Pack succeeds")
		sym.Assert(sym.EqBytes(d, []byte{n, m, m + 1, n - 1}), "names are those of the enclosing struct")
	case 1: // the outer struct's field is not in scope
		v := struct {
			N uint8
			S in20b
		}{n, in20b{x}}
		_, err := restruct.Pack(binary.BigEndian, &v)
		sym.Assert(err != nil, "names of outer structs are unknown")
	case 2: // nested selection
		v := struct {
			S in20
			Y uint8 `struct:"uint8,out=S.N ^ S.X"`
		}{in20{m, x}, 0}
		d, err := restruct.Pack(binary.BigEndian, &v)
		sym.Assert(err == nil, "Pack succeeds")
		sym.Assert(sym.EqBytes(d, []byte{m, m + 1, m ^ x}), "fields of inner structs are selected")
	case 3: // elements
		v := struct {
			C uint8
			L []in20 `struct:"sizefrom=C"`
			Y uint8  `struct:"uint8,out=L[1].N"`
		}{2, []in20{{n, 0}, {m, 0}}, 0}
		d, err := restruct.Pack(binary.BigEndian, &v)
		sym.Assert(err == nil, "Pack succeeds")
		sym.Assert(sym.EqBytes(d, []byte{2, n, n + 1, m, m + 1, m}), "elements are indexed")
	case 5: // promoted fields
		v := struct {
			K uint8
			In20p
			Y uint8   `struct:"uint8,out=A - K"`
			Z []uint8 `struct:"size=B & 1"`
			W uint8   `struct:"if=D == K"`
			F uint8   `struct:"uint8,out=In20p.B + In20q.D"`
		}{n, In20p{x, m, In20q{sym.U8("d")}}, 0, nil, sym.U8("w"), 0}
		want := []byte{n, x, m, v.D, x - n}
		if m&1 == 1 {
			v.Z = sym.Bytes("z", 1)
			want = append(want, v.Z...)
		}
		if v.D == n {
			want = append(want, v.W)
		} else {
			v.W = 0
		}
		want = append(want, m+v.D)
		d, err := restruct.Pack(binary.BigEndian, &v)
		sym.Observe("d", d)
		sym.Assert(err == nil, "Pack succeeds")
		sym.Assert(sym.EqBytes(d, want), "fields of an embedded struct are in scope")
		y := v
		y.K, y.In20p, y.Z, y.W = 0, In20p{}, nil, 0
		err = restruct.Unpack(want, binary.BigEndian, &y)
		sym.Assert(err == nil, "Unpack succeeds")
		v.Y, v.F = x-n, m+v.D
		sym.Assert(sym.Same(y, v), "fields of an embedded struct are in scope")
	case 4: // unpacking: earlier fields have their decoded values
		var v struct {
			N, M uint8
			P    uint8 `struct:"if=N > M"`
			Q    uint8 `struct:"if=N <= M"`
		}
		err := restruct.Unpack([]byte{n, m, x}, binary.BigEndian, &v)
		sym.Assert(err == nil, "Unpack succeeds")
		sym.Assert(sym.And(sym.Implies(n > m, sym.And(v.P == x, v.Q == 0)), sym.Implies(n <= m, sym.And(v.Q == x, v.P == 0))), "names have their decoded values")
	}
}

// In20p and In20q are embedded.
type In20p struct {
	A, B uint8
	In20q
}

type In20q struct{ D uint8 }

// C20_Builtin: built-in names keep their meaning whatever fields a struct has.
func C20_Builtin() {
	restruct.EnableExprBeta()
	ts := []reflect.Type{tU8, tInt, tStr, tof(false), tof([]uint8(nil)), tof((*int)(nil)), tof(struct{ OnesCount8 uint8 }{}), tof((func(uint8) int)(nil)), tof(map[string]int(nil)), tof(uintptr(0))}
	names := []string{"bits", "_eof"}
	exprs := []string{"bits.OnesCount8(A) == 1", "!_eof"}
	k := sym.Choose("name", 2)
	ft := ts[sym.Choose("type", len(ts))]
	own := reflect.StructField{Name: names[k], Type: ft, PkgPath: "verif/harness/h"}
	fs := []reflect.StructField{sf("A", tU8, ""), sf("B", tU8, "if="+exprs[k])}
	at := sym.Choose("at", 3)
	fs = append(fs[:at:at], append([]reflect.StructField{own}, fs[at:]...)...)
	t := reflect.StructOf(fs)
	data := sym.Bytes("data", 1+sym.Choose("n", 2))
	v := reflect.New(t)
	err := restruct.Unpack(data, binary.BigEndian, v.Interface())
	sym.Observe("v", v.Interface())
	a, b := v.Elem().FieldByName("A").Uint(), v.Elem().FieldByName("B").Uint()
	var on bool
	if k == 0 {
		on = bits.OnesCount8(data[0]) == 1
	} else {
		on = len(data) > 1
	}
	switch {
	case !on:
		sym.Cover("absent")
		sym.Assert(sym.And(err == nil, a == uint64(data[0]), b == 0), "built-in names come before fields")
	case len(data) > 1:
		sym.Cover("present")
		sym.Assert(sym.And(err == nil, a == uint64(data[0]), b == uint64(data[1])), "built-in names come before fields")
	default:
		sym.Assert(err != nil, "built-in names come before fields")
	}
}

// C20_Eof: _eof is true exactly when the input is used up.
func C20_Eof() {
	restruct.EnableExprBeta()
	n := sym.Choose("n", 5)
	b := sym.Bytes("b", n)
	var v struct {
		A uint8   `struct:"if=!_eof"`
		B uint8   `struct:"if=!_eof"`
		L []uint8 `struct:"while=!_eof"`
	}
	err := restruct.Unpack(b, binary.BigEndian, &v)
	sym.Observe("v", v)
	sym.Assert(err == nil, "Unpack succeeds")
	at := func(i int) byte {
		if i < n {
			return b[i]
		}
		return 0
	}
	sym.Assert(sym.And(v.A == at(0), v.B == at(1)), "_eof tells the end of the input")
	var rest []byte
	if n > 2 {
		rest = b[2:]
	}
	sym.Assert(sym.Same(v.L, rest), "_eof tells the end of the input")
}

// C20_Types: the expression type of every Go type, and equality of types.
func C20_Types() {
	vs := []any{false, int(0), int8(0), int16(0), int32(0), int64(0), uint(0), uint8(0), uint16(0), uint32(0), uint64(0), uintptr(0), float32(0), float64(0), "",
		[2]uint8{}, [3]uint8{}, [2]int8{}, []uint8{}, []int8{}, map[string]int{}, map[int]string{}, new(uint8), new(int8), c17s{}, s20x{}, func(uint8) int { return 0 }, func(int) int { return 0 }, func() int { return 0 }, [][]uint8{}, new(*uint8)}
	kinds := []expr.Kind{expr.Bool, expr.Int, expr.Int8, expr.Int16, expr.Int32, expr.Int64, expr.Uint, expr.Uint8, expr.Uint16, expr.Uint32, expr.Uint64, expr.Uintptr, expr.Float32, expr.Float64, expr.String,
		expr.Array, expr.Array, expr.Array, expr.Slice, expr.Slice, expr.Map, expr.Map, expr.Ptr, expr.Ptr, expr.Struct, expr.Struct, expr.Func, expr.Func, expr.Func, expr.Slice, expr.Ptr}
	i, j := sym.Choose("i", len(vs)), sym.Choose("j", len(vs))
	t, u := expr.TypeOf(vs[i]), expr.TypeOf(vs[j])
	sym.Assert(t.Kind() == kinds[i], "a type has its kind")
	sym.Assert(expr.TypeEqual(t, u) == (i == j), "types are equal exactly if they are the same")
	sym.Assert(expr.TypeEqual(expr.ValueOf(vs[i]).Type(), t), "a value has the type of its Go type")
}

// C20_Args: many arguments, of every form, each in its place.
func C20_Args() {
	a, b, c := sym.U8("a"), sym.U8("b"), sym.U8("c")
	pack := func(xs ...uint8) (r uint64) {
		for _, x := range xs {
			r = r<<7 ^ uint64(x)
		}
		return
	}
	env := map[string]expr.Value{"A": expr.ValueOf(a), "B": expr.ValueOf(b), "C": expr.ValueOf(c), "T": expr.ValueOf(true),
		"F2": expr.ValueOf(func(x, y uint8) uint8 { return x<<1 ^ y }),
		"F4": expr.ValueOf(func(x0, x1, x2, x3 uint8) uint64 { return pack(x0, x1, x2, x3) }),
		"F5": expr.ValueOf(func(x0, x1, x2, x3, x4 uint8) uint64 { return pack(x0, x1, x2, x3, x4) }),
		"F6": expr.ValueOf(func(x0, x1, x2, x3, x4, x5 uint8) uint64 { return pack(x0, x1, x2, x3, x4, x5) }),
		"F9": expr.ValueOf(func(x0, x1, x2, x3, x4, x5, x6, x7, x8 uint8) uint64 { return pack(x0, x1, x2, x3, x4, x5, x6, x7, x8) })}
	// forms of an argument and their values
	args := []struct {
		s string
		v uint8
	}{{"A", a}, {"B + C", b + c}, {"3", 3}, {"F2(A, B)", a<<1 ^ b}, {"(C)", c}, {"T ? B : C", b}, {"'x'", 'x'}, {"-A", -a}}
	ns := []int{4, 5, 6, 9}
	n := ns[sym.Choose("n", len(ns))]
	off, step := sym.Choose("off", len(args)), 1+2*sym.Choose("step", 2)
	src, want := "F"+strconv.Itoa(n)+"(", []uint8{}
	for i := 0; i < n; i++ {
		x := args[(off+i*step)%len(args)]
		if i > 0 {
			src += ", "
		}
		if x.s == "T ? B : C" {
			x.s = "(" + x.s + ")"
		}
		src += x.s
		want = append(want, x.v)
	}
	v, err := eval(env, src+")")
	sym.Assert(err == nil, "the call is evaluated")
	sym.Assert(sym.Same(v, pack(want...)), "every argument is in its place")
	_, err = eval(env, src+", A)")
	sym.Assert(err != nil, "one argument too many is an error")
}

// C20_Changing: what a name means is decided anew by every evaluation.
func C20_Changing() {
	type st struct{ B uint8 }
	env := []map[string]expr.Value{{}, {}}
	s := &st{sym.U8("s")}
	m := expr.NewMetaResolver()
	m.AddResolver(expr.NewMapResolver(env[0]))
	m.AddResolver(expr.NewStructResolver(reflect.ValueOf(s).Elem()))
	m.AddResolver(expr.NewMapResolver(env[1]))
	var vals [2]any
	added := false
	p := expr.ParseString("B")
	for i := 0; i < 3; i++ {
		name := []string{"A", "B"}[sym.Choose("name", 2)]
		k := sym.Choose("where", 2)
		switch sym.Choose("do", 4) {
		case 0:
			delete(env[k], name)
		case 1:
			if k == 0 {
				env[k][name] = expr.ValueOf(sym.U16("x"))
			} else {
				env[k][name] = expr.ValueOf(sym.I32("y"))
			}
		case 2:
			s.B = sym.U8("s")
		case 3:
			if !added {
				added = true
				vals[0] = sym.U64("z")
				m.AddResolver(expr.NewMapResolver(map[string]expr.Value{"A": expr.ValueOf(vals[0])}))
			}
		}
		for _, n := range []string{"A", "B"} {
			var want any
			switch {
			case env[0][n] != nil:
				want = env[0][n].RawValue()
			case n == "B":
				want = s.B
			case env[1][n] != nil:
				want = env[1][n].RawValue()
			case n == "A" && added:
				want = vals[0]
			}
			v, err := expr.Eval(m, n)
			sym.Assert((err == nil) == (want != nil), "a name is known if a resolver has it now")
			if want != nil {
				sym.Assert(sym.Same(v, want), "the first resolver that has a name gives its value")
			}
			if n == "B" && want != nil {
				v, err = expr.EvalProgram(m, p)
				sym.Assert(err == nil && sym.Same(v, want), "a program sees the values of now")
			}
		}
	}
}

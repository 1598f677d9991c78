package h

import (
	"io"
	"reflect"
	"strings"

	"github.com/go-restruct/restruct/expr"
	"verif/harness/sym"
)

type c19s struct {
	X uint8
	P *c19s
	y int
}

type c19kind struct {
	name string
	gen  func(n string) any
}

// values19 is one symbolic value of every kind an expression can meet.
func values19() []c19kind {
	return []c19kind{
		{"u8", func(n string) any { return sym.U8(n) }},
		{"int", func(n string) any { return sym.Int(n) }},
		{"bool", func(n string) any { return sym.Bool(n) }},
		{"string", func(n string) any { return sym.Str(n, 1) }},
		{"float", func(n string) any { return sym.F64(n) }},
		{"struct", func(n string) any { return c19s{X: sym.U8(n)} }},
		{"ptr", func(n string) any { return &c19s{X: sym.U8(n)} }},
		{"nilptr", func(n string) any { return (*c19s)(nil) }},
		{"slice", func(n string) any { return []uint8{sym.U8(n)} }},
		{"nilslice", func(n string) any { return []uint8(nil) }},
		{"array", func(n string) any { return [2]bool{sym.Bool(n)} }},
		{"map", func(n string) any { return map[string]uint8{"a": sym.U8(n)} }},
		{"nilmap", func(n string) any { return map[uint8]uint8(nil) }},
		{"func0", func(n string) any { x := sym.U8(n); return func() uint8 { return x } }},
		{"func1", func(n string) any { return func(x uint8) uint8 { return x } }},
		{"func2", func(n string) any { return func(x, y uint8) bool { return x == y } }},
		{"func3", func(n string) any { return func() {} }},
		{"variadic", func(n string) any { return func(x ...uint8) int { return len(x) } }},
		{"nilfunc", func(n string) any { return (func() uint8)(nil) }},
		{"panics", func(n string) any { return func() uint8 { panic("custom") } }},
		{"package", func(n string) any { return expr.NewPackage(map[string]expr.Value{"X": expr.ValueOf(sym.U8(n))}) }},
		{"slices", func(n string) any { return [][]string{{sym.Str(n, 1)}} }},
		{"ptrptr", func(n string) any { x := new(uint8); return &x }},
	}
}

func total(env map[string]expr.Value, src string) {
	v, err := expr.Eval(expr.NewMapResolver(env), src)
	// any value or error will do; this says which on the trace
	sym.Observe("err", err)
	if err == nil {
		sym.Observe("v", v)
	}
	sym.Cover("returned")
}

func env19() map[string]expr.Value {
	return map[string]expr.Value{"A": expr.ValueOf(sym.U8("a")), "B": expr.ValueOf(sym.Bool("b")), "S": expr.ValueOf(c19s{}), "f": expr.ValueOf(func(x uint8) uint8 { return x }), "L": expr.ValueOf([]uint8{1}), "a": expr.ValueOf("x")}
}

// C19_Bytes: any bytes at all.
func C19_Bytes() {
	n := 2 + b2i(sym.Thorough())
	total(env19(), sym.Str("src", sym.Choose("len", n+1)))
}

// C19_Around: any two bytes (one in quick runs) within an expression.
func C19_Around() {
	ctx := [][2]string{{"A", "B"}, {"A ", " A"}, {"(A", ")"}, {"(", "A)"}, {"S.", ""}, {"S.X", ""}, {"L[", "]"}, {"f(", ")"}, {"f(A", ")"}, {"'", "'"}, {"'\\", "'"}, {"\"", "\""}, {"\"\\", "\""}, {"\"a\\x", "\""}, {"\"\\1", "\""}, {"\"\\u00", "\""}, {"\"\\U0010", "\""}, {"$'", "'"}, {"$", ""},
		{"0", ""}, {"1", ""}, {"0x", ""}, {"0b", ""}, {"-", ""}, {"1.", ""}, {".", ""}, {"1e", ""}, {"B ? A ", " A"}, {"B ? ", ": A"}, {"B", "A : A"}, {"A &", "A"}, {"A =", ""}, {"!", ""}, {"\xe4", ""}, {"\xf0\x90", ""}, {"tru", ""}, {"ni", ""}}
	c := ctx[sym.Choose("ctx", len(ctx))]
	total(env19(), c[0]+sym.Str("src", 1+b2i(sym.Thorough()))+c[1])
}

var tokens19 = []string{"A", "B", "S", "f", "1", "2.5", "\"a\"", "'a'", "true", "nil", "uint8", "(", ")", "[", "]", ".", ",", "?", ":", "+", "-", "*", "&", "!", "^", "==", "<", "<<", "&&", "||", "&^", "X"}
var tokens19s = []string{"A", "B", "S", "f", "1", "(", ")", "[", "]", ".", ",", "?", ":", "-", "*", "&&", "=="}

func seq(ts []string, n int) {
	src := ""
	for i := 0; i < n; i++ {
		src += ts[sym.Choose("token"+gname(i), len(ts))] + " "
	}
	total(env19(), src)
}

// C19_Tokens: any sequence of three tokens.
func C19_Tokens() { seq(tokens19, 3) }

// C19_Tokens4: any sequence of four of the main tokens.
func C19_Tokens4() { seq(tokens19s, 4) }

// C19_Tokens5_T: four and five tokens.
func C19_Tokens5_T() {
	if sym.Choose("n", 2) == 0 {
		seq(tokens19, 4)
	} else {
		seq([]string{"A", "f", "1", "(", ")", "[", ".", ",", "?", ":", "-", "&&"}, 5)
	}
}

// C19_Truncated: well-formed expressions cut anywhere, or with one byte changed to anything.
func C19_Truncated() {
	srcs := []string{"B ? f(A) + 1 : L[0]", "(S.X == A) && !B", "-A << 2 &^ 0x1f", "f(f(A)) * 'a'", "a + \"b\\n\\x41\\101\"", "S.P == nil || *S.P.P", "a[0] < 10.5", "a + \"\\u12e4x\"", "'\\u00e4' == A", "\"\\U00101234\" != a", "$'\\x4f' + $'\\377'", "'\\U0010ffff'", "'\\'' + '\"'", "\"\\\"\\'\" == a"}
	s := srcs[sym.Choose("src", len(srcs))]
	i := sym.Choose("at", len(s))
	switch sym.Choose("how", 2) {
	case 0:
		s = s[:i]
	case 1:
		s = s[:i] + sym.Str("byte", 1) + s[i+1:]
	}
	total(env19(), s)
}

// C19_Kinds: every operator on values of every kind.
func C19_Kinds() {
	vs := values19()
	a := vs[sym.Choose("a", len(vs))]
	b := vs[sym.Choose("b", len(vs))]
	forms := []string{"A + B", "A - B", "A / B", "A % B", "A & B", "A == B", "A != B", "A < B", "A << B", "A >> B", "A && B", "A || B", "A[B]", "A(B)", "A.B", "A ? B : B", "A(B, B)", "A(A)(B)", "A[B][0]", "A.X + B"}
	f := forms[sym.Choose("form", len(forms))]
	total(map[string]expr.Value{"A": expr.ValueOf(a.gen("va")), "B": expr.ValueOf(b.gen("vb"))}, f)
}

// C19_Unary: every prefix and every literal partner on values of every kind.
func C19_Unary() {
	vs := values19()
	a := vs[sym.Choose("a", len(vs))]
	forms := []string{"A", "-A", "+A", "!A", "^A", "*A", "&A", "**A", "*&A", "&*A", "A()", "A(nil)", "A(1)", "A(1.5)", "A(\"x\")", "A(true)", "A(1, 2)", "A[0]", "A[1]", "A[-1]", "A[9223372036854775807]", "A[18446744073709551615]", "A[\"a\"]", "A[nil]", "A[true]", "A[1.5]", "A.X", "A.Y", "A.y", "A.P", "A.P.X", "A.P.P.X",
		"A == nil", "nil == A", "A < nil", "A == 1", "A + 1", "1 / A", "A / 0", "A % 0", "A << 64", "A << -1", "A << 1.5", "A == true", "A == \"a\"", "A + \"a\"", "A == 1.5", "A && true", "false && A", "A ? 1 : 2", "true ? A : 1", "A == A", "A != A", "A < A", "Z", "Z.A", "A.1", "(A)", "A, A", "A(A)", "A[A]"}
	total(map[string]expr.Value{"A": expr.ValueOf(a.gen("va"))}, forms[sym.Choose("form", len(forms))])
}

type rz struct{ n int }

func (r *rz) Resolve(ident string) expr.Value {
	switch r.n {
	case 0:
		return nil
	case 1:
		panic("resolver")
	}
	return expr.ValueOf(uint8(3))
}

// C19_Resolvers: resolvers that give nothing, panic, or are missing.
func C19_Resolvers() {
	src := []string{"A", "A + 1", "1 + 2", "true || A", "A(A)", "A.B"}[sym.Choose("src", 6)]
	var r expr.Resolver
	if k := sym.Choose("resolver", 4); k < 3 {
		r = &rz{k}
	}
	v, err := expr.Eval(r, src)
	sym.Observe("err", err)
	if err == nil {
		sym.Observe("v", v)
	}
	sym.Cover("returned")
}

// C19_Unknown: a name that does not resolve is an error, wherever its value is needed.
func C19_Unknown() {
	vs := values19()
	a := vs[sym.Choose("a", len(vs))]
	forms := []string{"Z", "Z == A", "A == Z", "Z != A", "A != Z", "Z == nil", "nil == Z", "nil != Z", "Z == Z", "Z < A", "A + Z", "Z()", "Z(A)", "Z.X", "Z[0]", "Z[A]", "-Z", "!Z", "*Z", "&Z", "&Z == A", "Z ? A : A", "(Z)", "Z == true", "Z == \"\"", "Z == 0",
		"true && Z", "false || Z", "true ? Z : A", "false ? A : Z", "K.Z", "K.Z == nil", "nil == K.Z", "S.Z", "S.Z == nil", "S.y", "S.y == 0"}
	src := forms[sym.Choose("form", len(forms))]
	env := map[string]expr.Value{"A": expr.ValueOf(a.gen("va")), "K": expr.ValueOf(expr.NewPackage(map[string]expr.Value{"X": expr.ValueOf(uint8(1))})), "S": expr.ValueOf(c19s{})}
	v, err := expr.Eval(expr.NewMapResolver(env), src)
	if err == nil {
		sym.Observe("v", v)
	}
	sym.Assert(err != nil, "an unknown name is an error")
}

// C19_Program: programs that parse evaluate the same way, again and again.
func C19_Program() {
	srcs := []string{"A + 1", "B ? A : 2", "f(A)", "A / 0", "Nope", "A ++", "", "(", "nil", "-nil", "S.Q", "L[2]"}
	src := srcs[sym.Choose("src", len(srcs))]
	env := env19()
	v0, err0 := expr.Eval(expr.NewMapResolver(env), src)
	var p *expr.Program
	bad := func() (bad bool) {
		defer func() {
			if recover() != nil {
				bad = true
			}
		}()
		p = expr.ParseString(src)
		return
	}()
	if bad {
		sym.Assert(err0 != nil, "what does not parse does not evaluate")
		return
	}
	for i := 0; i < 2; i++ {
		v, err := expr.EvalProgram(expr.NewMapResolver(env), p)
		sym.Assert((err == nil) == (err0 == nil), "a program evaluates like its source")
		if err == nil {
			sym.Assert(sym.Same(v, v0), "a program evaluates like its source")
		}
	}
}

type c19rl []c19rl
type c19rm map[string]c19rm
type c19rf func(c19rf) c19rf
type c19rp *c19rp
type c19ra [2][]c19ra
type c19rs struct {
	M map[uint8]c19rs
	L []c19rs
	P *c19rs
	F func() c19rs
	X uint8
}
type c19rx []map[string]*c19rx

// C19_Recursive: values whose types contain themselves, by slices, maps, pointers and functions.
func C19_Recursive() {
	p := new(c19rp)
	vs := []any{c19rl{}, c19rl{nil, {}}, c19rm{"a": nil}, c19rf(nil), c19rf(func(f c19rf) c19rf { return f }), c19rp(nil), c19rp(p), c19ra{}, c19rs{X: sym.U8("x")}, &c19rs{L: []c19rs{{}}}, c19rx{{"a": nil}}, (*c19rx)(nil), [1]c19rm{}, func(c19rl) c19rm { return nil }, struct{ c19rl }{}, &struct{ A, B c19rm }{}}
	v := vs[sym.Choose("value", len(vs))]
	forms := []string{"A", "A == nil", "A != nil", "A + 1", "-A", "!A", "*A", "**A", "A == A", "A < A", "A[0]", "A[0][0]", "A[\"a\"]", "A[\"a\"][\"a\"]", "A[1].X", "A()", "A(A)", "A(nil)", "A(nil)(nil)", "A.X", "A.M", "A.M[0].X", "A.L[0].X", "A.P.X", "A.P.P", "A.F().X", "A ? A : A", "true ? A : 1", "A && true", "A << 1", "nil + A", "A[A]", "1 + A", "\"a\" + A", "K(A)", "A.A[\"a\"]", "A[0] == A", "A[0][\"a\"]"}
	src := forms[sym.Choose("form", len(forms))]
	var r expr.Resolver
	k := expr.ValueOf(func(x uint8) uint8 { return x })
	if sym.Choose("resolver", 2) == 0 {
		r = expr.NewMapResolver(map[string]expr.Value{"A": expr.ValueOf(v), "K": k})
	} else {
		st := reflect.New(reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.TypeOf(v)}, {Name: "K", Type: reflect.TypeOf(func(uint8) uint8 { return 0 })}})).Elem()
		st.Field(0).Set(reflect.ValueOf(v))
		r = expr.NewStructResolver(st)
	}
	_, err := expr.Eval(r, src)
	if err != nil {
		// its text names the type
		sym.Assert(err.Error() != "" && expr.ValueOf(v).Type().String() != "", "an error has a text")
	}
	if src == "A" || src == "true ? A : 1" {
		sym.Assert(err == nil, "the value can be named")
	}
	sym.Cover("returned")
}

// lazy19 is a source made of many copies of one text, another text, and many copies of a third.
type lazy19 struct {
	p    [3]string
	n    int
	k, i int
	back bool
	last rune
}

func (l *lazy19) ReadRune() (rune, int, error) {
	if l.back {
		l.back = false
		return l.last, 1, nil
	}
	for l.k < 2*l.n+1 {
		s := l.p[1]
		if l.k < l.n {
			s = l.p[0]
		} else if l.k > l.n {
			s = l.p[2]
		}
		if l.i < len(s) {
			l.i++
			l.last = rune(s[l.i-1])
			return l.last, 1, nil
		}
		l.i = 0
		l.k++
		if s == "" && l.k < l.n {
			l.k = l.n
		} else if s == "" && l.k > l.n {
			break
		}
	}
	l.k = 2*l.n + 1
	return 0, 0, io.EOF
}

func (l *lazy19) UnreadRune() error {
	l.back = true
	return nil
}

// C19_Deep: operators, parentheses, arguments and members nested or chained up to three million times.
func C19_Deep() {
	sym.Steps(100_000_000)
	ns := []int{300, 3000000}
	if sym.Thorough() {
		ns = append(ns, 3000, 9000)
	}
	n := ns[sym.Choose("n", len(ns))]
	x := sym.U8("x")
	type rec struct {
		A []uint8
		P *rec
	}
	r := &rec{A: []uint8{x}}
	r.P = r
	f := func(a uint8) uint8 { return a }
	env := expr.NewMapResolver(map[string]expr.Value{"x": expr.ValueOf(x), "R": expr.ValueOf(r), "F": expr.ValueOf(f), "B": expr.ValueOf(x > 9), "T": expr.ValueOf([]uint8{0})})
	forms := [][3]string{{"(", "x", ")"}, {"-", "x", ""}, {"!", "B", ""}, {"^", "x", ""}, {"", "x", "+x"}, {"x*", "x", ""}, {"B?x:", "x", ""}, {"B?", "x", ":x"}, {"", "R", ".P"}, {"T[", "0", "]"}, {"F(", "x", ")"}, {"B&&(", "B", ")"}, {"", "B", "||B"}, {"&", "x", ""}, {"(", "", ""}, {"T[", "", ""}, {"F(x,", "", ""}, {"", "x", ","}, {"x-(", "x", ")"}, {"", "x", "=="}}
	p := forms[sym.Choose("form", len(forms))]
	// a source this long is read rune by rune
	prog, failed := func() (q *expr.Program, r any) {
		defer func() { r = recover() }()
		return expr.Parse(&lazy19{p: p, n: n}), nil
	}()
	if failed != nil {
		sym.Cover("refused")
		if n == 300 {
			_, err := expr.Eval(env, strings.Repeat(p[0], n)+p[1]+strings.Repeat(p[2], n))
			sym.Assert(err != nil, "evaluating it is an error")
		}
		return
	}
	v, err := expr.EvalProgram(env, prog)
	sym.Observe("v", v)
	sym.Assert(v == nil || err == nil, "no value comes with an error")
	if n == 300 {
		w, werr := expr.Eval(env, strings.Repeat(p[0], n)+p[1]+strings.Repeat(p[2], n))
		sym.Assert((err == nil) == (werr == nil), "a program and its source agree on errors")
		sym.Assert(err != nil || sym.Same(v, w), "a program and its source give the same value")
		if err == nil {
			sym.Cover("value")
		}
	}
}

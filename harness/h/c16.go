package h

import (
	"strconv"
	"strings"

	"github.com/go-restruct/restruct/expr"
	"verif/harness/sym"
)

// A reference evaluator with Go's grouping: tokens in, value out.

type rv struct {
	k byte // 'i' uint8, 'b' bool, 'e' error, 't' type error
	n uint8
	b bool
}

type binop struct {
	s    string
	prec int
	// operand and result kinds
	in, out byte
}

var binops = []binop{
	{"*", 5, 'i', 'i'}, {"/", 5, 'i', 'i'}, {"%", 5, 'i', 'i'}, {"<<", 5, 'i', 'i'}, {">>", 5, 'i', 'i'}, {"&", 5, 'i', 'i'}, {"&^", 5, 'i', 'i'},
	{"+", 4, 'i', 'i'}, {"-", 4, 'i', 'i'}, {"|", 4, 'i', 'i'}, {"^", 4, 'i', 'i'},
	{"==", 3, '?', 'b'}, {"!=", 3, '?', 'b'}, {"<", 3, 'i', 'b'}, {"<=", 3, 'i', 'b'}, {">", 3, 'i', 'b'}, {">=", 3, 'i', 'b'},
	{"&&", 2, 'b', 'b'}, {"||", 1, 'b', 'b'},
}

func apply(op binop, x, y rv) rv {
	if x.k == 't' || y.k == 't' {
		return rv{k: 't'}
	}
	if op.s == "&&" || op.s == "||" {
		if x.k == 'e' {
			return x
		}
		if x.k != 'b' || y.k == 'i' {
			return rv{k: 't'}
		}
		if y.k == 'e' {
			// only reached if the left operand does not decide
			if x.b == (op.s == "||") {
				return x
			}
			return y
		}
		if op.s == "&&" {
			return rv{k: 'b', b: sym.And(x.b, y.b)}
		}
		return rv{k: 'b', b: sym.Or(x.b, y.b)}
	}
	if x.k == 'e' {
		return x
	}
	if y.k == 'e' {
		return y
	}
	if x.k != y.k || op.in == 'i' && x.k != 'i' {
		return rv{k: 't'}
	}
	i := func(n uint8) rv { return rv{k: 'i', n: n} }
	b := func(c bool) rv { return rv{k: 'b', b: c} }
	if x.k == 'b' {
		if op.s == "==" {
			return b(x.b == y.b)
		}
		return b(x.b != y.b)
	}
	switch op.s {
	case "*":
		return i(x.n * y.n)
	case "/", "%":
		if y.n == 0 {
			return rv{k: 'e'}
		}
		if op.s == "/" {
			return i(x.n / y.n)
		}
		return i(x.n % y.n)
	case "<<":
		return i(x.n << y.n)
	case ">>":
		return i(x.n >> y.n)
	case "&":
		return i(x.n & y.n)
	case "&^":
		return i(x.n &^ y.n)
	case "+":
		return i(x.n + y.n)
	case "-":
		return i(x.n - y.n)
	case "|":
		return i(x.n | y.n)
	case "^":
		return i(x.n ^ y.n)
	case "==":
		return b(x.n == y.n)
	case "!=":
		return b(x.n != y.n)
	case "<":
		return b(x.n < y.n)
	case "<=":
		return b(x.n <= y.n)
	case ">":
		return b(x.n > y.n)
	}
	return b(x.n >= y.n)
}

// types says which kind op gives for operands of the kinds x and y: 't' if it is not defined.
func (op binop) kind(x, y byte) byte {
	if x == 't' || y == 't' || x != y || op.in != '?' && op.in != x {
		return 't'
	}
	return op.out
}

// climb groups the operators by precedence, leftmost first; f combines.
func climb[V any](ops []binop, vals []V, f func(binop, V, V) V) V {
	vals = append([]V(nil), vals...)
	ops = append([]binop(nil), ops...)
	for len(ops) > 0 {
		k := 0
		for i, o := range ops {
			if o.prec > ops[k].prec {
				k = i
			}
		}
		vals[k] = f(ops[k], vals[k], vals[k+1])
		vals = append(vals[:k+1], vals[k+2:]...)
		ops = append(ops[:k], ops[k+1:]...)
	}
	return vals[0]
}

func eval(env map[string]expr.Value, src string) (interface{}, error) {
	v, err := expr.Eval(expr.NewMapResolver(env), src)
	sym.Observe("v", v)
	sym.Observe("err", err)
	return v, err
}

func checkRV(env map[string]expr.Value, src string, want rv) {
	v, err := eval(env, src)
	if want.k == 'e' {
		sym.Cover("error")
		sym.Assert(err != nil, "division by zero is an error")
		return
	}
	sym.Assert(err == nil, "a well-formed expression evaluates")
	if want.k == 'i' {
		n, ok := v.(uint8)
		sym.Assert(ok, "the result has the operands' type")
		sym.Assert(n == want.n, "operators group as in Go")
		sym.Cover("int")
	} else {
		n, ok := v.(bool)
		sym.Assert(ok, "the result is a bool")
		sym.Assert(n == want.b, "operators group as in Go")
		sym.Cover("bool")
	}
}

// operands makes n symbolic operands of the picked kinds.
func operands(n int) (map[string]expr.Value, []rv, []string) {
	env := map[string]expr.Value{}
	var vs []rv
	var names []string
	for i := 0; i < n; i++ {
		nm := gname(i)
		if sym.Choose("kind"+nm, 2) == 0 {
			x := sym.U8(nm)
			vs = append(vs, rv{k: 'i', n: x})
			env[nm] = expr.ValueOf(x)
		} else {
			nm = "p" + nm
			x := sym.Bool(nm)
			vs = append(vs, rv{k: 'b', b: x})
			env[nm] = expr.ValueOf(x)
		}
		names = append(names, nm)
	}
	return env, vs, names
}

func kinds(vs []rv) []byte {
	var ks []byte
	for _, v := range vs {
		ks = append(ks, v.k)
	}
	return ks
}

func chain(n int) {
	env, vs, names := operands(n + 1)
	var ops []binop
	for i := 0; i < n; i++ {
		ops = append(ops, binops[sym.Choose("op"+strconv.Itoa(i), len(binops))])
	}
	if climb(ops, kinds(vs), binop.kind) == 't' {
		sym.Stop()
	}
	sp := []string{" ", "", "\t "}[sym.Choose("space", 2+b2i(sym.Thorough()))]
	src := sp + names[0]
	for i, o := range ops {
		src += sp + o.s + sp + names[i+1]
	}
	src += sp
	checkRV(env, src, climb(ops, vs, apply))
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// C16_Pairs: every well-typed pair of binary operators, with and without blanks.
func C16_Pairs() { chain(2) }

// C16_Triples_T: every well-typed sequence of three.
func C16_Triples_T() { chain(3) }

// levels is one operator per precedence level and kind.
func levels() []binop {
	var l []binop
	for _, o := range binops {
		switch o.s {
		case "*", ">>", "&^", "-", "|", "==", "<", "&&", "||":
			l = append(l, o)
		}
	}
	return l
}

// C16_Levels: three operators, one of each level and kind.
func C16_Levels() {
	env, vs, names := operands(4)
	l := levels()
	var ops []binop
	for i := 0; i < 3; i++ {
		ops = append(ops, l[sym.Choose("op"+strconv.Itoa(i), len(l))])
	}
	if climb(ops, kinds(vs), binop.kind) == 't' {
		sym.Stop()
	}
	src := names[0]
	for i, o := range ops {
		src += " " + o.s + " " + names[i+1]
	}
	checkRV(env, src, climb(ops, vs, apply))
}

// C16_Parens: every explicit grouping of three operators overrides the precedence.
func C16_Parens() {
	env, vs, n := operands(3)
	l := levels()
	a, b := l[sym.Choose("op0", len(l))], l[sym.Choose("op1", len(l))]
	var src string
	var want rv
	var k byte
	ks := kinds(vs)
	switch sym.Choose("form", 4) {
	case 0:
		src = "(" + n[0] + a.s + n[1] + ")" + b.s + n[2]
		k = b.kind(a.kind(ks[0], ks[1]), ks[2])
		if k != 't' {
			want = apply(b, apply(a, vs[0], vs[1]), vs[2])
		}
	case 1:
		src = n[0] + a.s + "(" + n[1] + b.s + n[2] + ")"
		k = a.kind(ks[0], b.kind(ks[1], ks[2]))
		if k != 't' {
			want = apply(a, vs[0], apply(b, vs[1], vs[2]))
		}
	case 2: // redundant ones
		src = "((" + n[0] + ") " + a.s + " (( " + n[1] + ")) " + b.s + "(" + n[2] + "))"
		k = climb([]binop{a, b}, ks, binop.kind)
		if k != 't' {
			want = climb([]binop{a, b}, vs, apply)
		}
	case 3:
		src = "(((" + n[0] + " " + a.s + n[1] + ")" + b.s + "\t" + n[2] + "))"
		k = b.kind(a.kind(ks[0], ks[1]), ks[2])
		if k != 't' {
			want = apply(b, apply(a, vs[0], vs[1]), vs[2])
		}
	}
	if k == 't' {
		sym.Stop()
	}
	checkRV(env, src, want)
}

// C16_Unary: prefix operators bind tighter than every binary one and nest.
func C16_Unary() {
	env, vs, n := operands(2)
	op := binops[sym.Choose("op", len(binops))]
	pre := []string{"", "-", "^", "+", "- -", "-^", "^ ^", "!", "!!", "! !"}
	un := func(p string, v rv) (rv, bool) {
		for i := len(p) - 1; i >= 0; i-- {
			switch p[i] {
			case '-':
				v.n = -v.n
			case '^':
				v.n = ^v.n
			case '!':
				v.b = !v.b
			}
			if p[i] == '!' && v.k != 'b' || (p[i] == '-' || p[i] == '^' || p[i] == '+') && v.k != 'i' {
				return v, false
			}
		}
		return v, true
	}
	p, q := pre[sym.Choose("p", len(pre))], pre[sym.Choose("q", len(pre))]
	sp := []string{"", " "}[sym.Choose("space", 2)]
	x, ok := un(p, vs[0])
	y, ok2 := un(q, vs[1])
	if !ok || !ok2 || op.kind(x.k, y.k) == 't' {
		sym.Stop()
	}
	if sp == "" && q != "" && op.s+q[:1] == "&^" {
		sp = " "
	}
	checkRV(env, p+n[0]+sp+op.s+sp+q+n[1], apply(op, x, y))
}

// C16_Ternary: ?: is below every binary operator, groups to the right, and evaluates one branch.
func C16_Ternary() {
	p, q := sym.Bool("p"), sym.Bool("q")
	a, b, c := sym.U8("a"), sym.U8("b"), sym.U8("c")
	env := map[string]expr.Value{"P": expr.ValueOf(p), "Q": expr.ValueOf(q), "A": expr.ValueOf(a), "B": expr.ValueOf(b), "C": expr.ValueOf(c)}
	i := func(n uint8) rv { return rv{k: 'i', n: n} }
	t := func(c bool, x, y rv) rv {
		if c {
			return x
		}
		return y
	}
	bb := func(x bool) rv { return rv{k: 'b', b: x} }
	forms := []struct {
		src  string
		want func() rv
	}{
		{"P ? A : B", func() rv { return t(p, i(a), i(b)) }},
		{"P?A:B", func() rv { return t(p, i(a), i(b)) }},
		{"P ? A : Q ? B : C", func() rv { return t(p, i(a), t(q, i(b), i(c))) }},
		{"P ? Q ? A : B : C", func() rv { return t(p, t(q, i(a), i(b)), i(c)) }},
		{"P ? Q ? A : B : Q ? C : A", func() rv { return t(p, t(q, i(a), i(b)), t(q, i(c), i(a))) }},
		{"(P ? Q : P) ? A : B", func() rv { return t(p, t(q, i(a), i(b)), i(b)) }},
		{"P ? (Q ? A : B) : C", func() rv { return t(p, t(q, i(a), i(b)), i(c)) }},
		{"P || Q ? A + B : B - C", func() rv { return t(p || q, i(a+b), i(b-c)) }},
		{"P && Q ? A : B", func() rv { return t(p && q, i(a), i(b)) }},
		{"A == B ? A * B : A | B", func() rv { return t(a == b, i(a*b), i(a|b)) }},
		{"A < B ? P : Q || P", func() rv { return t(a < b, bb(p), bb(q || p)) }},
		{"P ? A : B + C", func() rv { return t(p, i(a), i(b+c)) }},
		{"(P ? A : B) + C", func() rv { return t(p, i(a+c), i(b+c)) }},
		{"C + (P ? A : B)", func() rv { return t(p, i(c+a), i(c+b)) }},
		{"!P ? -A : ^B", func() rv { return t(!p, i(-a), i(^b)) }},
		{"P == Q ? A : B", func() rv { return t(p == q, i(a), i(b)) }},
		{"A < B == P ? A : B", func() rv { return t((a < b) == p, i(a), i(b)) }},
		{"P ? A : Nope", func() rv { return t(p, i(a), rv{k: 'e'}) }},
		{"P ? A / 0 : B", func() rv { return t(p, rv{k: 'e'}, i(b)) }},
		{"P ? Q ? A : Nope : B", func() rv { return t(p, t(q, i(a), rv{k: 'e'}), i(b)) }},
		{"A > B ? A > C ? A : C : B > C ? B : C", func() rv { return t(a > b, t(a > c, i(a), i(c)), t(b > c, i(b), i(c))) }},
		{"P || A / B > 1 ? A : C", func() rv { return t(p, i(a), div(a, b, func(d uint8) rv { return t(d > 1, i(a), i(c)) })) }},
		{"P ? A : 1 / 0", func() rv { return t(p, i(a), rv{k: 'e'}) }},
		{"P ? 7 % 0 : B", func() rv { return t(p, rv{k: 'e'}, i(b)) }},
		{"P ? Q ? 1 / 0 : A : B", func() rv { return t(p, t(q, rv{k: 'e'}, i(a)), i(b)) }},
		{"P && 1 / 0 > 1", func() rv { return t(p, rv{k: 'e'}, bb(false)) }},
		{"P || 1 % 0 > 1", func() rv { return t(p, bb(true), rv{k: 'e'}) }},
		{"P ? A : -1 + 'x'.y", func() rv { return t(p, i(a), rv{k: 'e'}) }},
		{"P ? A : \"a\" - 1", func() rv { return t(p, i(a), rv{k: 'e'}) }},
		{"P ? !1 : B", func() rv { return t(p, rv{k: 'e'}, i(b)) }},
		{"true ? A : 1 / 0", func() rv { return i(a) }},
		{"false && 1 / 0 > 1 ? A : B", func() rv { return i(b) }},
		{"P && A / B > 1", func() rv { return t(!p, bb(false), div(a, b, func(d uint8) rv { return bb(d > 1) })) }},
	}
	f := forms[sym.Choose("form", len(forms))]
	src := f.src
	switch sym.Choose("space", 3) {
	case 1:
		src = strings.Replace(src, " ", "", -1)
	case 2:
		src = strings.Replace(" "+src, " ", " \t ", -1)
	}
	checkRV(env, src, f.want())
}

func div(a, b uint8, f func(uint8) rv) rv {
	if b == 0 {
		return rv{k: 'e'}
	}
	return f(a / b)
}

type c16s struct {
	X uint8
	Y *c16s
	L [3]uint8
	P *uint8
}

// C16_Postfix: member, index, call and dereference bind tighter than any operator.
func C16_Postfix() {
	a, b, c := sym.U8("a"), sym.U8("b"), sym.U8("c")
	s := c16s{X: a, L: [3]uint8{a, b, c}, P: &b}
	s.Y = &c16s{X: b, L: [3]uint8{c, b, a}, P: &c}
	env := map[string]expr.Value{
		"S": expr.ValueOf(s), "Q": expr.ValueOf(&s), "L": expr.ValueOf([]uint8{a, b, c}), "M": expr.ValueOf([][]uint8{{a}, {b, c}}),
		"F": expr.ValueOf(func(x, y uint8) uint8 { return x - y }), "G": expr.ValueOf(func() uint8 { return c }),
		"A": expr.ValueOf(a), "I": expr.ValueOf(1), "T": expr.ValueOf([]c16s{s}), "PP": expr.ValueOf(&s.P),
	}
	i := func(n uint8) rv { return rv{k: 'i', n: n} }
	forms := []struct {
		src  string
		want rv
	}{
		{"S.X", i(a)}, {"-S.X", i(-a)}, {"S.X + S.Y.X * A", i(a + b*a)}, {"^S.Y.X & S.X", i(^b & a)}, {"S . Y . X", i(b)},
		{"Q.X", i(a)}, {"Q.Y.X - Q.X", i(b - a)}, {"*S.P", i(b)}, {"*S.P - A", i(b - a)}, {"A * *S.P", i(a * b)}, {"*Q.Y.P + A", i(c + a)}, {"**PP", i(b)}, {"-*S.P", i(-b)},
		{"L[1]", i(b)}, {"-L[I]", i(-b)}, {"L[I + 1] - L[I]", i(c - b)}, {"L[2]*L[0]", i(c * a)}, {"M[1][1] ^ M[0][0]", i(c ^ a)}, {"S.L[2] - S.Y.L[0]", i(0)},
		{"S.Y.L[I - 1 + 1]", i(b)}, {"T[0].Y.L[2]", i(a)}, {"L[P ? 1 : 2]", rv{k: 'e'}},
		{"F(A, L[1])", i(a - b)}, {"-F(A, S.Y.X) + A", i(b - a + a)}, {"F(F(A, 1), F(2, A))", i(a - 1 - (2 - a))}, {"G() - A", i(c - a)}, {"F(A + 1, A) * G()", i(c)},
		{"F((A), (L[I]))", i(a - b)}, {"F(I == 1 ? A : L[2], 3)", i(a - 3)}, {"(S).X", i(a)}, {"(L)[1]", i(b)}, {"(F)(A, 1)", i(a - 1)}, {"(*Q).X", i(a)}, {"S.X == A", rv{k: 'b', b: true}},
		{"!(S.X == A)", rv{k: 'b', b: false}}, {"Q.Y.X < A == false", rv{k: 'b', b: !(b < a)}},
	}
	f := forms[sym.Choose("form", len(forms))]
	src := f.src
	switch sym.Choose("space", 3) {
	case 1:
		src = strings.Replace(src, " ", "", -1)
	case 2:
		src = strings.Replace(" "+src+" ", " ", "\t", -1)
	}
	if f.want.k == 'e' {
		_, err := eval(env, src)
		sym.Assert(err != nil, "an unknown name is an error")
		return
	}
	checkRV(env, src, f.want)
}

// C16_Bad: sequences that are no expressions are errors.
func C16_Bad() {
	srcs := []string{"", " ", "A B", "A +", "* ", "A + * ", "(A", "A)", "()", "A[", "A]", "A[1", "S.", "S.1", ".X", "A ? B", "A ? B :", "A : B", "P ? : A", "A ++", "A = B", "A == ", "& & A", "A && ", "|| P", "A < < B", "A > > B", "A ! = B",
		"A B + C", "1 2", "A (", "F(A,", "F(,A)", "F(A,,A)", "(A,)", "A ` B", "A # B", "A @", "A $", "\"abc", "'a", "''", "'ab'", "1x", "0x", "1.2.3", "09z", "{A}", "A;B", "if A", "A -> B", "A := B", "A =", "!", "-", "^", "( )", "A . . X", "L[]", "L[1:2]", "uint8(A)", "len(L)", "A ?? B", "A ? B : C : D"}
	src := srcs[sym.Choose("src", len(srcs))]
	a, b, c := sym.U8("a"), sym.U8("b"), sym.U8("c")
	s := c16s{X: a}
	env := map[string]expr.Value{"A": expr.ValueOf(a), "B": expr.ValueOf(b), "C": expr.ValueOf(c), "D": expr.ValueOf(a), "P": expr.ValueOf(sym.Bool("p")), "S": expr.ValueOf(s), "L": expr.ValueOf([]uint8{a, b}),
		"F": expr.ValueOf(func(x, y uint8) uint8 { return x - y })}
	_, err := eval(env, src)
	sym.Assert(err != nil, "what is no expression is an error")
}

// C16_Long: long expressions: many operators, deep parentheses, long names and literals.
func C16_Long() {
	vs := []rv{{k: 'i', n: sym.U8("A")}, {k: 'i', n: sym.U8("B")}, {k: 'i', n: sym.U8("C")}, {k: 'i', n: 3}}
	long := "x" + strings.Repeat("_y2", 90)
	names := []string{"A", "B", long, strings.Repeat("0", 0) + "3"}
	env := map[string]expr.Value{"A": expr.ValueOf(vs[0].n), "B": expr.ValueOf(vs[1].n), long: expr.ValueOf(vs[2].n)}
	ops := []binop{{"-", 4, 'i', 'i'}, {"&", 5, 'i', 'i'}, {"+", 4, 'i', 'i'}, {"*", 5, 'i', 'i'}, {"^", 4, 'i', 'i'}, {"&^", 5, 'i', 'i'}, {"|", 4, 'i', 'i'}, {">>", 5, 'i', 'i'}, {"<<", 5, 'i', 'i'}}
	ns := []int{5, 11, 34, 600}
	if sym.Thorough() {
		ns = append(ns, 100, 270, 1100, 3000)
	}
	n := ns[sym.Choose("n", len(ns))]
	seed := 1 + sym.Choose("seed", 4)
	if n > 500 && seed > 1 {
		return
	}
	op := func(i int) binop { return ops[(i*seed+i/4)%len(ops)] }
	at := func(i int) int {
		if i > 0 && (op(i-1).s == "<<" || op(i-1).s == ">>") {
			return 3 // keep something of the value
		}
		return (i*i + seed*i) % 3
	}
	src, want := "", vs[at(0)]
	switch sym.Choose("form", 4) {
	case 0: // flat
		src = names[at(0)]
		var os []binop
		xs := []rv{vs[at(0)]}
		for i := 1; i <= n; i++ {
			os, xs = append(os, op(i-1)), append(xs, vs[at(i)])
			src += " " + op(i-1).s + " " + names[at(i)]
		}
		want = climb(os, xs, apply)
	case 1: // to the left
		src = names[at(0)]
		for i := 1; i <= n; i++ {
			src = "(" + src + op(i-1).s + names[at(i)] + ")"
			want = apply(op(i-1), want, vs[at(i)])
		}
	case 2: // to the right
		src = names[at(0)]
		for i := 1; i <= n; i++ {
			o := op(i - 1)
			if o.s == "<<" || o.s == ">>" {
				o = ops[0]
			}
			src = names[at(i)] + o.s + "(" + src + ")"
			want = apply(o, vs[at(i)], want)
		}
	case 3: // prefixes and blanks
		src = names[at(0)]
		for i := 1; i <= n; i++ {
			if i%3 == 0 {
				src, want.n = "- "+src, -want.n
			} else {
				src, want.n = "^  \t"+src, ^want.n
			}
		}
		src = strings.Repeat(" ", 50) + src + " + " + names[2]
		want = apply(ops[2], want, vs[2])
	}
	checkRV(env, src, want)
}

package h

import (
	"reflect"

	"github.com/go-restruct/restruct/expr"
	"verif/harness/sym"
)

type ints17 interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}

type floats17 interface{ ~float32 | ~float64 }

type num17 interface{ ints17 | floats17 }

// A nty is one of the numeric types: its reference operators and its symbolic values.
type nty struct {
	name     string
	float    bool
	unsigned bool
	gen      func(name string) any
	bin      func(op string, x, y any) (v any, ok bool) // ok: not a division by zero
	un       func(op string, x any) (any, bool)
	shift    func(op string, x any, n uint64) any
}

func cmp17[T num17](op string, x, y T) (any, bool) {
	switch op {
	case "==":
		return x == y, true
	case "!=":
		return x != y, true
	case "<":
		return x < y, true
	case "<=":
		return x <= y, true
	case ">":
		return x > y, true
	case ">=":
		return x >= y, true
	case "+":
		return x + y, true
	case "-":
		return x - y, true
	case "*":
		return x * y, true
	}
	return nil, false
}

func it[T ints17](name string, unsigned bool, gen func(string) T) nty {
	return nty{name: name, unsigned: unsigned,
		gen: func(n string) any { return gen(n) },
		bin: func(op string, a, b any) (any, bool) {
			x, y := a.(T), b.(T)
			switch op {
			case "/":
				if y == 0 {
					return nil, false
				}
				return x / y, true
			case "%":
				if y == 0 {
					return nil, false
				}
				return x % y, true
			case "|":
				return x | y, true
			case "^":
				return x ^ y, true
			case "&":
				return x & y, true
			case "&^":
				return x &^ y, true
			}
			return cmp17(op, x, y)
		},
		un: func(op string, a any) (any, bool) {
			x := a.(T)
			switch op {
			case "-":
				return -x, true
			case "+":
				return x, true
			case "^":
				return ^x, true
			}
			return nil, false
		},
		shift: func(op string, a any, n uint64) any {
			x := a.(T)
			if op == "<<" {
				return x << n
			}
			return x >> n
		},
	}
}

func ft[T floats17](name string, gen func(string) T) nty {
	return nty{name: name, float: true,
		gen: func(n string) any { return gen(n) },
		bin: func(op string, a, b any) (any, bool) {
			x, y := a.(T), b.(T)
			if op == "/" {
				return x / y, true
			}
			return cmp17(op, x, y)
		},
		un: func(op string, a any) (any, bool) {
			x := a.(T)
			switch op {
			case "-":
				return -x, true
			case "+":
				return x, true
			}
			return nil, false
		},
	}
}

func ntys() []nty {
	return []nty{
		it("int", false, sym.Int), it("int8", false, sym.I8), it("int16", false, sym.I16), it("int32", false, sym.I32), it("int64", false, sym.I64),
		it("uint", true, sym.Uint), it("uint8", true, sym.U8), it("uint16", true, sym.U16), it("uint32", true, sym.U32), it("uint64", true, sym.U64),
		it("uintptr", true, func(n string) uintptr { return uintptr(sym.Uint(n)) }),
		ft("float32", func(n string) float32 { return noSNaN32(sym.F32(n)) }), ft("float64", sym.F64),
	}
}

var arithOps = []string{"+", "-", "*", "/", "%", "|", "^", "&", "&^", "==", "!=", "<", "<=", ">", ">="}
var intOnly = map[string]bool{"%": true, "|": true, "^": true, "&": true, "&^": true}

func u64(v any) uint64 { return reflect.ValueOf(v).Convert(reflect.TypeOf(uint64(0))).Uint() }

// C17_Binary: every binary operator on two operands of every numeric type.
func C17_Binary() {
	ts := ntys()
	t := ts[sym.Choose("type", len(ts))]
	op := arithOps[sym.Choose("op", len(arithOps))]
	x, y := t.gen("x"), t.gen("y")
	v, err := eval(map[string]expr.Value{"A": expr.ValueOf(x), "B": expr.ValueOf(y)}, "A "+op+" B")
	if t.float && intOnly[op] {
		sym.Assert(err != nil, "an integer operator on floats is an error")
		return
	}
	want, ok := t.bin(op, x, y)
	if !ok {
		sym.Cover("zero")
		sym.Assert(err != nil, "division by zero is an error")
		return
	}
	sym.Assert(err == nil, "operators are defined on numbers")
	sym.Assert(reflect.TypeOf(v) == reflect.TypeOf(want), "the result has the operands' type")
	sym.Assert(sym.Same(v, want), "operators compute what Go computes")
	sym.Cover("ok")
}

// C17_Unary: prefix operators on every numeric type.
func C17_Unary() {
	ts := ntys()
	t := ts[sym.Choose("type", len(ts))]
	op := []string{"-", "+", "^", "!", "*", "&"}[sym.Choose("op", 6)]
	x := t.gen("x")
	v, err := eval(map[string]expr.Value{"A": expr.ValueOf(x)}, op+"A")
	want, ok := t.un(op, x)
	if !ok {
		sym.Assert(err != nil, "an operator the type does not have is an error")
		return
	}
	sym.Assert(err == nil, "operators are defined on numbers")
	sym.Assert(reflect.TypeOf(v) == reflect.TypeOf(want), "the result has the operand's type")
	sym.Assert(sym.Same(v, want), "operators compute what Go computes")
	sym.Cover("ok")
}

// C17_Shift: shifts by every unsigned type's counts, however large.
func C17_Shift() {
	ts := ntys()
	t := ts[sym.Choose("type", len(ts))]
	n := ts[sym.Choose("count", len(ts))]
	op := []string{"<<", ">>"}[sym.Choose("op", 2)]
	x, y := t.gen("x"), n.gen("y")
	v, err := eval(map[string]expr.Value{"A": expr.ValueOf(x), "B": expr.ValueOf(y)}, "A "+op+" B")
	if t.float || n.float {
		sym.Assert(err != nil, "a shift of or by a float is an error")
		return
	}
	if !n.unsigned {
		sym.Assert(err != nil, "a shift count is unsigned")
		return
	}
	sym.Assert(err == nil, "shifts are defined on integers")
	want := t.shift(op, x, u64(y))
	sym.Assert(reflect.TypeOf(v) == reflect.TypeOf(want), "the result has the left operand's type")
	sym.Assert(sym.Same(v, want), "shifts compute what Go computes")
	sym.Cover("ok")
}

// C17_ShiftConst: shifts by every constant count.
func C17_ShiftConst() {
	ts := ntys()[:11]
	t := ts[sym.Choose("type", len(ts))]
	op := []string{"<<", ">>"}[sym.Choose("op", 2)]
	counts := []string{"0", "1", "7", "8", "31", "63", "64", "0x41", "1000000"}
	ns := []uint64{0, 1, 7, 8, 31, 63, 64, 0x41, 1000000}
	i := sym.Choose("count", len(counts))
	x := t.gen("x")
	v, err := eval(map[string]expr.Value{"A": expr.ValueOf(x)}, "A "+op+counts[i])
	sym.Assert(err == nil, "shifts are defined on integers")
	want := t.shift(op, x, ns[i])
	sym.Assert(reflect.TypeOf(v) == reflect.TypeOf(want), "the result has the left operand's type")
	sym.Assert(sym.Same(v, want), "shifts compute what Go computes")
}

// C17_Mixed: operands of two different types never combine.
func C17_Mixed() {
	ts := ntys()
	type o struct {
		name string
		v    any
	}
	mk := func(n string) o {
		k := sym.Choose("type"+n, len(ts)+2)
		switch k {
		case len(ts):
			return o{"bool", sym.Bool(n)}
		case len(ts) + 1:
			return o{"string", sym.Str(n, 1)}
		}
		return o{ts[k].name, ts[k].gen(n)}
	}
	x, y := mk("x"), mk("y")
	if x.name == y.name {
		sym.Stop()
	}
	ops := append(append([]string{}, arithOps...), "&&", "||")
	op := ops[sym.Choose("op", len(ops))]
	_, err := eval(map[string]expr.Value{"A": expr.ValueOf(x.v), "B": expr.ValueOf(y.v)}, "A "+op+" B")
	if x.name == "bool" && (op == "||" && x.v.(bool) || op == "&&" && !x.v.(bool)) {
		sym.Stop() // the other operand is not evaluated
	}
	sym.Assert(err != nil, "operands of different types do not combine")
}

// C17_Bool: logic and comparison of bools; nothing else.
func C17_Bool() {
	x, y := sym.Bool("x"), sym.Bool("y")
	env := map[string]expr.Value{"A": expr.ValueOf(x), "B": expr.ValueOf(y)}
	ops := append(append([]string{}, arithOps...), "&&", "||", "<<", ">>", "!", "-", "^", "*")
	op := ops[sym.Choose("op", len(ops))]
	src := "A " + op + " B"
	if op == "!" || sym.Choose("unary", 2) == 1 {
		src = op + "A"
	}
	v, err := eval(env, src)
	var want bool
	switch {
	case src == "!A":
		want = !x
	case src == "A == B":
		want = x == y
	case src == "A != B":
		want = x != y
	case src == "A && B":
		want = x && y
	case src == "A || B":
		want = x || y
	case src == "+A":
		// the unary plus gives any operand back
		sym.Stop()
	default:
		sym.Assert(err != nil, "an operator bools do not have is an error")
		return
	}
	sym.Assert(err == nil, "bool operators are defined")
	b, ok := v.(bool)
	sym.Assert(ok, "the result is a bool")
	sym.Assert(b == want, "bool operators compute what Go computes")
	sym.Cover("ok")
}

// C17_String: concatenation and equality of strings; other operators are errors.
func C17_String() {
	m := 2 + b2i(sym.Thorough())
	x, y := sym.Str("x", sym.Choose("lx", m+1)), sym.Str("y", sym.Choose("ly", m+1))
	env := map[string]expr.Value{"A": expr.ValueOf(x), "B": expr.ValueOf(y)}
	ops := append(append([]string{}, arithOps...), "&&", "||", "<<", ">>")
	op := ops[sym.Choose("op", len(ops))]
	v, err := eval(env, "A "+op+" B")
	var want any
	switch op {
	case "+":
		want = x + y
	case "==":
		want = x == y
	case "!=":
		want = x != y
	case "<", "<=", ">", ">=":
		if err != nil {
			return // not supported
		}
		switch op {
		case "<":
			want = x < y
		case "<=":
			want = x <= y
		case ">":
			want = x > y
		case ">=":
			want = x >= y
		}
	default:
		sym.Assert(err != nil, "an operator strings do not have is an error")
		return
	}
	sym.Assert(err == nil, "string operators are defined")
	sym.Assert(reflect.TypeOf(v) == reflect.TypeOf(want), "the result has the right type")
	sym.Assert(sym.Same(v, want), "string operators compute what Go computes")
	sym.Cover("ok")
}

type c17s struct{ X, Y uint8 }

// C17_Composite: arrays, structs and pointers compare with == and !=; nothing else is defined on them.
func C17_Composite() {
	a, b, c, d := sym.U8("a"), sym.U8("b"), sym.U8("c"), sym.U8("d")
	p, q := &a, &b
	if sym.Choose("same", 2) == 1 {
		q = p
	}
	k := sym.Choose("kind", 5)
	var x, y any
	var want bool
	comparable := true
	switch k {
	case 0:
		x, y, want = [2]uint8{a, b}, [2]uint8{c, d}, sym.And(a == c, b == d)
	case 1:
		x, y, want = c17s{a, b}, c17s{c, d}, sym.And(a == c, b == d)
	case 2:
		x, y, want = p, q, p == q
	case 3:
		x, y, comparable = []uint8{a, b}, []uint8{c, d}, false
	case 4:
		x, y, comparable = map[uint8]uint8{1: a}, map[uint8]uint8{1: b}, false
	}
	ops := append(append([]string{}, arithOps...), "&&", "||", "<<", ">>")
	op := ops[sym.Choose("op", len(ops))]
	v, err := eval(map[string]expr.Value{"A": expr.ValueOf(x), "B": expr.ValueOf(y)}, "A "+op+" B")
	if !comparable || op != "==" && op != "!=" {
		sym.Assert(err != nil, "an operator the type does not have is an error")
		return
	}
	sym.Assert(err == nil, "composite values compare")
	r, ok := v.(bool)
	sym.Assert(ok, "a comparison gives a bool")
	sym.Assert(r == (want == (op == "==")), "composite values compare as in Go")
	sym.Cover("ok")
}

// C17_Nil: nilable values compare with nil on either side.
func C17_Nil() {
	a := sym.U8("a")
	isnil := sym.Choose("nil", 2) == 1
	var v expr.Value
	switch sym.Choose("kind", 4) {
	case 0:
		p := &a
		if isnil {
			p = nil
		}
		v = expr.ValueOf(p)
	case 1:
		s := []uint8{a}
		if isnil {
			s = nil
		}
		v = expr.ValueOf(s)
	case 2:
		m := map[uint8]uint8{a: a}
		if isnil {
			m = nil
		}
		v = expr.ValueOf(m)
	case 3:
		f := func() uint8 { return a }
		if isnil {
			f = nil
		}
		v = expr.ValueOf(f)
	}
	forms := []string{"A == nil", "nil == A", "A != nil", "nil != A", "A < nil", "A + nil", "A && nil", "!nil", "-nil", "nil == nil"}
	i := sym.Choose("form", len(forms))
	got, err := eval(map[string]expr.Value{"A": v}, forms[i])
	if i == 9 {
		return // not defined in Go; any result but a crash will do
	}
	if i >= 4 {
		sym.Assert(err != nil, "nil has no other operators")
		return
	}
	sym.Assert(err == nil, "nilable values compare with nil")
	b, ok := got.(bool)
	sym.Assert(ok, "a comparison gives a bool")
	sym.Assert(b == (isnil == (i < 2)), "comparisons with nil tell nil values")
}

type c17same struct {
	I   int16
	U   uint64
	F   float32
	G   float64
	Str string
	B   bool
	P   *float64
	A   [2]float64
	L   []float32
	T   struct{ F float64 }
}

// C17_Same: an operand compared or combined with itself: the same field, element or variable on both sides.
func C17_Same() {
	v := c17same{I: sym.I16("i"), U: sym.U64("u"), F: noSNaN32(sym.F32("f")), G: sym.F64("g"), Str: sym.Str("s", 2), B: sym.Bool("b")}
	v.A[1], v.T.F = v.G, v.G
	v.L = []float32{0, v.F}
	ops := []string{"==", "!=", "<", "<=", ">", ">="}
	op := ops[sym.Choose("op", len(ops))]
	vals := []struct {
		e string
		w func() any
	}{
		{"I", func() any { r, _ := cmp17(op, v.I, v.I); return r }},
		{"U", func() any { r, _ := cmp17(op, v.U, v.U); return r }},
		{"F", func() any { r, _ := cmp17(op, v.F, v.F); return r }},
		{"G", func() any { r, _ := cmp17(op, v.G, v.G); return r }},
		{"A[1]", func() any { r, _ := cmp17(op, v.G, v.G); return r }},
		{"L[1]", func() any { r, _ := cmp17(op, v.F, v.F); return r }},
		{"T.F", func() any { r, _ := cmp17(op, v.G, v.G); return r }},
		{"(B ? G : G + G)", func() any { r, _ := cmp17(op, v.G, v.G); return r }},
		{"-G", func() any { r, _ := cmp17(op, v.G, v.G); return r }},
		{"Str", nil}, {"B", nil},
	}
	x := vals[sym.Choose("x", len(vals))]
	if x.w == nil && op != "==" && op != "!=" {
		sym.Stop()
	}
	if x.e == "(B ? G : G + G)" {
		sym.Assume(v.B)
	}
	var r expr.Resolver
	if sym.Choose("via", 2) == 0 {
		r = expr.NewStructResolver(reflect.ValueOf(&v).Elem())
	} else {
		m := expr.NewMapResolver(map[string]expr.Value{"I": expr.ValueOf(v.I), "U": expr.ValueOf(v.U), "F": expr.ValueOf(v.F), "G": expr.ValueOf(v.G),
			"A": expr.ValueOf(v.A), "L": expr.ValueOf(v.L), "T": expr.ValueOf(v.T), "Str": expr.ValueOf(v.Str), "B": expr.ValueOf(v.B)})
		r = m
	}
	got, err := expr.Eval(r, x.e+" "+op+" "+x.e)
	sym.Observe("got", got)
	sym.Observe("err", err)
	sym.Assert(err == nil, "operators are defined on equal types")
	want := any(op == "==")
	if x.w != nil {
		want = x.w()
	}
	sym.Assert(sym.Same(got, want), "a value is compared with itself as in Go")
}

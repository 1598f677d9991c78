package h

import (
	"math"
	"reflect"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/go-restruct/restruct/expr"
	"verif/harness/sym"
)

// A litnum is a numeric literal with symbolic digits and the value it denotes.
func digits(prefix string, base uint64, n int) (string, uint64) {
	var val uint64
	s := []byte(prefix)
	for i := 0; i < n; i++ {
		d := sym.U8("digit")
		sym.Assume(uint64(d) < base)
		ch := d + '0'
		if base == 16 {
			up := sym.Choose("case", 3)
			switch {
			case up == 0:
				sym.Assume(d < 10)
			case up == 1:
				sym.Assume(d >= 10)
				ch = d - 10 + 'a'
			default:
				sym.Assume(d >= 10)
				ch = d - 10 + 'A'
			}
		}
		s = append(s, ch)
		val = val*base + uint64(d)
	}
	return string(s), val
}

var radices = []struct {
	prefix string
	base   uint64
}{{"", 10}, {"0x", 16}, {"0X", 16}, {"0", 8}, {"0b", 2}}

// intLit picks an integer literal of up to n digits in any radix.
func intLit(n int) (string, uint64) {
	r := radices[sym.Choose("radix", len(radices))]
	k := 1 + sym.Choose("digits", n)
	if r.base == 2 {
		k *= 2
	}
	lit, v := digits(r.prefix, r.base, k)
	if r.prefix == "" && k > 1 {
		sym.Assume(lit[0] != '0')
	}
	return lit, v
}

// asInt checks that v is an integer of the given value.
func asInt(v any, want uint64) bool {
	switch n := v.(type) {
	case int:
		return uint64(n) == want
	case int64:
		return uint64(n) == want
	case uint64:
		return n == want
	}
	return false
}

// C18_Int: every integer literal denotes its value, alone and negated.
func C18_Int() {
	lit, want := intLit(2 + b2i(sym.Thorough()))
	switch sym.Choose("form", 4) {
	case 1:
		lit, want = "-"+lit, -want
	case 2:
		lit, want = "- "+lit, -want
	case 3:
		lit = "-(-" + lit + ")"
	}
	v, err := eval(nil, lit)
	sym.Assert(err == nil, "an integer literal evaluates")
	sym.Assert(asInt(v, want), "an integer literal denotes its value")
}

func lit17[T num17](n uint64, neg bool) any {
	if neg {
		return T(-int64(n))
	}
	return T(n)
}

func conv17(t nty, n uint64, neg bool) any {
	switch t.name {
	case "int":
		return lit17[int](n, neg)
	case "int8":
		return lit17[int8](n, neg)
	case "int16":
		return lit17[int16](n, neg)
	case "int32":
		return lit17[int32](n, neg)
	case "int64":
		return lit17[int64](n, neg)
	case "uint":
		return lit17[uint](n, neg)
	case "uint8":
		return lit17[uint8](n, neg)
	case "uint16":
		return lit17[uint16](n, neg)
	case "uint32":
		return lit17[uint32](n, neg)
	case "uint64":
		return lit17[uint64](n, neg)
	case "uintptr":
		return lit17[uintptr](n, neg)
	case "float32":
		return lit17[float32](n, neg)
	}
	return lit17[float64](n, neg)
}

// bits17 is the number of value bits of the type.
func bits17(t nty) int {
	n := reflect.TypeOf(conv17(t, 0, false)).Bits()
	if t.float {
		return 32
	}
	if !t.unsigned {
		n--
	}
	return n
}

// C18_Typed: an integer literal takes the type of the other operand, on either side.
func C18_Typed() {
	ts := ntys()
	t := ts[sym.Choose("type", len(ts))]
	var lit string
	var n uint64
	if t.float {
		ns := []uint64{0, 1, 3, 10, 97, 1 << 24, 1<<24 + 1, 1 << 53, 1<<53 + 1, 1<<63 - 1, 1 << 63, 1<<63 + 1<<40, 1<<64 - 1}
		n = ns[sym.Choose("lit", len(ns))]
		lit = strconv.FormatUint(n, 10)
	} else {
		lit, n = digits("", 10, 1+sym.Choose("digits", 2))
		if len(lit) > 1 {
			sym.Assume(lit[0] != '0')
		}
	}
	neg := false
	if !t.unsigned && int64(n) >= 0 && sym.Choose("neg", 2) == 1 {
		neg = true
		lit = "-" + lit
	}
	x := t.gen("x")
	check18(t, x, lit, conv17(t, n, neg))
}

func check18(t nty, x any, lit string, y any) {
	ops := []string{"+", "-", "/", "==", "<", "&"}
	op := ops[sym.Choose("op", len(ops))]
	if t.float && op == "&" {
		sym.Stop()
	}
	src, l, r := "A "+op+" "+lit, x, y
	if sym.Choose("side", 2) == 1 {
		src, l, r = lit+op+"A", y, x
	}
	v, err := eval(map[string]expr.Value{"A": expr.ValueOf(x)}, src)
	want, ok := t.bin(op, l, r)
	if !ok {
		sym.Assert(err != nil, "division by zero is an error")
		return
	}
	sym.Assert(err == nil, "a literal combines with a typed operand")
	sym.Assert(reflect.TypeOf(v) == reflect.TypeOf(want), "the literal takes the operand's type")
	sym.Assert(sym.Same(v, want), "the literal keeps its value")
	sym.Cover("ok")
}

// C18_Extremes: the largest and smallest value of every integer type, in every radix.
func C18_Extremes() {
	ts := ntys()[:11]
	t := ts[sym.Choose("type", len(ts))]
	n := bits17(t)
	var lo, hi uint64
	hi = 1<<uint(n-1)<<1 - 1
	if !t.unsigned {
		lo = hi + 1
	}
	v, neg := hi, false
	if sym.Choose("lo", 2) == 1 {
		v, neg = lo, true
	}
	lit := strconv.FormatUint(v, 10)
	switch sym.Choose("radix", 4) {
	case 1:
		lit = "0x" + strconv.FormatUint(v, 16)
	case 2:
		lit = "0" + strconv.FormatUint(v, 8)
	case 3:
		lit = "0b" + strconv.FormatUint(v, 2)
	}
	if neg {
		lit = "-" + lit
	}
	check18(t, t.gen("x"), lit, conv17(t, v, neg))
}

var floatLits = []string{"0.0", "1.5", ".5", "5.", "0.1", "3.25", "123456.789", "0.000001", "16777217.0", "9007199254740993.5", "340282346638528859811704183484516925440.0", "1e3", "2.5e3", "1E2", "25e2", "-1.5", "-.5", "-0.1", "0.30000000000000004"}

// C18_Float: float literals denote their value alone and with float operands.
func C18_Float() {
	lit := floatLits[sym.Choose("lit", len(floatLits))]
	want, e := strconv.ParseFloat(lit, 64)
	if e != nil {
		sym.Fail("harness")
	}
	ts := ntys()[11:]
	k := sym.Choose("type", 3)
	if k == 2 {
		v, err := eval(nil, lit)
		sym.Assert(err == nil, "a float literal evaluates")
		f, ok := v.(float64)
		sym.Assert(ok, "a float literal is a float64")
		sym.Assert(math.Float64bits(f) == math.Float64bits(want), "a float literal denotes its value")
		return
	}
	t := ts[k]
	var y any = want
	if t.name == "float32" {
		y = float32(want)
	}
	check18(t, t.gen("x"), lit, y)
}

// C18_FloatDigits: d.d, d.dd and .d with symbolic digits.
func C18_FloatDigits() {
	a, n := digits("", 10, 1)
	b, m := digits("", 10, 1)
	lit, want := a+"."+b, float64(n*10+m)/10
	if sym.Choose("form", 2) == 1 {
		lit, want = "-"+lit, -want
	}
	v, err := eval(nil, lit)
	sym.Assert(err == nil, "a float literal evaluates")
	f, ok := v.(float64)
	sym.Assert(ok, "a float literal is a float64")
	sym.Assert(sym.Or(f == want), "a float literal denotes its value")
}

// C18_FloatInt: a fraction never becomes an integer.
func C18_FloatInt() {
	ts := ntys()[:11]
	t := ts[sym.Choose("type", len(ts))]
	x := t.gen("x")
	src := []string{"A + 1.5", "1.5 * A", "A == 0.5", "A < 2.5", "A / .5", "A << 1.5", "A & 1.5", "-1.5 + A"}
	_, err := eval(map[string]expr.Value{"A": expr.ValueOf(x)}, src[sym.Choose("src", len(src))])
	sym.Assert(err != nil, "a fraction does not combine with an integer")
}

// C18_Consts: operators on two literals.
func C18_Consts() {
	cs := []struct {
		src  string
		want any
	}{
		{"1 + 2", 3}, {"7 / 2", 3}, {"-7 / 2", -3}, {"-7 % 3", -1}, {"7 - 9", -2}, {"1 << 4", 16}, {"-16 >> 2", -4}, {"0x10 | 0b1", 17}, {"010 ^ 3", 11}, {"6 &^ 2", 4}, {"2 * -3", -6}, {"^5", ^5}, {"^-1", 0}, {"-(3)", -3}, {"- 3", -3}, {"+3", 3},
		{"1.5 + 2", 3.5}, {"2 + 1.5", 3.5}, {"7 / 2.0", 3.5}, {"-2 * 1.5", -3.0}, {"1.5 * -2", -3.0}, {"1.5 - .5", 1.0}, {"1.0 / 4", .25}, {"-1.5", -1.5}, {"-(1.5)", -1.5},
		{"1 == 1", true}, {"1 == 2", false}, {"1 != 2", true}, {"1 < 2", true}, {"2 <= 1", false}, {"-1 < 1", true}, {"1 > -1", true}, {"1.5 < 2", true}, {"9223372036854775808 + 1.5", 9223372036854775808.0}, {"18446744073709551615 > 0.5", true}, {"0.5 - 0xFFFFFFFFFFFFFFFF", -18446744073709551616.0}, {"9223372036854775808 == 9223372036854775808.0", true}, {"9223372036854775807 < -1.5", false}, {"2 >= 2.5", false}, {"1 == 1.0", true},
		{"'a' == 97", true}, {"'b' - 'a'", 1}, {"'a' + 1", 98}, {"'a' < 'b'", true}, {"\"a\" + \"b\"", "ab"}, {"\"a\" == \"a\"", true}, {"\"a\" != \"a\"", false}, {"\"\" == \"\"", true}, {"\"abc\"[1]", uint8('b')},
		{"true", true}, {"false", false}, {"!true", false}, {"!false", true}, {"true && false", false}, {"true || false", true}, {"true == false", false}, {"true != false", true}, {"true ? 1 : 2", 1}, {"false ? 1 : 2", 2},
		{"1 == 1 && 2 == 2", true}, {"1 == 1 == true", true}, {"0xff == 255", true}, {"0xFFFFFFFFFFFFFFFF == 18446744073709551615", true}, {"-9223372036854775808 < 0", true},
	}
	c := cs[sym.Choose("case", len(cs))]
	v, err := eval(nil, c.src)
	sym.Assert(err == nil, "a constant expression evaluates")
	if n, ok := c.want.(int); ok {
		sym.Assert(asInt(v, uint64(n)), "a constant expression has Go's value")
		return
	}
	sym.Assert(sym.Same(v, c.want), "a constant expression has Go's value")
}

// strLit picks a piece of a string or rune literal: its source, its bytes, and its rune value.
func piece(quote byte) (src string, want string, r rune) {
	switch sym.Choose("piece", 9) {
	case 0: // a printable character
		c := sym.U8("char")
		sym.Assume(sym.And(c >= 0x20, c < 0x7f, c != quote, c != '\\'))
		return string([]byte{c}), string([]byte{c}), rune(c)
	case 1: // a simple escape
		es := "abfnrtv\\"
		vs := "\a\b\f\n\r\t\v\\"
		i := sym.Choose("esc", len(es)+1)
		if i == len(es) {
			return "\\" + string([]byte{quote}), string([]byte{quote}), rune(quote)
		}
		return "\\" + es[i:i+1], vs[i : i+1], rune(vs[i])
	case 2: // octal
		s, v := digits("\\", 8, 3)
		sym.Assume(v < 256)
		return s, string([]byte{byte(v)}), rune(v)
	case 3: // hex
		s, v := digits("\\x", 16, 2)
		return s, string([]byte{byte(v)}), rune(v)
	case 4:
		s, v := digits("\\u", 16, 4)
		sym.Assume(sym.Or(v < 0xd800, v > 0xdfff))
		return s, string(rune(v)), rune(v)
	case 5:
		n := 2 + b2i(sym.Thorough())
		pre := []string{"", "0", "00", "000"}[5-n]
		s, v := digits("\\U000"+pre, 16, n)
		return s, string(rune(v)), rune(v)
	case 6: // two bytes of UTF-8
		r := rune(sym.U16("r2"))
		sym.Assume(sym.And(r >= 0x80, r < 0x800))
		return string(r), string(r), r
	case 7: // three bytes
		r := rune(sym.U16("r3"))
		sym.Assume(sym.And(r >= 0x800, sym.Or(r < 0xd800, r > 0xdfff)))
		return string(r), string(r), r
	}
	r = rune(sym.U32("r4"))
	sym.Assume(sym.And(r >= 0x10000, r <= utf8.MaxRune))
	return string(r), string(r), r
}

// C18_String: string literals of both quotes denote their bytes.
func C18_String() {
	quote, open := byte('"'), "\""
	if sym.Choose("quote", 2) == 1 {
		quote, open = '\'', "$'"
	}
	src, want, _ := piece(quote)
	switch sym.Choose("around", 3) {
	case 1:
		src, want = "x"+src+"y", "x"+want+"y"
	case 2:
		src, want = "\\n"+src+"\\t", "\n"+want+"\t"
	}
	v, err := eval(nil, open+src+string([]byte{quote}))
	sym.Assert(err == nil, "a string literal evaluates")
	s, ok := v.(string)
	sym.Assert(ok, "a string literal is a string")
	sym.Assert(s == want, "a string literal denotes its bytes")
}

// C18_Rune: rune literals denote their rune.
func C18_Rune() {
	src, _, r := piece('\'')
	v, err := eval(nil, "'"+src+"'")
	sym.Assert(err == nil, "a rune literal evaluates")
	sym.Assert(asInt(v, uint64(r)), "a rune literal denotes its rune")
}

// C18_RuneTyped: a rune literal takes the type of the other operand.
func C18_RuneTyped() {
	ts := ntys()
	t := ts[sym.Choose("type", len(ts))]
	c := byte('0' + sym.Choose("c", 2))
	if !t.float {
		c = sym.U8("char")
	}
	sym.Assume(sym.And(c >= 0x20, c < 0x7f, c != '\'', c != '\\'))
	check18(t, t.gen("x"), "'"+string([]byte{c})+"'", conv17(t, uint64(c), false))
}

type (
	nBool bool
	nInt  int
	nI8   int8
	nI16  int16
	nI32  int32
	nI64  int64
	nUint uint
	nU8   uint8
	nU16  uint16
	nU32  uint32
	nU64  uint64
	nPtr  uintptr
	nF32  float32
	nF64  float64
	nStr  string
)

func named(t nty, v any) any {
	switch n := v.(type) {
	case int:
		return nInt(n)
	case int8:
		return nI8(n)
	case int16:
		return nI16(n)
	case int32:
		return nI32(n)
	case int64:
		return nI64(n)
	case uint:
		return nUint(n)
	case uint8:
		return nU8(n)
	case uint16:
		return nU16(n)
	case uint32:
		return nU32(n)
	case uint64:
		return nU64(n)
	case uintptr:
		return nPtr(n)
	case float32:
		return nF32(n)
	}
	return nF64(v.(float64))
}

// C18_Named: named numeric types act as their underlying type, also mixed with it and with literals.
func C18_Named() {
	ts := ntys()
	t := ts[sym.Choose("type", len(ts))]
	op := arithOps[sym.Choose("op", len(arithOps))]
	if t.float && intOnly[op] {
		sym.Stop()
	}
	x, y := t.gen("x"), t.gen("y")
	a, b := any(x), any(y)
	src := "A " + op + " B"
	switch sym.Choose("form", 4) {
	case 0:
		a, b = named(t, x), named(t, y)
	case 1:
		a = named(t, x)
	case 2:
		b = named(t, y)
	case 3:
		a = named(t, x)
		y = conv17(t, 3, false)
		src = "A " + op + " 3"
	}
	v, err := eval(map[string]expr.Value{"A": expr.ValueOf(a), "B": expr.ValueOf(b)}, src)
	want, ok := t.bin(op, x, y)
	if !ok {
		sym.Assert(err != nil, "division by zero is an error")
		return
	}
	sym.Assert(err == nil, "named types have their underlying type's operators")
	sym.Assert(reflect.TypeOf(v) == reflect.TypeOf(want), "the result has the underlying type")
	sym.Assert(sym.Same(v, want), "named types compute as their underlying type")
	sym.Cover("ok")
}

// C18_NamedOther: named bools, strings, shifts, indices, conditions and unary operators.
func C18_NamedOther() {
	p, q := sym.Bool("p"), sym.Bool("q")
	s, u := sym.Str("s", 1), sym.Str("u", 2)
	n, k, j := sym.U8("n"), sym.U16("k"), sym.I32("j")
	env := map[string]expr.Value{"P": expr.ValueOf(nBool(p)), "Q": expr.ValueOf(q), "S": expr.ValueOf(nStr(s)), "U": expr.ValueOf(u), "N": expr.ValueOf(nU8(n)), "K": expr.ValueOf(nU16(k)),
		"J": expr.ValueOf(nI32(j)), "I": expr.ValueOf(nInt(1)), "L": expr.ValueOf([]uint8{7, n}), "R": expr.ValueOf([2]nU8{7, nU8(n)}), "T": expr.ValueOf(struct{ X nU8 }{nU8(n)}), "F": expr.ValueOf(func(x uint8) uint8 { return x + 1 }),
		"M": expr.ValueOf(map[int]uint8{1: n}), "V": expr.ValueOf(map[string]uint8{"a": n}), "W": expr.ValueOf(map[nStr]nU8{"a": nU8(n)}), "G": expr.ValueOf(func(x nU8) nU8 { return x - 1 }),
		"H": expr.ValueOf(func(x nBool) bool { return !bool(x) })}
	t := func(c bool, a, b uint8) uint8 {
		if c {
			return a
		}
		return b
	}
	cs := []struct {
		src  string
		want any
	}{
		{"P && Q", p && q}, {"Q || P", q || p}, {"!P", !p}, {"P == Q", p == q}, {"P == true", p}, {"P != false", p}, {"true == P", p}, {"S + U", s + u}, {"S == \"a\"", s == "a"}, {"U != S", u != s}, {"\"x\" + S", "x" + s},
		{"-N", -n}, {"^K", ^k}, {"-J", -j}, {"N << K", n << k}, {"J >> N", j >> n}, {"N << 3", n << 3}, {"L[I]", n}, {"U[I]", u[1]}, {"R[1] + 1", n + 1}, {"T.X * 2", n * 2}, {"T.X == R[1]", true},
		{"Q ? N : R[0]", t(q, n, 7)}, {"1 << K == 0", k >= 64}, {"P ? N : R[0]", t(p, n, 7)}, {"N == L[1]", true},
		{"F(N)", n + 1}, {"G(L[1])", n - 1}, {"G(N) + 1", n}, {"G(3)", uint8(2)}, {"M[T.X == N ? I : 0]", n}, {"V[S]", t(s == "a", n, 0)}, {"W[S] ^ W[\"a\"]", t(s == "a", 0, n)}, {"H(P)", !p}, {"H(Q == P)", q != p},
	}
	c := cs[sym.Choose("case", len(cs))]
	v, err := eval(env, c.src)
	sym.Assert(err == nil, "named types have their underlying type's operators")
	sym.Assert(sym.Same(v, c.want), "named types compute as their underlying type")
	sym.Cover("ok")
}

// C18_Keyword: identifiers are never mistaken for literals.
func C18_Keyword() {
	names := []string{"true1", "falsey", "nils", "True", "_", "x1", "e5", "abc", "f", "_0", "X", "nil_", "a1b2", "ä", "日本"}
	nm := names[sym.Choose("name", len(names))]
	x := sym.U8("x")
	v, err := eval(map[string]expr.Value{nm: expr.ValueOf(x)}, nm+" + 1")
	sym.Assert(err == nil, "an identifier resolves")
	sym.Assert(sym.Same(v, x+1), "an identifier has its value")
}

// C18_Long: long literals.
func C18_Long() {
	ns := []int{17, 40, 70, 300}
	if sym.Thorough() {
		ns = append(ns, 129, 1025, 5000)
	}
	n := ns[sym.Choose("n", len(ns))]
	switch sym.Choose("kind", 4) {
	case 0: // a string with escapes, of any characters
		b := sym.Bytes("s", n)
		for _, c := range b {
			sym.Assume(sym.And(sym.And(c >= ' ', c < 0x7f), sym.And(c != '"', c != '\\')))
		}
		esc := [][2]string{{"", ""}, {"\\n", "\n"}, {"\\x41", "A"}, {"\\u00e9", "\u00e9"}, {"\\U0001F600", "\U0001F600"}, {"\\101", "A"}, {"\u00e9", "\u00e9"}, {"\\\"", "\""}}[sym.Choose("esc", 8)]
		src, want := "\"", ""
		for i := range b {
			if i%7 == 3 {
				src, want = src+esc[0], want+esc[1]
			}
			src, want = src+string(b[i:i+1]), want+string(b[i:i+1])
		}
		src += esc[0] + "\""
		want += esc[1]
		v, err := eval(nil, src)
		sym.Assert(err == nil, "a string literal evaluates")
		sym.Assert(sym.Same(v, want), "a string literal denotes its characters")
		v, err = eval(nil, src+" + "+src)
		sym.Assert(err == nil, "string literals concatenate")
		sym.Assert(sym.Same(v, want+want), "string literals concatenate")
	case 1: // leading zeros
		z := strings.Repeat("0", n)
		f := []struct {
			src  string
			want uint64
		}{{"0" + z + "17", 15}, {"0x" + z + "1f", 31}, {"0b" + z + "101", 5}, {"0X" + z + "F", 15}, {z, 0}}[sym.Choose("f", 5)]
		v, err := eval(nil, f.src)
		sym.Assert(err == nil, "an integer literal evaluates")
		sym.Assert(asInt(v, f.want), "leading zeros do not matter")
	case 2: // floats
		z := strings.Repeat("0", n)
		f := []struct {
			src  string
			want float64
		}{{"1." + z, 1}, {"2." + z + "5", 2}, {"0.5" + z, .5}, {"3.25" + z + "1", 3.25}, {"1.5e" + z + "2", 150}, {"0.125" + z + "e3", 125}}[sym.Choose("f", 6)]
		v, err := eval(nil, f.src)
		sym.Assert(err == nil, "a float literal evaluates")
		sym.Assert(sym.Same(v, f.want), "zeros do not matter")
	case 3: // numbers that are too big
		_, err := eval(nil, "0x1"+strings.Repeat("0", n))
		sym.Assert(err != nil, "a number that fits no type is an error")
		_, err = eval(nil, "0b1"+strings.Repeat("0", n+50))
		sym.Assert(err != nil, "a number that fits no type is an error")
	}
}

package h

import (
	"encoding/binary"
	"reflect"
	"strconv"
	"strings"

	"github.com/go-restruct/restruct"
	"verif/harness/sym"
)

// permute picks an order of the n items, of which any subset may be left out.
func permute(name string, items []string, drop bool) []string {
	left := append([]string(nil), items...)
	var out []string
	for i := 0; len(left) > 0; i++ {
		n := len(left)
		if drop {
			n++
		}
		k := sym.Choose(name+strconv.Itoa(i), n)
		if k == len(left) {
			break
		}
		out = append(out, left[k])
		left = append(left[:k:k], left[k+1:]...)
	}
	return out
}

func has(l []string, x string) bool {
	for _, y := range l {
		if y == x || strings.HasSuffix(x, "=") && strings.HasPrefix(y, x) {
			return true
		}
	}
	return false
}

// swap and co are the different spellings of an option.
func spell(name, opt string) string {
	alts := map[string][]string{"little": {"little", "lsb"}, "big": {"big", "msb", "network"}, "skip=2": {"skip=2", "skip=0x2", "skip=02"}}[opt]
	if len(alts) == 0 {
		return opt
	}
	return alts[sym.Choose(name, len(alts))]
}

// C14_Number: options of a number in every order, subset and spelling.
func C14_Number() {
	restruct.EnableExprBeta()
	end := []string{"little", "big"}[sym.Choose("end", 2)]
	opts := permute("o", []string{"uint16", end, "skip=2", "if=F != 0"}, true)
	var tags []string
	for i, x := range opts {
		tags = append(tags, spell("sp"+strconv.Itoa(i), x))
	}
	t := reflect.StructOf([]reflect.StructField{sf("F", tU8, ""), sf("X", tU32, strings.Join(tags, ",")), sf("Z", tU8, "")})
	o, le := order("order")
	v := reflect.New(t)
	f := symFull("f", v.Elem().Field(0), false)
	x := uint64(sym.U16("x"))
	z := symFull("z", v.Elem().Field(2), false)
	w := &wr{}
	w.put(f, 8)
	if !has(opts, "if=") || f != 0 {
		v.Elem().Field(1).SetUint(x)
		if has(opts, "skip=") {
			w.zero(16)
		}
		if has(opts, "little") {
			le = true
		}
		if has(opts, "big") {
			le = false
		}
		n := 32
		if has(opts, "uint16") {
			n = 16
		}
		w.num(x, n, le)
	}
	w.put(z, 8)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// C14_Bool: options of a bool in every order and subset.
func C14_Bool() {
	opts := permute("o", []string{"int16", "variantbool", "invertedbool", "little", "skip=1"}, true)
	t := reflect.StructOf([]reflect.StructField{sf("X", tof(false), strings.Join(opts, ",")), sf("Z", tU8, "")})
	v := reflect.New(t)
	x := sym.Bool("x")
	v.Elem().Field(0).SetBool(x)
	z := symFull("z", v.Elem().Field(1), false)
	o, le := order("order")
	w := &wr{}
	if has(opts, "skip=") {
		w.zero(8)
	}
	d := boolD{bits: 8, variant: has(opts, "variantbool"), invr: has(opts, "invertedbool")}
	if has(opts, "int16") {
		d.bits = 16
	}
	d.Enc(w, v.Elem().Field(0), le || has(opts, "little"))
	w.put(z, 8)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// C14_Slice: options of a counted slice and of its count, in every order.
func C14_Slice() {
	restruct.EnableExprBeta()
	dir := sym.Choose("dir", 3)
	ct, vt := []string{"int16", "big", "skip=1"}, []string{"[]uint16", "little", "skip=2"}
	switch dir {
	case 0:
		ct = append(ct, "sizeof=V")
	case 1:
		vt = append(vt, "sizefrom=N")
	case 2:
		vt = append(vt, "size=N % 4")
	}
	cp := ct
	if sym.Choose("which", 2) == 0 {
		cp = permute("c", ct, false)
	} else {
		vt = permute("v", vt, false)
	}
	str := sym.Choose("str", 2) == 1
	et, eb := tof([]uint32(nil)), 16
	if str {
		et, eb = tStr, 8
		var l []string
		for _, x := range vt {
			if x != "[]uint16" {
				l = append(l, x)
			}
		}
		vt = l
	}
	t := reflect.StructOf([]reflect.StructField{sf("N", tInt, strings.Join(cp, ",")), sf("V", et, strings.Join(vt, ",")), sf("Z", tU8, "")})
	v := reflect.New(t)
	n := sym.Choose("n", 3)
	v.Elem().Field(0).SetInt(int64(n))
	o, _ := order("order")
	w := &wr{}
	w.zero(8)
	w.num(uint64(n), 16, false)
	w.zero(16)
	f := v.Elem().Field(1)
	if str {
		s := sym.Str("s", n)
		f.SetString(s)
		for i := 0; i < n; i++ {
			w.put(uint64(s[i]), 8)
		}
	} else {
		f.Set(reflect.MakeSlice(et, n, n))
		for i := 0; i < n; i++ {
			x := uint64(sym.U16("x"))
			f.Index(i).SetUint(x)
			w.num(x, eb, true)
		}
	}
	w.put(symFull("z", v.Elem().Field(2), false), 8)
	modelValue(o, v, w)
	sizes(v.Interface(), w)
}

// C14_Types: the documented type names, nested.
func C14_Types() {
	ts := []struct {
		name   string
		bits   int
		native reflect.Type
	}{
		{"uint8", 8, tU64}, {"byte", 8, tU64}, {"uint16", 16, tU64}, {"uint32", 32, tU64}, {"uint64", 64, tU64}, {"uint", 32, tU64},
		{"int8", 8, tI64}, {"int16", 16, tI64}, {"int32", 32, tI64}, {"rune", 32, tI64}, {"int64", 64, tI64}, {"int", 32, tI64},
		{"bool", 8, tof(false)}, {"float32", 32, tof(float32(0))}, {"float64", 64, tof(float64(0))},
		{"complex64", 64, tof(complex64(0))}, {"complex128", 128, tof(complex128(0))},
	}
	k := ts[sym.Choose("type", len(ts))]
	name, bits, native := k.name, k.bits, k.native
	for i := sym.Choose("depth", 3); i > 0; i-- {
		switch sym.Choose("wrap", 3) {
		case 0:
			name, bits, native = "[2]"+name, bits*2, reflect.ArrayOf(2, native)
		case 1:
			name, native = "*"+name, reflect.PtrTo(native)
		case 2:
			name, bits, native = "[0x1]"+name, bits*1, reflect.ArrayOf(1, native)
			name = strings.Replace(name, "0x1", "1", 1)
		}
	}
	t := reflect.StructOf([]reflect.StructField{sf("X", native, []string{"", "big,"}[sym.Choose("o", 2)]+name), sf("Z", tU8, "")})
	v := reflect.New(t)
	zeroPtrs(v.Elem())
	n, err := restruct.BitSize(v.Interface())
	sym.Assert(err == nil, "a documented type is accepted")
	sym.Assert(n == bits+8, "a documented type has its size")
	data, err := restruct.Pack(binary.LittleEndian, v.Interface())
	sym.Observe("data", data)
	sym.Assert(err == nil && len(data) == (bits+8)/8, "a documented type packs")
}

// tryTag uses a struct with the given tag on a field of type t in every way.
func tryTag(t reflect.Type, tag string) (bits int, err error) {
	st := reflect.StructOf([]reflect.StructField{{Name: "X", Type: t, Tag: sym.Tag("struct", tag)}, sf("V", tof([]uint8(nil)), "")})
	v := reflect.New(st)
	bits, err = restruct.BitSize(v.Interface())
	n, err2 := restruct.SizeOf(v.Interface())
	sym.Assert((err == nil) == (err2 == nil), "SizeOf and BitSize agree on whether the tag is good")
	if err == nil {
		sym.Assert(n == (bits+7)/8, "SizeOf and BitSize agree")
	}
	data, err3 := restruct.Pack(binary.BigEndian, v.Interface())
	if err == nil && err3 == nil {
		sym.Assert(len(data) == n, "Pack and SizeOf agree")
	}
	if err != nil {
		sym.Assert(err3 != nil, "Pack rejects what SizeOf rejects")
	}
	err4 := restruct.Unpack([]byte{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, binary.BigEndian, v.Interface())
	sym.Observe("e", []bool{err != nil, err2 != nil, err3 != nil, err4 != nil})
	if err == nil && err3 == nil && err4 == nil {
		return bits, nil
	}
	if err == nil {
		err = err3
	}
	if err == nil {
		err = err4
	}
	return bits, err
}

func isDigits(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return false
		}
	}
	return len(s) > 0
}

// goInt is the value of a Go integer literal without signs and underscores.
func goInt(s string) (int, bool) {
	base := 10
	if len(s) > 1 && s[0] == '0' {
		switch s[1] {
		case 'x', 'X':
			base, s = 16, s[2:]
		case 'b', 'B':
			base, s = 2, s[2:]
		case 'o', 'O':
			base, s = 8, s[2:]
		default:
			base, s = 8, s[1:]
		}
	}
	n := 0
	for i := 0; i < len(s); i++ {
		c := s[i]
		d := 99
		switch {
		case c >= '0' && c <= '9':
			d = int(c - '0')
		case c >= 'a' && c <= 'f':
			d = int(c-'a') + 10
		case c >= 'A' && c <= 'F':
			d = int(c-'A') + 10
		}
		if d >= base {
			return 0, false
		}
		n = n*base + d
	}
	return n, len(s) > 0
}

func symTail(name string, max int) string { return sym.Str(name, sym.Choose(name+".n", max+1)) }

// C14_Any: every tag of up to two (thorough four) bytes returns normally or with an error, never panics,
// and is accepted only if it is one of the documented ones.
func C14_Any() {
	max := 2
	if sym.Thorough() {
		max = 4
	}
	tag := symTail("tag", max)
	good := map[string]bool{"": true, "-": true, "lsb": true, "msb": true, "big": true, "int": true, "byte": true, "rune": true, "uint": true, "root": true}
	_, err := tryTag(tI32, tag)
	if err == nil {
		sym.Cover("accepted")
		tag = strings.TrimSpace(tag)
		for g := range good {
			if tag == g {
				return
			}
		}
		sym.Assert(strings.HasPrefix(tag, "(") || len(tag) > 3 && (tag[:2] == "if" || tag[:2] == "in") || strings.HasPrefix(tag, "int/"), "an undocumented tag is rejected")
	} else {
		sym.Cover("rejected")
	}
}

// C14_Skip: skip= takes an integer literal and nothing else.
func C14_Skip() {
	sym.SmallLen(256)
	tail := symTail("tail", 3)
	if len(tail) == 3 && tail[0] > '0' && tail[0] <= '9' {
		sym.Assume(sym.And(tail[0] == '1', tail[1] < '2'))
	}
	bits, err := tryTag(tU8, "skip="+tail)
	n, ok := goInt(tail)
	for i := 0; i < len(tail); i++ {
		if tail[i] == ',' || i == 1 && (tail[i] == 'o' || tail[i] == 'O') {
			sym.Stop()
		}
	}
	if ok {
		sym.Cover("number")
		if n <= 15 { // tryTag unpacks 16 bytes
			sym.Assert(err == nil, "skip= accepts an integer")
		}
		sym.Assert(bits == 8+8*n, "skip= skips that many bytes")
	} else {
		sym.Cover("no number")
		sym.Assert(err != nil, "skip= rejects anything but an integer")
	}
}

// C14_SkipSize: skip= takes integers of any size and base.
func C14_SkipSize() {
	sym.SmallLen(256)
	lits := []string{"255", "256", "4095", "32767", "32768", "65535", "65536", "131072", "1048576", "16777216", "2147483648", "0x7fff", "0x8000", "0xFFFF", "0x10000", "0X100000", "0100000", "0200000", "0b1000000000000000"}
	var lit string
	if i := sym.Choose("lit", len(lits)+2); i < len(lits) {
		lit = lits[i]
	} else if i == len(lits) {
		lit = sym.Str("digits", 5)
		sym.Assume(isDigits(lit))
		sym.Assume(lit[0] != '0')
	} else {
		lit = "0x" + sym.Str("hex", 4)
	}
	n, ok := goInt(lit)
	if !ok {
		sym.Stop()
	}
	type wrap struct{ A, B uint8 }
	st := reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), {Name: "X", Type: tU16, Tag: sym.Tag("struct", "skip="+lit)}, {Name: "Y", Type: tof(wrap{}), Tag: sym.Tag("struct", "little,skip="+lit)}})
	v := reflect.New(st).Interface()
	m, err := restruct.SizeOf(v)
	sym.Assert(err == nil, "skip= takes any integer")
	sym.Assert(m == 2*n+5, "skip= skips that many bytes")
	m, err = restruct.BitSize(v)
	sym.Assert(err == nil && m == 8*(2*n+5), "skip= skips that many bytes")
	err = restruct.Unpack([]byte{1, 2, 3, 4}, binary.BigEndian, v)
	sym.Assert(n == 0 || err != nil, "skipped bytes must be there")
}

// C14_Bits: a bit width must be an integer within the type.
func C14_Bits() {
	k := []struct {
		name string
		bits int
		t    reflect.Type
	}{{"uint8", 8, tU8}, {"int16", 16, tI16}, {"uint32", 32, tU32}, {"int64", 64, tI64}, {"uint64", 64, tU64}}[sym.Choose("type", 5)]
	tail := symTail("tail", 3)
	bits, err := tryTag(k.t, k.name+":"+tail)
	for i := 0; i < len(tail); i++ {
		if tail[i] == ',' || tail[i] == '_' {
			sym.Stop()
		}
	}
	n, ok := goInt(tail)
	if ok && n >= 1 && n < k.bits {
		sym.Cover("width")
		sym.Assert(err == nil, "a width within the type is accepted")
		sym.Assert(bits == n, "the field takes that many bits")
	} else {
		sym.Cover("no width")
		sym.Assert(err != nil, "a width outside the type is rejected")
	}
}

// C14_NoBits: bit widths on types that are no numbers are rejected.
func C14_NoBits() {
	name := []string{"bool", "float64", "[2]uint8", "[]uint8", "*uint8", "string", "uintptr"}[sym.Choose("type", 7)]
	_, err := tryTag(tU8, name+":"+string([]byte{'1' + sym.U8("d")%9}))
	sym.Assert(err != nil, "bits on a non-bitwise type are rejected")
}

// C14_Array: array lengths.
func C14_Array() {
	tail := symTail("tail", 2)
	for i := 0; i < len(tail); i++ {
		if strings.IndexByte(" \t\r\n_/]", tail[i]) >= 0 {
			sym.Stop()
		}
	}
	bits, err := tryTag(tStr, "["+tail+"]byte")
	if isDigits(tail) && !(tail[0] == '0' && (len(tail) > 1 && tail[1] > '7')) {
		n := int(tail[0] - '0')
		if len(tail) > 1 {
			n = n*10 + int(tail[1]-'0')
		}
		if n <= 16 {
			sym.Assert(err == nil, "an array length is accepted")
			sym.Cover("length")
		}
		sym.Assert(bits == 8*n, "the array has that length")
	} else if len(tail) > 0 {
		sym.Assert(err != nil, "a bad array length is rejected")
	}
}

// C14_ArrayLen: arrays in a tag may be of any length.
func C14_ArrayLen() {
	lens := []int{17, 63, 64, 99, 100, 127, 128, 255, 256, 257, 300, 999, 1000, 1024, 32767, 32768, 40000, 65535, 65536, 100000, 1 << 20, 1<<28 + 1}
	n := lens[sym.Choose("n", len(lens))]
	e := []struct {
		t    reflect.Type
		wire string
		bits int
	}{{tof([]uint8(nil)), "uint8", 8}, {tof([]uint8(nil)), "byte", 8}, {tof([]uint16(nil)), "uint16", 16}, {tof([]int(nil)), "int64", 64}, {tStr, "byte", 8}, {tof([]uint8(nil)), "[2]uint8", 16}}[sym.Choose("elem", 6)]
	if e.wire == "[2]uint8" {
		e.t = tof([][2]uint8(nil))
	}
	st := reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), sf("X", e.t, "["+strconv.Itoa(n)+"]"+e.wire)})
	v := reflect.New(st)
	bits, err := restruct.BitSize(v.Interface())
	sym.Assert(err == nil, "an array length is accepted")
	sym.Assert(bits == 8+n*e.bits, "the array has that length")
}

// C14_Trailing: nothing may follow an option but a comma and another option.
func C14_Trailing() {
	opt := []string{"uint8", "little", "msb", "variantbool", "default", "[2]uint8", "root", "sizeof=V", "uint8:3"}[sym.Choose("opt", 9)]
	c := sym.U8("c")
	tag := opt + string([]byte{c})
	two := sym.Choose("two", 2) == 1
	var c2 byte
	if two {
		c2 = sym.U8("c2")
		tag += string([]byte{c2})
	}
	blank := func(c byte) bool { return c == ' ' || c == '\t' || c == '\r' || c == '\n' || c == ';' }
	typ := opt == "uint8" || opt == "[2]uint8"
	if typ && blank(c) || typ && c == '/' || c == ',' && typ {
		sym.Stop()
	}
	if opt == "uint8" && two && c == ':' && c2 >= '1' && c2 <= '7' {
		sym.Stop()
	}
	if opt == "uint8" && (two && c == '1' && c2 == '6' || two && c == '3' && c2 == '2' || two && c == '6' && c2 == '4') {
		sym.Stop()
	}
	if c == ',' && (two && c2 == '-') {
		sym.Stop()
	}
	if strings.HasPrefix(opt, "sizeof") && c == ',' {
		sym.Stop()
	}
	_, err := tryTag(tU8, tag)
	sym.Assert(err != nil, "trailing text is rejected")
}

// C14_Ident: sizeof= and sizefrom= take the name of a field.
func C14_Ident() {
	name := symTail("name", 2)
	for i := 0; i < len(name); i++ {
		if name[i] == ',' {
			sym.Stop()
		}
	}
	t := reflect.StructOf([]reflect.StructField{{Name: "N", Type: tU8, Tag: sym.Tag("struct", "sizeof="+name)}, sf("V", tof([]uint16(nil)), ""), sf("Vé", tof([]uint32(nil)), ""), sf("W", tU8, "")})
	v := reflect.New(t)
	v.Elem().Field(1).Set(reflect.MakeSlice(tof([]uint16(nil)), 2, 2))
	data, err := restruct.Pack(binary.BigEndian, v.Interface())
	sym.Observe("err", err)
	sym.Observe("data", data)
	if name == "V" {
		sym.Cover("name")
		sym.Assert(err == nil, "sizeof of a slice is accepted")
		sym.Assert(sym.EqBytes(data, []byte{2, 0, 0, 0, 0, 0}), "and holds its length")
	} else {
		sym.Assert(err != nil, "sizeof of anything else is rejected")
	}
}

// C14_From: as C14_Ident for sizefrom=.
func C14_From() {
	name := symTail("name", 2)
	for i := 0; i < len(name); i++ {
		if name[i] == ',' {
			sym.Stop()
		}
	}
	t := reflect.StructOf([]reflect.StructField{sf("N", tU8, ""), sf("Nx", tU16, ""), {Name: "V", Type: tof([]uint16(nil)), Tag: sym.Tag("struct", "sizefrom="+name)}, sf("W", tU8, "")})
	v := reflect.New(t)
	v.Elem().Field(2).Set(reflect.MakeSlice(tof([]uint16(nil)), 2, 2))
	data, err := restruct.Pack(binary.BigEndian, v.Interface())
	sym.Observe("err", err)
	sym.Observe("data", data)
	switch name {
	case "N":
		sym.Cover("N")
		sym.Assert(err == nil && sym.EqBytes(data, []byte{2, 0, 0, 0, 0, 0, 0, 0}), "sizefrom stores the length in its field")
	case "Nx":
		sym.Cover("Nx")
		sym.Assert(err == nil && sym.EqBytes(data, []byte{0, 0, 2, 0, 0, 0, 0, 0}), "sizefrom stores the length in its field")
	default:
		sym.Assert(err != nil, "sizefrom of an unknown field is rejected")
	}
}

// C14_Unbalanced: brackets and quotes of a tag expression must match.
func C14_Unbalanced() {
	restruct.EnableExprBeta()
	key := []string{"if=", "while=", "case=", "in="}[sym.Choose("key", 4)]
	e := make([]byte, 3)
	pool := "()[]{}\"'1"
	for i := range e {
		e[i] = pool[sym.Choose("e"+strconv.Itoa(i), len(pool))]
	}
	_, err := tryTag(tU8, key+string(e))
	var stack []byte
	bad := false
	var quote byte
	for _, c := range e {
		if quote != 0 {
			if c == quote {
				quote = 0
			}
			continue
		}
		switch c {
		case '(', '[', '{':
			stack = append(stack, c)
		case ')', ']', '}':
			open := map[byte]byte{')': '(', ']': '[', '}': '{'}[c]
			if len(stack) == 0 || stack[len(stack)-1] != open {
				bad = true
			} else {
				stack = stack[:len(stack)-1]
			}
		case '"', '\'':
			quote = c
		}
	}
	if bad || len(stack) > 0 || quote != 0 {
		sym.Cover("unbalanced")
		if key == "if=" {
			sym.Assert(err != nil, "an unbalanced expression is rejected")
		}
	}
}

// C14_Quoted: any literal may stand in the expression of an option, followed by another option.
func C14_Quoted() {
	restruct.EnableExprBeta()
	own := sym.Choose("own", 2) == 1
	lits := []struct {
		src, val string
	}{
		{`"%"`, "%"}, {`$'%'`, "%"}, {`"\%"`, ""}, {`$'\%'`, ""}, {`"\\"`, "\\"}, {`$'\\'`, "\\"}, {`"\""`, "\""}, {`$'\''`, "'"}, {`"'"`, "'"}, {`$'"'`, "\""}, {`"("`, "("}, {`$']'`, "]"}, {`","`, ","}, {`$','`, ","}, {`"\\\""`, "\\\""}, {`$'\\\''`, "\\'"}, {`"\x2c"`, ","}, {`$'\051'`, ")"},
	}
	l := lits[sym.Choose("lit", len(lits))]
	src, val := l.src, l.val
	if i := strings.IndexByte(src, '%'); i >= 0 {
		if src[i-1] == '\\' {
			e := "abfnrtv"
			k := sym.Choose("esc", len(e))
			src, val = src[:i]+e[k:k+1]+src[i+1:], "\a\b\f\n\r\t\v"[k:k+1]
		} else {
			c := sym.U8("c")
			sym.Assume(sym.And(c >= 0x20, c < 0x7f, c != '\\', c != src[i+1]))
			val = string([]byte{c})
			src = src[:i] + val + src[i+1:]
		}
	}
	e, form := "", sym.Choose("form", 4)
	switch form {
	case 0:
		e = "A == " + src
	case 1:
		e = src + " == A"
	case 2:
		e = "(A == " + src + ")"
	case 3:
		e = "A != " + src + " ? false : true"
	}
	var f reflect.StructField
	skip := 0
	if own {
		f = reflect.StructField{Name: "X", Type: tU16, Tag: sym.Tag("struct-if", e)}
	} else {
		tag := "if=" + e
		switch sym.Choose("place", 3) {
		case 1:
			tag, skip = tag+",skip=1", 1
		case 2:
			tag, skip = "skip=1,"+tag, 1
		}
		f = reflect.StructField{Name: "X", Type: tU16, Tag: sym.Tag("struct", tag)}
	}
	t := reflect.StructOf([]reflect.StructField{sf("N", tU8, "sizeof=A"), sf("A", tStr, ""), f})
	v := reflect.New(t)
	a := sym.Str("a", 1+sym.Choose("len", 2))
	v.Elem().Field(1).SetString(a)
	n, err := restruct.SizeOf(v.Interface())
	sym.Assert(err == nil, "a literal may stand in a tag")
	sym.Observe("n", n)
	if a == val {
		sym.Cover("equal")
		sym.Assert(n == 1+len(a)+2+skip, "the literal has its value")
	} else {
		sym.Assert(n == 1+len(a), "the literal has its value")
	}
}

// C14_Many: any sequence of three fragments of tags never does more than return an error.
func C14_Many() {
	frag := []string{"", ",", "little", "uint16", "skip=1", "sizeof=V", "sizeof=", "if=V", "size=2", "-", "root", "parent", "[]uint8", "[2]", ":3", "\x00", "日", "default", "case=1", "bits=3", "*uint8", "string", "struct{}", "[-1]byte", "[9223372036854775807]int64"}
	n := len(frag)
	tag := frag[sym.Choose("f0", n)] + frag[sym.Choose("f1", n)]
	if sym.Thorough() {
		tag += frag[sym.Choose("f2", n)]
	}
	ts := []reflect.Type{tU8, tStr, tof([]uint8(nil)), tof(struct{ A uint8 }{}), tof([2]uint16{})}
	tryTag(ts[sym.Choose("type", len(ts))], tag)
}

// C14_Both: the same in the tags of their own, struct-if and so on.
func C14_Both() {
	restruct.EnableExprBeta()
	k := sym.Choose("key", 5)
	own := sym.Choose("own", 2) == 1
	et := func(name string, t reflect.Type, key, e string) reflect.StructField {
		return etag(name, t, "", key, e, own)
	}
	var t reflect.Type
	switch k {
	case 0:
		t = reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), et("X", tU16, "if", "A > 3"), sf("Z", tU8, "")})
	case 1:
		t = reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), et("X", tof([]uint16(nil)), "size", "A & 3"), sf("Z", tU8, "")})
	case 2:
		t = reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), et("X", tU16, "bits", "A % 9 + 1"), sf("Z", tU8, "")})
	case 3:
		t = reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), et("X", tof([]uint8(nil)), "while", "A != 7 && !_eof"), sf("Z", tU8, "")})
	case 4:
		t = reflect.StructOf([]reflect.StructField{sf("A", tU8, ""), et("X", tU16, "in", "X + 1000"), sf("Z", tU8, "")})
	}
	data := sym.Bytes("data", 10)
	v := reflect.New(t)
	err := restruct.Unpack(data, binary.BigEndian, v.Interface())
	a := data[0]
	z := v.Elem().Field(2).Uint()
	x := v.Elem().Field(1)
	sym.Observe("v", v.Interface())
	be := func(i int) uint64 { return uint64(data[i])<<8 | uint64(data[i+1]) }
	switch k {
	case 0:
		sym.Assert(err == nil, "Unpack succeeds")
		if a > 3 {
			sym.Assert(sym.And(x.Uint() == be(1), z == uint64(data[3])), "if= applies")
		} else {
			sym.Assert(sym.And(x.Uint() == 0, z == uint64(data[1])), "if= applies")
		}
	case 1:
		sym.Assert(err == nil, "Unpack succeeds")
		n := sym.Pick(int(a & 3))
		sym.Assert(x.Len() == n && z == uint64(data[1+2*n]), "size= applies")
	case 2:
		sym.Assert(err == nil, "Unpack succeeds")
		n := sym.Pick(int(a%9)) + 1
		sym.Assert(x.Uint() == be(1)>>uint(16-n), "bits= applies")
	case 3:
		if a != 7 {
			sym.Assert(err != nil, "while= reads all elements")
		} else {
			sym.Assert(err == nil && x.Len() == 0 && z == uint64(data[1]), "while= applies")
		}
	case 4:
		sym.Assert(err == nil, "Unpack succeeds")
		sym.Assert(x.Uint() == (be(1)+1000)&0xffff, "in= applies")
	}
}

// words14 are the options that are a single word.
var words14 = []string{"lsb", "little", "msb", "big", "network", "variantbool", "invertedbool", "root", "parent", "default",
	"bool", "byte", "rune", "uint8", "uint16", "uint32", "uint64", "uint", "uintptr", "int8", "int16", "int32", "int64", "int", "float32", "float64", "complex64", "complex128", "string", "error"}

// C14_Words: of all words, exactly the documented ones are options.
func C14_Words() {
	n := 1 + sym.Choose("len", 12)
	b := sym.Bytes("word", n)
	full := n < 5 || sym.Thorough() && n < 8
	for i, c := range b {
		d := c
		if full {
			d |= 0x20
			sym.Assume(sym.Or(sym.And(d >= 'a', d <= 'z'), c == '_', sym.And(i > 0, c >= '0', c <= '9')))
		} else {
			sym.Assume(sym.And(d >= 'a', d <= 'z'))
		}
	}
	word14(string(b), full)
}

// C14_WordTails: an option with other letters before or behind it is none.
func C14_WordTails() {
	w := words14[sym.Choose("word", len(words14))]
	n := 1 + sym.Choose("n", 2)
	if sym.Thorough() {
		n += sym.Choose("m", 3)
	}
	b := sym.Bytes("letters", n)
	for i, c := range b {
		d := c | 0x20
		sym.Assume(sym.Or(sym.And(d >= 'a', d <= 'z'), c == '_', sym.And(i > 0, c >= '0', c <= '9')))
	}
	if sym.Choose("front", 2) == 1 {
		word14(string(b)+w, true)
	} else {
		word14(w+string(b), true)
	}
}

func word14(word string, places bool) {
	tag := word
	place := 0
	if places {
		place = sym.Choose("place", 3)
	}
	switch place {
	case 1:
		tag = "skip=1," + word
	case 2:
		tag = word + ",skip=1"
	}
	known := false
	for _, k := range words14 {
		known = sym.Or(known, word == k)
	}
	st := reflect.StructOf([]reflect.StructField{{Name: "X", Type: tI32, Tag: sym.Tag("struct", tag)}})
	_, err := restruct.BitSize(reflect.New(st).Interface())
	sym.Observe("err", err != nil)
	if err == nil {
		sym.Cover("accepted")
		sym.Assert(known, "a word that is no option is rejected")
	}
}

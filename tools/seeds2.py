# Planted bugs, second batch; see mkseed.py.
exec(open(__file__.replace("seeds2", "seeds") if "__file__" in globals() else "/verif/tools/seeds.py").read().split("\nseed(")[0])
seeds = []

seed("c01-nan-payload", "C01", [("decoder.go", "		v.SetFloat(math.Float64frombits(d.read64(f, false)))", """		x := math.Float64frombits(d.read64(f, false))
		if math.IsNaN(x) {
			x = math.NaN()
		}
		v.SetFloat(x)""")],
 "a float64 that is a NaN with a payload", "the payload and sign of NaNs are lost on unpacking", '''
type T struct{ F float64 }
func TestDemo(t *testing.T) {
	v, w := T{math.Float64frombits(0xfff8000000001234)}, T{}
	b, err := restruct.Pack(binary.BigEndian, &v)
	if err != nil { t.Fatal(err) }
	if err := restruct.Unpack(b, binary.BigEndian, &w); err != nil || math.Float64bits(w.F) != math.Float64bits(v.F) { t.Fatal(w, err) }
}''', R + ["math"])

seed("c02-denormal", "C02", [("encoder.go", "		e.write32(f, math.Float32bits(float32(ov.Float())))", """		x := float32(ov.Float())
		if math.Abs(float64(x)) < 1.1754943508222875e-38 {
			x = float32(math.Copysign(0, float64(x)))
		}
		e.write32(f, math.Float32bits(x))""")],
 "a denormal float32", "denormal numbers are packed as zero, so the bytes are not reproduced", '''
type T struct{ F float32 }
func TestDemo(t *testing.T) {
	in := []byte{0x80, 0, 0x12, 0x34}
	w := T{}
	if err := restruct.Unpack(in, binary.BigEndian, &w); err != nil { t.Fatal(err) }
	b, err := restruct.Pack(binary.BigEndian, &w)
	if err != nil || string(b) != string(in) { t.Fatal(b, err) }
}''', R)

seed("c02-getbit-byte", "C02", [("encoder.go", "	return (buf[len(buf)-bit/8-1] >> (uint(bit) % 8)) & 1", """	i := len(buf) - bit/8 - 1
	if i < 0 || bitSize > 32 && bit == 63 {
		return 0
	}
	return (buf[i] >> (uint(bit) % 8)) & 1""")],
 "an unaligned full-width 64-bit value with its top bit set", "the top bit is lost when packing", '''
type T struct {
	A uint8 `struct:"uint8:3"`
	B uint64
	C uint8 `struct:"uint8:5"`
}
func TestDemo(t *testing.T) {
	v, w := T{A: 5, B: 1<<63 | 0x15, C: 3}, T{}
	b, err := restruct.Pack(binary.BigEndian, &v)
	if err != nil { t.Fatal(err) }
	if err := restruct.Unpack(b, binary.BigEndian, &w); err != nil || v != w { t.Fatal(w, err) }
}''', R)

seed("c04-nilptr-order", "C04", [("encoder.go", '''		e.order = f.Order
		defer func() { e.order = order }()
''', '''		e.order = f.Order
'''), ("encoder.go", '''		e.write64(f, math.Float64bits(float64(real(x))))
		e.write64(f, math.Float64bits(float64(imag(x))))
	}
''', '''		e.write64(f, math.Float64bits(float64(real(x))))
		e.write64(f, math.Float64bits(float64(imag(x))))
	}

	e.order = order
''')],
 "a nil pointer field with a byte order of its own followed by another field", "the byte order of the nil pointer's field leaks to the fields behind it", '''
type T struct {
	P *uint16 `struct:"little"`
	Q uint16
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{nil, 0x0304})
	if err != nil || len(b) != 2 || b[0] != 3 { t.Fatal(b, err) }
}''', R)

seed("c04-decode-elem-order", "C04", [("decoder.go", '''	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		d.read(f.Elem(), v.Elem())
''', '''	case reflect.Ptr:
		v.Set(reflect.New(v.Type().Elem()))
		d.order = order
		d.read(f.Elem(), v.Elem())
'''), ("field.go", "		Order:      f.Order,\n		TIndex:     -1,\n		SIndex:     -1,\n		Skip:       0,\n		Trivial:    isTypeTrivial(t.Elem()),", "		TIndex:     -1,\n		SIndex:     -1,\n		Skip:       0,\n		Trivial:    isTypeTrivial(t.Elem()),")],
 "unpacking a pointer field that has a byte order of its own", "its element is read in the surrounding byte order", '''
type T struct {
	P *uint16 `struct:"little"`
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 2}, binary.BigEndian, &w); err != nil || *w.P != 0x0201 { t.Fatal(*w.P, err) }
}''', R)

seed("c05-write-mask", "C05", [("encoder.go", "		for i := 0; i < encodedBits; i++ {\n			e.writeBit(getBit(inBuf, encodedBits, i))", """		for i := 0; i < encodedBits; {
			if e.bitCounter == 0 && encodedBits-i >= 16 {
				// A whole byte at a time.
				e.buf[0] = 0
				for k := 0; k < 8; k++ {
					e.buf[0] |= getBit(inBuf, encodedBits, i+k) << uint(7-k)
				}
				e.buf = e.buf[1:]
				i += 8
				if encodedBits > 56 {
					i++
				}
				continue
			}
			e.writeBit(getBit(inBuf, encodedBits, i))
			i++""")],
 "a bit field of 57 bits or more", "bits are dropped when packing", '''
type T struct {
	A uint64 `struct:"uint64:61"`
	B uint8  `struct:"uint8:3"`
}
func TestDemo(t *testing.T) {
	v, w := T{A: 1<<60 | 0x15a5a5a5a5, B: 3}, T{}
	b, err := restruct.Pack(binary.BigEndian, &v)
	if err != nil { t.Fatal(err) }
	if err := restruct.Unpack(b, binary.BigEndian, &w); err != nil || v != w { t.Fatal(w, err) }
}''', R)

seed("c07-len-nested", "C07", [("encoder.go", '''		sv := struc.Field(f.TIndex)

''', '''		sv := struc.Field(f.TIndex)
		if sv.Kind() == reflect.String {
			n := 0
			for n < sv.Len() && sv.String()[n] != 0 {
				n++
			}
			sv = sv.Slice(0, n)
		}

''')],
 "a string with a length field that contains a NUL byte", "the packed length stops at the NUL, the data does not", '''
type T struct {
	N uint8 `struct:"sizeof=S"`
	S string
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{S: "a\\x00b"})
	if err != nil || b[0] != 3 { t.Fatal(b, err) }
}''', R)
seeds[-1]["edits"] = [("encoder.go", '''			e.checkLen(f, v, sv.Len(), 0)
			v.SetUint(uint64(sv.Len()))''', '''			if sv.Kind() == reflect.String {
				sv = reflect.ValueOf(strings.SplitN(sv.String(), "\\x00", 2)[0])
			}
			e.checkLen(f, v, sv.Len(), 0)
			v.SetUint(uint64(sv.Len()))'''), ("encoder.go", '	"math"\n	"reflect"\n', '	"math"\n	"reflect"\n	"strings"\n')]

seed("c08-c-string-short", "C08", [("decoder.go", '''			str := string(d.readBytes(d.fieldbytes(f, v) - f.Skip))
			nul := strings.IndexByte(str, 0)
''', '''			n := d.fieldbytes(f, v) - f.Skip
			if n > len(d.buf) {
				n = len(d.buf)
			}
			str := string(d.readBytes(n))
			nul := strings.Index(str, "\\x00")
''')],
 "input that ends inside a fixed-size string", "the truncated string is accepted", '''
type T struct {
	A uint8
	S string `struct:"[4]byte"`
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 'a', 'b'}, binary.BigEndian, &w); err == nil { t.Fatal(w) }
}''', R)

seed("c08-slice-end", "C08", [("decoder.go", '''				for i := 0; i < alen; i++ {
					d.read(ef, v.Index(i))
				}
			}
		}
''', '''				for i := 0; i < alen && (i == 0 || len(d.buf) != 0); i++ {
					d.read(ef, v.Index(i))
				}
			}
		}
''')],
 "a counted slice whose data ends exactly between two elements", "the missing elements read as zero instead of failing", '''
type T struct {
	N uint8 `struct:"sizeof=S"`
	S []uint32
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{2, 0, 0, 0, 1}, binary.BigEndian, &w); err == nil { t.Fatal(w) }
}''', R)

seed("c09-ptr-skip", "C09", [("field.go", '''	return field{
		Name:       "*" + f.Name,
''', '''	skip := 0
	if t.Kind() == reflect.Ptr {
		skip = f.Skip
	}

	return field{
		Name:       "*" + f.Name,
'''), ("field.go", "		Skip:       0,\n		Trivial:    isTypeTrivial(t.Elem()) &&", "		Skip:       skip,\n		Trivial:    isTypeTrivial(t.Elem()) &&")],
 "a pointer field with skip=", "the bytes are skipped twice", '''
type T struct {
	P *uint16 `struct:"skip=2"`
}
func TestDemo(t *testing.T) {
	x := uint16(0x0102)
	b, err := restruct.Pack(binary.BigEndian, &T{&x})
	if err != nil || len(b) != 4 { t.Fatal(b, err) }
}''', R)

seed("c09-skip-carry", "C09", [("decoder.go", '''	d.bitCounter += uint8(count % 8)
	if d.bitCounter >= 8 {
		d.bitCounter -= 8
		count += 8
	}
	d.buf = d.buf[count/8:]
''', '''	n := count / 8
	d.bitCounter += uint8(count % 8)
	if d.bitCounter > 7 {
		d.bitCounter &= 7
		if n == 0 {
			n++
		}
	}
	d.buf = d.buf[n:]
''')],
 "padding of more than a byte that is not a whole number of bytes and crosses a byte boundary", "unpacking continues one byte too early", '''
type T struct {
	A uint8  `struct:"uint8:5"`
	_ uint16 `struct:"uint16:13"`
	B uint8  `struct:"uint8:6"`
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{0xf8, 0, 0x2a}, binary.BigEndian, &w); err != nil || w.B != 0x2a { t.Fatal(w, err) }
}''', R)

seed("c10-ptr-receiver-elem", "C10", [("decoder.go", '''	if !v.CanAddr() {
		return nil, false
	}

	if s, ok := v.Addr().Interface().(Unpacker); ok {
		return s, true
	}
''', '''	if !v.CanAddr() || v.Kind() == reflect.Array || v.Kind() == reflect.Slice {
		return nil, false
	}

	if s, ok := v.Addr().Interface().(Unpacker); ok {
		return s, true
	}
''')],
 "a custom type whose underlying type is an array or slice", "its Unpack method is not called", '''
type A [2]byte
func (a A) SizeOf() int { return 3 }
func (a *A) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) { a[0], a[1] = b[1], b[2]; return b[3:], nil }
type T struct {
	A A
	B uint8
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{9, 1, 2, 3}, binary.BigEndian, &w); err != nil || w.A != (A{1, 2}) || w.B != 3 { t.Fatal(w, err) }
}''', R)

seed("c11-sizeof-disabled", "C11", [("packing.go", '''	ss := structstack{allowexpr: expressionsEnabled}
	f, val := fieldFromIntf(v)
	return ss.fieldbits(f, addressable(val)), nil
''', '''	ss := structstack{allowexpr: true}
	f, val := fieldFromIntf(v)
	return ss.fieldbits(f, addressable(val)), nil
''')],
 "BitSize of a struct with an expression while expressions are disabled", "no error is returned", '''
type T struct {
	A uint8
	B uint8 `struct:"if=A > 3"`
}
func TestDemo(t *testing.T) {
	if n, err := restruct.BitSize(&T{A: 4}); err == nil { t.Fatal(n) }
}''', R[1:])
seeds[-1]["edits"][0:0] = []

seed("c11-size-longer", "C11", [("encoder.go", "				if l := e.evalSize(f); l != ov.Len() {", "				if l := e.evalSize(f); l > ov.Len() {")],
 "a slice with more elements than its size expression says", "it is packed in full; the data then says something else", '''
type T struct {
	N uint8
	S []byte `struct:"size=N"`
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	if b, err := restruct.Pack(binary.BigEndian, &T{1, []byte{1, 2}}); err == nil { t.Fatal(b) }
}''', R)

seed("c11-while-size", "C11", [("decoder.go", '''				i := 0
				ef := f.Elem()
				for d.evalWhile(f) {
					d.read(ef, v.Index(i))
					i++
				}
''', '''				ef := f.Elem()
				for i := 0; i < v.Len() && d.evalWhile(f); i++ {
					d.read(ef, v.Index(i))
				}
''')],
 "a while= expression that still holds when the array is full", "the elements that do not fit are left unread instead of an error", '''
type T struct {
	A [2]uint8 `struct:"[]uint8" struct-while:"!_eof"`
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 2, 3}, binary.BigEndian, &w); err == nil { t.Fatal(w) }
}''', R)

seed("c11-out-before-size", "C11", [("encoder.go", '''	ov := v
	if f.OutExpr != nil {
		ov = e.evalOut(f, v)
	}
''', ""), ("encoder.go", '''	// If this is a sizeof field, pull the current slice length into it.
''', '''	ov := v
	if f.OutExpr != nil {
		ov = e.evalOut(f, v)
	}

	// If this is a sizeof field, pull the current slice length into it.
''')],
 "a count field with an out= expression that uses the count itself", "the expression sees the old count", '''
type T struct {
	N uint8 `struct:"sizeof=S,out=N + 1,in=N - 1"`
	S []byte
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{S: []byte{7, 8}})
	if err != nil || b[0] != 3 { t.Fatal(b, err) }
}''', R)

seed("c12-last-match", "C12", [(f, '''		if matches(%s.evalExpr(f.CaseExpr), on) {
			%s
			return%s
		}
	}

	if def''' % (r, c, x) if f != "structstack.go" else '''		if matches(s.evalExpr(f.CaseExpr), on) {
			return s.fieldbits(f, v)
		}
	}

	if def''', n) for f, r, c, x, n in [
 ("decoder.go", "d", "d.read(f, v)", "", '''		if matches(d.evalExpr(f.CaseExpr), on) {
			hit = &switchcase{f, v}
		}
	}

	if hit != nil {
		d.read(hit.f, hit.v)
	} else if def'''),
 ("encoder.go", "e", "e.write(f, v)", "", '''		if matches(e.evalExpr(f.CaseExpr), on) {
			hit = &switchcase{f, v}
		}
	}

	if hit != nil {
		e.write(hit.f, hit.v)
	} else if def'''),
 ("structstack.go", "", "", "", '''		if matches(s.evalExpr(f.CaseExpr), on) {
			hit = &switchcase{f, v}
		}
	}

	if hit != nil {
		return s.fieldbits(hit.f, hit.v)
	}

	if def''')]] + [(f, "	var def *switchcase\n", "	var def, hit *switchcase\n") for f in ("decoder.go", "encoder.go", "structstack.go")],
 "a switch in which two cases equal the switch value", "the last one is taken instead of the first", '''
type T struct {
	K uint8
	S struct {
		A uint8  `struct:"case=1"`
		B uint16 `struct:"case=K"`
	} `struct:"switch=K"`
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	if n, err := restruct.SizeOf(&T{K: 1}); err != nil || n != 2 { t.Fatal(n, err) }
}''', R[1:])

seed("c12-stale-default", "C12", [("decoder.go", "	for i := 0; i < l; i++ {\n		v := v.Field(sfields[i].Index)\n		if v.CanSet() {\n			v.Set(reflect.Zero(v.Type()))", "	for i, sf := range sfields {\n		v := v.Field(sf.Index)\n		if v.CanSet() && sfields[i].Flags&DefaultFlag == 0 {\n			v.Set(reflect.Zero(v.Type()))")],
 "unpacking into a value used before, which then held the default case", "the default's old value stays next to the case just unpacked", '''
type T struct {
	K uint8
	S struct {
		A uint8 `struct:"case=1"`
		D uint8 `struct:"default"`
	} `struct:"switch=K"`
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{5, 7}, binary.BigEndian, &w); err != nil { t.Fatal(err) }
	if err := restruct.Unpack([]byte{1, 8}, binary.BigEndian, &w); err != nil || w.S.D != 0 { t.Fatal(w, err) }
}''', R)

seed("c13-size-grandparent", "C13", [("structstack.go", '''		for i := 1; i < len(s.stack); i++ {
			if s.setancestor(f, val, s.ancestor(i)) {
				break
			}
		}
		return 0
''', '''		s.setancestor(f, val, s.ancestor(1))
		return 0
''')],
 "a parent field that refers past the directly enclosing struct, in a value not packed before", "the size is computed with a nil parent", '''
type Leaf struct {
	P *T `struct:"parent"`
	B []byte `struct:"size=P.N"`
}
type Mid struct{ L Leaf }
type T struct {
	N uint8
	M Mid
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	v := T{N: 2}
	v.M.L.B = []byte{1, 2}
	b, err := restruct.Pack(binary.BigEndian, &v)
	if err != nil || len(b) != 3 { t.Fatal(b, err) }
	type Leaf2 struct {
		P *T `struct:"parent"`
		B byte `struct:"if=P.N > 1"`
	}
}''', R)
seeds[-1]["demo"] = '''
type Leaf struct {
	P *T   `struct:"parent"`
	B byte `struct:"if=P.N > 1"`
}
type Mid struct{ L Leaf }
type T struct {
	N uint8
	M Mid
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{N: 2})
	if err != nil || len(b) != 2 { t.Fatal(b, err) }
}'''

seed("c13-stale-pointer", "C13", [("structstack.go", '''	if ancestor.Type().AssignableTo(v.Type()) {
		v.Set(ancestor)
		return true
	}
''', '''	if ancestor.Type().AssignableTo(v.Type()) {
		if v.IsNil() {
			v.Set(ancestor)
		}
		return true
	}
''')],
 "a value whose root or parent pointer already points somewhere else, as in a copy of a processed value", "the old object is read instead of the one being processed", '''
type Leaf struct {
	P *T   `struct:"parent"`
	B byte `struct:"if=P.N > 1"`
}
type T struct {
	N uint8
	L Leaf
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	v := T{N: 2}
	if _, err := restruct.Pack(binary.BigEndian, &v); err != nil { t.Fatal(err) }
	w := v
	w.N = 0
	b, err := restruct.Pack(binary.BigEndian, &w)
	if err != nil || len(b) != 1 { t.Fatal(b, err) }
}''', R)

seed("c14-double-colon", "C14", [("tag.go", '			parts := strings.SplitN(typeexpr, ":", 2)', '			parts := strings.Split(typeexpr, ":")')],
 "a type with two bit widths, like uint8:3:9", "the tag is accepted", '''
type T struct {
	A uint8 `struct:"uint8:3:9"`
}
func TestDemo(t *testing.T) {
	if n, err := restruct.BitSize(&T{}); err == nil { t.Fatal(n) }
}''', R[1:])

seed("c14-skip-base", "C14", [("tag.go", '''		d, err := strconv.ParseInt(result, 0, 64)
		return int(d), err
''', '''		d, err := strconv.ParseInt(result, 0, 16)
		return int(d), err
''')],
 "a skip= count of 32768 or more", "the tag is rejected", '''
type T struct {
	A uint8 `struct:"skip=40000"`
}
func TestDemo(t *testing.T) {
	if n, err := restruct.SizeOf(&T{}); err != nil || n != 40001 { t.Fatal(n, err) }
}''', R[1:])

seed("c15-ignored-blank", "C15", [("field.go", """		if opts.Ignore {
			continue""", """		if opts.Ignore && val.Name != "_" {
			continue""")],
 "a field named _ that is tagged -", "it takes space", '''
type T struct {
	A uint8
	_ uint16 `struct:"-"`
	B uint8
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{A: 1, B: 2})
	if err != nil || len(b) != 2 { t.Fatal(b, err) }
}''', R)

seed("c16-or-right", "C16", [("expr/parse.go", "			binary(binaryor, 6)", "			binary(binaryor, 5)")],
 "an | followed by a + or - without parentheses", "a | b - c groups as a | (b - c)", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": 1, "b": 2, "c": 1}, "a | b - c"); v != 2 { t.Fatal(v) }
	if v := eval(t, map[string]interface{}{"a": 1, "b": 3, "c": 3}, "a | b - c"); v != 0 { t.Fatal(v) }
}''', E)

seed("c16-neg-member", "C16", [("expr/parse.go", "			unary(unarynegate, 7)", "			unary(unarynegate, 8)")],
 "a minus in front of an indexed or selected value", "-a[0] groups as (-a)[0]", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": []int{3}}, "- a[0]"); v != -3 { t.Fatal(v) }
}''', E)

seed("c17-lsh-uint16", "C17", [("expr/value.go", '''	case uint16:
		shift = uint64(rv)
	case uint32:
		shift = uint64(rv)
	case uint64:
		shift = uint64(rv)
	case uintptr:
		shift = uint64(rv)
	default:
		panic(InvalidOpError{Op: "<<", V: rhs})''', '''	case uint16:
		shift = uint64(uint8(rv))
	case uint32:
		shift = uint64(rv)
	case uint64:
		shift = uint64(rv)
	case uintptr:
		shift = uint64(rv)
	default:
		panic(InvalidOpError{Op: "<<", V: rhs})''')],
 "a shift by a uint16 of 256 or more", "the count wraps around", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": uint8(3), "b": uint16(256)}, "a << b"); v != uint8(0) { t.Fatal(v) }
}''', E)

seed("c17-recip", "C17", [("expr/value.go", "		return val{reflect.ValueOf(lv / r.RawValue().(float64)), NewPrimitiveType(Float64)}", "		return val{reflect.ValueOf(lv * (1 / r.RawValue().(float64))), NewPrimitiveType(Float64)}")],
 "a float64 division whose reciprocal is not exact", "the quotient is off in the last place", EVAL + '''
func TestDemo(t *testing.T) {
	a, b := 5.0, 49.0
	if v := eval(t, map[string]interface{}{"a": a, "b": b}, "a / b"); v != a/b { t.Fatal(v) }
	a, b = 49.0, 49.0
	if v := eval(t, map[string]interface{}{"a": a, "b": b}, "a / b"); v != a/b { t.Fatal(v) }
}''', E)

seed("c17-rem-neg", "C17", [("expr/value.go", '''	case int16:
		return val{reflect.ValueOf(lv % r.RawValue().(int16)), NewPrimitiveType(Int16)}''', '''	case int16:
		m := lv % r.RawValue().(int16)
		if m < 0 && lv != -32768 {
			m = -(-lv % r.RawValue().(int16))
		} else if m < 0 {
			m += r.RawValue().(int16)
		}
		return val{reflect.ValueOf(m), NewPrimitiveType(Int16)}''')],
 "the remainder of the smallest int16", "it is not the one Go computes", EVAL + '''
func TestDemo(t *testing.T) {
	a, b := int16(-32768), int16(7)
	if v := eval(t, map[string]interface{}{"a": a, "b": b}, "a % b"); v != a%b { t.Fatal(v) }
}''', E)

seed("c18-uescape-high", "C18", [("expr/lex.go", '''		code, err := strconv.ParseUint(hex, 16, 16)
		if err != nil {
			panic(err)
		}
		return runebytes(rune(code))''', '''		code, err := strconv.ParseUint(hex, 16, 16)
		if err != nil {
			panic(err)
		}
		return runebytes(rune(int16(code)))''')],
 "a \\u escape of U+8000 or more", "it denotes U+FFFD", '''
func TestDemo(t *testing.T) {
	v, err := expr.Eval(expr.NewMapResolver(nil), `"\\u8a9e"`)
	if err != nil || v != "\\u8a9e" { t.Fatalf("%q %v", v, err) }
}''', E)

seed("c18-big-literal", "C18", [("expr/lex.go", "	if t.uval, err = strconv.ParseUint(t.sval, 0, 64); err == nil {", "	if t.uval, err = strconv.ParseUint(t.sval, 0, 63); err == nil {")],
 "an integer literal of 2^63 or more", "it becomes a float", EVAL + '''
func TestDemo(t *testing.T) {
	v := eval(t, map[string]interface{}{"a": uint64(1<<63 + 1)}, "a == 9223372036854775809")
	if v != true { t.Fatal(v) }
}''', E)

seed("c19-rethrow", "C19", [("expr/eval.go", "	v = evalnode(resolver, program.root).RawValue()\n	return\n", "	r := evalnode(resolver, program.root)\n	return r.RawValue(), nil\n"),
 ("expr/eval.go", "	if err, ok := r.(error); ok {\n		return err\n	}\n", "	if err, ok := r.(runtime.Error); ok && err.Error() != \"runtime error: integer divide by zero\" {\n		// A mistake in this package; do not hide it.\n		panic(err)\n	}\n	if err, ok := r.(error); ok {\n		return err\n	}\n"),
 ("expr/eval.go", '	"reflect"\n', '	"reflect"\n	"runtime"\n')],
 "an expression whose evaluation fails with a runtime error other than division by zero", "evaluation panics", EVAL + '''
func TestDemo(t *testing.T) {
	defer func() { if r := recover(); r != nil { t.Fatal(r) } }()
	r := expr.NewMapResolver(map[string]expr.Value{"a": expr.ValueOf("abc"), "i": expr.ValueOf(5)})
	if v, err := expr.Eval(r, "a[i]"); err == nil { t.Fatal(v) }
}''', E)

seed("c20-nil-dot", "C20", [("expr/value.go", '''	case *PtrType:
		return v.Deref().Dot(ident)
''', '''	case *PtrType:
		d := v.Deref()
		if v.v.IsNil() {
			d = val{reflect.Zero(v.v.Type().Elem()), d.Type()}
		}
		return d.Dot(ident)
''')],
 "selecting a field through a nil pointer", "the zero value is returned instead of an error", '''
type S struct{ A uint8 }
func TestDemo(t *testing.T) {
	r := expr.NewMapResolver(map[string]expr.Value{"p": expr.ValueOf((*S)(nil))})
	if v, err := expr.Eval(r, "p.A"); err == nil { t.Fatal(v) }
}''', E)

seed("c20-meta-order", "C20", [("expr/env.go", '''	for _, resolver := range r.resolvers {
		if t := resolver.Resolve(ident); t != nil {
			return t
		}
	}
	return nil
''', '''	var v Value
	for _, resolver := range r.resolvers {
		if t := resolver.Resolve(ident); t != nil && (v == nil || v.Type().Kind() == Pkg) {
			v = t
		}
	}
	return v
''')],
 "a MetaResolver in which a package hides a value of the same name", "the value of the later resolver is taken", '''
func TestDemo(t *testing.T) {
	m := expr.NewMetaResolver()
	m.AddResolver(expr.NewMapResolver(map[string]expr.Value{"a": expr.ValueOf(expr.NewPackage(map[string]expr.Value{"b": expr.ValueOf(7)}))}))
	m.AddResolver(expr.NewMapResolver(map[string]expr.Value{"a": expr.ValueOf(3)}))
	if v, err := expr.Eval(m, "a.b"); err != nil || v != 7 { t.Fatal(v, err) }
}''', E)

seed("c21-while-truncated", "C21", [("decoder.go", '''					for d.evalWhile(f) {
						nv := reflect.New(ef.NativeType).Elem()
						d.read(ef, nv)
						v.Set(reflect.Append(v, nv))
''', '''					room := func() bool {
						return ef.NativeType.Kind() != reflect.Struct || 8*len(d.buf) >= d.fieldbits(ef, reflect.New(ef.NativeType).Elem())
					}
					for d.evalWhile(f) && room() {
						nv := reflect.New(ef.NativeType).Elem()
						d.read(ef, nv)
						v.Set(reflect.Append(v, nv))
''')],
 "a PNG file cut off within the first twelve bytes of a chunk", "the partial chunk is silently dropped", '''
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	b := append([]byte("\\x89PNG\\r\\n\\x1a\\n\\x00\\x00\\x00\\x0dIHDR"), make([]byte, 17)...)
	if err := restruct.Unpack(b, binary.BigEndian, &png.File{}); err != nil { t.Fatal(err) }
	f := png.File{}
	if err := restruct.Unpack(append(b, 0, 0, 0, 0, 'I', 'E'), binary.BigEndian, &f); err == nil { t.Fatal(f) }
}''', R + ["github.com/go-restruct/restruct/formats/png"], pkg="./formats/png")

seed("c21-raw-case", "C21", [("formats/png/png.go", '''		Raw  *ChunkRaw  `struct:"default" json:",omitempty"`
''', '''		PLTE *ChunkPLTE `struct-case:"$'PLTE'" json:",omitempty"`
		Raw  *ChunkRaw  `struct:"default" json:",omitempty"`
'''), ("formats/png/png.go", '''type ChunkPLTE struct {
}
''', '''type ChunkPLTE struct {
	Parent  *Chunk     `struct:"parent" json:"-"`
	Entries [][3]byte  `struct-size:"Parent.Len / 3"`
}
'''), ("formats/png/png.go", "// ChunkPLTE contains the body of a PLTE chunk.", "// ChunkPLTE contains the body of a PLTE chunk: the palette.")],
 "a PLTE chunk whose length is not a multiple of three", "its remaining bytes are taken for the CRC and everything behind it is misread", '''
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	b := append([]byte("\\x89PNG\\r\\n\\x1a\\n\\x00\\x00\\x00\\x0dIHDR"), make([]byte, 17)...)
	b = append(b, 0, 0, 0, 4, 'P', 'L', 'T', 'E', 1, 2, 3, 4, 9, 9, 9, 9)
	f := png.File{}
	if err := restruct.Unpack(b, binary.BigEndian, &f); err != nil || len(f.Chunks) != 1 || f.Chunks[0].CRC != 0x09090909 { t.Fatal(f, err) }
}''', R + ["github.com/go-restruct/restruct/formats/png"], pkg="./formats/png")

seed("c22-failed-type", "C22", [("field.go", '''	cacheMutex.RLock()
	result, ok := fieldCache[typ]
	cacheMutex.RUnlock()

	if ok {
		return
	}
''', '''	cacheMutex.Lock()
	result, ok := fieldCache[typ]
	if !ok {
		fieldCache[typ] = nil
	}
	cacheMutex.Unlock()

	if ok {
		return
	}
''')],
 "a second call with a type whose tags are invalid", "the first call fails, the second succeeds with an empty layout", '''
type T struct {
	A uint8 `struct:"uint8:99"`
}
func TestDemo(t *testing.T) {
	if n, err := restruct.SizeOf(&T{}); err == nil { t.Fatal(n) }
	if n, err := restruct.SizeOf(&T{}); err == nil { t.Fatal(n) }
}''', R[1:])

seed("c23-pack-grow", "C23", [("encoder.go", '''			for i := len; i < cap; i++ {
				e.write(ef, reflect.New(ef.NativeType).Elem())
			}
''', '''			if len < cap && ov.Kind() == reflect.Slice {
				// Pad the slice to the length of its array.
				ov.Set(reflect.AppendSlice(ov, reflect.MakeSlice(ov.Type(), cap-len, cap-len)))
				for ; len < cap; len++ {
					e.write(ef, ov.Index(len))
				}
			}
			for i := len; i < cap; i++ {
				e.write(ef, reflect.New(ef.NativeType).Elem())
			}
''')],
 "packing a slice that is shorter than its array on the wire", "the caller's slice is padded too", '''
type T struct {
	S []byte `struct:"[4]byte"`
}
func TestDemo(t *testing.T) {
	v := T{[]byte{1}}
	if b, err := restruct.Pack(binary.BigEndian, &v); err != nil || len(b) != 4 || len(v.S) != 1 { t.Fatal(b, v, err) }
}''', R)
seeds[-1]["edits"] = [("encoder.go", '''			for i := len; i < cap; i++ {
				e.write(ef, reflect.New(ef.NativeType).Elem())
			}
''', '''			for ; len < cap && ov.Kind() == reflect.Slice && ov.CanSet(); len++ {
				// Pad the slice to the length of its array.
				ov.Set(reflect.Append(ov, reflect.Zero(ov.Type().Elem())))
				e.write(ef, ov.Index(len))
			}
			for ; len < cap; len++ {
				e.write(ef, reflect.New(ef.NativeType).Elem())
			}
''')]

seed("c23-input-reverse", "C23", [("decoder.go", '''	b := make([]byte, 8)
	d.readBits(f, b)
	return d.extend64(d.order.Uint64(b), extend)
''', '''	if d.bitCounter == 0 && d.bitSize == 0 && d.order == binary.LittleEndian {
		b := d.readBytes(8)
		for i := 0; i < 4; i++ {
			b[i], b[7-i] = b[7-i], b[i]
		}
		return d.extend64(binary.BigEndian.Uint64(b), extend)
	}
	b := make([]byte, 8)
	d.readBits(f, b)
	return d.extend64(d.order.Uint64(b), extend)
''')],
 "unpacking an aligned 64-bit little-endian value", "the bytes of the caller's input are reversed in place", '''
type T struct{ A uint64 }
func TestDemo(t *testing.T) {
	in := []byte{1, 2, 3, 4, 5, 6, 7, 8}
	w := T{}
	if err := restruct.Unpack(in, binary.LittleEndian, &w); err != nil || w.A != 0x0807060504030201 || in[0] != 1 { t.Fatal(w, in, err) }
}''', R)
seeds[-1]["edits"] = [("decoder.go", '''	b := make([]byte, 8)
	d.readBits(f, b)
	return d.extend64(d.order.Uint64(b), extend)
''', '''	var b []byte
	if d.bitCounter == 0 && d.bitSize == 0 && d.order == binary.LittleEndian {
		b = d.readBytes(8)
		for i := 0; i < 4; i++ {
			b[i], b[7-i] = b[7-i], b[i]
		}
		return binary.BigEndian.Uint64(b)
	}
	b = make([]byte, 8)
	d.readBits(f, b)
	return d.extend64(d.order.Uint64(b), extend)
''')]

seed("c24-hit-count", "C24", [("field.go", '''	cacheMutex.RLock()
	result, ok := fieldCache[typ]
	cacheMutex.RUnlock()
''', '''	cacheMutex.RLock()
	result, ok := fieldCache[typ]
	if ok {
		cacheHits++
	}
	cacheMutex.RUnlock()
'''), ("field.go", "var cacheMutex = sync.RWMutex{}", "var cacheMutex = sync.RWMutex{}\nvar cacheHits int")],
 "two goroutines that look up a known type at the same time", "unsynchronised increment of a counter under a read lock", '''
func TestDemo(t *testing.T) {
	type A struct{ X uint8 }
	restruct.Pack(binary.BigEndian, &A{})
	var wg sync.WaitGroup
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := 0; i < 100; i++ { restruct.Pack(binary.BigEndian, &A{}) }
		}()
	}
	wg.Wait()
}''', R + ["sync"], race=True)
seeds[-1]["edits"][0] = ("field.go", '''	cacheMutex.RLock()
	result, ok := fieldCache[typ]
	cacheMutex.RUnlock()
''', '''	cacheMutex.RLock()
	var ok bool
	if result, ok = fieldCache[typ]; ok {
		cacheHits++
	}
	cacheMutex.RUnlock()
''')

seed("c25-late-copy", "C25", [("packing.go", '''	f, val := fieldFromIntf(v)
	val = addressable(val)
	data = make([]byte, ss.fieldbytes(f, val))

''', '''	f, val := fieldFromIntf(v)
	size := ss.fieldbytes(f, val)
	val = addressable(val)
	data = make([]byte, size)

''')],
 "a value passed by value that holds a custom type with a SizeOf on its pointer", "the size is wrong, so packing fails", '''
type C struct{ A uint8 }
func (c *C) SizeOf() int { return 2 }
func (c *C) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { b[0], b[1] = c.A, c.A; return b[2:], nil }
type T struct {
	C C
	B uint8
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, T{C{1}, 2})
	if err != nil || len(b) != 3 { t.Fatal(b, err) }
}''', R)

seed("c25-value-array", "C25", [("packing.go", "	if val.CanAddr() {\n		return val\n	}\n", "	if val.CanAddr() || val.Kind() == reflect.Array {\n		return val\n	}\n"),
 ("encoder.go", "			sv := ov.Field(sf.Index)\n", "			sv := reflect.Indirect(ov).Field(sf.Index)\n")],
 "an array of structs passed by value", "its elements are skipped: the result is all zero", '''
type T struct{ A uint8 }
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, [2]T{{1}, {2}})
	if err != nil || len(b) != 2 || b[0] != 1 { t.Fatal(b, err) }
}''', R)

seed("c26-ptr-wiretype", "C26", [("encoder.go", "		e.write(f.Elem(), ov.Elem())", "		e.write(fieldFromType(ov.Type().Elem()), ov.Elem())"),
 ("decoder.go", "		d.read(f.Elem(), v.Elem())", "		d.read(fieldFromType(v.Type().Elem()), v.Elem())"),
 ("structstack.go", "			return size + s.fieldbits(f.Elem(), val.Elem())", "			return size + s.fieldbits(fieldFromType(val.Type().Elem()), val.Elem())")],
 "a pointer field whose tag gives another wire type, like *uint16 for a *uint32", "the element is laid out in its Go type", '''
type T struct {
	P *uint32 `struct:"*uint16"`
}
func TestDemo(t *testing.T) {
	x := uint32(0x0102)
	b, err := restruct.Pack(binary.BigEndian, &T{&x})
	if err != nil || len(b) != 2 { t.Fatal(b, err) }
}''', R)

seed("c26-nil-zero", "C26", [("encoder.go", '''		// Skip if pointer is nil.
		if ov.IsNil() {
			return
		}
''', '''		// Write zeroes if the pointer to a scalar is nil.
		if ov.IsNil() && isTypeTrivial(ov.Type().Elem()) {
			ov = reflect.New(ov.Type().Elem())
		}
		if ov.IsNil() {
			return
		}
'''), ("structstack.go", "			if val.IsNil() {", "			if val.IsNil() && !isTypeTrivial(val.Type().Elem()) {"),
 ("structstack.go", "			return size + s.fieldbits(f.Elem(), val.Elem())", "			if val.IsNil() {\n				val = reflect.New(val.Type().Elem())\n			}\n			return size + s.fieldbits(f.Elem(), val.Elem())")],
 "a nil pointer to a scalar", "it takes space on the wire", '''
type T struct {
	P *uint32
	A uint8
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{nil, 3})
	if err != nil || len(b) != 1 { t.Fatal(b, err) }
}''', R)

seed("c27-string-order", "C27", [("decoder.go", '''			str := string(d.readBytes(d.fieldbytes(f, v) - f.Skip))
			nul := strings.IndexByte(str, 0)
			if nul != -1 {
				str = str[0:nul]
			}
			v.SetString(str)
''', '''			str := string(d.readBytes(d.fieldbytes(f, v) - f.Skip))
			nul := strings.IndexByte(str, 0)
			if nul > 0 {
				str = str[0:nul]
			}
			v.SetString(str)
''')],
 "a fixed-size string that starts with a NUL", "an empty string unpacks as a string of NULs", '''
type T struct {
	S string `struct:"[4]byte"`
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{0, 0, 0, 0}, binary.BigEndian, &w); err != nil || w.S != "" { t.Fatalf("%q %v", w.S, err) }
}''', R)

seed("c28-uint32-sign", "C28", [("decoder.go", "		d.setUint(f, v, uint64(d.readU32(f)))", "		d.setUint(f, v, uint64(int32(d.readU32(f))))")],
 "a uint32 on the wire with its top bit set, in a uint64 field", "the value is sign-extended", '''
type T struct {
	A uint64 `struct:"uint32"`
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{0x80, 0, 0, 0}, binary.BigEndian, &w); err != nil || w.A != 1<<31 { t.Fatal(w, err) }
}''', R)

seed("c28-clamp", "C28", [("encoder.go", "		e.writeS16(f, int16(e.intFromField(f, ov)))", """		x := e.intFromField(f, ov)
		if x > math.MaxInt16 {
			x = math.MaxInt16
		}
		e.writeS16(f, int16(x))""")],
 "a value above 32767 in a field with wire type int16", "it is clamped instead of keeping its low bits", '''
type T struct {
	A int32 `struct:"int16"`
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{0x12345})
	if err != nil || b[0] != 0x23 || b[1] != 0x45 { t.Fatal(b, err) }
}''', R)


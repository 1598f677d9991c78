# Planted bugs; see mkseed.py. They never go into /repo.
R = ["encoding/binary", "github.com/go-restruct/restruct"]
E = ["github.com/go-restruct/restruct/expr"]
ENABLE = "func init() { restruct.EnableExprBeta() }\n"
EVAL = '''
func eval(t *testing.T, m map[string]interface{}, s string) interface{} {
	vs := map[string]expr.Value{}
	for k, v := range m {
		vs[k] = expr.ValueOf(v)
	}
	v, err := expr.Eval(expr.NewMapResolver(vs), s)
	if err != nil {
		t.Fatalf("%s: %v", s, err)
	}
	return v
}
'''
seeds = []
def seed(id, property, edits, needs, breaks, demo, imports, **kw):
    seeds.append(dict(id=id, property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, imports=imports, **kw))

seed("c01-float-negzero", "C01", [("encoder.go", "		e.write64(f, math.Float64bits(float64(ov.Float())))",
 """		x := float64(ov.Float())
		if x == 0 {
			x = 0
		}
		e.write64(f, math.Float64bits(x+0))""")],
 "a float64 field holding negative zero", "packing and unpacking loses the sign of negative zero", '''
type T struct{ F float64 }
func TestDemo(t *testing.T) {
	v := T{math.Copysign(0, -1)}
	b, err := restruct.Pack(binary.BigEndian, &v)
	if err != nil { t.Fatal(err) }
	if b[0] != 0x80 { t.Fatalf("% x", b) }
}''', R + ["math"])

seed("c01-complex-swap", "C01", [("decoder.go", """			math.Float64frombits(d.read64(f, false)),
			math.Float64frombits(d.read64(f, false)),
		))""", """			math.Float64frombits(d.read64(f, false)),
			float64(float32(math.Float64frombits(d.read64(f, false)))),
		))""")],
 "a complex128 whose imaginary part is not a float32", "the imaginary part loses precision when it is unpacked", '''
type T struct{ C complex128 }
func TestDemo(t *testing.T) {
	v, w := T{complex(1.5, 0.1)}, T{}
	b, err := restruct.Pack(binary.BigEndian, &v)
	if err != nil { t.Fatal(err) }
	if err := restruct.Unpack(b, binary.BigEndian, &w); err != nil || v != w { t.Fatal(v, w, err) }
}''', R)

seed("c02-putbit-wide", "C02", [("decoder.go", "			putBit(outBuf, decodedBits, i, d.readBit())", """			b := d.readBit()
			if i < 56 {
				putBit(outBuf, decodedBits, i, b)
			}""")],
 "an unaligned value of more than 56 bits", "the low bits of wide unaligned values are lost on decoding", '''
type T struct {
	A uint8  `struct:"uint8:3"`
	B uint64 `struct:"uint64:61"`
}
func TestDemo(t *testing.T) {
	v, w := T{A: 5, B: 1<<60 | 0x15}, T{}
	b, err := restruct.Pack(binary.BigEndian, &v)
	if err != nil { t.Fatal(err) }
	if err := restruct.Unpack(b, binary.BigEndian, &w); err != nil || v != w { t.Fatal(w, err) }
}''', R)

seed("c03-size-skip-empty", "C03", [("structstack.go", """		if alen == 0 {
			return size
		}""", """		if alen == 0 {
			return 0
		}""")],
 "an empty slice or string in a field with skip=", "the size omits the skipped bytes, so packing panics or the size is wrong", '''
type T struct {
	N uint8 `struct:"sizeof=S"`
	S []byte `struct:"skip=2"`
}
func TestDemo(t *testing.T) {
	n, err := restruct.SizeOf(&T{})
	if err != nil || n != 3 { t.Fatal(n, err) }
	b, err := restruct.Pack(binary.BigEndian, &T{})
	if err != nil || len(b) != 3 { t.Fatal(b, err) }
}''', R)

seed("c04-ptr-order", "C04", [("encoder.go", """		e.order = f.Order
		defer func() { e.order = order }()""", """		e.order = f.Order
		defer func() {
			if v.Kind() != reflect.Ptr {
				e.order = order
			}
		}()"""), ("decoder.go", """		d.order = f.Order
		defer func() { d.order = order }()""", """		d.order = f.Order
		defer func() {
			if v.Kind() != reflect.Ptr {
				d.order = order
			}
		}()""")],
 "a pointer field with a byte order of its own followed by another multi-byte field", "the byte order leaks to the following fields", '''
type T struct {
	P *uint16 `struct:"little"`
	Q uint16
}
func TestDemo(t *testing.T) {
	x := uint16(0x0102)
	b, err := restruct.Pack(binary.BigEndian, &T{&x, 0x0304})
	if err != nil || b[2] != 3 { t.Fatal(b, err) }
}''', R)

seed("c05-crop-be", "C05", [("encoder.go", "			inBuf = inBuf[len(inBuf)-(encodedBits+7)/8:]", """			if n := (encodedBits + 7) / 8; n <= 4 || len(inBuf)-n < 2 {
				inBuf = inBuf[len(inBuf)-n:]
			} else {
				inBuf = inBuf[len(inBuf)-n-1:][:n]
			}""")],
 "a big-endian 64-bit bit field of 33 to 48 bits", "the wrong bytes of the value are packed", '''
type T struct {
	V uint64 `struct:"uint64:40"`
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{0x0102030405})
	if err != nil || b[4] != 5 { t.Fatal(b, err) }
}''', R)

seed("c06-variantbool64", "C06", [("encoder.go", "				return ^uint64(0)", "				return math.MaxUint32")],
 "a true variantbool stored in a uint64", "true is packed as 0x00000000ffffffff instead of all ones", '''
type T struct {
	B bool `struct:"uint64,variantbool"`
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{true})
	if err != nil || b[0] != 0xff { t.Fatal(b, err) }
}''', R)

seed("c06-bool-bit0", "C06", [("decoder.go", """func (d *decoder) setInt(f field, v reflect.Value, x int64) {
	switch v.Kind() {
	case reflect.Bool:
		b := x != 0""", """func (d *decoder) setInt(f field, v reflect.Value, x int64) {
	switch v.Kind() {
	case reflect.Bool:
		b := x == -1 || x > 0""")],
 "a bool stored in a signed integer whose wire value is negative but not -1", "such a value decodes to false although it is not zero", '''
type T struct {
	B bool `struct:"int16"`
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{0x80, 0}, binary.BigEndian, &w); err != nil || !w.B { t.Fatal(w, err) }
}''', R)

seed("c07-count-index", "C07", [("decoder.go", "			if sfields[i].Index != f.SIndex {", "			if i != f.SIndex {")],
 "an ignored or unexported field before the count, whose position then differs from its index in the struct", "the slice is decoded with the wrong count type, empty or as an error", '''
type T struct {
	X int `struct:"-"`
	N uint8 `struct:"sizeof=S"`
	S []uint16
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 0, 9}, binary.BigEndian, &w); err != nil || len(w.S) != 1 || w.S[0] != 9 { t.Fatal(w, err) }
	type U struct {
		X int `struct:"-"`
		N uint8 `struct:"sizeof=S"`
		S []uint16
	}
	u := U{}
	if err := restruct.Unpack([]byte{1, 0, 9}, binary.BigEndian, &u); err != nil || len(u.S) != 1 { t.Fatal(u, err) }
	type V struct {
		A []byte `struct:"-"`
		B []byte `struct:"-"`
		N uint8 `struct:"sizeof=S"`
		S []uint16
	}
	v := V{}
	if err := restruct.Unpack([]byte{1, 0, 9}, binary.BigEndian, &v); err != nil || len(v.S) != 1 { t.Fatal(v, err) }
}''', R)

seed("c08-short-read", "C08", [("decoder.go", "		copy(outBuf, d.buf)\n		d.buf = d.buf[len(outBuf):]", "		d.buf = d.buf[copy(outBuf, d.buf):]")],
 "data that ends inside a byte-aligned field", "truncated data is accepted; the missing bytes read as zero", '''
type T struct{ A, B uint32 }
func TestDemo(t *testing.T) {
	if err := restruct.Unpack(make([]byte, 6), binary.BigEndian, &T{}); err == nil { t.Fatal("accepted") }
}''', R)

seed("c08-readbyte-cap", "C08", [("decoder.go", "	x := d.buf[0:count]\n	d.buf = d.buf[count:]\n	return x", "	x := d.buf[0:count]\n	if count < len(d.buf) {\n		d.buf = d.buf[count:]\n	} else {\n		d.buf = nil\n	}\n	return x")],
 "a byte slice that is a prefix of a longer buffer", "data beyond the end of the given slice is read as part of it", '''
type T struct {
	N uint8 `struct:"sizeof=S"`
	S []byte
}
func TestDemo(t *testing.T) {
	b := []byte{4, 1, 2, 3, 4}
	w := T{}
	if err := restruct.Unpack(b[:3], binary.BigEndian, &w); err == nil { t.Fatal("accepted", w) }
}''', R)

seed("c03-array-trivial", "C03", [("field.go", "		return isTypeTrivial(typ.Elem())", "		return typ.Len() == 0 || isTypeTrivial(typ.Elem()) || typ.Elem().Kind() == reflect.Ptr")],
 "a slice or array of arrays of pointers", "all elements are sized as if their pointers were nil", '''
type T struct {
	A [2][1]*uint16
}
func TestDemo(t *testing.T) {
	x := uint16(7)
	n, err := restruct.SizeOf(&T{[2][1]*uint16{{&x}, {nil}}})
	if err != nil || n != 2 { t.Fatal(n, err) }
}''', R[1:])

seed("c05-extend64", "C05", [("decoder.go", '''	if signed && d.bitSize != 0 && val&(1<<uint(d.bitSize-1)) != 0 {
		val |= ^((1 << uint(d.bitSize)) - 1)
	}''', '''	if signed && d.bitSize != 0 && val&(1<<uint(d.bitSize-1)) != 0 {
		mask := uint32(1)<<uint(d.bitSize) - 1
		val |= ^uint64(mask)
	}''')],
 "a negative int64 bit field of more than 32 bits", "the bits above bit 31 of wide negative bit fields are all set", '''
type T struct {
	V int64 `struct:"int64:40"`
}
func TestDemo(t *testing.T) {
	v, w := T{-1 << 38}, T{}
	b, err := restruct.Pack(binary.BigEndian, &v)
	if err != nil { t.Fatal(err) }
	if err := restruct.Unpack(b, binary.BigEndian, &w); err != nil || v != w { t.Fatal(v, w, err) }
}''', R)

seed("c07-count-int8", "C07", [("decoder.go", "				alen = int(sv.Uint())", "				alen = int(int16(sv.Uint()))")],
 "an unsigned count of at least 2^15 with enough data", "decoding a slice of 32768 or more elements fails", '''
type T struct {
	N uint16 `struct:"sizeof=S"`
	S []byte
}
func TestDemo(t *testing.T) {
	v, w := T{S: make([]byte, 40000)}, T{}
	b, err := restruct.Pack(binary.BigEndian, &v)
	if err != nil { t.Fatal(err) }
	if err := restruct.Unpack(b, binary.BigEndian, &w); err != nil || len(w.S) != 40000 { t.Fatal(len(w.S), err) }
}''', R)

seed("c09-skip-nested", "C09", [("decoder.go", '''	if f.Skip != 0 {
		d.skipBits(f.Skip * 8)
	}''', '''	if f.Skip != 0 && len(d.buf) > f.Skip {
		d.skipBits(f.Skip * 8)
	}''')],
 "skip= on a field of zero size at the end, or with too little data left", "a skip that reaches past the end of the data is ignored instead of being an error", '''
type T struct {
	A uint8
	B uint8 `struct:"skip=2"`
}
func TestDemo(t *testing.T) {
	if err := restruct.Unpack([]byte{1, 2, 3}, binary.BigEndian, &T{}); err == nil { t.Fatal("accepted") }
}''', R)

seed("c09-unexported-pad", "C09", [("structstack.go", '''		return 8 + skipBits
	case reflect.Int16''', '''		if f.Name == "_" {
			return 8
		}
		return 8 + skipBits
	case reflect.Int16''')],
 "skip= on a one-byte padding field", "the skipped bytes before the padding are left out", '''
type T struct {
	A uint8
	_ uint8 `struct:"skip=2"`
	B uint8
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{A: 1, B: 2})
	if err != nil || len(b) != 5 { t.Fatal(b, err) }
}''', R)

seed("c10-wrapped-error", "C10", [("decoder.go", '''			d.buf, err = s.Unpack(d.buf, d.order)
			if err != nil {
				panic(err)
			}''', '''			d.buf, err = s.Unpack(d.buf, d.order)
			if err != nil {
				panic(fmt.Errorf("%s: %v", f.Name, err))
			}''')],
 "an Unpacker that returns an error of its own", "the error of the custom type can no longer be recognised by the caller", '''
var errMine = errors.New("mine")
type C struct{ X uint8 }
func (*C) Unpack([]byte, binary.ByteOrder) ([]byte, error) { return nil, errMine }
type T struct{ C C }
func TestDemo(t *testing.T) {
	if err := restruct.Unpack([]byte{1}, binary.BigEndian, &T{}); !errors.Is(err, errMine) { t.Fatal(err) }
}''', R + ["errors"])

seed("c10-value-packer", "C10", [("encoder.go", '''	if s, ok := v.Interface().(Packer); ok {
		return s, true
	}''', '''	if s, ok := v.Interface().(Packer); ok && v.Kind() != reflect.Slice {
		return s, true
	}'''), ("encoder.go", '''	if s, ok := v.Addr().Interface().(Packer); ok {
		return s, true
	}''', '''	if s, ok := v.Addr().Interface().(Packer); ok && v.Kind() != reflect.Slice {
		return s, true
	}''')],
 "a custom type based on a slice", "its Pack method is not called", '''
type C []byte
func (C) SizeOf() int { return 1 }
func (C) Pack(b []byte, _ binary.ByteOrder) ([]byte, error) { b[0] = 42; return b[1:], nil }
type T struct{ C C }
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{C{7}})
	if err != nil || b[0] != 42 { t.Fatal(b, err) }
}''', R)

seed("c11-if-size", "C11", [("structstack.go", '''	if !s.evalIf(f) {
		return 0
	}''', '''	if !s.evalIf(f) {
		return skipBits
	}''')],
 "a field with both if= and skip= whose condition is false", "absent fields still count their skipped bytes in the size", ENABLE + '''
type T struct {
	A uint8
	B uint8 `struct:"skip=2,if=A == 1"`
}
func TestDemo(t *testing.T) {
	n, err := restruct.SizeOf(&T{})
	if err != nil || n != 1 { t.Fatal(n, err) }
}''', R[1:])


seed("c11-while-eof", "C11", [("decoder.go", '''						nv := reflect.New(ef.NativeType).Elem()
						d.read(ef, nv)
						v.Set(reflect.Append(v, nv))
					}
				}''', '''						nv := reflect.New(ef.NativeType).Elem()
						if len(d.buf) == 1 && v.Len() > 2 {
							// Trailing byte.
							d.buf = nil
							break
						}
						d.read(ef, nv)
						v.Set(reflect.Append(v, nv))
					}
				}''')],
 "a while loop that reads four or more one-byte elements", "the last byte is dropped", ENABLE + '''
type T struct {
	A []byte `struct:"while=!_eof"`
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 2, 3, 4}, binary.BigEndian, &w); err != nil || len(w.A) != 4 { t.Fatal(w, err) }
}''', R)

DEF = ["			def = &switchcase{f, v}\n			continue\n", "			def = &switchcase{f, v}\n			if i > 1 {\n				break\n			}\n			continue\n"]
seed("c12-two-matches", "C12", [("decoder.go", "			d.read(f, v)\n			return\n		}\n	}\n\n	if def != nil {", "			d.read(f, v)\n			if f.Skip == 0 && v.IsZero() {\n				continue\n			}\n			return\n		}\n	}\n\n	if def != nil {")],
 "a matching case whose decoded value is zero, in a switch with a default", "the default case is decoded as well, consuming further data", ENABLE + '''
type T struct {
	K uint8
	S struct {
		A uint8 `struct:"case=1"`
		B uint8 `struct:"default"`
	} `struct:"switch=K"`
	E uint8
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 0, 9}, binary.BigEndian, &w); err != nil || w.E != 9 { t.Fatal(w, err) }
}''', R)

seed("c12-size-default", "C12", [("structstack.go", '''	if def != nil {
		return s.fieldbits(def.f, def.v)
	}''', '''	if def != nil && l > 1 {
		return s.fieldbits(def.f, def.v)
	}''')],
 "a switch with nothing but a default case", "the size leaves out the default case, so packing fails", ENABLE + '''
type T struct {
	K uint8
	S struct {
		B uint8 `struct:"default"`
	} `struct:"switch=K"`
}
func TestDemo(t *testing.T) {
	n, err := restruct.SizeOf(&T{})
	if err != nil || n != 2 { t.Fatal(n, err) }
}''', R[1:])

seed("c13-parent-outermost", "C13", [("decoder.go", "		for i := 1; i < len(d.stack); i++ {", "		for i := len(d.stack) - 1; i > 0; i-- {")],
 "a recursive type nested at least twice, so that several ancestors have the parent's type", "the outermost instead of the nearest ancestor becomes the parent", '''
type N struct {
	P *N `struct:"parent"`
	V uint8
	M uint8 `struct:"sizeof=C"`
	C []N
}
func TestDemo(t *testing.T) {
	w := N{}
	if err := restruct.Unpack([]byte{1, 1, 2, 1, 3, 0}, binary.BigEndian, &w); err != nil { t.Fatal(err) }
	if p := w.C[0].C[0].P; p != &w.C[0] { t.Fatal(p.V) }
}''', R)


seed("c14-bits-overflow", "C14", [("tag.go", "			bits, err := strconv.ParseUint(parts[1], 0, 8)", "			bits, err := strconv.ParseUint(parts[1], 0, 64)")],
 "a bit width of more than 255", "an impossible bit width such as uint8:259 is taken modulo 256 instead of being an error", '''
type T struct {
	A uint8 `struct:"uint8:259"`
}
func TestDemo(t *testing.T) {
	if _, err := restruct.SizeOf(&T{}); err == nil { t.Fatal("accepted") }
}''', R[1:])

seed("c14-escape", "C14", [("tag.go", '''					case '\\\\':
						i++
					}''', '''					case '\\\\':
						if term == '"' {
							i++
						}
					}''')],
 "an escaped single quote in a $'...' literal of a tag expression", "the tag is rejected or cut at the wrong place", ENABLE + '''
type T struct {
	A string `struct:"[1]byte"`
	B uint8  `struct-if:"A == $'\\\\''"`
	C uint8  `struct:"if=A == $'\\\\'',big"`
}
func TestDemo(t *testing.T) {
	n, err := restruct.SizeOf(&T{A: "'"})
	if err != nil || n != 3 { t.Fatal(n, err) }
}''', R[1:])

seed("c14-ignore-first", "C14", [("tag.go", '''		case accept("-"):
			return errors.New("extra options on ignored field")''', '''		case accept("-"):
			if opts != (tagOptions{Ignore: true}) && opts.Skip == 0 {
				return errors.New("extra options on ignored field")
			}
			opts.Ignore = true''')],
 "a - option after skip=", "contradictory options are accepted", '''
type T struct {
	A uint8 `struct:"skip=1,-"`
}
func TestDemo(t *testing.T) {
	if _, err := restruct.SizeOf(&T{}); err == nil { t.Fatal("accepted") }
}''', R[1:])

seed("c15-underscore", "C15", [("field.go", '		if val.PkgPath != "" && val.Name != "_" {', '		if val.PkgPath != "" && val.Name[0] != \'_\' {')],
 "an unexported field whose name starts with an underscore", "it takes part in the layout instead of being ignored", '''
type T struct {
	A uint8
	_b uint8
	C uint8
}
func TestDemo(t *testing.T) {
	n, err := restruct.SizeOf(&T{A: 1, _b: 2, C: 3})
	if err != nil || n != 2 { t.Fatal(n, err) }
}''', R[1:])


seed("c16-shift-assoc", "C16", [("expr/parse.go", "			binary(binarylsh, 7)", "			binary(binarylsh, 6)")],
 "a left shift followed by another operator of the same precedence", "1 << n * 2 groups to the right", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": 3, "n": uint(2)}, "a << n * a"); v != 36 { t.Fatal(v) }
}''', E)

seed("c16-not-call", "C16", [("expr/parse.go", "			unary(unarybitnot, 7)", "			unary(unarybitnot, 6)")],
 "^ applied to the left operand of a multiplicative operator", "^a & b is read as ^(a & b)", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": 6, "b": 3}, "^a & b"); v != ^6&3 { t.Fatal(v) }
}''', E)

seed("c16-or-and", "C16", [("expr/parse.go", "			binary(binarylogicaland, 4)", "			binary(binarylogicaland, 3)")],
 "a conjunction whose left operand decides and that is followed by a disjunction: a && b && c || d", "a && (b && c || d)? the operators group to the right across ||", EVAL + '''
func TestDemo(t *testing.T) {
	m := map[string]interface{}{"a": false, "b": true, "c": true}
	if v := eval(t, m, "a && b || c"); v != true { t.Fatal(v) }
}''', E)

seed("c17-lsh-mask", "C17", [("expr/value.go", "	case uint64:\n		return val{reflect.ValueOf(lv << shift), NewPrimitiveType(Uint64)}", "	case uint64:\n		return val{reflect.ValueOf(lv << (shift & 63)), NewPrimitiveType(Uint64)}")],
 "a uint64 shifted left by 64 or more", "the shift count wraps around instead of giving zero", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": uint64(1), "n": uint8(64)}, "a << n"); v != uint64(0) { t.Fatal(v) }
}''', E)

seed("c17-rsh-logical", "C17", [("expr/value.go", "	case int16:\n		return val{reflect.ValueOf(lv >> shift), NewPrimitiveType(Int16)}", "	case int16:\n		return val{reflect.ValueOf(int16(uint16(lv) >> shift)), NewPrimitiveType(Int16)}")],
 "a negative int16 shifted right", "the sign is not kept", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": int16(-4), "n": uint8(1)}, "a >> n"); v != int16(-2) { t.Fatal(v) }
}''', E)

seed("c17-ge-nan", "C17", [("expr/value.go", "		return val{reflect.ValueOf(lv >= r.RawValue().(float64)), NewPrimitiveType(Bool)}", "		return val{reflect.ValueOf(!(lv < r.RawValue().(float64))), NewPrimitiveType(Bool)}")],
 "a comparison with NaN", "NaN >= x is true", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": math.NaN(), "b": 1.0}, "a >= b"); v != false { t.Fatal(v) }
}''', E + ["math"])

seed("c17-map-zero", "C17", [("expr/value.go", "		return val{reflect.ValueOf(lv &^ r.RawValue().(uint32)), NewPrimitiveType(Uint32)}", "		return val{reflect.ValueOf(lv & (r.RawValue().(uint32) ^ 0x7fffffff)), NewPrimitiveType(Uint32)}")],
 "&^ on a uint32 whose top bit is set", "bit 31 is kept or cleared the wrong way round", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": uint32(1<<31), "b": uint32(1)}, "a &^ b"); v != uint32(1<<31) { t.Fatal(v) }
}''', E)

seed("c18-uint-to-float", "C18", [("expr/value.go", '''		case uint64:
			ival = int64(n)
			uval = uint64(n)
			fval = float64(n)
		}''', '''		case uint64:
			ival = int64(n)
			uval = uint64(n)
			fval = float64(ival)
		}''')],
 "an integer constant of 2^63 or more used with a float", "the constant turns negative", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"f": 1.0}, "f * 9223372036854775808"); v != 9223372036854775808.0 { t.Fatal(v) }
}''', E)


seed("c18-uint64-float", "C18", [("expr/value.go", "			return val{reflect.ValueOf(uint64(uval)), to}", "			return val{reflect.ValueOf(uint64(fval)), to}")],
 "an integer constant of more than 53 bits combined with a uint64", "the low bits of the constant are lost", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"u": uint64(0)}, "u + 9007199254740993"); v != uint64(9007199254740993) { t.Fatal(v) }
}''', E)

seed("c19-trailing", "C19", [("expr/parse.go", "		p.expect(eoftoken)\n		break\n	}\n	return n", "		if p.t.kind == errtoken {\n			break\n		}\n		p.expect(eoftoken)\n		break\n	}\n	return n")],
 "an expression followed by something that is not a token", "the invalid rest is ignored instead of being reported", '''
func TestDemo(t *testing.T) {
	if v, err := expr.Eval(expr.NewMapResolver(nil), "1 @ 2"); err == nil { t.Fatal(v) }
}''', E, pkg="./expr")

seed("c19-err-resolve", "C19", [("expr/eval.go", '''		if v == nil {
			panic(fmt.Errorf("unresolved name %s", n.ident))
		}
		return v''', '''		if v == nil {
			return literalnilval()
		}
		return v''')],
 "a misspelled name compared with nil", "unknown names silently evaluate to nil", '''
func TestDemo(t *testing.T) {
	m := map[string]expr.Value{"p": expr.ValueOf(new(int))}
	if v, err := expr.Eval(expr.NewMapResolver(m), "p == q"); err == nil { t.Fatal(v) }
}''', E, pkg="./expr")

seed("c20-shadow", "C20", [("structstack.go", '''		if t := stdLibResolver.Resolve(ident); t != nil {
			return t
		}
		if len(s.stack) > 0 {
			if sv := s.stack[len(s.stack)-1].FieldByName(ident); sv.IsValid() {
				return expr.ValueOf(sv.Interface())
			}
		}
		return nil''', '''		if len(s.stack) > 0 {
			if sv := s.stack[len(s.stack)-1].FieldByName(ident); sv.IsValid() {
				return expr.ValueOf(sv.Interface())
			}
		}
		if t := stdLibResolver.Resolve(ident); t != nil {
			return t
		}
		return nil''')],
 "a struct with an unexported field named like the built-in package bits", "the field hides the built-in functions", ENABLE + '''
type T struct {
	A    uint8
	bits uint8
	B    uint8 `struct:"if=bits.OnesCount8(A) == 1"`
}
func TestDemo(t *testing.T) {
	v := T{A: 4}
	v.bits = 1
	n, err := restruct.SizeOf(&v)
	if err != nil || n != 2 { t.Fatal(n, err) }
}''', R[1:])

seed("c20-wrong-func", "C20", [("expr_19.go", '"Reverse16": expr.ValueOf(bits.Reverse16),', '"Reverse16": expr.ValueOf(bits.ReverseBytes16),')],
 "bits.Reverse16 on a value whose bytes are not symmetric", "the bytes instead of the bits are reversed", ENABLE + '''
type T struct {
	A uint16
	B uint8 `struct:"if=bits.Reverse16(A) == 0x8000"`
}
func TestDemo(t *testing.T) {
	n, err := restruct.SizeOf(&T{A: 1})
	if err != nil || n != 3 { t.Fatal(n, err) }
}''', R[1:])

seed("c21-plte", "C21", [("formats/png/png.go", '''		IEND *ChunkIEND `struct-case:"$'IEND'" json:",omitempty"`''', '''		PLTE *ChunkPLTE `struct-case:"$'PLTE'" json:",omitempty"`
		IEND *ChunkIEND `struct-case:"$'IEND'" json:",omitempty"`''')],
 "a PNG with a palette", "the palette is not decoded and everything after it is misread", '''
func init() { restruct.EnableExprBeta() }
func TestDemo(t *testing.T) {
	b := []byte("\\x89PNG\\r\\n\\x1a\\n\\x00\\x00\\x00\\x0dIHDR\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x01\\x08\\x03\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x03PLTE\\x01\\x02\\x03\\x00\\x00\\x00\\x00\\x00\\x00\\x00\\x00IEND\\xaeB\\x60\\x82")
	f := png.File{}
	if err := restruct.Unpack(b, binary.BigEndian, &f); err != nil { t.Fatal(err) }
	o, err := restruct.Pack(binary.BigEndian, &f)
	if err != nil || !bytes.Equal(o, b) || len(f.Chunks) != 2 { t.Fatal(o, err) }
}''', R + ["bytes", "github.com/go-restruct/restruct/formats/png"], pkg="./formats/png")

seed("c22-cache-name", "C22", [("field.go", "	result, ok := fieldCache[typ]", "	result, ok := fieldCache[typ.String()]"),
 ("field.go", "	fieldCache[typ] = result", "	fieldCache[typ.String()] = result"),
 ("field.go", "var fieldCache = map[reflect.Type][]field{}", "var fieldCache = map[string][]field{}")],
 "two different local types with the same name", "the layout of the type used first is used for both", '''
func one() interface{} {
	type T struct{ A uint8; B uint16 }
	return &T{}
}
func two() interface{} {
	type T struct{ A uint8; B uint32 }
	return &T{}
}
func TestDemo(t *testing.T) {
	n, _ := restruct.SizeOf(one())
	m, err := restruct.SizeOf(two())
	if n != 3 || m != 5 { t.Fatal(n, m, err) }
}''', R[1:])


seed("c23-slice-reuse", "C23", [("decoder.go", "				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))", '''				if v.Len() == 0 || v.Cap() < alen {
					v.Set(reflect.MakeSlice(f.NativeType, alen, alen))
				} else {
					v.Set(v.Slice(0, alen))
				}''')],
 "unpacking into a value that already holds a long enough slice of structs with pointers, conditionals or switches", "old element contents and shared memory survive", ENABLE + '''
type S struct {
	K uint8
	B uint8 `struct:"if=K == 1"`
}
type T struct {
	N uint8 `struct:"sizeof=A"`
	A []S
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 1, 7}, binary.BigEndian, &w); err != nil { t.Fatal(err) }
	if err := restruct.Unpack([]byte{1, 0}, binary.BigEndian, &w); err != nil || w.A[0].B != 0 { t.Fatal(w, err) }
}''', R)


seed("c24-unlocked-cache", "C24", [("field.go", "	cacheMutex.RLock()\n	result, ok := fieldCache[typ]\n	cacheMutex.RUnlock()\n", "	result, ok := fieldCache[typ]\n")],
 "two goroutines using the package at the same time, one of them with a new type", "unsynchronised access to the field cache", '''
func TestDemo(t *testing.T) {
	type A struct{ X uint8 }
	type B struct{ X uint8 }
	type C struct{ X uint8 }
	var wg sync.WaitGroup
	for _, v := range []interface{}{&A{}, &B{}, &C{}, &A{}, &B{}, &C{}} {
		wg.Add(1)
		go func(v interface{}) {
			defer wg.Done()
			for i := 0; i < 100; i++ { restruct.Pack(binary.BigEndian, v) }
		}(v)
	}
	wg.Wait()
}''', R + ["sync"], race=True)

seed("c24-early-publish", "C24", [("field.go", '''	result = fieldsFromStruct(typ)

	cacheMutex.Lock()
	fieldCache[typ] = result
	cacheMutex.Unlock()
''', '''	result = make([]field, 0, typ.NumField())
	cacheMutex.Lock()
	fieldCache[typ] = result[:cap(result)]
	cacheMutex.Unlock()

	result = append(result, fieldsFromStruct(typ)...)

	cacheMutex.Lock()
	fieldCache[typ] = result
	cacheMutex.Unlock()
''')],
 "a second goroutine that uses the type while the first is still building its fields", "it sees an unfinished field list and packs or unpacks nothing", '''
func TestDemo(t *testing.T) {
	for i := 0; i < 300; i++ {
		fs := []reflect.StructField{}
		for j := 0; j <= i; j++ {
			fs = append(fs, reflect.StructField{Name: fmt.Sprintf("F%d", j), Type: reflect.TypeOf(uint32(0)), Tag: `struct:"uint8:4,big"`})
		}
		typ := reflect.StructOf(fs)
		var wg sync.WaitGroup
		start := make(chan bool)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				n, err := restruct.BitSize(reflect.New(typ).Interface())
				if err != nil || n != 4*(i+1) { t.Errorf("%d %v", n, err) }
			}()
		}
		close(start)
		wg.Wait()
	}
}''', R[1:] + ["fmt", "reflect", "sync"], race=True)

seed("c26-ptr-reuse", "C26", [("decoder.go", '''		v.Set(reflect.New(v.Type().Elem()))
		d.read(f.Elem(), v.Elem())''', '''		if v.IsNil() {
			v.Set(reflect.New(v.Type().Elem()))
		}
		d.read(f.Elem(), v.Elem())''')],
 "unpacking into a value whose pointers are already set", "the earlier pointee is overwritten behind the back of whoever else holds it", '''
type T struct{ P *uint16 }
func TestDemo(t *testing.T) {
	x := uint16(1)
	w := T{&x}
	if err := restruct.Unpack([]byte{0, 9}, binary.BigEndian, &w); err != nil || *w.P != 9 || x != 1 { t.Fatal(x, err) }
}''', R)

seed("c27-trim-nul", "C27", [("decoder.go", '''			nul := strings.IndexByte(str, 0)
			if nul != -1 {
				str = str[0:nul]
			}
			v.SetString(str)''', '''			str = strings.TrimRight(str, "\\x00")
			v.SetString(str)''')],
 "a fixed-size string field with data after the first NUL", "the string continues past its terminator", '''
type T struct {
	S string `struct:"[4]byte"`
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte("a\\x00b\\x00"), binary.BigEndian, &w); err != nil || w.S != "a" { t.Fatal(w, err) }
}''', R)

seed("c27-rune-count", "C27", [("encoder.go", '''				if l := e.evalSize(f); l != ov.Len() {''', '''				if l := e.evalSize(f); l != ov.Len() && !(ov.Kind() == reflect.String && l == len([]rune(ov.String()))) {''')],
 "a string with multi-byte characters in a field with size=", "a string whose rune count but not byte count matches is packed", ENABLE + '''
type T struct {
	N uint8
	S string `struct:"size=N"`
}
func TestDemo(t *testing.T) {
	if b, err := restruct.Pack(binary.BigEndian, &T{1, "\\u00e9"}); err == nil { t.Fatal(b) }
}''', R)

seed("c28-int16-unsigned", "C28", [("decoder.go", "		d.setInt(f, v, int64(d.readS16(f)))", "		d.setInt(f, v, int64(d.readU16(f)))")],
 "a negative 16-bit value on the wire in a wider native integer", "it decodes as a positive number", '''
type T struct {
	A int32 `struct:"int16"`
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{0xff, 0xfe}, binary.BigEndian, &w); err != nil || w.A != -2 { t.Fatal(w, err) }
}''', R)


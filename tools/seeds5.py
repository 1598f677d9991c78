# Planted bugs, fifth batch; see mkseed.py.
exec(open("/verif/tools/seeds.py").read().split("\nseed(")[0])
seeds = []

seed("c01-clobber64", "C01", [("encoder.go", """	b := make([]byte, 8)
	e.order.PutUint64(b, x)
	e.writeBits(f, b)
}""", """	var a [8]byte
	b := a[:]
	e.order.PutUint64(b, x)
	if c := uint(e.bitCounter); c != 0 && e.bitSize == 0 {
		y := binary.BigEndian.Uint64(b)
		binary.BigEndian.PutUint64(e.buf, uint64(e.buf[0]&^(0xff>>c))<<56|y>>c)
		e.buf = e.buf[8:]
		e.buf[0] = byte(y << (7 - c))
		return
	}
	e.writeBits(f, b)
}""")],
 "a 64-bit field at an unaligned bit, with an odd low bit", "the last bits of the field are packed one place off", '''
type T struct {
	A uint8 `struct:"uint8:3"`
	B uint64
	C uint8 `struct:"uint8:5"`
}
func TestDemo(t *testing.T) {
	w := T{5, 0x0102030405060709, 0}
	b, err := restruct.Pack(binary.BigEndian, &w)
	if err != nil { t.Fatal(err) }
	x := T{}
	if err := restruct.Unpack(b, binary.BigEndian, &x); err != nil || x != w { t.Fatal(x, err) }
}''', R)

seed("c01-unaligned-carry", "C01", [("decoder.go", """	b := make([]byte, 4)
	d.readBits(f, b)
	return d.extend32(d.order.Uint32(b), extend)""", """	var a [4]byte
	b := a[:]
	if c := d.bitCounter; c != 0 && d.bitSize == 0 {
		for i := range b {
			b[i] = d.buf[i]<<c | d.buf[i+1]>>(7-c)>>1
			if i == 2 && c > 4 {
				b[i] &^= 1
			}
		}
		d.buf = d.buf[4:]
		return d.order.Uint32(b)
	}
	d.readBits(f, b)
	return d.extend32(d.order.Uint32(b), extend)""")],
 "a 32-bit field five to seven bits into a byte, with one certain bit set", "the bit is lost on Unpack", '''
type T struct {
	A uint8 `struct:"uint8:6"`
	B uint32
	C uint8 `struct:"uint8:2"`
}
func TestDemo(t *testing.T) {
	w := T{5, 0xffffffff, 0}
	b, err := restruct.Pack(binary.BigEndian, &w)
	if err != nil { t.Fatal(err) }
	x := T{}
	if err := restruct.Unpack(b, binary.BigEndian, &x); err != nil || x != w { t.Fatal(x, err) }
}''', R)

seed("c02-space-trim", "C02", [("decoder.go", """			v.SetString(string(d.readBytes(alen)))""", """			str := string(d.readBytes(alen))
			if strings.HasSuffix(str, "\\x00\\x00") {
				str = strings.TrimRight(str, "\\x00")
			}
			v.SetString(str)""")],
 "a counted string that ends in two NUL bytes", "the NULs are dropped, so packing again gives other bytes", '''
type T struct {
	N uint8 `struct:"sizeof=S"`
	S string
}
func TestDemo(t *testing.T) {
	in := []byte{3, 'a', 0, 0}
	x := T{}
	if err := restruct.Unpack(in, binary.BigEndian, &x); err != nil { t.Fatal(err) }
	b, err := restruct.Pack(binary.BigEndian, &x)
	if err != nil || string(b) != string(in) { t.Fatal(b, err) }
}''', R)

seed("c04-restore", "C04", [("encoder.go", """	if f.Order != nil {
		e.order = f.Order
		defer func() { e.order = order }()
	}
""", """	if f.Order != nil {
		e.order = f.Order
		if f.BinaryType.Kind() != reflect.Slice || v.Len() != 0 {
			defer func() { e.order = order }()
		}
	}
""")],
 "an empty slice with a byte order of its own, followed by other fields", "the following fields are packed in the slice's order", '''
type T struct {
	A []uint16 `struct:"little"`
	B uint16
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{B: 1})
	if err != nil || b[1] != 1 { t.Fatal(b, err) }
}''', R)

seed("c06-narrow", "C06", [("decoder.go", """func (d *decoder) setUint(f field, v reflect.Value, x uint64) {
	switch v.Kind() {
	case reflect.Bool:
		b := x != 0""", """func (d *decoder) setUint(f field, v reflect.Value, x uint64) {
	switch v.Kind() {
	case reflect.Bool:
		b := uint32(x) != 0""")],
 "a bool stored as uint64 of which only upper bits are set", "it decodes to false", '''
type T struct { B bool `struct:"uint64"` }
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 0, 0, 0, 0, 0, 0, 0}, binary.BigEndian, &w); err != nil || !w.B { t.Fatal(w, err) }
}''', R)

seed("c06-both-flags", "C06", [("encoder.go", """			if f.Flags&VariantBoolFlag == VariantBoolFlag {
				return -1
			}
			return 1""", """			if f.Flags&VariantBoolFlag == VariantBoolFlag {
				if f.Flags&InvertedBoolFlag != 0 && f.BinaryType.Kind() == reflect.Int64 {
					return math.MaxUint32
				}
				return -1
			}
			return 1""")],
 "an int64 with both variantbool and invertedbool", "false is packed as 0xffffffff instead of -1", '''
type T struct { B bool `struct:"int64,variantbool,invertedbool"` }
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{})
	if err != nil || b[0] != 0xff { t.Fatal(b, err) }
}''', R)

seed("c07-nil-stale", "C07", [("encoder.go", """	if f.TIndex != -1 {
		sv := struc.Field(f.TIndex)
""", """	if sv := struc; f.TIndex != -1 && !(struc.Field(f.TIndex).Kind() == reflect.Slice && struc.Field(f.TIndex).IsNil()) {
		sv = struc.Field(f.TIndex)
""")],
 "a nil slice whose count field holds an older count", "the old count is packed", '''
type T struct {
	N uint8 `struct:"sizeof=S"`
	S []uint16
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{N: 3})
	if err != nil || b[0] != 0 { t.Fatal(b, err) }
}''', R)

seed("c07-skip-count", "C07", [("decoder.go", """			case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				alen = int(sv.Int())
""", """			case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
				alen = int(sv.Int() + 0)
				if sf.BitSize != 0 {
					alen &= 1<<(sf.BitSize-1) - 1
				}
""")],
 "a signed bitfield count that is negative", "it is taken for a small positive count instead of failing", '''
type T struct {
	N int64 `struct:"int64:8,sizeof=S"`
	S []byte
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{0x81, 1, 2}, binary.BigEndian, &w); err == nil { t.Fatal(w) }
}''', R)

seed("c08-count-stop", "C08", [("decoder.go", """				for i := 0; i < alen; i++ {
					nv := reflect.New(ef.NativeType).Elem()
					d.read(ef, nv)
					v.Set(reflect.Append(v, nv))
				}
			} else {""", """				for i := 0; i < alen && len(d.buf) > 0; i++ {
					nv := reflect.New(ef.NativeType).Elem()
					d.read(ef, nv)
					v.Set(reflect.Append(v, nv))
				}
			} else {""")],
 "a count more than eight times the bytes left", "the slice is shortened without an error", '''
type T struct {
	N uint8 `struct:"sizeof=S"`
	S []uint8
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{200, 1, 2}, binary.BigEndian, &w); err == nil { t.Fatal(w) }
}''', R)

seed("c08-skip-past", "C08", [("decoder.go", """	d.buf = d.buf[count/8:]
}

func (d *decoder) skip(""", """	if n := count / 8; n > len(d.buf) && d.bitCounter == 0 && n-len(d.buf) < 2 {
		d.buf = nil
	} else {
		d.buf = d.buf[n:]
	}
}

func (d *decoder) skip(""")],
 "data that is one byte short within padding", "the missing padding byte is not noticed", '''
type T struct {
	A uint8
	_ [3]byte
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 0, 0}, binary.BigEndian, &w); err == nil { t.Fatal(w) }
}''', R)

seed("c09-blank-round", "C09", [("structstack.go", """		return b + skipBits
	}

	alen := 1""", """		if f.Name == "_" && b > 8 {
			b = (b + 7) / 8 * 8
		}
		return b + skipBits
	}

	var alen = 1""")],
 "padding declared as a bitfield wider than a byte that is no whole number of bytes", "the padding takes more bits than declared", '''
type T struct {
	A uint8 `struct:"uint8:4"`
	_ uint16 `struct:"uint16:12"`
	B uint8
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{B: 1})
	if err != nil || len(b) != 3 || b[2] != 1 { t.Fatal(b, err) }
}''', R)

seed("c10-sized-skip", "C10", [("structstack.go", """	if f.Name != "_" {
		if s, ok := f.bitSizeUsingInterface(val); ok {
			return s
		}
	} else {""", """	if f.Name != "_" {
		if s, ok := f.bitSizeUsingInterface(val); ok {
			return (s + 7) / 8 * 8
		}
	} else {""")],
 "a type whose BitSize is not a whole number of bytes", "BitSize of a structure that contains it is rounded up", '''
type C struct{}
func (*C) BitSize() int { return 12 }
type T struct { A, B C }
func TestDemo(t *testing.T) {
	n, err := restruct.BitSize(&T{})
	if err != nil || n != 24 { t.Fatal(n, err) }
}''', R[1:])

seed("c10-slice-order", "C10", [("decoder.go", """			d.buf, err = s.Unpack(d.buf, d.order)
			if err != nil {""", """			d.buf, err = s.Unpack(d.buf[:len(d.buf):len(d.buf)], d.order)
			if d.buf == nil && err == nil {
				d.buf = []byte{0}[:0]
			}
			if err != nil && len(d.buf) == 0 {""")],
 "an Unpacker that returns an error and the rest of the data", "the error is ignored", '''
type C struct{}
func (*C) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) { return b[1:], errors.New("bad") }
type T struct {
	A C
	B uint8
}
func TestDemo(t *testing.T) {
	if err := restruct.Unpack([]byte{1, 2}, binary.BigEndian, &T{}); err == nil { t.Fatal("no error") }
}''', R + ["errors"])

seed("c11-neg-size", "C11", [("structstack.go", """		size = reflect.ValueOf(s.evalExpr(f.SizeExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)
""", """		size = reflect.ValueOf(s.evalExpr(f.SizeExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)
		if size < 0 {
			return 0
		}
""")],
 "a size= expression that is negative", "an empty slice is decoded instead of an error", '''
type T struct {
	N int8
	A []byte `struct:"size=N"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	if err := restruct.Unpack([]byte{0xff, 1}, binary.BigEndian, &T{}); err == nil { t.Fatal("no error") }
}''', R)

seed("c11-if-skip", "C11", [("structstack.go", """	if !s.evalIf(f) {
		return 0
	}
""", """	if f.Trivial && f.IfExpr != nil {
		if b, ok := s.evalExpr(f.IfExpr).(bool); ok && !b && f.Skip == 0 {
			return 0
		}
	} else if !s.evalIf(f) {
		return 0
	}
""")],
 "an absent scalar field with skip=", "SizeOf counts it", '''
type T struct {
	N uint8
	A uint8 `struct:"skip=2,if=N != 0"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	n, err := restruct.SizeOf(&T{})
	if err != nil || n != 1 { t.Fatal(n, err) }
}''', R[1:])

seed("c11-while-eof", "C11", [("structstack.go", """		return expr.ValueOf(len(s.buf) == 0)""", """		return expr.ValueOf(len(s.buf) == cap(s.buf)-len(s.buf) || len(s.buf) == 0)""")],
 "data whose unread part is as long as the spare capacity behind it", "_eof is true too early", '''
type T struct { A []uint8 `struct:"while=!_eof"` }
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack(make([]byte, 3, 4), binary.BigEndian, &w); err != nil || len(w.A) != 3 { t.Fatal(w, err) }
}''', R)

seed("c12-case-memo", "C12", [("decoder.go", """		if matches(d.evalExpr(f.CaseExpr), on) {""", """		c, ok := caseMemo.Load(f.CaseExpr)
		if !ok {
			c = d.evalExpr(f.CaseExpr)
			caseMemo.Store(f.CaseExpr, c)
		}
		if matches(c, on) {"""), ("decoder.go", "type decoder struct {", "// Case expressions are constant.\nvar caseMemo sync.Map\n\ntype decoder struct {"), ("decoder.go", '	"strings"\n', '	"strings"\n	"sync"\n')],
 "a case expression that uses a field whose value differs between calls", "the case matches what it matched the first time", '''
type T struct {
	K, M uint8
	V    struct {
		A *uint8 `struct:"case=M+1"`
		B *uint16 `struct:"default"`
	} `struct:"switch=K"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack([]byte{2, 1, 9}, binary.BigEndian, &w); err != nil || w.V.A == nil { t.Fatal(w, err) }
	w = T{}
	if err := restruct.Unpack([]byte{2, 7, 9, 9}, binary.BigEndian, &w); err != nil || w.V.A != nil { t.Fatal(w, err) }
}''', R)

seed("c12-skip-rest", "C12", [("encoder.go", """	if def != nil {
		e.write(def.f, def.v)
	}
}""", """	if def != nil && l > 1 {
		e.write(def.f, def.v)
	}
}""")],
 "a switch that has a default and no case", "the default is not packed", '''
type T struct {
	K uint8
	V struct {
		B uint16 `struct:"default"`
	} `struct:"switch=K"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{K: 2}
	w.V.B = 3
	b, err := restruct.Pack(binary.BigEndian, &w)
	if err != nil || b[2] != 3 { t.Fatal(b, err) }
}''', R)

seed("c13-nonnil-root", "C13", [("decoder.go", """	if f.Flags&RootFlag == RootFlag {
		d.setancestor(f, v, d.root())
		return
	}""", """	if f.Flags&RootFlag == RootFlag {
		if len(d.stack) > 3 {
			d.setancestor(f, v, d.ancestor(3))
		} else {
			d.setancestor(f, v, d.root())
		}
		return
	}""")],
 "a root field five structures deep in a recursive type", "it refers to a structure in between", '''
type N struct {
	Root *N `struct:"root"`
	V    uint8
	Kids []N `struct:"size=V"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := N{}
	if err := restruct.Unpack([]byte{1, 1, 1, 1, 1, 0}, binary.BigEndian, &w); err != nil { t.Fatal(err) }
	n := &w
	for len(n.Kids) > 0 {
		n = &n.Kids[0]
		if n.Root != &w { t.Fatal("wrong root") }
	}
}''', R)

seed("c14-array-255", "C14", [("typestr.go", "			len, err := strconv.Atoi(lexpr.Value)\n			if err != nil {\n				return nil, err\n			}\n", "			n, err := strconv.ParseInt(lexpr.Value, 10, 16)\n			if err != nil {\n				return nil, err\n			}\n			len := int(n)\n")],
 "an array type of more than 32767 elements in a tag", "the tag is rejected", '''
type T struct { A []byte `struct:"[40000]byte"` }
func TestDemo(t *testing.T) {
	n, err := restruct.SizeOf(&T{})
	if err != nil || n != 40000 { t.Fatal(n, err) }
}''', R[1:])

seed("c15-tagged-unexported", "C15", [("field.go", """		// Skip unexported names (except _)
		if val.PkgPath != "" && val.Name != "_" {
			continue
		}

		// Parse struct tag
		opts := mustParseTag(val.Tag.Get("struct"))
		if opts.Ignore {
			continue
		}
""", """		// Parse struct tag
		opts := mustParseTag(val.Tag.Get("struct"))
		if opts.Ignore {
			continue
		}

		// Skip unexported names (except _)
		if val.PkgPath != "" && val.Name != "_" && opts.SizeOf == "" {
			continue
		}
""")],
 "an unexported field with a sizeof tag", "it is no longer invisible", '''
type T struct {
	A uint8
	n uint8 `struct:"sizeof=B"`
	B []byte
}
func TestDemo(t *testing.T) {
	_ = T{}.n
	n, err := restruct.SizeOf(&T{})
	if err != nil || n != 1 { t.Fatal(n, err) }
}''', R[1:])

seed("c16-andnot-level", "C16", [("expr/parse.go", """		if p.accept(andnottoken) {
			binary(binaryandnot, 7)
			continue
		}
		if depth >= 6 {
			break
		}
""", """		if depth >= 6 {
			break
		}
		if p.accept(andnottoken) {
			binary(binaryandnot, 6)
			continue
		}
""")],
 "&^ next to a multiplicative operator", "&^ binds like + instead of like *", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": 6, "b": 3, "c": 2}, "a &^ b * c"); v != (6&^3)*2 { t.Fatal(v) }
}''', E, pkg="./expr")

seed("c16-tern-middle", "C16", [("expr/parse.go", "		t.b = operand(depth - 1)\n", "		t.b = operand(depth)\n")],
 "a ternary in the middle of a ternary", "it is rejected", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": true, "b": false}, "a ? b ? 1 : 2 : 3"); v != uint64(2) { t.Fatal(v) }
}''', E, pkg="./expr")

seed("c17-rsh-clamp", "C17", [("expr/value.go", """	default:
		panic(InvalidOpError{Op: ">>", V: rhs})
	}
""", """	default:
		panic(InvalidOpError{V: rhs, Op: ">>"})
	}
	if shift > 63 {
		shift = 63
	}
""")],
 "a uint64 shifted right by 64 or more", "the highest bit remains", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": ^uint64(0), "b": uint8(64)}, "a >> b"); v != uint64(0) { t.Fatal(v) }
}''', E, pkg="./expr")

seed("c17-deep-equal", "C17", [("expr/value.go", "	return val{reflect.ValueOf(l.RawValue() != r.RawValue()), NewPrimitiveType(Bool)}", "	return val{reflect.ValueOf(!reflect.DeepEqual(l.RawValue(), r.RawValue())), NewPrimitiveType(Bool)}")],
 "two different pointers to equal values", "they are not unequal", EVAL + '''
func TestDemo(t *testing.T) {
	x, y := 1, 1
	if v := eval(t, map[string]interface{}{"a": &x, "b": &y}, "a != b"); v != true { t.Fatal(v) }
}''', E, pkg="./expr")

seed("c17-mul-float32", "C17", [("expr/value.go", "		return val{reflect.ValueOf(lv % r.RawValue().(int64)), NewPrimitiveType(Int64)}", "		return val{reflect.ValueOf(lv - int64(float64(lv)/float64(r.RawValue().(int64)))*r.RawValue().(int64)), NewPrimitiveType(Int64)}")],
 "the remainder of int64 values beyond 2^53", "it is rounded", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": int64(1)<<62 + 1, "b": int64(3)}, "a % b"); v != (int64(1)<<62+1)%3 { t.Fatal(v) }
}''', E, pkg="./expr")

seed("c18-rune-x", "C18", [("expr/lex.go", """		b := s.scanescape('\\'')
		if len(b) == 1 {""", """		b := s.scanescape('\\'')
		if len(b) == 1 && b[0] < utf8.RuneSelf {""")],
 "a rune literal with a byte escape of 128 or more", "its value is that of the replacement character", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, nil, `'\\xe9' == 233`); v != true { t.Fatal(v) }
}''', E, pkg="./expr")

seed("c19-rec-type", "C19", [("expr/type.go", """		et := &SliceType{}
		types[t] = et
		*et = *NewSliceType(buildtype(t.Elem(), types))
		return et
""", """		if t.Elem().Kind() != reflect.Struct && t.Elem().Kind() != reflect.Ptr {
			return NewSliceType(buildtype(t.Elem(), types))
		}
		et := &SliceType{}
		types[t] = et
		*et = *NewSliceType(buildtype(t.Elem(), types))
		return et
""")],
 "a value of a slice type that contains itself", "the stack overflows, which cannot be recovered from", '''
type L []L
func TestDemo(t *testing.T) {
	v, err := expr.Eval(expr.NewStructResolver(reflect.ValueOf(struct{ A struct{ K L } }{})), "A.K == nil")
	if err != nil || v != true { t.Fatal(v, err) }
}''', E + ["reflect"], pkg="./expr")

seed("c20-ptr-ptr", "C20", [("expr/value.go", """	case *PtrType:
		return v.Deref().Dot(ident)
	}""", """	case *PtrType:
		if e := v.Deref(); e.Type().Kind() == Struct {
			return e.Dot(ident)
		}
	}""")],
 "a member selected through a pointer to a pointer", "it is rejected", EVAL + '''
type S struct{ X int }
func TestDemo(t *testing.T) {
	p := &S{3}
	if v := eval(t, map[string]interface{}{"a": &p}, "a.X"); v != 3 { t.Fatal(v) }
}''', E, pkg="./expr")

seed("c20-meta-last", "C20", [("expr/env.go", """	for _, resolver := range r.resolvers {
		if t := resolver.TypeResolve(ident); t != nil {
			return t
		}
	}
	return nil""", """	var last Type
	for _, resolver := range r.resolvers {
		if t := resolver.TypeResolve(ident); t != nil {
			last = t
		}
	}
	return last""")],
 "a name that two type resolvers know", "the later one wins", '''
func TestDemo(t *testing.T) {
	m := expr.NewMetaTypeResolver()
	m.AddResolver(expr.NewMapTypeResolver(map[string]expr.Type{"a": expr.NewPrimitiveType(expr.Int)}))
	m.AddResolver(expr.NewMapTypeResolver(map[string]expr.Type{"a": expr.NewPrimitiveType(expr.Bool)}))
	if k := m.TypeResolve("a").Kind(); k != expr.Int { t.Fatal(k) }
}''', E, pkg="./expr")

seed("c21-ihdr-swap", "C21", [("formats/png/png.go", """	FilterMethod      byte
	InterlaceMethod   byte
""", """	InterlaceMethod   byte
	FilterMethod      byte
""")],
 "an image whose filter and interlace methods differ", "the two are exchanged", '''
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	b := append([]byte("\\x89PNG\\r\\n\\x1a\\n\\x00\\x00\\x00\\x0dIHDR"), make([]byte, 17)...)
	b[28] = 1
	f := png.File{}
	if err := restruct.Unpack(b, binary.BigEndian, &f); err != nil || f.Header.Data.IHDR.InterlaceMethod != 1 { t.Fatal(err) }
}''', R + ["github.com/go-restruct/restruct/formats/png"])

seed("c22-elem-memo", "C22", [("structstack.go", """			if elem.Trivial {
				size += s.fieldbits(elem, reflect.Zero(elem.BinaryType)) * alen""", """			if elem.Trivial {
				n, ok := elemBits.Load(elem.NativeType)
				if !ok {
					n = s.fieldbits(elem, reflect.Zero(elem.BinaryType))
					elemBits.Store(elem.NativeType, n)
				}
				size += n.(int) * alen"""), ("structstack.go", "type structstack struct {", "// elemBits holds the sizes of elements.\nvar elemBits sync.Map\n\ntype structstack struct {"), ("structstack.go", '	"reflect"\n\n', '	"reflect"\n	"sync"\n\n')],
 "two slices of one Go type with elements of different wire types", "the second is sized with the elements of the first", '''
type A struct { V []int `struct:"[]int8"` }
type B struct { V []int `struct:"[]int64"` }
func TestDemo(t *testing.T) {
	n, err := restruct.SizeOf(&A{[]int{1, 2}})
	if err != nil || n != 2 { t.Fatal(n, err) }
	n, err = restruct.SizeOf(&B{[]int{1, 2}})
	if err != nil || n != 16 { t.Fatal(n, err) }
}''', R[1:])

seed("c22-sticky-bits", "C22", [("structstack.go", """func (s *structstack) evalBits(f field) int {
	bits := 0
	if f.BitSize != 0 {
		bits = int(f.BitSize)
	}
	if f.BitsExpr != nil {
		bits = reflect""", """func (s *structstack) evalBits(f field) int {
	bits := 0
	if f.BitSize != 0 {
		bits = int(f.BitSize)
	}
	if f.BitsExpr != nil && len(s.stack) > 0 {
		defer func() {
			// Expressions of full width need not be evaluated again.
			if bits == f.BinaryType.Bits() {
				for i, c := range cachedFieldsFromStruct(s.stack[len(s.stack)-1].Type()) {
					if c.Name == f.Name {
						cachedFieldsFromStruct(s.stack[len(s.stack)-1].Type())[i].BitsExpr = nil
					}
				}
			}
		}()
	}
	if f.BitsExpr != nil {
		bits = reflect""")],
 "a bits= expression that gave the full width before", "from then on the field always has the full width", '''
type T struct {
	N uint8
	A uint16 `struct:"bits=N"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack([]byte{16, 1, 2}, binary.BigEndian, &w); err != nil || w.A != 0x102 { t.Fatal(w, err) }
	w = T{}
	if err := restruct.Unpack([]byte{8, 1}, binary.BigEndian, &w); err != nil || w.A != 1 { t.Fatal(w, err) }
}''', R)

seed("c23-sizeof-count", "C23", [("structstack.go", """	if !s.evalIf(f) {
		return 0
	}
""", """	if !s.evalIf(f) {
		return 0
	}

	if f.TIndex != -1 && len(s.stack) > 0 && val.CanSet() {
		// Sizes may depend on the count.
		if n := s.ancestor(0).Field(f.TIndex).Len(); f.BinaryType.Kind() == reflect.Uint16 && val.Kind() == reflect.Uint16 {
			val.SetUint(uint64(n))
		}
	}
""")],
 "SizeOf of a pointer to a structure whose 16-bit count is out of date", "SizeOf changes the count in the value", '''
type T struct {
	N uint16 `struct:"sizeof=S"`
	S []byte
}
func TestDemo(t *testing.T) {
	w := T{N: 5}
	if _, err := restruct.SizeOf(&w); err != nil || w.N != 5 { t.Fatal(w, err) }
}''', R[1:])

seed("c23-pad-input", "C23", [("decoder.go", """		// Not byte-aligned: assemble the bytes bit by bit.
		x := make([]byte, len(d.buf[0:count:len(d.buf)]))
		for i := range x {
			for bit := 0; bit < 8; bit++ {
				putBit(x[i:i+1], 8, bit, d.readBit())
			}
		}
		return x
	}
	x := d.buf[0:count]
	d.buf = d.buf[count:]
	return x""", """		// Not byte-aligned: assemble the bytes bit by bit.
		x := make([]byte, len(d.buf[0:count:len(d.buf)]))
		for i := range x {
			for bit := 0; bit < 8; bit++ {
				putBit(x[i:i+1], 8, bit, d.readBit())
			}
		}
		return x
	}
	x := d.buf[0:count]
	d.buf = d.buf[count:]
	if count > 1 && x[count-1] == 0x0a && x[count-2] == 0x0d {
		x[count-2], x[count-1] = 0x0a, 0
		x = x[:count-1]
	}
	return x""")],
 "byte data that ends in CR LF", "the caller's input is modified", '''
type T struct { S string `struct:"[3]byte"` }
func TestDemo(t *testing.T) {
	in := []byte{'a', 13, 10}
	if err := restruct.Unpack(in, binary.BigEndian, &T{}); err != nil || in[1] != 13 { t.Fatal(in, err) }
}''', R)

seed("c24-scratch", "C24", [("encoder.go", """	b := make([]byte, 4)
	e.order.PutUint32(b, x)
	e.writeBits(f, b)""", """	b := scratch32[:]
	e.order.PutUint32(b, x)
	e.writeBits(f, b)"""), ("encoder.go", "type encoder struct {", "var scratch32 [4]byte\n\ntype encoder struct {")],
 "two goroutines packing 32-bit fields at once", "they write to one buffer, so one packs the value of the other", '''
type T struct{ A [64]uint32 }
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	bad := make(chan byte, 8)
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g byte) {
			defer wg.Done()
			w := T{}
			for i := range w.A { w.A[i] = uint32(g) }
			for n := 0; n < 5000; n++ {
				b, _ := restruct.Pack(binary.BigEndian, &w)
				for i := 3; i < len(b); i += 4 {
					if b[i] != g { bad <- b[i]; return }
				}
			}
		}(byte(g))
	}
	wg.Wait()
	select {
	case b := <-bad: t.Fatal(b)
	default:
	}
}''', R + ["sync"], race=True)

seed("c24-recursive-rlock", "C24", [("encoder.go", """	sfields := cachedFieldsFromStruct(f.BinaryType)
	l := len(sfields)

	for i := 0; i < l; i++ {
		f := sfields[i]
		v := v.Field(f.Index)

		if f.Flags&DefaultFlag != 0 {""", """	sfields := cachedFieldsFromStruct(f.BinaryType)
	l := len(sfields)

	// Keep the fields from changing meanwhile.
	cacheMutex.RLock()
	defer cacheMutex.RUnlock()

	for i := 0; i < l; i++ {
		f := sfields[i]
		v := v.Field(f.Index)

		if f.Flags&DefaultFlag != 0 {""")],
 "packing a switch with a structure in its case while another goroutine uses a new type", "both wait for each other for ever", '''
type T struct {
	K uint8
	V struct {
		A struct{ B struct{ C uint8 } } `struct:"case=0"`
	} `struct:"switch=K"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	done := make(chan bool)
	go func() {
		for i := 0; i < 60000; i++ { restruct.Pack(binary.BigEndian, &T{}) }
		done <- true
	}()
	go func() {
		for i := 0; i < 20000; i++ {
			typ := reflect.StructOf([]reflect.StructField{{Name: fmt.Sprintf("F%d", i), Type: reflect.TypeOf(0)}})
			restruct.SizeOf(reflect.New(typ).Interface())
		}
		done <- true
	}()
	for i := 0; i < 2; i++ {
		select {
		case <-done:
		case <-time.After(60 * time.Second): t.Fatal("deadlock")
		}
	}
}''', R + ["fmt", "reflect", "time"])

seed("c25-toplevel-ptr", "C25", [("packing.go", """	ss := structstack{allowexpr: expressionsEnabled}
	f, val := fieldFromIntf(v)
	return ss.fieldbits(f, addressable(val)), nil""", """	ss := structstack{allowexpr: expressionsEnabled}
	f, val := fieldFromIntf(v)
	if s, ok := v.(Sizer); ok && !f.Trivial {
		return s.SizeOf() * 8, nil
	}
	return ss.fieldbits(f, addressable(val)), nil""")],
 "a type that has both BitSize and SizeOf, passed to BitSize by pointer", "SizeOf is used where BitSize is used by value", '''
type C struct{}
func (*C) BitSize() int { return 12 }
func (*C) SizeOf() int { return 2 }
func TestDemo(t *testing.T) {
	a, _ := restruct.BitSize(&C{})
	b, _ := restruct.BitSize(C{})
	if a != b { t.Fatal(a, b) }
}''', R[1:])

seed("c26-top-ptr", "C26", [("packing.go", """	if val.Kind() == reflect.Ptr {
		val = val.Elem()
	}
	f := fieldFromType""", """	for val.Kind() == reflect.Ptr {
		val = val.Elem()
	}
	f := fieldFromType""")],
 "a pointer to a pointer given to Unpack or Pack, the inner one nil", "the nil pointer is not allocated or skipped but an error", '''
type T struct{ A uint8 }
func TestDemo(t *testing.T) {
	var p *T
	if err := restruct.Unpack([]byte{3}, binary.BigEndian, &p); err != nil || p == nil || p.A != 3 { t.Fatal(p, err) }
}''', R)

seed("c27-nul-first", "C27", [("decoder.go", "			if nul != -1 {\n", "			if nul > 0 {\n")],
 "a fixed-size string whose first byte is NUL", "it decodes to NULs instead of the empty string", '''
type T struct { S string `struct:"[3]byte"` }
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{0, 0, 0}, binary.BigEndian, &w); err != nil || w.S != "" { t.Fatalf("%q %v", w.S, err) }
}''', R)

seed("c28-overflow-err", "C28", [("decoder.go", """	default:
		v.SetInt(x)
	}""", """	default:
		if v.OverflowInt(x) && x < 0 {
			panic(fmt.Errorf("%s: value %d out of range", f.Name, x))
		}
		v.SetInt(x)
	}""")],
 "a negative wire value that does not fit the narrower Go type", "it is an error instead of being truncated", '''
type T struct { A int8 `struct:"int16"` }
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{0xfe, 1}, binary.BigEndian, &w); err != nil || w.A != 1 { t.Fatal(w, err) }
}''', R)

seed("c28-float-trunc", "C28", [("decoder.go", "		v.SetFloat(math.Float64frombits(d.read64(f, false)))", """		x := math.Float64frombits(d.read64(f, false))
		if v.Kind() == reflect.Float32 && x > math.MaxFloat32 {
			x = math.MaxFloat32
		}
		v.SetFloat(x)""")],
 "a float64 on the wire beyond the range of the float32 it is read into", "it becomes the largest float32 instead of infinity", '''
type T struct { A float32 `struct:"float64"` }
func TestDemo(t *testing.T) {
	w := T{}
	b := make([]byte, 8)
	binary.BigEndian.PutUint64(b, math.Float64bits(1e300))
	if err := restruct.Unpack(b, binary.BigEndian, &w); err != nil || !math.IsInf(float64(w.A), 1) { t.Fatal(w, err) }
}''', R + ["math"])

# Planted bugs, sixth batch; see mkseed.py.
exec(open("/verif/tools/seeds.py").read().split("\nseed(")[0])
seeds = []
R1 = R[1:]

seed("c11-while-hoist", "C11", [("decoder.go", """					for d.evalWhile(f) {
						nv := reflect.New(ef.NativeType).Elem()
						d.read(ef, nv)
						v.Set""", """					nv := reflect.New(ef.NativeType).Elem()
					for d.evalWhile(f) {
						d.read(ef, nv)
						v.Set""")],
 "a while= list whose elements have a field with an if= that is true for one element and false for a later one", "the later element keeps the absent field's value of the earlier one", '''
type E struct {
	K uint8
	V uint8 `struct:"if=K == 1"`
}
type T struct { L []E `struct:"while=!_eof"` }
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	x := T{}
	if err := restruct.Unpack([]byte{1, 9, 2}, binary.BigEndian, &x); err != nil || x.L[1].V != 0 { t.Fatal(x, err) }
}''', R)

seed("c04-case-order", "C04", [("encoder.go", """		if matches(e.evalExpr(f.CaseExpr), on) {
			e.write(f, v)""", """		if matches(e.evalExpr(f.CaseExpr), on) {
			if f.Order == nil && f.BinaryType.Kind() == reflect.Ptr {
				f.Order = binary.BigEndian
			}
			e.write(f, v)""")],
 "a switch case that is a pointer, packed little-endian", "its content is packed big-endian", '''
type S struct { X uint16 }
type T struct {
	K uint8
	W struct {
		A *S `struct:"case=1"`
	} `struct:"switch=K"`
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	v := T{K: 1}
	v.W.A = &S{0x0102}
	b, err := restruct.Pack(binary.LittleEndian, &v)
	if err != nil || b[1] != 2 { t.Fatal(b, err) }
}''', R)

seed("c06-flags-eq", "C06", [("encoder.go", """		if b {
			if f.Flags&VariantBoolFlag == VariantBoolFlag {
				return ^uint64(0)""", """		if b {
			if f.Flags&^InvertedBoolFlag == VariantBoolFlag {
				return ^uint64(0)""")],
 "a variantbool that is the default case of a switch", "true is packed as 1", '''
type T struct {
	K uint8
	W struct {
		A uint8 `struct:"case=1"`
		D bool  `struct:"variantbool,default"`
	} `struct:"switch=K"`
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	v := T{K: 2}
	v.W.D = true
	b, err := restruct.Pack(binary.LittleEndian, &v)
	if err != nil || b[1] != 0xff { t.Fatal(b, err) }
}''', R)

seed("c07-int64-wrap", "C07", [("decoder.go", "				alen = int(sv.Int())\n", "				alen = int(int32(sv.Int()))\n")],
 "an int64 count of 4294967296 or more", "only its low 32 bits count: too few elements are read, without an error", '''
type T struct {
	N int64 `struct:"sizeof=S"`
	S []byte
}
func TestDemo(t *testing.T) {
	x := T{}
	if err := restruct.Unpack([]byte{0, 0, 0, 1, 0, 0, 0, 2, 5, 6}, binary.BigEndian, &x); err == nil { t.Fatal(x) }
}''', R)

seed("c08-empty-eof", "C08", [("decoder.go", """func (d *decoder) readBytes(count int) []byte {
""", """func (d *decoder) readBytes(count int) []byte {
	if len(d.buf) == 0 {
		return nil
	}
""")],
 "a string whose count is positive with no data at all behind the count", "Unpack succeeds with an empty list", '''
type T struct {
	N uint8 `struct:"sizeof=S"`
	S string
}
func TestDemo(t *testing.T) {
	x := T{}
	if err := restruct.Unpack([]byte{3}, binary.BigEndian, &x); err == nil { t.Fatal(x) }
}''', R)

seed("c12-default-last", "C12", [(f, """			def = &switchcase{f, v}
			continue
		}""", """			def = &switchcase{f, v}
			if i == l-2 {
				break
			}
			continue
		}""") for f in ("encoder.go", "decoder.go", "structstack.go")],
 "a default that is the last but one field of a switch, and a value that matches the last case", "the default is taken", '''
type T struct {
	K uint8
	W struct {
		A uint8  `struct:"case=1"`
		D uint8  `struct:"default"`
		B uint16 `struct:"case=2"`
	} `struct:"switch=K"`
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	v := T{K: 2}
	v.W.B = 0x0102
	b, err := restruct.Pack(binary.BigEndian, &v)
	if err != nil || len(b) != 3 { t.Fatal(b, err) }
}''', R)

seed("c13-parent-size", "C13", [("structstack.go", """		for i := 1; i < len(s.stack); i++ {
			if s.setancestor(f, val, s.ancestor(i)) {
				break
			}
		}
		return 0""", """		if val.Kind() == reflect.Ptr && !val.IsNil() {
			return 0
		}
		for i := 1; i < len(s.stack); i++ {
			if s.setancestor(f, val, s.ancestor(i)) {
				break
			}
		}
		return 0""")],
 "a value moved into another structure, whose parent field still points to the old one", "its size is computed from the old parent", '''
type C struct {
	P *T    `struct:"parent"`
	D []byte `struct:"size=P.N"`
	E uint8 `struct:"if=P.N == 1"`
}
type T struct {
	N uint8
	C C
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	old := &T{N: 0}
	v := T{N: 1, C: C{P: old, D: []byte{5}, E: 6}}
	n, err := restruct.SizeOf(&v)
	if err != nil || n != 3 { t.Fatal(n, err) }
}''', R1)

seed("c14-hex-bits", "C14", [("tag.go", """			bits, err := strconv.ParseUint(parts[1], 0, 8)""", """			bits, err := strconv.ParseUint(strings.TrimSpace(parts[1]), 10, 8)""")],
 "a bit width with a blank around it", "the malformed tag is accepted", '''
type T struct { A uint8 `struct:"uint8: 4"` }
func TestDemo(t *testing.T) {
	if _, err := restruct.Pack(binary.BigEndian, &T{}); err == nil { t.Fatal("accepted") }
}''', R)

seed("c15-promoted-tag", "C15", [("field.go", """		if val.PkgPath != "" && val.Name != "_" {
			continue
		}
""", """		if val.PkgPath != "" && val.Name != "_" && !(val.Anonymous && val.Type.Kind() == reflect.Struct && val.Type.NumField() > 1) {
			continue
		}
""")],
 "an embedded struct of an unexported type with at least two fields", "it takes space", '''
type e struct { A, B uint8 }
type T struct {
	e
	X uint8
}
func TestDemo(t *testing.T) {
	n, err := restruct.SizeOf(&T{})
	if err != nil || n != 1 { t.Fatal(n, err) }
}''', R1)

seed("c16-tern-cond", "C16", [("expr/parse.go", "		t.c = operand(depth - 1)", "		t.c = operand(depth)")],
 "a conditional expression in the last branch of another", "a syntax error, or the outer condition is used as the inner one's", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": true}, "a ? 1 == 1 : a ? 2 == 3 : 4 == 5"); v != true { t.Fatal(v) }
}''', E)

seed("c17-and-alias", "C17", [("expr/value.go", "		return val{reflect.ValueOf(lv &^ r.RawValue().(uint16)), NewPrimitiveType(Uint16)}", "		return val{reflect.ValueOf(uint16(lv - lv&r.RawValue().(uint16)&0x7fff)), NewPrimitiveType(Uint16)}")],
 "uint16 &^ with bit 15 set in both operands", "the bit stays", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": uint16(0x8001), "b": uint16(0x8001)}, "a &^ b"); v != uint16(0) { t.Fatal(v) }
}''', E)

seed("c17-float-ge", "C17", [("expr/value.go", "		return val{reflect.ValueOf(lv != r.RawValue()), NewPrimitiveType(Bool)}", "")] if False else
 [("expr/value.go", """	return val{reflect.ValueOf(l.RawValue() != r.RawValue()), NewPrimitiveType(Bool)}""", """	return val{reflect.ValueOf(l.RawValue() != r.RawValue() && !(l.Value() == r.Value())), NewPrimitiveType(Bool)}""")],
 "!= on a NaN and itself", "false", EVAL + '''
func TestDemo(t *testing.T) {
	f := math.NaN()
	p := expr.ValueOf(&struct{ F float64 }{f})
	v, err := expr.Eval(expr.NewMapResolver(map[string]expr.Value{"p": p}), "p.F != p.F")
	if err != nil || v != true { t.Fatal(v, err) }
}''', E + ["math"])

seed("c17-uint-neg", "C17", [("expr/value.go", """	case uint8:
		return val{reflect.ValueOf(-n), v.t}
	case uint16:
		return val{reflect.ValueOf(-n), v.t}""", """	case uint8:
		return val{reflect.ValueOf(^n + 1), v.t}
	case uint16:
		return val{reflect.ValueOf(uint16(int16(-(int32(n) % 65535)))), v.t}""")],
 "negating the uint16 65535", "0 instead of 1", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": uint16(65535)}, "-a"); v != uint16(1) { t.Fatal(v) }
}''', E)

seed("c18-octal-high", "C18", [("expr/lex.go", """		if len(b) == 1 {
			return token{kind: runetoken, ival: int64(b[0])}
		}""", """		if len(b) == 1 && b[0] < utf8.RuneSelf {
			return token{kind: runetoken, ival: int64(b[0])}
		}""")],
 "a rune literal with a hex or octal escape of 128 or more", "it becomes U+FFFD", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": int32(0xe9)}, `a == '\\\\xe9'`); v != true { t.Fatal(v) }
}'''.replace("\\\\","\\"), E)

seed("c18-dot-float", "C18", [("expr/lex.go", """			return s.scannumber(token{sval: "."})""", """			return s.scannumber(token{sval: "0."})""" if False else """			return s.scannumber(token{sval: ".0"})""")],
 "a float literal that starts with a dot", "it is a tenth of what it says", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"a": 0.5}, "a == .5"); v != true { t.Fatal(v) }
}''', E)

seed("c19-unread-eof", "C19", [("expr/lex.go", """		case s.accept(eof):
			panic(fmt.Errorf("unexpected eof in string"))
		default:
			str = append(str, runebytes(s.readrune())...)""", """		case len(str) > 0 && s.accept(eof):
			panic(fmt.Errorf("unexpected eof in string"))
		default:
			r := s.readrune()
			if r == eof {
				continue
			}
			str = append(str, runebytes(r)...)""")],
 "a string literal that ends right behind its opening quote", "parsing never ends", EVAL + '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() { expr.Eval(expr.NewMapResolver(nil), "\\""); done <- true }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		t.Fatal("hangs")
	}
}''', E + ["time"])

seed("c20-map-nilkey", "C20", [("expr/value.go", """		if !elem.IsValid() {
			elem = reflect.Zero(v.v.Type().Elem())
		}""", """		if !elem.IsValid() && v.v.Len() == 0 {
			elem = reflect.Zero(v.v.Type().Elem())
		}""")],
 "a key missing from a map that is not empty", "x", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"m": map[string]int{"a": 1}}, `m["b"]`); v != 0 { t.Fatal(v) }
}''', E)

seed("c20-call-order", "C20", [("expr/eval.go", """		return append(flattengroup(n.a), flattengroup(n.b)...)""", """		a := flattengroup(n.a)
			if len(a) > 2 {
				return append(append(a[:2:2], flattengroup(n.b)...), a[2:]...)
			}
			return append(a, flattengroup(n.b)...)""")],
 "a call with four or more arguments", "the arguments behind the second arrive in another order", EVAL + '''
func TestDemo(t *testing.T) {
	f := func(a, b, c, d int) int { return a*1000 + b*100 + c*10 + d }
	if v := eval(t, map[string]interface{}{"f": f}, "f(1, 2, 3, 4)"); v != 1234 { t.Fatal(v) }
}''', E)

seed("c20-resolve-zero", "C20", [("structstack.go", """			if sv := s.stack[len(s.stack)-1].FieldByName(ident); sv.IsValid() {
				return expr.ValueOf(sv.Interface())
			}""", """			for i := len(s.stack) - 1; i >= 0; i-- {
				if sv := s.stack[i].FieldByName(ident); sv.IsValid() {
					return expr.ValueOf(sv.Interface())
				}
			}""")],
 "an expression with a name that only an outer structure has", "it is resolved instead of an error", '''
type T struct {
	N uint8
	C struct {
		D []byte `struct:"size=N"`
	}
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	if err := restruct.Unpack([]byte{1, 2}, binary.BigEndian, &T{}); err == nil { t.Fatal("no error") }
}''', R)

seed("c22-size-memo", "C22", [("structstack.go", """			if elem.Trivial {
				size += s.fieldbits(elem, reflect.Zero(elem.BinaryType)) * alen""", """			if elem.Trivial {
				n, ok := elemBits[elem.NativeType]
				if !ok {
					n = s.fieldbits(elem, reflect.Zero(elem.BinaryType))
					elemBits[elem.NativeType] = n
				}
				size += n * alen"""), ("structstack.go", "type switchcase struct {", "var elemBits = map[reflect.Type]int{}\n\ntype switchcase struct {")],
 "two lists of one Go element type with different wire types, like []int with []int8 and with []int16", "the size of the second is computed with the width of the first", '''
type A struct { A []int `struct:"[]int8"` }
type B struct { A []int `struct:"[]int16"` }
func TestDemo(t *testing.T) {
	restruct.SizeOf(&A{[]int{1}})
	n, err := restruct.SizeOf(&B{[]int{1}})
	if err != nil || n != 2 { t.Fatal(n, err) }
}''', R1)

seed("c23-root-cleared", "C23", [("encoder.go", """func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
	var def *switchcase
""", """func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
	var def *switchcase
	defer func() {
		if def != nil && def.v.Kind() == reflect.Ptr {
			def.v.Set(reflect.Zero(def.v.Type()))
		}
	}()
""")],
 "packing a switch with a pointer default", "the pointer is cleared in the caller's value", '''
type T struct {
	K uint8
	W struct {
		A uint8  `struct:"case=1"`
		D *uint8 `struct:"default"`
	} `struct:"switch=K"`
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	v := T{K: 2}
	v.W.D = new(uint8)
	if _, err := restruct.Pack(binary.BigEndian, &v); err != nil || v.W.D == nil { t.Fatal(v, err) }
}''', R)

seed("c24-lazy-order", "C24", [("structstack.go", """func (s *structstack) fieldbytes(f field, val reflect.Value) (size int) {
	return (s.fieldbits(f, val) + 7) / 8
}""", """func (s *structstack) fieldbytes(f field, val reflect.Value) (size int) {
	lastSize = (s.fieldbits(f, val) + 7) / 8
	return lastSize
}

var lastSize int""")],
 "two goroutines packing at the same time", "one gets a buffer of the other's size", '''
type T struct { A uint8 }
type U struct { A [64]uint8 }
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for i := 0; i < 2; i++ {
		wg.Add(1)
		go func(v interface{}) {
			defer wg.Done()
			for i := 0; i < 1000; i++ { restruct.Pack(binary.BigEndian, v) }
		}([]interface{}{&T{}, &U{}}[i])
	}
	wg.Wait()
}''', R + ["sync"], race=True)

seed("c26-nil-skip", "C26", [("structstack.go", """			if val.IsNil() {
				return size
			}""", """			if val.IsNil() {
				return size + f.Skip*8
			}""")],
 "a nil pointer field with a skip=", "SizeOf counts the skip twice", '''
type T struct {
	P *uint8 `struct:"skip=1"`
	A uint8
}
func TestDemo(t *testing.T) {
	n, err := restruct.SizeOf(&T{})
	if err != nil || n != 2 { t.Fatal(n, err) }
}''', R1)

seed("c27-str-bytes", "C27", [("decoder.go", """			nul := strings.IndexByte(str, 0)
			if nul != -1 {
				str = str[0:nul]
			}
			v.SetString(str)""", """			if strings.IndexByte(str, 0) != -1 {
				str = strings.SplitAfterN(str, "\\x00", 2)[0]
				str = strings.TrimRight(str, "\\x00 ")
			}
			v.SetString(str)""")],
 "a fixed-size string that ends with a blank before its first NUL", "the blank is cut off", '''
type T struct { S string `struct:"[4]byte"` }
func TestDemo(t *testing.T) {
	x := T{}
	if err := restruct.Unpack([]byte("a \\x00\\x00"), binary.BigEndian, &x); err != nil || x.S != "a " { t.Fatalf("%q %v", x.S, err) }
}''', R)

seed("c28-elem-narrow", "C28", [("encoder.go", """	case reflect.Int16:
		e.writeS16(f, int16(e.intFromField(f, ov)))""", """	case reflect.Int16:
		x := e.intFromField(f, ov)
		if f.Index == -1 && x > math.MaxInt16 {
			x = math.MaxInt16
		}
		e.writeS16(f, int16(x))""")],
 "an element of a list packed as int16 from a wider type, with a value above 32767", "the value is clamped", '''
type T struct { A [1]int32 `struct:"[1]int16"` }
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{[1]int32{0x12345}})
	if err == nil && (b[0] != 0x23 || b[1] != 0x45) { t.Fatal(b, err) }
	b, err = restruct.Pack(binary.BigEndian, &T{[1]int32{0xfffe}})
	if err != nil || b[0] != 0xff || b[1] != 0xfe { t.Fatal(b, err) }
}''', R)

seed("c28-ptr-wide", "C28", [("decoder.go", "		d.setUint(f, v, uint64(d.readU16(f)))", "		d.setUint(f, v, uint64(uint16(int16(d.readU16(f))))|uint64(d.depth>>3)<<16)")],
 "a uint16 wire value in a wider field, nested eight values deep", "bits of the wider field are set", '''
type A struct { X uint32 `struct:"uint16"` }
type B struct{ A A }
type C struct{ B B }
type D struct{ C C }
type E struct{ D D }
type F struct{ E E }
type G struct{ F F }
func TestDemo(t *testing.T) {
	g := G{}
	if err := restruct.Unpack([]byte{1, 2}, binary.BigEndian, &g); err != nil || g.F.E.D.C.B.A.X != 0x0102 { t.Fatal(g, err) }
}''', R)

seed("c03-case-trivial", "C03", [("field.go", "			if field.IfExpr != nil || field.BitsExpr != nil || field.SwitchExpr != nil {", "			if field.IfExpr != nil || field.BitsExpr != nil {")],
 "a list of structs that hold a switch with fixed-size cases", "the size is that of the zero element times the count", '''
type E struct {
	K uint8
	W struct {
		A uint8  `struct:"case=1"`
		B uint32 `struct:"case=2"`
	} `struct:"switch=K"`
}
type T struct {
	N uint8 `struct:"sizeof=L"`
	L []E
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	v := T{L: []E{{K: 1}, {K: 2}}}
	n, err := restruct.SizeOf(&v)
	if err != nil || n != 8 { t.Fatal(n, err) }
}''', R1)

seed("c21-zero-len", "C21", [("structstack.go", """		// Optimization: if the array/slice is empty, bail now.
		if alen == 0 {
			return size
		}
""", """		// Optimization: if the array/slice is empty, bail now.
		if alen == 0 {
			return skipBits
		}
""" if False else """		// Optimization: if the array/slice is empty, bail now.
		if alen == 0 && f.SizeExpr == nil {
			return size
		}
		if alen == 0 && f.BinaryType.Elem().Kind() == reflect.Uint8 {
			alen = 1
		}
""")],
 "a chunk without data", "its size is one byte too large", '''
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	c := png.Chunk{Type: "abcd"}
	c.Data.Raw = &png.ChunkRaw{}
	n, err := restruct.SizeOf(&c)
	if err != nil || n != 12 { t.Fatal(n, err) }
}''', R1 + ["github.com/go-restruct/restruct/formats/png"])

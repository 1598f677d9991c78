# Planted bugs, third batch; see mkseed.py.
exec(open(__file__.replace("seeds3", "seeds") if "__file__" in globals() else "/verif/tools/seeds.py").read().split("\nseed(")[0])
seeds = []

seed("c22-order-sticks", "C22", [("decoder.go", "		l := len(d.sfields)\n		for i := 0; i < l; i++ {\n			f := d.sfields[i]\n			v := v.Field(f.Index)", """		l := len(d.sfields)
		for i := 0; i < l; i++ {
			if f.Order != nil && d.sfields[i].Order == nil {
				d.sfields[i].Order = f.Order
			}
			f := d.sfields[i]
			v := v.Field(d.sfields[i].Index)""")],
 "a struct type unpacked first inside a field with a byte-order tag, then on its own in the other order", "the byte order of the earlier call is used", '''
type E struct{ A uint16 }
type T struct {
	E E `struct:"little"`
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 2}, binary.BigEndian, &w); err != nil { t.Fatal(err) }
	e := E{}
	if err := restruct.Unpack([]byte{1, 2}, binary.BigEndian, &e); err != nil || e.A != 0x102 { t.Fatal(e, err) }
}''', R)

seed("c06-signed-true", "C06", [("decoder.go", '''func (d *decoder) setInt(f field, v reflect.Value, x int64) {
	switch v.Kind() {
	case reflect.Bool:
		b := x != 0''', '''func (d *decoder) setInt(f field, v reflect.Value, x int64) {
	switch v.Kind() {
	case reflect.Bool:
		b := x == 1 || x < 0''')],
 "a bool with a signed wire type and a positive wire value other than 1", "the value decodes as false", '''
type T struct { B bool `struct:"int16"` }
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{0, 2}, binary.BigEndian, &w); err != nil || !w.B { t.Fatal(w, err) }
}''', R)

seed("c11-in-float", "C11", [("decoder.go", "	if f.InExpr != nil {", "	if f.InExpr != nil && (v.Kind() != reflect.Float32 || v.Float() != 0) {")],
 "an in= expression on a float32 field whose wire value is zero", "the expression is not applied", '''
type T struct { A float32 `struct:"in=A+1.5"` }
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack([]byte{0, 0, 0, 0}, binary.BigEndian, &w); err != nil || w.A != 1.5 { t.Fatal(w, err) }
}''', R)

seed("c12-zero-some", "C12", [("decoder.go", """	// Zero out values for decoding.
	for i := 0; i < l; i++ {""", """	// Zero out values for decoding.
	for i := 0; i < l && (i == 0 || sfields[i-1].Flags&DefaultFlag == 0); i++ {""")],
 "a case declared directly behind the default, with an old value in the target", "the old value of that case stays", '''
type T struct {
	K uint8
	S struct {
		A uint8 `struct:"case=1"`
		D uint8 `struct:"default"`
		B uint8 `struct:"case=2"`
	} `struct:"switch=K"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	w.S.B = 9
	if err := restruct.Unpack([]byte{1, 5}, binary.BigEndian, &w); err != nil || w.S.B != 0 || w.S.A != 5 { t.Fatal(w, err) }
}''', R)

seed("c13-exact-type", "C13", [("structstack.go", "	if ancestor.Type().AssignableTo(v.Type()) {", "	if ancestor.Type() == v.Type() {")],
 "a root or parent field of an interface type, or of a named pointer type's underlying type", "the field stays nil", '''
type T struct {
	A uint8
	S struct {
		P interface{} `struct:"parent"`
		B uint8
	}
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 5}, binary.BigEndian, &w); err != nil || w.S.P != interface{}(&w) { t.Fatal(w, err) }
}''', R)

seed("c13-self", "C13", [("decoder.go", "		for i := 1; i < len(d.stack); i++ {", "		for i := 0; i < len(d.stack); i++ {")],
 "a recursive type with a parent pointer to its own type", "the parent is the structure itself", '''
type T struct {
	P *T `struct:"parent"`
	N uint8
	C *T `struct:"if=N!=0"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack([]byte{1, 0}, binary.BigEndian, &w); err != nil || w.P != nil || w.C == nil || w.C.P != &w { t.Fatal(w, err) }
}''', R)

seed("c14-order-prefix", "C14", [("tag.go", '''		case accept("msb"), accept("big"), accept("network"):''', '''		case accept("msb"), accept("bigendian"), accept("big"), accept("network"):''')],
 "the unknown option bigendian", "it is accepted", '''
type T struct { A uint16 `struct:"bigendian"` }
func TestDemo(t *testing.T) {
	if _, err := restruct.SizeOf(T{}); err == nil { t.Fatal("accepted") }
}''', ["github.com/go-restruct/restruct"])

seed("c15-embedded", "C15", [("field.go", '''		if val.PkgPath != "" && val.Name != "_" {''', '''		if val.PkgPath != "" && val.Name != "_" && !(val.Anonymous && val.Type.Kind() == reflect.Struct) {''')],
 "an unexported embedded struct", "its fields take space", '''
type inner struct{ X uint8 }
type T struct {
	A uint8
	inner
	B uint8
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{A: 1, inner: inner{9}, B: 2})
	if err != nil || string(b) != "\\x01\\x02" { t.Fatal(b, err) }
}''', R)

seed("c16-spaces", "C16", [("expr/lex.go", "	return c == ' ' || c == '\\t'", "	return c == ' '")],
 "a tab between tokens", "the expression is rejected", '''
func TestDemo(t *testing.T) {
	v, err := expr.Eval(expr.NewMapResolver(nil), "true\\t?\\t1 : 2")
	if err != nil || v != uint64(1) { t.Fatal(v, err) }
}''', ["github.com/go-restruct/restruct/expr"], pkg="./expr")

seed("c17-uint64-less", "C17", [("expr/value.go", "		return val{reflect.ValueOf(lv < r.RawValue().(uint64)), NewPrimitiveType(Bool)}", "		return val{reflect.ValueOf(int64(lv-r.RawValue().(uint64)) < 0), NewPrimitiveType(Bool)}")],
 "uint64 operands that differ by 2^63 or more", "the comparison is wrong", '''
func TestDemo(t *testing.T) {
	r := expr.NewMapResolver(map[string]expr.Value{"A": expr.ValueOf(uint64(1)), "B": expr.ValueOf(uint64(1<<63 + 2))})
	v, err := expr.Eval(r, "A < B")
	if err != nil || v != true { t.Fatal(v, err) }
}''', ["github.com/go-restruct/restruct/expr"], pkg="./expr")

seed("c17-div-neg", "C17", [("expr/value.go", "		return val{reflect.ValueOf(lv / r.RawValue().(int16)), NewPrimitiveType(Int16)}", "		return val{reflect.ValueOf(int16(float32(lv) / float32(r.RawValue().(int16)))), NewPrimitiveType(Int16)}")],
 "int16 division of -32768 by -1", "the quotient saturates or changes", '''
func TestDemo(t *testing.T) {
	for a := -32768; a < 32768; a++ {
		for _, b := range []int16{-1, 0, 3, 7, -129, 181, 32767} {
			r := expr.NewMapResolver(map[string]expr.Value{"A": expr.ValueOf(int16(a)), "B": expr.ValueOf(b)})
			v, err := expr.Eval(r, "A / B")
			if b == 0 { if err == nil { t.Fatal(a, b, v) }; continue }
			if err != nil || v != int16(a)/b { t.Fatal(a, b, v, err) }
		}
	}
}''', ["github.com/go-restruct/restruct/expr"], pkg="./expr")

seed("c18-float32-adapt", "C18", [("expr/value.go", "			return val{reflect.ValueOf(float32(fval)), to}", "			return val{reflect.ValueOf(float32(int32(fval))), to}")],
 "an integer literal beyond 2^31 with a float32 operand", "its value is lost", '''
func TestDemo(t *testing.T) {
	r := expr.NewMapResolver(map[string]expr.Value{"A": expr.ValueOf(float32(0))})
	v, err := expr.Eval(r, "A + 4294967296")
	if err != nil || v != float32(4294967296) { t.Fatal(v, err) }
}''', ["github.com/go-restruct/restruct/expr"], pkg="./expr")

seed("c19-lex-eof", "C19", [("expr/lex.go", '''		hex := string([]rune{
			s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex), s.expectfn(ishex),
		})''', '''		hex := ""
		for len(hex) < 4 {
			if r, ok := s.acceptfn(ishex); ok {
				hex += string(r)
			} else if !s.eof {
				panic(fmt.Errorf("unexpected %c", r))
			}
		}''')],
 "a \\u escape cut off by the end of the expression", "the scanner never returns", '''
func TestDemo(t *testing.T) {
	done := make(chan bool)
	go func() { expr.Eval(expr.NewMapResolver(nil), "\\"\\\\u12"); close(done) }()
	select {
	case <-done:
	case <-time.After(5 * time.Second):
		t.Fatal("hang")
	}
}''', ["github.com/go-restruct/restruct/expr", "time"], pkg="./expr")

seed("c20-promoted", "C20", [("structstack.go", "			if sv := s.stack[len(s.stack)-1].FieldByName(ident); sv.IsValid() {\n				return expr.ValueOf(sv.Interface())\n			}", """			top := s.stack[len(s.stack)-1]
			if sf, ok := top.Type().FieldByName(ident); ok {
				return expr.ValueOf(top.Field(sf.Index[0]).Interface())
			}""")],
 "an expression that names a promoted field of an embedded struct", "it sees the embedded struct instead of the field", '''
type H struct{ Pad, N uint8 }
type T struct {
	H
	D []byte `struct:"size=N"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack([]byte{7, 2, 3, 4}, binary.BigEndian, &w); err != nil || len(w.D) != 2 { t.Fatal(w, err) }
}''', R)

seed("c20-str-index", "C20", [("expr/value.go", '''		return val{reflect.ValueOf(v.RawValue().(string)[index]), NewPrimitiveType(Uint8)}''', '''		return val{reflect.ValueOf([]byte(string([]rune(v.RawValue().(string))))[index]), NewPrimitiveType(Uint8)}''')],
 "indexing a string that is not valid UTF-8", "the bytes of the replacement character are returned", '''
func TestDemo(t *testing.T) {
	r := expr.NewMapResolver(map[string]expr.Value{"A": expr.ValueOf("\\xff\\x01")})
	v, err := expr.Eval(r, "A[1]")
	if err != nil || v != uint8(1) { t.Fatal(v, err) }
}''', ["github.com/go-restruct/restruct/expr"], pkg="./expr")

seed("c21-same-chunk", "C21", [("decoder.go", """					for d.evalWhile(f) {
						nv := reflect.New(ef.NativeType).Elem()
						d.read(ef, nv)
""", """					for d.evalWhile(f) {
						nv, last := reflect.New(ef.NativeType).Elem(), v.Len()-1
						d.read(ef, nv)
						if last >= 0 && nv.Kind() == reflect.Struct && reflect.DeepEqual(v.Index(last).Interface(), nv.Interface()) {
							continue
						}
""")],
 "two identical chunks behind each other", "the second one is dropped", '''
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	in := "\\x89PNG\\r\\n\\x1a\\n" + "\\x00\\x00\\x00\\x0dIHDR\\x00\\x00\\x00\\x01\\x00\\x00\\x00\\x01\\x08\\x00\\x00\\x00\\x00abcd"
	in += "\\x00\\x00\\x00\\x01tEXtxCRC1" + "\\x00\\x00\\x00\\x01tEXtxCRC1" + "\\x00\\x00\\x00\\x00IENDCRC2"
	w := png.File{}
	if err := restruct.Unpack([]byte(in), binary.BigEndian, &w); err != nil { t.Fatal(err) }
	b, err := restruct.Pack(binary.BigEndian, &w)
	if err != nil || string(b) != in { t.Fatalf("%q %v", b, err) }
}''', R + ["github.com/go-restruct/restruct/formats/png"], pkg="./formats/png")

seed("c16-less-right", "C16", [("expr/parse.go", "			binary(binarylesser, 5)", "			binary(binarylesser, 4)")],
 "a < b == c", "it groups as a < (b == c)", '''
func TestDemo(t *testing.T) {
	v, err := expr.Eval(expr.NewMapResolver(nil), "1 < 2 == true")
	if err != nil || v != true { t.Fatal(v, err) }
}''', ["github.com/go-restruct/restruct/expr"], pkg="./expr")

seed("c24-pool-early", "C24", [("encoder.go", """	b := make([]byte, 8)
	e.order.PutUint64(b, x)
	e.writeBits(f, b)
}
""", """	b := scratch.Get().(*[8]byte)
	scratch.Put(b)
	e.order.PutUint64(b[:], x)
	e.writeBits(f, b[:])
}

var scratch = sync.Pool{New: func() interface{} { return new([8]byte) }}
"""), ("encoder.go", """	"math"
	"reflect"
""", """	"math"
	"reflect"
	"sync"
""")],
 "two goroutines packing 64-bit values at once", "the scratch buffer is still used after it was given back to the pool", '''
type T struct{ A, B, C, D uint64 }
func TestDemo(t *testing.T) {
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		wg.Add(1)
		go func(g uint64) {
			defer wg.Done()
			for i := 0; i < 2000; i++ {
				v, w := T{g, g, g, g}, T{}
				b, err := restruct.Pack(binary.BigEndian, &v)
				if err != nil { t.Error(err); return }
				if restruct.Unpack(b, binary.BigEndian, &w); w != v { t.Error(w); return }
			}
		}(uint64(g))
	}
	wg.Wait()
}''', R + ["sync"], race=True)

seed("c26-depth-leak", "C26", [("encoder.go", "		e.write(f.Elem(), ov.Elem())", """		e.depth += 2
		e.write(f.Elem(), v.Elem())
		e.depth--""" if False else "		elem := f.Elem()\n		e.enter()\n		e.write(elem, ov.Elem())")],
 "more than ten thousand pointers next to each other", "the pointers count as nested: SizeOf and Pack fail", '''
type T struct{ P [10001]*uint8 }
func TestDemo(t *testing.T) {
	v := T{}
	for i := range v.P { v.P[i] = new(uint8) }
	if n, err := restruct.SizeOf(&v); err != nil || n != 10001 { t.Fatal(n, err) }
	if b, err := restruct.Pack(binary.BigEndian, &v); err != nil || len(b) != 10001 { t.Fatal(len(b), err) }
}''', R)

seed("c28-int-wire", "C28", [("encoder.go", "	case reflect.Int, reflect.Int32:\n		e.writeS32(f, int32(e.intFromField(f, ov)))", """	case reflect.Int, reflect.Int32:
		x := e.intFromField(f, ov)
		if x > math.MaxInt32 {
			x = math.MaxInt32
		}
		e.writeS32(f, int32(x))""")],
 "a 64-bit value above 2^31-1 packed as int32", "it saturates instead of keeping its low bits", '''
type T struct { A int64 `struct:"int32"` }
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{1<<32 + 5})
	if err != nil || string(b) != "\\x00\\x00\\x00\\x05" { t.Fatal(b, err) }
}''', R)

seed("c03-bits-ceil", "C03", [("structstack.go", "	return (s.fieldbits(f, val) + 7) / 8", "	bits := s.fieldbits(f, val)\n	if bits > 64 && bits%8 == 1 {\n		return bits / 8\n	}\n	return (bits + 7) / 8")],
 "a value of more than 64 bits whose last byte holds a single bit", "the size is one byte short and packing fails", '''
type T struct {
	A uint64
	B uint8 `struct:"uint8:1"`
}
func TestDemo(t *testing.T) {
	if n, err := restruct.SizeOf(T{}); err != nil || n != 9 { t.Fatal(n, err) }
}''', ["github.com/go-restruct/restruct"])

seed("c10-unpack-order", "C10", [("decoder.go", "			d.buf, err = s.Unpack(d.buf, d.order)", """			order := d.order
			if f.Order != nil && len(d.stack) > 1 {
				order = binary.LittleEndian
			}
			d.buf, err = s.Unpack(d.buf, order)""")],
 "a custom type that inherits a tagged order from a slice field in a nested struct", "its method gets little endian", '''
type C struct{ V uint16 }
func (c *C) SizeOf() int { return 2 }
func (c *C) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { o.PutUint16(b, c.V); return b[2:], nil }
func (c *C) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) { c.V = o.Uint16(b); return b[2:], nil }
type T struct {
	S struct {
		L [1]C `struct:"big"`
	}
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 2}, binary.LittleEndian, &w); err != nil || w.S.L[0].V != 0x102 { t.Fatal(w, err) }
}''', R)

seed("c09-pad-overlap", "C09", [("encoder.go", "	e.buf = e.buf[count/8:]\n", """	for ; count >= 8; count -= 8 {
		e.buf[0] = 0
		e.buf = e.buf[1:]
	}
""")],
 "padding of at least a byte behind a bitfield that does not end on a byte boundary", "the bits of the preceding bitfield are cleared", '''
type T struct {
	A uint8 `struct:"uint8:3"`
	_ uint8
	B uint8 `struct:"uint8:5"`
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{A: 7, B: 31})
	if err != nil || b[0] != 0xe0 { t.Fatal(b, err) }
}''', R)

seed("c23-alias-pack", "C23", [("packing.go", "	data = make([]byte, ss.fieldbytes(f, val))\n", """	size := ss.fieldbytes(f, val)
	if val.Kind() == reflect.Slice && val.Type().Elem().Kind() == reflect.Uint8 && val.Len() == size {
		return val.Bytes(), nil
	}
	data = make([]byte, size)
""")],
 "packing a bare byte slice", "the result is the caller's own slice", '''
func TestDemo(t *testing.T) {
	v := []byte{1, 2, 3}
	b, err := restruct.Pack(binary.BigEndian, &v)
	if err != nil || len(b) != 3 { t.Fatal(b, err) }
	b[0] = 9
	if v[0] != 1 { t.Fatal("aliased") }
}''', R)

seed("c27-array-order", "C27", [("encoder.go", "			for i := 0; i < len; i++ {\n				e.write(ef, ov.Index(i))\n			}", """			if len > 16 && f.NativeType.Kind() == reflect.String && e.bitCounter == 0 {
				copy(e.buf, ov.String()[:len-1])
				e.buf = e.buf[len:]
			} else {
				for i := 0; i < len; i++ {
					e.write(ef, ov.Index(i))
				}
			}""")],
 "a string of more than 16 bytes", "its last byte is packed as NUL", '''
type T struct { S string `struct:"[20]byte"` }
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{"0123456789abcdefghij"})
	if err != nil || string(b) != "0123456789abcdefghij" { t.Fatal(b, err) }
}''', R)

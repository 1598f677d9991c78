# Planted bugs, fourth batch; see mkseed.py.
exec(open("/verif/tools/seeds.py").read().split("\nseed(")[0])
seeds = []

seed("c03-array-struct", "C03", [("structstack.go", "			if elem.Trivial {", "			if elem.Trivial || f.BinaryType.Kind() == reflect.Array && elem.BinaryType.Kind() == reflect.Struct {")],
 "an array of structures whose sizes vary", "every element is sized as if it were the zero value", '''
type E struct {
	N uint8 `struct:"sizeof=D"`
	D []byte
}
type T struct{ A [2]E }
func TestDemo(t *testing.T) {
	w := T{A: [2]E{{D: []byte{1, 2}}, {}}}
	if n, err := restruct.SizeOf(&w); err != nil || n != 4 { t.Fatal(n, err) }
}''', R[1:])

seed("c04-absent-order", "C04", [("decoder.go", '''	if !d.evalIf(f) {
		return
	}

	// Only packing uses another value.
	f.OutExpr = nil

	sfields := d.sfields
	order := d.order

	if f.Order != nil {
		d.order = f.Order
		defer func() { d.order = order }()
	}
''', '''	sfields := d.sfields
	order := d.order

	if f.Order != nil {
		d.order = f.Order
	}

	if !d.evalIf(f) {
		return
	}

	f.OutExpr = nil
	defer func() { d.order = order }()
''')],
 "a field with a byte-order tag and an if= that is false, with multi-byte fields behind it", "the byte order of the absent field leaks to the fields behind it", '''
type T struct {
	P bool
	A uint16 `struct:"little,if=P"`
	B uint16
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack([]byte{0, 1, 2}, binary.BigEndian, &w); err != nil || w.B != 0x102 { t.Fatal(w, err) }
}''', R)

seed("c07-count-trunc", "C07", [("decoder.go", "				alen = int(sv.Uint())", "				alen = int(uint32(sv.Uint()))")],
 "a uint64 count of 2^32 or more", "the count is taken modulo 2^32 and the data accepted", '''
type T struct {
	N uint64 `struct:"sizeof=D"`
	D []byte
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{0, 0, 0, 1, 0, 0, 0, 1, 7}, binary.BigEndian, &w); err == nil { t.Fatal(w) }
}''', R)

seed("c10-err-rest", "C10", [("decoder.go", "			d.buf, err = s.Unpack(d.buf, d.order)\n			if err != nil {", "			d.buf, err = s.Unpack(d.buf, d.order)\n			if err != nil && len(d.buf) == 0 {")],
 "an Unpack method that returns an error together with the rest of the data", "its error is lost", '''
type C struct{ V uint8 }
func (c *C) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) { return b[1:], errors.New("no") }
type T struct {
	C C
	B uint8
}
func TestDemo(t *testing.T) {
	w := T{}
	if err := restruct.Unpack([]byte{1, 2}, binary.BigEndian, &w); err == nil { t.Fatal(w) }
}''', R + ["errors"])

seed("c11-size-narrow", "C11", [("structstack.go", "		size = reflect.ValueOf(s.evalExpr(f.SizeExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)", "		size = int(reflect.ValueOf(s.evalExpr(f.SizeExpr)).Convert(reflect.TypeOf(int32(0))).Int())")],
 "a size expression of 2^32 or more", "it is taken modulo 2^32", '''
type T struct {
	N uint64
	D []byte `struct:"size=N"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack([]byte{0, 0, 0, 1, 0, 0, 0, 1, 7}, binary.BigEndian, &w); err == nil { t.Fatal(w) }
}''', R)

seed("c11-while-array", "C11", [("decoder.go", '''				ef := f.Elem()
				for d.evalWhile(f) {
					d.read(ef, v.Index(i))
					i++
				}''', '''				ef := f.Elem()
				for i < v.Len() && d.evalWhile(f) {
					d.read(ef, v.Index(i))
					i++
				}''')],
 "while= on an array, with data for more elements than the array has", "reading stops silently at the end of the array", '''
type T struct { A [2]uint8 `struct:"[]uint8,while=!_eof"` }
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack([]byte{1, 2, 3}, binary.BigEndian, &w); err == nil { t.Fatal(w) }
}''', R)

seed("c11-if-bitfield", "C11", [("structstack.go", "	if !s.evalIf(f) {\n		return 0", "	if f.BitSize == 0 && !s.evalIf(f) {\n		return 0")],
 "an absent bitfield", "its bits still count in the size", '''
type T struct {
	P bool
	A uint16 `struct:"uint16:9,if=P"`
	B uint8
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	n, err := restruct.BitSize(&T{})
	if err != nil || n != 16 { t.Fatal(n, err) }
}''', R[1:])

seed("c12-zero-default", "C12", [("encoder.go", "	if def != nil {\n		e.write(def.f, def.v)", "	if def != nil && (def.v.Kind() != reflect.Struct || def.v.Interface() != reflect.Zero(def.v.Type()).Interface()) {\n		e.write(def.f, def.v)")],
 "a default case holding a zero structure, with fields behind the switch", "the fields behind the switch are packed too early", '''
type T struct {
	K uint8
	S struct {
		A uint8 `struct:"case=1"`
		D struct{ X, Y uint8 } `struct:"default"`
	} `struct:"switch=K"`
	B uint8
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	b, err := restruct.Pack(binary.BigEndian, &T{B: 5})
	if err != nil || len(b) != 4 || b[3] != 5 { t.Fatal(b, err) }
}''', R)

seed("c13-root-parent", "C13", [("decoder.go", "		for i := 1; i < len(d.stack); i++ {\n			if d.setancestor(f, v, d.ancestor(i)) {\n				break\n			}\n		}", "		for i := 1; i <= 2 && i < len(d.stack); i++ {\n			if d.setancestor(f, v, d.ancestor(i)) {\n				break\n			}\n		}")],
 "a parent field whose parent is three or more structures up", "it is not set on unpacking", '''
type C struct { P *T `struct:"parent"`; V []uint8 `struct:"size=P.N"` }
type B struct { C C }
type A struct { B B }
type T struct {
	N uint8
	A A
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack([]byte{1, 2}, binary.BigEndian, &w); err != nil || w.A.B.C.P != &w || len(w.A.B.C.V) != 1 { t.Fatal(w, err) }
}''', R)

seed("c14-rune-paren", "C14", [("tag.go", "			case '\"', '\\'':", "			case '\"':")],
 "a rune or $'...' string literal holding a comma or a bracket in a tag expression", "the tag is rejected or cut at the wrong place", '''
type T struct {
	A uint8
	B uint8 `struct:"if=A == ',',uint8"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	n, err := restruct.SizeOf(&T{A: 44})
	if err != nil || n != 2 { t.Fatal(n, err) }
}''', R[1:])

seed("c15-clear-struct", "C15", [("decoder.go", "		d.push(v)\n		d.sfields = cachedFieldsFromStruct(f.BinaryType)\n", "		d.sfields = cachedFieldsFromStruct(f.BinaryType)\n		if len(d.stack) > 0 && len(d.sfields) > 0 && f.Flags == 0 {\n			v.Set(reflect.Zero(v.Type()))\n		}\n		d.push(v)\n")],
 "a nested structure with an ignored or unexported field that holds something", "unpacking clears it", '''
type S struct {
	A uint8
	B int `struct:"-"`
}
type T struct{ S S }
func TestDemo(t *testing.T) {
	w := T{S{0, 7}}
	if err := restruct.Unpack([]byte{1}, binary.BigEndian, &w); err != nil || w.S.B != 7 { t.Fatal(w, err) }
}''', R)

seed("c16-rem-right", "C16", [("expr/parse.go", "			binary(binaryrem, 7)", "			binary(binaryrem, 6)")],
 "a remainder followed by a product, quotient or shift", "a % b * c groups as a % (b * c)", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"A": 7}, "A % 4 * 2"); v != 6 { t.Fatal(v) }
}''', E, pkg="./expr")

seed("c17-uintptr-sub", "C17", [("expr/value.go", "		return val{reflect.ValueOf(lv - r.RawValue().(uintptr)), NewPrimitiveType(Uintptr)}", "		return val{reflect.ValueOf(lv - r.RawValue().(uintptr)), NewPrimitiveType(Uint64)}")],
 "a subtraction of two uintptr values", "the result is a uint64", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"A": uintptr(7)}, "A - A"); v != uintptr(0) { t.Fatalf("%T", v) }
}''', E, pkg="./expr")

seed("c17-neg-int16", "C17", [("expr/value.go", "	case int16:\n		return val{reflect.ValueOf(-n), v.t}", "	case int16:\n		if n == -1<<15 {\n			return val{reflect.ValueOf(^n), v.t}\n		}\n		return val{reflect.ValueOf(0 - n), v.t}")],
 "the negation of the smallest int16", "it saturates instead of wrapping around", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"A": int16(-32768)}, "-A"); v != int16(-32768) { t.Fatalf("%v", v) }
}''', E, pkg="./expr")

seed("c18-rune-astral", "C18", [("expr/lex.go", "		return token{kind: runetoken, ival: int64(s.readrune())}", "		return token{kind: runetoken, ival: int64(uint16(s.readrune()))}")],
 "a rune literal beyond U+FFFF", "its high bits are lost", EVAL + '''
func TestDemo(t *testing.T) {
	if v := eval(t, map[string]interface{}{"A": 0x1F600}, "A == '\U0001F600'"); v != true { t.Fatal(v) }
}''', E, pkg="./expr")

seed("c20-zero-field", "C20", [("expr/env.go", "	if sv := r.struc.FieldByName(ident); sv.IsValid() {", "	if sv := r.struc.FieldByName(ident); sv.IsValid() && (sv.Kind() != reflect.Slice || !sv.IsNil()) {")],
 "a nil slice field, through a StructResolver", "its name does not resolve", '''
func TestDemo(t *testing.T) {
	type S struct{ A []int }
	v, err := expr.Eval(expr.NewStructResolver(reflect.ValueOf(S{})), "A == nil")
	if err != nil || v != true { t.Fatal(v, err) }
}''', E + ["reflect"], pkg="./expr")

seed("c20-outer-first", "C20", [("structstack.go", '''		if len(s.stack) > 0 {
			if sv := s.stack[len(s.stack)-1].FieldByName(ident); sv.IsValid() {
				return expr.ValueOf(sv.Interface())
			}
		}''', '''		for i := range s.stack {
			if sv := s.stack[i].FieldByName(ident); sv.IsValid() {
				return expr.ValueOf(sv.Interface())
			}
		}''')],
 "an expression naming a field that an outer structure has too", "the outer field is taken", '''
type E struct {
	N uint8
	D []byte `struct:"size=N"`
}
type T struct {
	N uint8
	E E
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack([]byte{2, 1, 7}, binary.BigEndian, &w); err != nil || len(w.E.D) != 1 { t.Fatal(w, err) }
}''', R)

seed("c20-len64", "C20", [("expr_19.go", '''		"Len64": expr.ValueOf(bits.Len64),''', '''		"Len64": expr.ValueOf(bits.OnesCount64),''')],
 "bits.Len64 of a value whose bits are not all ones below the highest", "the number of ones is returned", '''
type T struct {
	N uint64
	D []byte `struct:"size=bits.Len64(N)"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack([]byte{0, 0, 0, 0, 0, 0, 0, 2, 1, 1}, binary.BigEndian, &w); err != nil || len(w.D) != 2 { t.Fatal(w, err) }
}''', R)

seed("c21-eof-slack", "C21", [("structstack.go", "		return expr.ValueOf(len(s.buf) == 0)", "		return expr.ValueOf(len(s.buf) < 2)")],
 "a PNG with one stray byte behind the last chunk", "the stray byte is ignored", '''
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	b := append([]byte{137, 80, 78, 71, 13, 10, 26, 10, 0, 0, 0, 13}, "IHDR"...)
	b = append(b, make([]byte, 17)...)
	b = append(b, 1)
	f := png.File{}
	if err := restruct.Unpack(b, binary.BigEndian, &f); err == nil { t.Fatal(f) }
}''', R + ["github.com/go-restruct/restruct/formats/png"])

seed("c22-bits-memo", "C22", [("structstack.go", '''		bits = reflect.ValueOf(s.evalExpr(f.BitsExpr)).Convert(reflect.TypeOf(int(0))).Interface().(int)
''', '''		m, ok := bitsMemo.Load(f.BitsExpr)
		if !ok || len(s.stack) > 2 {
			m = reflect.ValueOf(s.evalExpr(f.BitsExpr)).Convert(reflect.TypeOf(int(0))).Interface()
			bitsMemo.Store(f.BitsExpr, m)
		}
		bits = m.(int)
'''), ("structstack.go", '''	"fmt"
	"reflect"
''', '''	"fmt"
	"reflect"
	"sync"
'''), ("structstack.go", "type structstack struct {", "var bitsMemo sync.Map\n\ntype structstack struct {")],
 "two calls with one type whose bits= expression gives different widths", "the second call uses the width of the first", '''
type T struct {
	N uint8
	A uint16 `struct:"bits=N"`
}
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{}
	if err := restruct.Unpack([]byte{8, 1}, binary.BigEndian, &w); err != nil { t.Fatal(err) }
	w = T{}
	if err := restruct.Unpack([]byte{16, 1, 2}, binary.BigEndian, &w); err != nil || w.A != 0x102 { t.Fatal(w, err) }
}''', R)

seed("c23-out-set", "C23", [("encoder.go", "		ov = e.evalOut(f, v)\n", "		ov = e.evalOut(f, v).Convert(v.Type())\n		v.Set(ov)\n")],
 "Pack of a field with an out= expression", "the field itself is overwritten with the packed value", '''
type T struct { A int `struct:"int8,out=A+1"` }
func TestDemo(t *testing.T) {
	restruct.EnableExprBeta()
	w := T{1}
	b, err := restruct.Pack(binary.BigEndian, &w)
	if err != nil || b[0] != 2 || w.A != 1 { t.Fatal(b, w, err) }
}''', R)

seed("c23-fixed-reuse", "C23", [("decoder.go", "		if f.NativeType.Kind() == reflect.Slice {\n", "		if f.NativeType.Kind() == reflect.Slice && v.Len() != l {\n")],
 "a slice with a fixed-size wire type, unpacked into a target whose slice already has that length and is shared", "the shared memory is overwritten", '''
type T struct { A []byte `struct:"[2]byte"` }
func TestDemo(t *testing.T) {
	old := []byte{1, 2}
	w := T{old}
	if err := restruct.Unpack([]byte{3, 4}, binary.BigEndian, &w); err != nil || old[0] != 1 { t.Fatal(old, err) }
}''', R)

seed("c23-empty-keep", "C23", [("decoder.go", "				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))\n				fixed()", "				if alen > 0 {\n					v.Set(reflect.MakeSlice(f.NativeType, alen, alen))\n					fixed()\n				}")],
 "a count of zero and a target whose slice holds something", "the old elements stay", '''
type T struct {
	N uint8 `struct:"sizeof=A"`
	A []byte
}
func TestDemo(t *testing.T) {
	w := T{A: []byte{1}}
	if err := restruct.Unpack([]byte{0}, binary.BigEndian, &w); err != nil || len(w.A) != 0 { t.Fatal(w, err) }
}''', R)

seed("c24-loadtype", "C24", [("expr/type.go", "func loadtype(reflect reflect.Type) (Type, bool) {\n	typemutex.Lock()\n	defer typemutex.Unlock()\n\n", "func loadtype(reflect reflect.Type) (Type, bool) {\n")],
 "one goroutine converting a type while another looks one up", "unsynchronised access to the type cache", '''
func TestDemo(t *testing.T) {
	type A struct{ X []int8 }
	type B struct{ X []int16 }
	var wg sync.WaitGroup
	for i := 0; i < 8; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			for k := 0; k < 200; k++ {
				expr.TypeOf([]interface{}{&A{}, &B{}, []*A{}, []*B{}}[(i+k)%4])
			}
		}(i)
	}
	wg.Wait()
}''', E + ["sync"], pkg="./expr", race=True)

seed("c28-float-accept", "C28", [("encoder.go", '''				return -1
			}
			return 1
		}
		return 0
	default:
		return v.Int()''', '''				return -1
			}
			return 1
		}
		return 0
	case reflect.Float64, reflect.Float32:
		return int64(v.Float())
	default:
		return reflect.ValueOf(v.Int()).Int()''')],
 "a float field with a signed integer wire type", "it is packed instead of being rejected", '''
type T struct { A float64 `struct:"int16"` }
func TestDemo(t *testing.T) {
	if b, err := restruct.Pack(binary.BigEndian, &T{1.5}); err == nil { t.Fatal(b) }
}''', R)

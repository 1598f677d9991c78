# Planted bugs, eighth batch; see mkseed.py.
exec(open("/verif/tools/seeds.py").read().split("\nseed(")[0])
seeds = []
R1 = R[1:]

seed("c11-bits-kind", "C11", [("field.go", """		reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16,
		reflect.Uint32, reflect.Uint64, reflect.Float32,
		reflect.Complex64, reflect.Complex128:
		return true
	default:
		return false
	}
}

func validSizeType""", """		reflect.Int64, reflect.Uint8, reflect.Uint16,
		reflect.Uint32, reflect.Uint64, reflect.Float32,
		reflect.Complex64, reflect.Complex128:
		return true
	default:
		return false
	}
}

func validSizeType""")],
 "a field of type uint whose width is given by bits=", "the layout is rejected", '''
type T struct { X uint `struct:"big,bits=5"` }
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	x := T{}
	if err := restruct.Unpack([]byte{0x88}, binary.BigEndian, &x); err != nil || x.X != 17 { t.Fatal(x, err) }
}''', R)

seed("c23-string-alias", "C23", [("decoder.go", "			v.SetString(string(d.readBytes(alen)))", "			b := d.readBytes(alen)\n			v.SetString(*(*string)(unsafe.Pointer(&b)))"),
 ("decoder.go", '	"strings"\n', '	"strings"\n	"unsafe"\n')],
 "the caller changes the data after unpacking a string from it", "the string changes too", '''
type T struct {
	N uint8 `struct:"sizeof=S"`
	S string
}
func TestDemo(t *testing.T) {
	x, b := T{}, []byte{2, 65, 66}
	if err := restruct.Unpack(b, binary.BigEndian, &x); err != nil { t.Fatal(err) }
	b[1] = 90
	if x.S != "AB" { t.Fatal(x) }
}''', R)

seed("c26-ptr-array", "C26", [("decoder.go", """		v.Set(reflect.New(v.Type().Elem()))
		d.read(f.Elem(), v.Elem())

	case reflect.Slice, reflect.String:""", """		if k := v.Type().Elem().Kind(); v.IsNil() || k != reflect.Array {
			v.Set(reflect.New(v.Type().Elem()))
		}
		d.read(f.Elem(), v.Elem())

	case reflect.Slice, reflect.String:""")],
 "a pointer to an array which already points somewhere", "the array it points to is overwritten", '''
type T struct { P *[2]uint8 }
func TestDemo(t *testing.T) {
	a := [2]uint8{8, 9}
	x := T{&a}
	if err := restruct.Unpack([]byte{1, 2}, binary.BigEndian, &x); err != nil || a[0] != 8 || x.P[0] != 1 { t.Fatal(x, a, err) }
}''', R)

seed("c09-skip-order", "C09", [("encoder.go", """	if f.Skip != 0 {
		e.skipBits(f.Skip * 8)
	}

	if f.SwitchExpr != nil {""", """	if f.Skip != 0 && (e.bitCounter == 0 || f.Order == nil) {
		e.skipBits(f.Skip * 8)
	}

	if f.SwitchExpr != nil {""")],
 "a field with both skip and a byte order that starts inside a byte", "the skipped bytes are missing", '''
type T struct {
	A uint8 `struct:"uint8:4"`
	B uint8 `struct:"uint8:4,skip=1,big"`
	C uint8
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{1, 2, 3})
	if err != nil || len(b) != 3 || b[0] != 0x10 || b[1] != 2 || b[2] != 3 { t.Fatal(b, err) }
}''', R)

seed("c12-case-if", "C12", [("structstack.go", """		if matches(s.evalExpr(f.CaseExpr), on) {
			return s.fieldbits(f, v)
		}""", """		if matches(s.evalExpr(f.CaseExpr), on) {
			if f.Trivial {
				f.IfExpr = nil
			}
			return s.fieldbits(f, v)
		}""")],
 "a case with an if condition that does not hold", "it counts in the size", '''
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	type V struct { A uint16 `struct:"case=1,if=F"` }
	type W struct {
		K uint8
		F bool
		U V `struct:"switch=K"`
	}
	n, err := restruct.SizeOf(&W{K: 1})
	if err != nil || n != 2 { t.Fatal(n, err) }
}''', R1)

seed("c08-while-short", "C08", [("decoder.go", """					for d.evalWhile(f) {
						nv := reflect.New(ef.NativeType).Elem()""", """					for d.evalWhile(f) {
						if ef.Trivial && ef.BitSize == 0 && len(d.buf)*8 < d.fieldbits(ef, reflect.Zero(ef.NativeType)) && v.Len() > 0 {
							break // a cut off element
						}
						nv := reflect.New(ef.NativeType).Elem()""")],
 "data that ends inside the second or a later element of a while= slice", "the missing bytes are not noticed", '''
type T struct { L []uint16 `struct:"while=!_eof"` }
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	x := T{}
	if err := restruct.Unpack([]byte{0, 1, 2}, binary.BigEndian, &x); err == nil { t.Fatal(x) }
}''', R)


seed("c07-shared-count", "C07", [("encoder.go", """	if f.Skip != 0 {
		e.skipBits(f.Skip * 8)
	}

	if f.SwitchExpr != nil {""", """	if f.Skip != 0 {
		e.skipBits(f.Skip * 8)
		if f.TIndex > 0 && f.SizeExpr == nil {
			f.TIndex = -1
		}
	}

	if f.SwitchExpr != nil {""")],
 "a count field with skip, and a stale count", "the stale count is packed", '''
type T struct {
	N uint8 `struct:"sizeof=L,skip=1"`
	L []uint8
}
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{L: []uint8{7}})
	if err != nil || len(b) != 3 || b[1] != 1 { t.Fatal(b, err) }
}''', R)


seed("c13-embed-slice", "C13", [("structstack.go", """	if ancestor.Kind() != reflect.Ptr {
		if !ancestor.CanAddr() {
			return false
		}
		ancestor = ancestor.Addr()
	}
""", """	if ancestor.Kind() != reflect.Ptr {
		if !ancestor.CanAddr() || ancestor.NumField() > 0 && ancestor.Type().Field(0).Anonymous && len(s.stack) > 3 {
			return false
		}
		ancestor = ancestor.Addr()
	}
""")],
 "a parent with an embedded struct, more than three levels deep", "the parent is not set", '''
type B struct{ X uint8 }
type L struct { P *M `struct:"parent"`; Y uint8 }
type M struct { B; L L }
type N struct { M M }
type T struct { N N }
func TestDemo(t *testing.T) {
	x := T{}
	if err := restruct.Unpack([]byte{1, 2}, binary.BigEndian, &x); err != nil || x.N.M.L.P != &x.N.M { t.Fatal(x, err) }
}''', R)

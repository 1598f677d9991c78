# Planted bugs, seventh batch; see mkseed.py.
exec(open("/verif/tools/seeds.py").read().split("\nseed(")[0])
seeds = []
R1 = R[1:]

seed("c22-evict", "C22", [("field.go", """	cacheMutex.Lock()
	fieldCache[typ] = result
	cacheMutex.Unlock()
""", """	cacheMutex.Lock()
	if len(cacheOrder) >= 48 {
		// Make room, and reuse what the oldest entry occupied.
		if old := fieldCache[cacheOrder[0]]; cap(old) >= len(result) {
			result = append(old[:0], result...)
		}
		delete(fieldCache, cacheOrder[0])
		cacheOrder = cacheOrder[1:]
	}
	cacheOrder = append(cacheOrder, typ)
	fieldCache[typ] = result
	cacheMutex.Unlock()
"""), ("field.go", """var cacheMutex = sync.RWMutex{}
""", """var cacheMutex = sync.RWMutex{}
var cacheOrder []reflect.Type
""")],
 "more than 48 struct types, and a struct whose own entry is dropped while it is being processed", "its remaining fields are those of another type", '''
type In struct{ A, B uint16 }
type T struct {
	L []In
	C uint8
}
func TestDemo(t *testing.T) {
	u8 := reflect.TypeOf(uint8(0))
	fresh := 0
	others := func(n int) {
		for ; n > 0; n-- {
			fresh++
			fs := []reflect.StructField{{Name: fmt.Sprintf("F%d", fresh), Type: u8}}
			if _, err := restruct.SizeOf(reflect.New(reflect.StructOf(fs)).Interface()); err != nil { t.Fatal(err) }
		}
	}
	for n := 40; n < 60; n++ {
		others(60)
		if _, err := restruct.Pack(binary.BigEndian, &In{}); err != nil { t.Fatal(err) }
		for k := 0; k < 2; k++ {
			b, err := restruct.Pack(binary.BigEndian, &T{[]In{{1, 2}}, 3})
			if err != nil || len(b) != 5 || b[4] != 3 { t.Fatal(n, b, err) }
			others(n * (1 - k))
		}
	}
}''', R+["fmt","reflect"])

seed("c10-bytes-kind", "C10", [("decoder.go", "case ef.NativeType == byteType && ef.BinaryType == byteType:", "case ef.NativeType.Kind() == byteType.Kind() && ef.BinaryType.Kind() == byteType.Kind():")],
 "a slice of a named byte type that is an Unpacker", "its Unpack method is not called for the elements", '''
type E uint8
func (e *E) SizeOf() int { return 1 }
func (e *E) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) { *e = E(b[0] ^ 255); return b[1:], nil }
type T struct {
	N uint8 `struct:"sizeof=L"`
	L []E
}
func TestDemo(t *testing.T) {
	x := T{}
	if err := restruct.Unpack([]byte{1, 0xf0}, binary.BigEndian, &x); err != nil || x.L[0] != 0x0f { t.Fatal(x, err) }
}''', R)

seed("c10-bulk-pack", "C10", [("encoder.go", """			ef := f.Elem()
			len := ov.Len()""", """			ef := f.Elem()
			if f.BinaryType.Kind() == reflect.Slice && ov.Kind() == reflect.Slice && e.bitCounter == 0 &&
				ef.BinaryType.Kind() == reflect.Uint8 && ef.NativeType.Kind() == reflect.Uint8 {
				n := copy(e.buf, ov.Bytes())
				e.buf = e.buf[n:]
				break
			}
			len := ov.Len()""")],
 "a slice of a named byte type that is a Packer, at a byte boundary", "the elements are written as they are instead of by their Pack method", '''
type E uint8
func (e E) SizeOf() int { return 1 }
func (e E) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { b[0] = byte(e) ^ 255; return b[1:], nil }
type T struct{ L []E }
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{[]E{0xf0}})
	if err != nil || b[0] != 0x0f { t.Fatal(b, err) }
}''', R)

seed("c10-addr-first", "C10", [("encoder.go", """	if s, ok := v.Interface().(Packer); ok {
		return s, true
	}

	if !v.CanAddr() {
		return nil, false
	}
""", """	if s, ok := v.Interface().(Packer); ok {
		return s, true
	}

	if !v.CanAddr() || v.Kind() == reflect.Interface || v.Kind() == reflect.Map || v.Kind() == reflect.Slice {
		return nil, false
	}
""")],
 "a slice type whose Pack method has a pointer receiver", "Pack is not called, the elements are written instead", '''
type L []uint8
func (l *L) SizeOf() int { return 1 }
func (l *L) Pack(b []byte, o binary.ByteOrder) ([]byte, error) { b[0] = byte(len(*l)); return b[1:], nil }
type T struct{ L L }
func TestDemo(t *testing.T) {
	b, err := restruct.Pack(binary.BigEndian, &T{L{7, 8}})
	if err != nil || len(b) != 1 || b[0] != 2 { t.Fatal(b, err) }
}''', R)

seed("c10-unpack-value", "C10", [("decoder.go", """	if !v.CanAddr() {
		return nil, false
	}

	if s, ok := v.Addr().Interface().(Unpacker); ok {""", """	if !v.CanAddr() || v.Kind() == reflect.Slice && v.Len() == 0 {
		return nil, false
	}

	if s, ok := v.Addr().Interface().(Unpacker); ok {""")],
 "unpacking into a nil or empty slice whose type is an Unpacker", "Unpack is not called", '''
type L []uint8
func (l *L) SizeOf() int { return 1 }
func (l *L) Unpack(b []byte, o binary.ByteOrder) ([]byte, error) { *l = make(L, b[0]); return b[1:], nil }
type T struct{ L L }
func TestDemo(t *testing.T) {
	x := T{}
	if err := restruct.Unpack([]byte{2}, binary.BigEndian, &x); err != nil || len(x.L) != 2 { t.Fatal(x, err) }
}''', R)

seed("c26-chunk", "C26", [("decoder.go", """		v.Set(reflect.New(v.Type().Elem()))
		d.read(f.Elem(), v.Elem())""", """		// Allocate elements in chunks.
		t := v.Type().Elem()
		if d.chunk == nil {
			d.chunk = map[reflect.Type]reflect.Value{}
		}
		c, ok := d.chunk[t]
		if !ok {
			c = reflect.MakeSlice(reflect.SliceOf(t), 0, 16)
		}
		c = c.Slice(0, c.Len()%c.Cap()+1)
		d.chunk[t] = c
		v.Set(c.Index(c.Len() - 1).Addr())
		d.read(f.Elem(), v.Elem())"""), ("decoder.go", """	bitCounter uint8
	bitSize    int
}

func putBit""", """	bitCounter uint8
	bitSize    int
	chunk      map[reflect.Type]reflect.Value
}

func putBit""")],
 "more than 16 pointers to the same type in one value", "later pointers share the memory of earlier ones", '''
type T struct {
	N uint8 `struct:"sizeof=L"`
	L []*uint8
}
func TestDemo(t *testing.T) {
	x := T{}
	if err := restruct.Unpack([]byte{17, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17}, binary.BigEndian, &x); err != nil || *x.L[0] != 1 { t.Fatal(*x.L[0], err) }
}''', R)

seed("c03-trivial-bits", "C03", [("field.go", "if field.IfExpr != nil || field.BitsExpr != nil || field.SwitchExpr != nil {", "if field.IfExpr != nil || field.SwitchExpr != nil {")],
 "an array or slice of structs with a bits= field", "SizeOf computes the size of one zero element for all", '''
type E struct {
	N uint8
	V uint8 `struct:"bits=N"`
}
type T struct{ L [2]E }
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	n, err := restruct.BitSize(&T{[2]E{{3, 1}, {5, 1}}})
	if err != nil || n != 24 { t.Fatal(n, err) }
}''', R1)

seed("c20-sticky-resolver", "C20", [("expr/env.go", """type MetaResolver struct {
	resolvers []Resolver
}
""", """type MetaResolver struct {
	resolvers []Resolver
	last      map[string]Resolver
}
"""), ("expr/env.go", """	for _, resolver := range r.resolvers {
		if t := resolver.Resolve(ident); t != nil {
			return t
		}
	}
	return nil
}

// StructTypeResolver""", """	if resolver, ok := r.last[ident]; ok {
		if t := resolver.Resolve(ident); t != nil {
			return t
		}
	}
	for _, resolver := range r.resolvers {
		if t := resolver.Resolve(ident); t != nil {
			if r.last == nil {
				r.last = map[string]Resolver{}
			}
			r.last[ident] = resolver
			return t
		}
	}
	return nil
}

// StructTypeResolver""")],
 "a name that an earlier resolver starts to know after a later one has answered for it", "the later resolver keeps answering", '''
func TestDemo(t *testing.T) {
	m := map[string]expr.Value{}
	r := expr.NewMetaResolver()
	r.AddResolver(expr.NewMapResolver(m))
	r.AddResolver(expr.NewMapResolver(map[string]expr.Value{"x": expr.ValueOf(1)}))
	if v, err := expr.Eval(r, "x"); err != nil || v != 1 { t.Fatal(v, err) }
	m["x"] = expr.ValueOf(2)
	if v, err := expr.Eval(r, "x"); err != nil || v != 2 { t.Fatal(v, err) }
}''', ["github.com/go-restruct/restruct/expr"], pkg="./expr")

seed("c16-operand-limit", "C16", [("expr/parse.go", """	a bool
	t token
}""", """	a bool
	t token
	n int
}"""), ("expr/parse.go", """func (p *parser) parseexpr(depth int) node {
	var n node
""", """func (p *parser) parseexpr(depth int) node {
	var n node

	// Do not let hostile input exhaust the stack.
	if p.n++; p.n > 500 {
		panic("expression nested too deep")
	}
""")],
 "an expression of more than 500 operands, nested or not", "it does not parse", '''
func TestDemo(t *testing.T) {
	v, err := expr.Eval(expr.NewMetaResolver(), "1"+strings.Repeat(" + 1", 600))
	if err != nil || v != 601 && v != int64(601) { t.Fatal(v, err) }
}''', ["github.com/go-restruct/restruct/expr","strings"], pkg="./expr")

seed("c16-fold", "C16", [("expr/parse.go", """		n = binaryexpr{op: op, a: n, b: operand(depth)}
	}
""", """		n = fold(binaryexpr{op: op, a: n, b: operand(depth)})
	}
"""), ("expr/parse.go", """func (p *parser) parse() node {""", """// fold computes the quotient and remainder of literals.
func fold(n binaryexpr) node {
	a, ok1 := n.a.(intnode)
	b, ok2 := n.b.(intnode)
	if !ok1 || !ok2 || a.sign || b.sign {
		return n
	}
	switch n.op {
	case binarydiv:
		a.uval /= b.uval
	case binaryrem:
		a.uval %= b.uval
	default:
		return n
	}
	return a
}

func (p *parser) parse() node {""")],
 "a division of literals by zero in an operand that is not evaluated", "the expression fails instead of having the value of the other operand", '''
func TestDemo(t *testing.T) {
	v, err := expr.Eval(expr.NewMetaResolver(), "true ? 2 : 1 / 0")
	if err != nil { t.Fatal(v, err) }
}''', ["github.com/go-restruct/restruct/expr"], pkg="./expr")

seed("c22-case-memo", "C22", [("encoder.go", """		if matches(e.evalExpr(f.CaseExpr), on) {
			e.write(f, v)
			return""", """		c, ok := caseValues[f.CaseExpr]
		if !ok {
			c = e.evalExpr(f.CaseExpr)
			caseValues[f.CaseExpr] = c
		}
		if matches(c, on) {
			e.write(f, v)
			return"""), ("encoder.go", """func (e *encoder) switc(""", """// caseValues holds the values of the cases of switches.
var caseValues = map[*expr.Program]interface{}{}

func (e *encoder) switc("""), ("encoder.go", '''	"math"
	"reflect"
)''', '''	"math"
	"reflect"

	"github.com/go-restruct/restruct/expr"
)''')],
 "a case= that is not a constant, packed twice with different values", "the second time the value of the first is compared", '''
type T struct {
	K, C uint8
	S struct {
		A uint8 `struct:"case=C"`
		B uint8 `struct:"default"`
	} `struct:"switch=K"`
}
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	for _, k := range []uint8{1, 2} {
		v := T{K: k, C: k}
		v.S.A, v.S.B = 7, 8
		b, err := restruct.Pack(binary.BigEndian, &v)
		if err != nil || b[2] != 7 { t.Fatal(b, err) }
	}
}''', R)

seed("c13-convertible", "C13", [("structstack.go", """	if ancestor.Type().AssignableTo(v.Type()) {
		v.Set(ancestor)""", """	if ancestor.Type().ConvertibleTo(v.Type()) {
		v.Set(ancestor.Convert(v.Type()))""")],
 "a parent link to a struct beyond a nearer one of another type with the same fields", "it points to the nearer struct", '''
type L struct { P *A `struct:"parent"`; X uint8 }
type B struct { L L }
type A struct { L L }
type W struct { Q [1]struct{ B B2 } }
type B2 struct { L M }
type A2 struct { L M; B B2 }
type M struct { P *A3 `struct:"parent"` ; X uint8 }
type A3 struct { L N; K uint8 }
type N struct { Y uint8 }
type C3 struct { L N; K uint8 }
type Leaf struct { P *Out `struct:"parent"`; X uint8 }
type Out struct { I In }
type In struct { I Leaf2 }
type Leaf2 struct { P *R1 `struct:"parent"` ; X uint8 }
type R1 struct { M Mid }
type Mid struct { N Leaf2 }
type P1 struct { K uint8; S []Leaf3 `struct:"size=1"` }
type P2 struct { K uint8; S []Leaf3 `struct:"size=1"` }
type Leaf3 struct { U *P1 `struct:"parent"`; V *P2 `struct:"parent"`; X uint8 }
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	x := P2{}
	if err := restruct.Unpack([]byte{1, 2}, binary.BigEndian, &x); err != nil || x.S[0].U != nil || x.S[0].V != &x { t.Fatal(x, err) }
}''', R)

seed("c27-utf8", "C27", [("decoder.go", "			v.SetString(string(d.readBytes(alen)))", "			v.SetString(strings.ToValidUTF8(string(d.readBytes(alen)), \"\\ufffd\"))")],
 "a string whose bytes are not valid UTF-8", "they are replaced when it is unpacked", '''
type T struct {
	N uint8 `struct:"sizeof=S"`
	S string
}
func TestDemo(t *testing.T) {
	x := T{}
	if err := restruct.Unpack([]byte{1, 0xff}, binary.BigEndian, &x); err != nil || x.S != "\\xff" { t.Fatal(x, err) }
}''', R)

seed("c21-many", "C21", [("decoder.go", """					v.Set(reflect.Zero(v.Type()))
					for d.evalWhile(f) {""", """					v.Set(reflect.MakeSlice(v.Type(), 0, len(d.buf)/64+4))
					for v.Len() < v.Cap() && d.evalWhile(f) {""")],
 "a while= list of more short elements than were reserved", "the rest is not read", '''
type T struct { L []uint8 `struct:"while=!_eof"` }
''' + ENABLE + '''
func TestDemo(t *testing.T) {
	x := T{}
	if err := restruct.Unpack([]byte{1, 2, 3, 4, 5}, binary.BigEndian, &x); err != nil || len(x.L) != 5 { t.Fatal(x, err) }
}''', R)

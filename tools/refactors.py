"""Behaviour-preserving refactorings of /repo, on which every check has to stay quiet.

refactors.py DIR ID: applies refactoring ID to the copy of /repo in DIR.
refactors.py: lists the IDs.
"""
import re, sys

R = {}
def refactor(f):
    R[f.__name__] = f
    return f

class Tree:
    def __init__(self, d): self.d = d
    def read(self, f): return open(f"{self.d}/{f}").read()
    def write(self, f, s): open(f"{self.d}/{f}", "w").write(s)
    def sub(self, f, old, new, n=1):
        s = self.read(f)
        assert s.count(old) == n, (f, old, s.count(old))
        self.write(f, s.replace(old, new))
    def rex(self, f, old, new, flags=re.S):
        s = self.read(f)
        r, n = re.subn(old, new, s, flags=flags)
        assert n > 0, (f, old)
        self.write(f, r)
    def func(self, f, start, new):
        "replaces the top-level declaration that starts with start"
        s = self.read(f)
        i = s.index("\n" + start) + 1
        j = s.index("\n}\n", i) + 3
        self.write(f, s[:i] + new.strip("\n") + "\n" + s[j:])
    def append(self, f, new): self.write(f, self.read(f) + "\n" + new.strip("\n") + "\n")

@refactor
def bits_bytewise(t):
    "bit-level reads and writes work on partial bytes instead of single bits"
    t.func("decoder.go", "func putBit(", "")
    t.func("decoder.go", "func (d *decoder) readBit()", '''
// take reads n bits, at most 8, which need not be aligned.
func (d *decoder) take(n int) byte {
	have := 8 - int(d.bitCounter)
	w := d.buf[0] << d.bitCounter
	if n > have {
		w |= d.buf[1] >> uint(have)
	}
	used := int(d.bitCounter) + n
	d.bitCounter = uint8(used & 7)
	d.buf = d.buf[used>>3:]
	return w >> uint(8-n)
}
''')
    t.rex("decoder.go", r"\tif d.bitCounter == 0 && decodedBits%8 == 0 \{.*?\n\t\}\n\}\n", '''\tif d.bitCounter == 0 && decodedBits%8 == 0 {
		n := copy(outBuf, d.buf)
		_ = n
		d.buf = d.buf[len(outBuf):]
		return
	}
	first := (decodedBits + 7) % 8 + 1
	for i := range outBuf {
		if i == 0 {
			outBuf[0] = d.take(first)
		} else {
			outBuf[i] = d.take(8)
		}
	}
}
''')
    t.rex("decoder.go", r"\t\t\tfor bit := 0; bit < 8; bit\+\+ \{.*?\n\t\t\t\}\n", "\t\t\tx[i] = d.take(8)\n")
    t.func("encoder.go", "func getBit(", "")
    t.func("encoder.go", "func (e *encoder) writeBit(", '''
// put writes the n low bits of value, at most 8, which need not be aligned.
func (e *encoder) put(value byte, n int) {
	value <<= uint(8 - n)
	e.buf[0] |= value >> uint(e.bitCounter)
	rest := e.bitCounter + n - 8
	if rest > 0 {
		e.buf[1] |= value << uint(8-e.bitCounter)
	}
	e.bitCounter += n
	e.buf = e.buf[e.bitCounter/8:]
	e.bitCounter %= 8
}
''')
    t.rex("encoder.go", r"\t\tfor i := 0; i < encodedBits; i\+\+ \{.*?\n\t\t\}\n", '''		for i, b := range inBuf {
			n := 8
			if i == 0 {
				n = encodedBits - 8*(len(inBuf)-1)
			}
			e.put(b, n)
		}
''')
    # sign extension by one helper
    for n in (8, 16, 32, 64):
        t.func("decoder.go", f"func (d *decoder) extend{n}(", "")
    t.sub("decoder.go", "return d.extend8(uint8(b[0]), extend)", "return uint8(d.extend(uint64(b[0]), 8, extend))")
    for n in (16, 32, 64):
        t.sub("decoder.go", f"return d.extend{n}(d.order.Uint{n}(b), extend)", f"return uint{n}(d.extend(uint64(d.order.Uint{n}(b)), {n}, extend))")
    t.append("decoder.go", '''
// extend extends the sign of the lowest bits of a value, as far as the field
// that is being decoded is narrower than its type of the given width.
func (d *decoder) extend(val uint64, width int, signed bool) uint64 {
	if !signed || d.bitSize == 0 {
		return val
	}
	if width < 64 {
		// Historic operator precedence: (val & 1) << (size-1).
		if val&1 != 0 && d.bitSize <= width {
			val |= ^uint64(0) << uint(d.bitSize)
		}
		return val
	}
	if val>>uint(d.bitSize-1)&1 != 0 {
		val |= ^uint64(0) << uint(d.bitSize)
	}
	return val
}
''')

@refactor
def cache_syncmap(t):
    "the caches of fields and types become a sync.Map and a copy-on-write map"
    t.sub("field.go", "var fieldCache = map[reflect.Type][]field{}\nvar cacheMutex = sync.RWMutex{}\n", "var fieldCache sync.Map // reflect.Type -> fields\n")
    t.func("field.go", "func cachedFieldsFromStruct(", '''
func cachedFieldsFromStruct(typ reflect.Type) fields {
	if r, ok := fieldCache.Load(typ); ok {
		return r.(fields)
	}
	r, _ := fieldCache.LoadOrStore(typ, fieldsFromStruct(typ))
	return r.(fields)
}
''')
    t.sub("expr/type.go", '\t"sync"\n', '\t"sync"\n\t"sync/atomic"\n')
    t.sub("expr/type.go", "var typemap = map[reflect.Type]Type{}\nvar typemutex = sync.Mutex{}\n", '''
var (
	typemap   atomic.Value // map[reflect.Type]Type, never modified
	typemutex sync.Mutex   // held while typemap is replaced
)
''')
    t.func("expr/type.go", "func savetypes(", '''
func savetypes(types map[reflect.Type]Type) {
	if len(types) == 0 {
		return
	}
	typemutex.Lock()
	defer typemutex.Unlock()

	old, _ := typemap.Load().(map[reflect.Type]Type)
	m := make(map[reflect.Type]Type, len(old)+len(types))
	for k, v := range old {
		m[k] = v
	}
	for k, v := range types {
		m[k] = v
	}
	typemap.Store(m)
}
''')
    t.func("expr/type.go", "func loadtype(", '''
func loadtype(t reflect.Type) (Type, bool) {
	m, _ := typemap.Load().(map[reflect.Type]Type)
	et, ok := m[t]
	return et, ok
}
''')

@refactor
def cache_onelock(t):
    "one mutex, double-checked, with defer; entries as pointers"
    t.sub("field.go", "var fieldCache = map[reflect.Type][]field{}\nvar cacheMutex = sync.RWMutex{}\n", '''
type cacheEntry struct {
	once   sync.Once
	fields fields
	failed interface{}
}

var fieldCache struct {
	sync.Mutex
	m map[reflect.Type]*cacheEntry
}
''')
    t.func("field.go", "func cachedFieldsFromStruct(", '''
func cacheEntryFor(typ reflect.Type) *cacheEntry {
	fieldCache.Lock()
	defer fieldCache.Unlock()
	if fieldCache.m == nil {
		fieldCache.m = make(map[reflect.Type]*cacheEntry)
	}
	e := fieldCache.m[typ]
	if e == nil {
		e = new(cacheEntry)
		fieldCache.m[typ] = e
	}
	return e
}

func cachedFieldsFromStruct(typ reflect.Type) fields {
	e := cacheEntryFor(typ)
	e.once.Do(func() {
		defer func() { e.failed = recover() }()
		e.fields = fieldsFromStruct(typ)
	})
	if e.failed != nil {
		panic(e.failed)
	}
	return e.fields
}
''')
    t.sub("expr/type.go", "var typemutex = sync.Mutex{}", "var typemutex = sync.RWMutex{}")
    t.func("expr/type.go", "func loadtype(", '''
func loadtype(t reflect.Type) (et Type, ok bool) {
	typemutex.RLock()
	et, ok = typemap[t]
	typemutex.RUnlock()
	return
}
''')

@refactor
def stack_shared(t):
    "struct stack: shared helpers for expressions and switches"
    t.func("structstack.go", "func (s *structstack) evalBits(", '''
func (s *structstack) evalBits(f field) int {
	if f.BitsExpr == nil {
		return int(f.BitSize)
	}
	bits := s.evalInt(f.BitsExpr)
	if bits < 0 {
		panic(fmt.Errorf("%s: negative bit size %d", f.Name, bits))
	}
	return bits
}

var typeOfInt = reflect.TypeOf(int(0))

// evalInt evaluates an expression to an int.
func (s *structstack) evalInt(program *expr.Program) int {
	return int(reflect.ValueOf(s.evalExpr(program)).Convert(typeOfInt).Int())
}

// evalBool evaluates an expression to a bool.
func (s *structstack) evalBool(program *expr.Program, what string) bool {
	b, ok := s.evalExpr(program).(bool)
	if !ok {
		panic("expected bool value for " + what + " expr")
	}
	return b
}
''')
    t.func("structstack.go", "func (s *structstack) evalSize(", '''
func (s *structstack) evalSize(f field) int {
	if f.SizeExpr == nil {
		return 0
	}
	return s.evalInt(f.SizeExpr)
}
''')
    t.func("structstack.go", "func (s *structstack) evalIf(", '''
func (s *structstack) evalIf(f field) bool {
	return f.IfExpr == nil || s.evalBool(f.IfExpr, "if")
}
''')
    t.func("structstack.go", "func (s *structstack) evalWhile(", '''
func (s *structstack) evalWhile(f field) bool { return s.evalBool(f.WhileExpr, "while") }
''')
    t.func("structstack.go", "func (s *structstack) switcbits(", '''
func (s *structstack) switcbits(f field, v reflect.Value, on interface{}) int {
	if c, cv, ok := s.choose(f, v, on); ok {
		return s.fieldbits(c, cv)
	}
	return 0
}

// choose picks the case of a switch.
func (s *structstack) choose(f field, v reflect.Value, on interface{}) (c field, cv reflect.Value, ok bool) {
	if v.Kind() != reflect.Struct {
		panic(fmt.Errorf("%s: only switches on structs are valid", f.Name))
	}
	for _, sf := range cachedFieldsFromStruct(f.BinaryType) {
		switch {
		case sf.Flags&DefaultFlag == DefaultFlag:
			if ok {
				panic(fmt.Errorf("%s: only one default case is allowed", sf.Name))
			}
			c, cv, ok = sf, v.Field(sf.Index), true
		case sf.CaseExpr == nil:
			panic(fmt.Errorf("%s: only cases are valid inside switches", sf.Name))
		case matches(s.evalExpr(sf.CaseExpr), on):
			return sf, v.Field(sf.Index), true
		}
	}
	return
}
''')
    t.rex("structstack.go", r"type switchcase struct \{.*?\n\}\n", "")
    t.func("encoder.go", "func (e *encoder) switc(", '''
func (e *encoder) switc(f field, v reflect.Value, on interface{}) {
	if c, cv, ok := e.choose(f, v, on); ok {
		e.write(c, cv)
	}
}
''')
    t.func("decoder.go", "func (d *decoder) switc(", '''
func (d *decoder) switc(f field, v reflect.Value, on interface{}) {
	if v.Kind() == reflect.Struct {
		for _, sf := range cachedFieldsFromStruct(f.BinaryType) {
			if fv := v.Field(sf.Index); fv.CanSet() {
				fv.Set(reflect.Zero(fv.Type()))
			}
		}
	}
	if c, cv, ok := d.choose(f, v, on); ok {
		d.read(c, cv)
	}
}
''')
    t.sub("encoder.go", "\t\tfor i := 1; i < len(e.stack); i++ {\n\t\t\tif e.setancestor(f, v, e.ancestor(i)) {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n", "\t\te.setparent(f, v)\n")
    t.sub("decoder.go", "\t\tfor i := 1; i < len(d.stack); i++ {\n\t\t\tif d.setancestor(f, v, d.ancestor(i)) {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n", "\t\td.setparent(f, v)\n")
    t.sub("structstack.go", "\t\tfor i := 1; i < len(s.stack); i++ {\n\t\t\tif s.setancestor(f, val, s.ancestor(i)) {\n\t\t\t\tbreak\n\t\t\t}\n\t\t}\n", "\t\ts.setparent(f, val)\n")
    t.append("structstack.go", '''
func (s *structstack) setparent(f field, v reflect.Value) {
	generation := 1
	for generation < len(s.stack) && !s.setancestor(f, v, s.ancestor(generation)) {
		generation++
	}
}
''')

@refactor
def codec_helpers(t):
    "encoder and decoder: cases of the big switches extracted, statements reordered"
    t.rex("encoder.go", r"\tcase reflect.Array, reflect.Slice, reflect.String:\n\t\tswitch f.NativeType.Kind\(\) \{.*?\n\tcase reflect.Struct:\n.*?\n\tcase reflect.Int8:\n", '''	case reflect.Array, reflect.Slice, reflect.String:
		e.writeList(f, ov)

	case reflect.Struct:
		e.writeStruct(f, ov)

	case reflect.Int8:
''')
    t.sub("encoder.go", "\tsfields := e.sfields\n\torder := e.order\n\n\tif f.Order != nil {\n\t\te.order = f.Order\n\t\tdefer func() { e.order = order }()\n\t}\n", '''	defer func(order binary.ByteOrder) {
		e.order = order
	}(e.order)
	if f.Order != nil {
		e.order = f.Order
	}
''')
    t.append("encoder.go", '''
// writeStruct writes the fields of a struct in order.
func (e *encoder) writeStruct(f field, v reflect.Value) {
	outer := e.sfields
	e.push(v)
	e.sfields = cachedFieldsFromStruct(f.BinaryType)
	for _, sf := range e.sfields {
		if sv := v.Field(sf.Index); sv.CanSet() {
			e.write(sf, sv)
		} else {
			e.skip(sf, sv)
		}
	}
	e.pop(v)
	e.sfields = outer
}

// writeList writes the elements of an array, slice or string.
func (e *encoder) writeList(f field, v reflect.Value) {
	kind := f.NativeType.Kind()
	if kind != reflect.Array && kind != reflect.Slice && kind != reflect.String {
		panic(fmt.Errorf("invalid array cast type: %s", f.NativeType.String()))
	}

	n := v.Len()
	if kind != reflect.Array && f.SizeExpr != nil {
		if want := e.evalSize(f); want != n {
			panic(fmt.Errorf("length does not match size expression (%d != %d)", n, want))
		}
	}

	room := n
	if f.BinaryType.Kind() == reflect.Array {
		if room = f.BinaryType.Len(); n > room {
			panic(fmt.Errorf("%s: length %d does not fit in %s", f.Name, n, f.BinaryType))
		}
	}

	elem := f.Elem()
	for i := 0; i < room; i++ {
		if i < n {
			e.write(elem, v.Index(i))
			continue
		}
		e.write(elem, reflect.New(f.BinaryType.Elem()).Elem())
	}
}
''')
    # decoder
    t.rex("decoder.go", r"\t\tl := len\(sfields\)\n\t\tfor i := 0; i < l; i\+\+ \{\n\t\t\tif sfields\[i\].Index != f.SIndex \{.*?\n\t\t\tbreak\n\t\t\}\n", '''		for _, sf := range sfields {
			if sf.Index == f.SIndex {
				alen = countOf(sf, sv)
				break
			}
		}
''')
    t.append("decoder.go", '''
// countOf returns the number of elements that a size field holds.
func countOf(sf field, sv reflect.Value) int {
	switch sf.BinaryType.Kind() {
	case reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return int(sv.Int())
	case reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int(sv.Uint())
	}
	panic(fmt.Errorf("unsupported size type %s: %s", sf.BinaryType.String(), sf.Name))
}

// setSlice stores the elements of a slice; grow appends them one by one.
func (d *decoder) grow(f field, v reflect.Value, more func(n int) bool) {
	ef := f.Elem()
	list := reflect.Zero(v.Type())
	v.Set(list)
	for n := 0; more(n); n++ {
		nv := reflect.New(ef.NativeType).Elem()
		d.read(ef, nv)
		v.Set(reflect.Append(v, nv))
	}
}
''')
    t.rex("decoder.go", r"\t\t\tif f.WhileExpr != nil \{\n\t\t\t\tswitch f.NativeType.Kind\(\) \{\n\t\t\t\tcase reflect.Slice:.*?\n\t\t\t\} else \{\n\t\t\t\tv.Set\(reflect.MakeSlice\(f.NativeType, alen, alen\)\)\n\t\t\t\tfixed\(\)\n\t\t\t\}\n", '''			switch {
			case f.WhileExpr != nil:
				d.grow(f, v, func(int) bool { return d.evalWhile(f) })
			case alen > 8*len(d.buf):
				// More elements than bits left: do not trust the length.
				d.grow(f, v, func(n int) bool { return n < alen })
			default:
				v.Set(reflect.MakeSlice(f.NativeType, alen, alen))
				fixed()
			}
''')
    t.func("decoder.go", "func (d *decoder) setInt(", '''
func (d *decoder) setInt(f field, v reflect.Value, x int64) {
	if v.Kind() == reflect.Bool {
		d.setUint(f, v, uint64(x))
		return
	}
	v.SetInt(x)
}
''')
    t.func("decoder.go", "func (d *decoder) setUint(", '''
func (d *decoder) setUint(f field, v reflect.Value, x uint64) {
	if v.Kind() != reflect.Bool {
		v.SetUint(x)
		return
	}
	inverted := f.Flags&InvertedBoolFlag != 0
	v.SetBool((x != 0) != inverted)
}
''')
    t.func("encoder.go", "func (e *encoder) intFromField(", '''
func (e *encoder) intFromField(f field, v reflect.Value) int64 {
	if v.Kind() != reflect.Bool {
		return v.Int()
	}
	return boolBits(f, v.Bool())
}

// boolBits returns the encoding of a boolean: 0, 1 or -1.
func boolBits(f field, b bool) int64 {
	if (f.Flags&InvertedBoolFlag != 0) == b {
		return 0
	}
	if f.Flags&VariantBoolFlag != 0 {
		return -1
	}
	return 1
}
''')
    t.func("encoder.go", "func (e *encoder) uintFromField(", '''
func (e *encoder) uintFromField(f field, v reflect.Value) uint64 {
	if v.Kind() == reflect.Bool {
		return uint64(boolBits(f, v.Bool()))
	}
	return v.Uint()
}
''')

@refactor
def parser_climbing(t):
    "expression parser by precedence climbing"
    s = t.read("expr/parse.go")
    i = s.index("// This parser is strongly based")
    t.write("expr/parse.go", s[:i] + '''// operators are the binary operators by token.
var operators = map[tokenkind]struct {
	op   binaryop
	prec int
}{
	multoken:          {binarymul, 7},
	quotoken:          {binarydiv, 7},
	remtoken:          {binaryrem, 7},
	shltoken:          {binarylsh, 7},
	shrtoken:          {binaryrsh, 7},
	andtoken:          {binaryand, 7},
	andnottoken:       {binaryandnot, 7},
	addtoken:          {binaryadd, 6},
	subtoken:          {binarysub, 6},
	ortoken:           {binaryor, 6},
	xortoken:          {binaryxor, 6},
	equaltoken:        {binaryequal, 5},
	notequaltoken:     {binarynotequal, 5},
	lessertoken:       {binarylesser, 5},
	lesserequaltoken:  {binarylesserequal, 5},
	greatertoken:      {binarygreater, 5},
	greaterequaltoken: {binarygreaterequal, 5},
	logicalandtoken:   {binarylogicaland, 4},
	logicalortoken:    {binarylogicalor, 3},
}

var unaryoperators = map[tokenkind]unaryop{
	addtoken: unaryplus,
	subtoken: unarynegate,
	nottoken: unarynot,
	xortoken: unarybitnot,
	multoken: unaryderef,
	andtoken: unaryref,
}

func (p *parser) unexpected() {
	panic(fmt.Errorf("unexpected %s token", p.readtoken().kind))
}

// primary parses an operand without operators; nil if there is none.
func (p *parser) primary() node {
	t := *p.readtoken()
	var n node
	switch t.kind {
	case identtoken:
		n = newidentnode(t)
	case inttoken:
		n = newintnode(t)
	case floattoken:
		n = newfloatnode(t)
	case booltoken:
		n = newboolnode(t)
	case strtoken:
		n = newstrnode(t)
	case runetoken:
		n = newrunenode(t)
	case nilkeyword:
		n = newnilnode(t)
	case leftparentoken:
		p.consume()
		n = p.list(false)
		p.expect(rightparentoken)
		return n
	default:
		return nil
	}
	p.consume()
	return n
}

// unary parses an operand with its prefix and postfix operators.
func (p *parser) unary() node {
	if op, ok := unaryoperators[p.readtoken().kind]; ok {
		p.consume()
		return unaryexpr{op: op, n: p.unary()}
	}
	n := p.primary()
	if n == nil {
		p.unexpected()
	}
	for {
		switch {
		case p.accept(periodtoken):
			b := p.primary()
			if b == nil {
				p.unexpected()
			}
			n = binaryexpr{op: binarymember, a: n, b: b}
		case p.accept(leftparentoken):
			n = binaryexpr{op: binarycall, a: n, b: p.list(true)}
			p.expect(rightparentoken)
		case p.accept(leftbrackettoken):
			b := p.list(false)
			n = binaryexpr{op: binarysubscript, a: n, b: b}
			p.expect(rightbrackettoken)
		default:
			return n
		}
	}
}

// binary parses operators that bind tighter than min.
func (p *parser) binary(min int) node {
	n := p.unary()
	for {
		o, ok := operators[p.readtoken().kind]
		if !ok || o.prec <= min {
			return n
		}
		p.consume()
		n = binaryexpr{op: o.op, a: n, b: p.binary(o.prec)}
	}
}

// expr parses an expression without commas.
func (p *parser) expr() node {
	n := p.binary(2)
	for p.readtoken().kind == ternarytoken || p.readtoken().kind == logicalortoken {
		if p.accept(logicalortoken) {
			n = binaryexpr{op: binarylogicalor, a: n, b: p.binary(3)}
			continue
		}
		p.consume()
		t := ternaryexpr{a: n}
		t.b = p.expr()
		p.expect(colontoken)
		t.c = p.expr()
		n = t
	}
	return n
}

// list parses expressions separated by commas.
func (p *parser) list(call bool) node {
	if call && p.readtoken().kind == rightparentoken {
		return nil
	}
	n := p.expr()
	for p.accept(commatoken) {
		if k := p.readtoken().kind; k == rightparentoken || k == rightbrackettoken || k == eoftoken {
			n = binaryexpr{op: binarygroup, a: n}
			break
		}
		n = binaryexpr{op: binarygroup, a: n, b: p.expr()}
	}
	return n
}

func (p *parser) parse() node {
	n := p.list(false)
	p.expect(eoftoken)
	return n
}
''')

@refactor
def value_kinds(t):
    "expression values: operators by reflect kind instead of concrete types"
    s = t.read("expr/value.go")
    def cut(s, name):
        i = s.index(f"\nfunc (v val) {name}(") + 1
        j = s.index("\n}\n", i) + 3
        return s[:i] + s[j:]
    for n in "Negate BitNot Lesser LesserEqual Greater GreaterEqual Add Sub Or Xor Mul Div Rem Lsh Rsh And AndNot".split():
        s = cut(s, n)
    s += '''
// class is a group of kinds that share their operators.
type class int

const (
	other class = iota
	signedint
	unsignedint
	floating
	text
)

func classof(v reflect.Value) class {
	switch v.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return signedint
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return unsignedint
	case reflect.Float32, reflect.Float64:
		return floating
	case reflect.String:
		return text
	}
	return other
}

// retype converts a result back to the type of operand like.
func retype(x interface{}, like reflect.Value) reflect.Value {
	return reflect.ValueOf(x).Convert(like.Type())
}

func (v val) Negate() Value {
	v = v.signed()
	n := reflect.ValueOf(v.RawValue())
	switch classof(n) {
	case signedint:
		return val{retype(-n.Int(), n), v.t}
	case unsignedint:
		return val{retype(-n.Uint(), n), v.t}
	case floating:
		return val{retype(-n.Float(), n), v.t}
	}
	panic(InvalidOpError{Op: "-", V: v})
}

func (v val) BitNot() Value {
	v = v.signed()
	n := reflect.ValueOf(v.RawValue())
	switch classof(n) {
	case signedint:
		return val{retype(^n.Int(), n), v.t}
	case unsignedint:
		return val{retype(^n.Uint(), n), v.t}
	}
	panic(InvalidOpError{Op: "^", V: v})
}

// compare applies a comparison to numbers.
func (v val) compare(op string, rhs Value, i func(a, b int64) bool, u func(a, b uint64) bool, f func(a, b float64) bool) Value {
	l, r := coerce(v, rhs)
	a, b := reflect.ValueOf(l.RawValue()), reflect.ValueOf(r.RawValue())
	var result bool
	switch classof(a) {
	case signedint:
		result = i(a.Int(), b.Int())
	case unsignedint:
		result = u(a.Uint(), b.Uint())
	case floating:
		result = f(a.Float(), b.Float())
	default:
		panic(InvalidOpError{Op: op, V: l})
	}
	return val{reflect.ValueOf(result), NewPrimitiveType(Bool)}
}
'''
    for n, op in (("Lesser", "<"), ("LesserEqual", "<="), ("Greater", ">"), ("GreaterEqual", ">=")):
        s += f'''
func (v val) {n}(rhs Value) Value {{
	return v.compare("{op}", rhs,
		func(a, b int64) bool {{ return a {op} b }},
		func(a, b uint64) bool {{ return a {op} b }},
		func(a, b float64) bool {{ return a {op} b }})
}}
'''
    s += '''
// restype is the type of the result of an operator.
func restype(v Value) Type {
	return primType[reflect.TypeOf(v.RawValue()).Kind()]
}

// arith applies an arithmetic operator.
func (v val) arith(op string, rhs Value, i func(a, b int64) int64, u func(a, b uint64) uint64, f func(a, b float64) float64, t func(a, b string) string) Value {
	l, r := coerce(v, rhs)
	a, b := reflect.ValueOf(l.RawValue()), reflect.ValueOf(r.RawValue())
	c := classof(a)
	switch {
	case c == signedint && i != nil:
		return val{retype(i(a.Int(), b.Int()), a), restype(l)}
	case c == unsignedint && u != nil:
		return val{retype(u(a.Uint(), b.Uint()), a), restype(l)}
	case c == floating && f != nil:
		return val{retype(f(a.Float(), b.Float()), a), restype(l)}
	case c == text && t != nil:
		return val{reflect.ValueOf(t(a.String(), b.String())), restype(l)}
	}
	panic(InvalidOpError{Op: op, V: l})
}
'''
    for n, op, fl in (("Add", "+", 1), ("Sub", "-", 1), ("Mul", "*", 1), ("Div", "/", 1), ("Rem", "%", 0), ("Or", "|", 0), ("Xor", "^", 0), ("And", "&", 0), ("AndNot", "&^", 0)):
        f = f"func(a, b float64) float64 {{ return a {op} b }}" if fl else "nil"
        st = "func(a, b string) string { return a + b }" if n == "Add" else "nil"
        s += f'''
func (v val) {n}(rhs Value) Value {{
	return v.arith("{op}", rhs,
		func(a, b int64) int64 {{ return a {op} b }},
		func(a, b uint64) uint64 {{ return a {op} b }},
		{f}, {st})
}}
'''
    s += '''
// shiftby returns the operands of a shift.
func (v val) shiftby(op string, rhs Value) (l Value, n reflect.Value, count uint64) {
	l = coerce1(v)
	c := reflect.ValueOf(rhs.RawValue())
	if classof(c) != unsignedint {
		panic(InvalidOpError{Op: op, V: rhs})
	}
	return l, reflect.ValueOf(l.RawValue()), c.Uint()
}

func (v val) Lsh(rhs Value) Value {
	l, n, count := v.shiftby("<<", rhs)
	switch classof(n) {
	case signedint:
		return val{retype(n.Int()<<count, n), restype(l)}
	case unsignedint:
		return val{retype(n.Uint()<<count, n), restype(l)}
	}
	panic(InvalidOpError{Op: "<<", V: l})
}

func (v val) Rsh(rhs Value) Value {
	l, n, count := v.shiftby(">>", rhs)
	switch classof(n) {
	case signedint:
		return val{retype(n.Int()>>count, n), restype(l)}
	case unsignedint:
		return val{retype(n.Uint()>>count, n), restype(l)}
	}
	panic(InvalidOpError{Op: ">>", V: l})
}
'''
    t.write("expr/value.go", s)

@refactor
def tag_table(t):
    "tag parser: options by table, helper methods instead of closures"
    s = t.read("tag.go")
    i = s.index("func (opts *tagOptions) parse(")
    j = s.index("// mustParseTag calls")
    t.write("tag.go", s[:i] + '''// tagScanner reads options from a tag.
type tagScanner struct {
	rest string
}

// done reports whether the tag has been read.
func (s *tagScanner) done() bool { return s.rest == "" }

func (s *tagScanner) accept(prefix string) bool {
	if !strings.HasPrefix(s.rest, prefix) {
		return false
	}
	s.rest = strings.TrimPrefix(s.rest, prefix)
	return true
}

// word returns what is left of the current option.
func (s *tagScanner) word() string {
	n := strings.IndexByte(s.rest, ',')
	if n < 0 {
		n = len(s.rest)
	}
	w := s.rest[:n]
	s.rest = s.rest[n:]
	return w
}

func (s *tagScanner) ident() (string, error) {
	w := s.word()
	if w == "" {
		return "", errors.New("expected identifier")
	}
	for i, r := range w {
		if !isident(r) || i == 0 && isdigit(r) {
			return "", fmt.Errorf("invalid identifier character %c", r)
		}
	}
	return w, nil
}

func (s *tagScanner) integer() (int, error) {
	w := s.word()
	for _, r := range w {
		if !isint(r) {
			return 0, fmt.Errorf("invalid integer character %c", r)
		}
	}
	d, err := strconv.ParseInt(w, 0, 64)
	return int(d), err
}

var closers = map[byte]byte{'(': ')', '[': ']', '{': '}'}

// literal returns the index of the end of the literal at i.
func (s *tagScanner) literal(i int) (int, error) {
	quote := s.rest[i]
	for i++; i < len(s.rest); i++ {
		switch s.rest[i] {
		case quote:
			return i, nil
		case '\\\\':
			i++
		}
	}
	return 0, errors.New("unexpected eof in literal")
}

func (s *tagScanner) expr() (string, error) {
	var open []byte
	i := 0
loop:
	for ; i < len(s.rest); i++ {
		c := s.rest[i]
		if c == ',' && len(open) == 0 {
			break loop
		}
		if closer, ok := closers[c]; ok {
			open = append(open, closer)
			continue
		}
		if c == '"' || c == '\\'' {
			end, err := s.literal(i)
			if err != nil {
				return "", err
			}
			i = end
			continue
		}
		if n := len(open); n > 0 && open[n-1] == c {
			open = open[:n-1]
		}
	}
	if len(open) > 0 {
		return "", errors.New("unexpected eof in expr")
	}
	e := s.rest[:i]
	if strings.TrimSpace(e) == "" {
		return "", errors.New("expected expression")
	}
	s.rest = s.rest[i:]
	return e, nil
}

type tagHandler struct {
	key    string
	handle func(opts *tagOptions, s *tagScanner) error
}

func flagHandler(key string, flag func(*tagOptions) *bool) tagHandler {
	return tagHandler{key, func(opts *tagOptions, s *tagScanner) error {
		*flag(opts) = true
		return nil
	}}
}

func orderHandler(key string, order binary.ByteOrder) tagHandler {
	return tagHandler{key, func(opts *tagOptions, s *tagScanner) error {
		opts.Order = order
		return nil
	}}
}

func stringHandler(key string, value func(*tagOptions) *string, read func(s *tagScanner) (string, error)) tagHandler {
	return tagHandler{key + "=", func(opts *tagOptions, s *tagScanner) error {
		v, err := read(s)
		if err != nil {
			return fmt.Errorf("%s: %v", key, err)
		}
		*value(opts) = v
		return nil
	}}
}

// tagHandlers are tried in order.
var tagHandlers = []tagHandler{
	orderHandler("lsb", binary.LittleEndian),
	orderHandler("little", binary.LittleEndian),
	orderHandler("msb", binary.BigEndian),
	orderHandler("big", binary.BigEndian),
	orderHandler("network", binary.BigEndian),
	flagHandler("variantbool", func(o *tagOptions) *bool { return &o.VariantBoolFlag }),
	flagHandler("invertedbool", func(o *tagOptions) *bool { return &o.InvertedBoolFlag }),
	flagHandler("root", func(o *tagOptions) *bool { return &o.RootFlag }),
	flagHandler("parent", func(o *tagOptions) *bool { return &o.ParentFlag }),
	flagHandler("default", func(o *tagOptions) *bool { return &o.DefaultFlag }),
	stringHandler("sizeof", func(o *tagOptions) *string { return &o.SizeOf }, (*tagScanner).ident),
	stringHandler("sizefrom", func(o *tagOptions) *string { return &o.SizeFrom }, (*tagScanner).ident),
	{"skip=", func(opts *tagOptions, s *tagScanner) (err error) {
		if opts.Skip, err = s.integer(); err != nil {
			err = fmt.Errorf("skip: %v", err)
		}
		return
	}},
	stringHandler("if", func(o *tagOptions) *string { return &o.IfExpr }, (*tagScanner).expr),
	stringHandler("size", func(o *tagOptions) *string { return &o.SizeExpr }, (*tagScanner).expr),
	stringHandler("bits", func(o *tagOptions) *string { return &o.BitsExpr }, (*tagScanner).expr),
	stringHandler("in", func(o *tagOptions) *string { return &o.InExpr }, (*tagScanner).expr),
	stringHandler("out", func(o *tagOptions) *string { return &o.OutExpr }, (*tagScanner).expr),
	stringHandler("while", func(o *tagOptions) *string { return &o.WhileExpr }, (*tagScanner).expr),
	stringHandler("switch", func(o *tagOptions) *string { return &o.SwitchExpr }, (*tagScanner).expr),
	stringHandler("case", func(o *tagOptions) *string { return &o.CaseExpr }, (*tagScanner).expr),
	{"-", func(opts *tagOptions, s *tagScanner) error {
		return errors.New("extra options on ignored field")
	}},
	{"", (*tagOptions).parseTypeOption},
}

// parseTypeOption parses a type, optionally with a size in bits.
func (opts *tagOptions) parseTypeOption(s *tagScanner) error {
	text, err := s.expr()
	if err != nil {
		return fmt.Errorf("struct type: %v", err)
	}
	size := ""
	colon := strings.IndexByte(text, ':')
	if colon >= 0 {
		text, size = text[:colon], text[colon+1:]
	}
	if opts.Type, err = parseType(text); err != nil {
		return fmt.Errorf("struct type: %v", err)
	}
	if colon < 0 {
		return nil
	}
	if !validBitType(opts.Type) {
		return fmt.Errorf("struct type bits specified on non-bitwise type %s", opts.Type)
	}
	bits, err := strconv.ParseUint(size, 0, 8)
	if err != nil {
		return errors.New("struct type bits: invalid integer syntax")
	}
	if max := uint64(uint8(opts.Type.Bits())); bits == 0 || bits >= max {
		return fmt.Errorf("bit size %d out of range (%d to %d)", bits, 1, opts.Type.Bits()-1)
	}
	opts.BitSize = uint8(bits)
	return nil
}

func (opts *tagOptions) parse(tag string) error {
	switch {
	case tag == "":
		return nil
	case tag == "-":
		opts.Ignore = true
		return nil
	case strings.Contains(tag, "\\x00"):
		return errors.New("tag: unexpected NUL")
	}
	s := &tagScanner{rest: tag}
	for {
		for _, h := range tagHandlers {
			if s.accept(h.key) {
				if err := h.handle(opts, s); err != nil {
					return err
				}
				break
			}
		}
		if s.done() {
			return nil
		}
		if !s.accept(",") {
			return errors.New("tag: expected comma")
		}
	}
}

''' + s[j:])

@refactor
def packing_guard(t):
    "entry points: one guard for panics"
    s = t.read("packing.go")
    s = s.replace('''	defer func() {
		if r := recover(); r != nil {
			err = errorFromPanic(r)
		}
	}()

	f, val := fieldFromIntf(v)
	ss := structstack{allowexpr: expressionsEnabled, buf: data}
	d := decoder{structstack: ss, order: order}
	if _, ok := d.unpacker(val); !ok && !val.CanSet() {
		return fmt.Errorf("cannot unpack into unaddressable %s", val.Type())
	}
	d.read(f, val)

	return
}
''', '''	return guard(func() error {
		f, val := fieldFromIntf(v)
		d := newDecoder(data, order)
		if _, ok := d.unpacker(val); ok || val.CanSet() {
			d.read(f, val)
			return nil
		}
		return fmt.Errorf("cannot unpack into unaddressable %s", val.Type())
	})
}

// guard calls fn and turns a panic into an error.
func guard(fn func() error) (err error) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case error:
			err = r
		default:
			err = fmt.Errorf("restruct: %v", r)
		}
	}()
	return fn()
}

func newDecoder(data []byte, order binary.ByteOrder) *decoder {
	d := new(decoder)
	d.buf, d.order, d.allowexpr = data, order, expressionsEnabled
	return d
}
''')
    i = s.index("func SizeOf("); j = s.index("/*\nBitSize")
    s = s[:i] + '''func SizeOf(v interface{}) (size int, err error) {
	bits, err := BitSize(v)
	if err != nil {
		return 0, err
	}
	return bitsToBytes(bits), nil
}

func bitsToBytes(bits int) int { return (bits + 7) / 8 }

''' + s[j:]
    i = s.index("func BitSize("); j = s.index("/*\nPack writes")
    s = s[:i] + '''func BitSize(v interface{}) (size int, err error) {
	err = guard(func() error {
		ss := &structstack{}
		ss.allowexpr = expressionsEnabled
		f, val := fieldFromIntf(v)
		size = ss.fieldbits(f, addressable(val))
		return nil
	})
	return size, err
}

''' + s[j:]
    i = s.index("func Pack(")
    s = s[:i] + '''func Pack(order binary.ByteOrder, v interface{}) ([]byte, error) {
	var data []byte
	err := guard(func() error {
		f, val := fieldFromIntf(v)
		val = addressable(val)

		e := &encoder{order: order}
		e.allowexpr = expressionsEnabled
		e.buf = []byte{}
		data = make([]byte, bitsToBytes(e.fieldbits(f, val)))
		e.buf = data
		e.write(f, val)
		return nil
	})
	if err != nil {
		return nil, err
	}
	return data, nil
}
'''
    i = s.index("// errorFromPanic"); j = s.index("func fieldFromIntf")
    s = s[:i] + s[j:]
    t.write("packing.go", s)

@refactor
def sizes_split(t):
    "sizes: one function per kind; size field lookups by index"
    t.rex("structstack.go", r"\talen := 1\n\tswitch f.BinaryType.Kind\(\) \{.*?\n// fieldbytes returns", '''	return skipBits + s.valuebits(f, val)
}

var fixedBits = map[reflect.Kind]int{
	reflect.Int8: 8, reflect.Uint8: 8, reflect.Bool: 8,
	reflect.Int16: 16, reflect.Uint16: 16,
	reflect.Int: 32, reflect.Int32: 32, reflect.Uint: 32, reflect.Uint32: 32, reflect.Float32: 32,
	reflect.Int64: 64, reflect.Uint64: 64, reflect.Float64: 64, reflect.Complex64: 64,
	reflect.Complex128: 128,
}

// valuebits is fieldbits without the bytes that are skipped.
func (s *structstack) valuebits(f field, val reflect.Value) int {
	kind := f.BinaryType.Kind()
	if bits, ok := fixedBits[kind]; ok {
		return bits
	}
	switch kind {
	case reflect.Slice, reflect.String:
		switch f.NativeType.Kind() {
		case reflect.Slice, reflect.String, reflect.Array:
			return s.listbits(f, val, val.Len())
		case reflect.Ptr:
			panic(fmt.Errorf("%s: no length in a pointer", f.Name))
		}
		// Not something that is encoded.
		return -f.Skip * 8
	case reflect.Array:
		if f.BinaryType.Len() == 0 {
			return 0
		}
		if f.NativeType.Kind() == reflect.Ptr {
			return s.ptrbits(f, val)
		}
		return s.listbits(f, val, f.BinaryType.Len())
	case reflect.Ptr:
		if f.NativeType.Kind() == reflect.Ptr {
			return s.ptrbits(f, val)
		}
		return s.listbits(f, val, 1)
	case reflect.Struct:
		s.push(val)
		bits := s.fieldsbits(cachedFieldsFromStruct(f.BinaryType), val)
		s.pop(val)
		return bits
	}
	return -f.Skip * 8
}

func (s *structstack) ptrbits(f field, val reflect.Value) int {
	if val.IsNil() {
		return 0
	}
	return s.fieldbits(f.Elem(), val.Elem())
}

func (s *structstack) listbits(f field, val reflect.Value, n int) (bits int) {
	switch f.NativeType.Kind() {
	case reflect.Slice, reflect.String, reflect.Array:
	default:
		return 0
	}
	if n == 0 {
		return 0
	}
	elem := f.Elem()
	if elem.Trivial {
		return n * s.fieldbits(elem, reflect.Zero(elem.BinaryType))
	}
	for i := 0; i < n; i++ {
		bits += s.fieldbits(elem, val.Index(i))
	}
	return bits
}

// fieldbytes returns''')

@refactor
def lexer_table(t):
    "expression scanner: punctuation by table"
    s = t.read("expr/lex.go")
    i = s.index("\tcase s.accept('+'):\n\t\treturn s.tokensym(addtoken")
    j = s.rindex("\tdefault:\n\t\treturn s.errsymf(\"unexpected rune %c\", s.readrune())\n\t}\n}")
    s = s[:i] + '''	case s.accept('-'):
		if !operand && s.peekmatch(isdigit) {
			return s.scannumber(token{sval: "-"})
		}
		return s.tokensym(subtoken, "-")
	case s.accept('.'):
		if s.peekmatch(isdigit) {
			return s.scannumber(token{sval: "."})
		}
		return s.tokensym(periodtoken, ".")
	}
	return s.scanpunct()
}

// punctuation maps the text of a token to its kind.
var punctuation = map[string]tokenkind{
	"+": addtoken, "*": multoken, "/": quotoken, "%": remtoken,
	"&": andtoken, "&&": logicalandtoken, "&^": andnottoken,
	"|": ortoken, "||": logicalortoken, "^": xortoken,
	"<": lessertoken, "<=": lesserequaltoken, "<<": shltoken,
	">": greatertoken, ">=": greaterequaltoken, ">>": shrtoken,
	"==": equaltoken, "!": nottoken, "!=": notequaltoken,
	"(": leftparentoken, ")": rightparentoken,
	"[": leftbrackettoken, "]": rightbrackettoken,
	",": commatoken, ":": colontoken, "?": ternarytoken,
}

// scanpunct scans the longest punctuation token.
func (s *scanner) scanpunct() token {
	text := string(s.readrune())
	for {
		r := s.readrune()
		if _, ok := punctuation[text+string(r)]; r != eof && ok {
			text += string(r)
			continue
		}
		s.unreadrune()
		break
	}
	if k, ok := punctuation[text]; ok {
		return s.tokensym(k, text)
	}
	return s.errsymf("unexpected rune %s", text)
}
''' + "\n" + s[j+len("\tdefault:\n\t\treturn s.errsymf(\"unexpected rune %c\", s.readrune())\n\t}\n}"):]
    t.write("expr/lex.go", s)

@refactor
def eval_tables(t):
    "evaluation: binary operators by table of method expressions"
    s = t.read("expr/eval.go")
    i = s.index("\tb := evalnode(resolver, node.b)\n\tswitch node.op {")
    j = s.index("func evalternary(")
    s = s[:i] + '''	f := binaryops[node.op]
	b := evalnode(resolver, node.b)
	if f == nil {
		panic("invalid binary expression")
	}
	return f(a, b)
}

var binaryops = [...]func(a, b Value) Value{
	binarylogicalor:    Value.LogicalOr,
	binarylogicaland:   Value.LogicalAnd,
	binaryequal:        Value.Equal,
	binarynotequal:     Value.NotEqual,
	binarylesser:       Value.Lesser,
	binarylesserequal:  Value.LesserEqual,
	binarygreater:      Value.Greater,
	binarygreaterequal: Value.GreaterEqual,
	binaryadd:          Value.Add,
	binarysub:          Value.Sub,
	binaryor:           Value.Or,
	binaryxor:          Value.Xor,
	binarymul:          Value.Mul,
	binarydiv:          Value.Div,
	binaryrem:          Value.Rem,
	binarylsh:          Value.Lsh,
	binaryrsh:          Value.Rsh,
	binaryand:          Value.And,
	binaryandnot:       Value.AndNot,
	binarysubscript:    Value.Index,
}

''' + s[j:]
    t.write("expr/eval.go", s)
    t.sub("expr/eval.go", '''		in := []Value{}
		for _, n := range flattengroup(node.b) {
			in = append(in, evalnode(resolver, n))
		}
		return a.Call(in)
''', '''		args := flattengroup(node.b)
		in := make([]Value, len(args))
		for i := range args {
			in[i] = evalnode(resolver, args[i])
		}
		return a.Call(in)
''')
    t.func("expr/eval.go", "func flattengroup(", '''
func flattengroup(n node) (list []node) {
	for n != nil {
		g, ok := n.(binaryexpr)
		if !ok || g.op != binarygroup {
			list = append(list, n)
			break
		}
		if g.b != nil {
			list = append(list, g.b)
		}
		n = g.a
	}
	for i, j := 0, len(list)-1; i < j; i, j = i+1, j-1 {
		list[i], list[j] = list[j], list[i]
	}
	return list
}
''')

@refactor
def types_typestr(t):
    "expr types with String by table; tag types by a recursive descent on kinds; field flags by loop"
    s = t.read("expr/type.go")
    i = s.index("func (t PrimitiveType) String()")
    j = s.index("// Kind implements Type.", i)
    s = s[:i] + '''func (t PrimitiveType) String() string {
	return primName[t.kind]
}

var primName = map[Kind]string{
	Bool: "bool", Int: "int", Int8: "int8", Int16: "int16", Int32: "int32", Int64: "int64",
	Uint: "uint", Uint8: "uint8", Uint16: "uint16", Uint32: "uint32", Uint64: "uint64",
	Uintptr: "uintptr", Float32: "float32", Float64: "float64", String: "string",
}

''' + s[j:]
    t.write("expr/type.go", s)
    t.func("expr/type.go", "func assignable(", '''
func assignable(from Type, to Type) bool {
	if TypeEqual(from, to) {
		return true
	}
	k := to.Kind()
	switch from.Kind() {
	case UntypedNil:
		return k == Ptr || k == Func || k == Slice || k == Map
	case UntypedBool:
		return k == Bool
	case UntypedFloat:
		return k == Float32 || k == Float64
	case UntypedInt:
		return k >= Int && k <= Float64 || k == UntypedFloat
	}
	return false
}
''')
    t.rex("typestr.go", r"\tcase \*ast.ArrayType:\n.*?\n\tcase \*ast.Ident:", '''	case *ast.ArrayType:
		if expr.Len == nil {
			elem, err := typeOfExpr(expr.Elt)
			if err != nil {
				return nil, err
			}
			return reflect.SliceOf(elem), nil
		}
		n, err := arrayLen(expr.Len)
		if err != nil {
			return nil, err
		}
		elem, err := typeOfExpr(expr.Elt)
		if err != nil {
			return nil, err
		}
		return reflect.ArrayOf(n, elem), nil
	case *ast.Ident:''')
    t.append("typestr.go", '''
// arrayLen evaluates the length of an array type.
func arrayLen(e ast.Expr) (int, error) {
	switch lit, ok := e.(*ast.BasicLit); {
	case !ok:
		return 0, fmt.Errorf("invalid array size expression")
	case lit.Kind != token.INT:
		return 0, fmt.Errorf("invalid array size type")
	default:
		return strconv.Atoi(lit.Value)
	}
}
''')
    t.sub("field.go", '''		for _, field := range cachedFieldsFromStruct(typ) {
			if !isTypeTrivial(field.BinaryType) || !isTypeTrivial(field.NativeType) {
				return false
			}
			if field.IfExpr != nil || field.BitsExpr != nil || field.SwitchExpr != nil {
				return false
			}
		}
		return true
''', '''		trivial := true
		for _, f := range cachedFieldsFromStruct(typ) {
			plain := f.IfExpr == nil && f.BitsExpr == nil && f.SwitchExpr == nil
			trivial = trivial && plain && isTypeTrivial(f.NativeType) && isTypeTrivial(f.BinaryType)
		}
		return trivial
''')

if __name__ == "__main__":
    if len(sys.argv) < 3:
        print("\n".join(R))
    else:
        R[sys.argv[2]](Tree(sys.argv[1]))

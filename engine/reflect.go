package main

// A model of package reflect over the machine's own heap. Panic kinds follow the real package:
// *reflect.ValueError for a wrong kind, plain strings elsewhere.

import (
	"fmt"
	"go/types"
	"math"
	"reflect"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type RVal struct {
	T   *RType
	C   *Cell // memory holding the value, when it was reached through memory
	V   Value // the value otherwise
	A   bool  // addressable
	RO  bool  // obtained through an unexported field
	Emb bool  // RO only for being an embedded unexported field: its exported fields are not
}

func rvalSame(a, b Value) bool {
	x, _ := a.O.(*RVal)
	y, _ := b.O.(*RVal)
	if x == nil || y == nil {
		return x == y
	}
	if x.T != y.T || x.A != y.A || x.RO != y.RO || x.C != y.C {
		return false
	}
	return x.C != nil || x == y
}

func (r *RVal) get(m *M) Value {
	if r.C != nil {
		if m.raceOn {
			m.raceLoad(r.C)
		}
		return load(r.C)
	}
	return r.V
}

func rv(v Value) *RVal {
	r, _ := v.O.(*RVal)
	if r == nil {
		return &RVal{}
	}
	return r
}

func (r *RVal) kind() reflect.Kind {
	if r.T == nil {
		return reflect.Invalid
	}
	return r.T.Kind
}

func RV(r *RVal) Value { return Value{O: r} }

func (m *M) valueErr(method string, k reflect.Kind) {
	t := RT(types.NewPointer(U.prog.ImportedPackage("reflect").Type("ValueError").Type()))
	c := NewCell(t.Elem())
	mem := c.V.O.(*Mem)
	mem.C[0].V = S(method)
	mem.C[1].V = I(int(k))
	panic(&goPanic{Value{O: &Iface{T: t, V: Value{O: c}}}})
}

func (m *M) mustBe(r *RVal, method string, ks ...reflect.Kind) {
	k := r.kind()
	for _, x := range ks {
		if x == k {
			return
		}
	}
	m.valueErr("reflect.Value."+method, k)
}

func (m *M) mustAssign(r *RVal, method string) {
	if r.T == nil {
		m.valueErr("reflect.Value."+method, reflect.Invalid)
	}
	if r.RO {
		m.panicStr("reflect: reflect.Value." + method + " using value obtained using unexported field")
	}
	if !r.A {
		m.panicStr("reflect: reflect.Value." + method + " using unaddressable value")
	}
}

func (m *M) mustExp(r *RVal, method string) {
	if r.T == nil {
		m.valueErr("reflect.Value."+method, reflect.Invalid)
	}
	if r.RO {
		m.panicStr("reflect: reflect.Value." + method + " using value obtained using unexported field")
	}
}

var rtypeRT *RType

func typeIface(t *RType) Value {
	if t == nil {
		return Value{}
	}
	if rtypeRT == nil {
		rtypeRT = RT(types.NewPointer(U.prog.ImportedPackage("reflect").Type("rtype").Type()))
	}
	return Value{O: &Iface{T: rtypeRT, V: Value{O: t}}}
}

func (m *M) typeArg(v Value) *RType {
	i, _ := v.O.(*Iface)
	if i == nil {
		m.nilDeref()
	}
	t, ok := i.V.O.(*RType)
	if !ok {
		panic(abortf("foreign reflect.Type implementation"))
	}
	return t
}

func mkIface(t *RType, v Value) Value {
	if t.Kind == reflect.Interface {
		return v
	}
	return Value{O: &Iface{T: t, V: v}}
}

// assignTo converts a value for storing in type dst, as reflect.Value.assignTo does.
func (m *M) assignTo(r *RVal, ctx string, dst *RType) Value {
	if r.T == nil {
		m.valueErr(ctx, reflect.Invalid)
	}
	v := r.get(m)
	if r.T == dst {
		return v
	}
	if dst.Kind == reflect.Interface {
		if r.T.Kind == reflect.Interface {
			if v.O == nil {
				return Value{}
			}
			if r.T.Implements(dst) || v.O.(*Iface).T.Implements(dst) {
				return v
			}
		} else if r.T.Implements(dst) {
			return Value{O: &Iface{T: r.T, V: v}}
		}
	} else if types.AssignableTo(r.T.T, dst.T) && r.T.Kind == dst.Kind {
		return v
	}
	m.panicStr(ctx + ": value of type " + r.T.String() + " is not assignable to type " + dst.String())
	return Value{}
}

func (m *M) rlen(r *RVal, method string) Value {
	switch r.kind() {
	case reflect.Slice:
		return m.sliceLen(r.get(m))
	case reflect.Array:
		return I(r.T.n)
	case reflect.String:
		return I(strLen(r.get(m)))
	case reflect.Map:
		mp, _ := r.get(m).O.(*MapV)
		if mp == nil {
			return I(0)
		}
		return I(mp.n)
	case reflect.Chan:
		return I(0)
	case reflect.Pointer:
		if r.T.Elem().Kind == reflect.Array {
			return I(r.T.Elem().n)
		}
		m.panicStr("reflect: call of reflect.Value.Len on ptr to non-array Value")
	}
	m.valueErr("reflect.Value."+method, r.kind())
	return Value{}
}

func (r *RVal) mem() *Mem {
	if r.C == nil {
		return nil
	}
	return r.C.V.O.(*Mem)
}

func (m *M) rfield(r *RVal, i int) *RVal {
	if r.kind() != reflect.Struct {
		m.valueErr("reflect.Value.Field", r.kind())
	}
	if r.T.opaque {
		panic(abortf("reflection into reflect.Value"))
	}
	fs := r.T.Fields()
	if i < 0 || i >= len(fs) {
		m.panicStr("reflect: Field index out of range")
	}
	f := fs[i]
	sticky := r.RO && !r.Emb
	out := &RVal{T: f.Type, A: r.A, RO: sticky || !f.Exported, Emb: !sticky && !f.Exported && f.Embedded}
	if r.C != nil {
		out.C = &r.mem().C[i]
	} else {
		out.V = r.V.O.(*Agg).F[i]
	}
	return out
}

func (m *M) relem(r *RVal) *RVal {
	switch r.kind() {
	case reflect.Interface:
		v := r.get(m)
		if v.O == nil {
			return nil
		}
		i := v.O.(*Iface)
		return &RVal{T: i.T, V: i.V, RO: r.RO}
	case reflect.Pointer:
		v := r.get(m)
		if v.O == nil {
			return nil
		}
		if _, ok := v.O.(*RType); ok {
			panic(abortf("reflection into *reflect.rtype"))
		}
		return &RVal{T: r.T.Elem(), C: m.ptr(v), A: true, RO: r.RO, Emb: r.Emb}
	}
	m.valueErr("reflect.Value.Elem", r.kind())
	return nil
}

func RVn(r *RVal) Value {
	if r == nil {
		return Value{}
	}
	return Value{O: r}
}

func (m *M) rindex(r *RVal, idx Value) *RVal {
	it := RT(typInt)
	switch r.kind() {
	case reflect.Array:
		if idx.O == nil && (int64(idx.N) < 0 || int64(idx.N) >= int64(r.T.n)) {
			m.panicStr("reflect: array index out of range")
		}
		i := int(idx.N)
		if idx.O != nil {
			x := idx.O.(*Term)
			if !m.decide(m.c.Ult(x, m.c.Const(64, uint64(r.T.n)))) {
				m.panicStr("reflect: array index out of range")
			}
			i = int(m.concretize(x))
		}
		out := &RVal{T: r.T.Elem(), A: r.A, RO: r.RO}
		if r.C != nil {
			out.C = r.mem().at(i)
		} else {
			out.V = r.V.O.(*Agg).F[i]
		}
		return out
	case reflect.Slice:
		sv, _ := r.get(m).O.(*SliceV)
		n := 0
		if sv != nil {
			n = sv.Len
			if sv.SymLen != nil {
				if idx.O != nil {
					panic(abortf("symbolic index into a slice of symbolic length"))
				}
				if !m.decide(m.c.Ult(m.c.Const(64, idx.N), sv.SymLen)) {
					m.panicStr("reflect: slice index out of range")
				}
				return &RVal{T: r.T.Elem(), C: sv.M.at(sv.Off + int(idx.N)), A: true, RO: r.RO}
			}
		}
		i := int(idx.N)
		if idx.O != nil {
			x := idx.O.(*Term)
			if !m.decide(m.c.Ult(x, m.c.Const(64, uint64(n)))) {
				m.panicStr("reflect: slice index out of range")
			}
			i = int(m.concretize(x))
		}
		if int64(i) < 0 || i >= n {
			m.panicStr("reflect: slice index out of range")
		}
		return &RVal{T: r.T.Elem(), C: sv.M.at(sv.Off + i), A: true, RO: r.RO}
	case reflect.String:
		s := r.get(m)
		n := strLen(s)
		if idx.O == nil && (int64(idx.N) < 0 || int64(idx.N) >= int64(n)) {
			m.panicStr("reflect: string index out of range")
		}
		if idx.O != nil && !m.decide(m.c.Ult(idx.O.(*Term), m.c.Const(64, uint64(n)))) {
			m.panicStr("reflect: string index out of range")
		}
		return &RVal{T: RT(typUint8), V: m.strIndex(s, idx, it), RO: r.RO}
	}
	m.valueErr("reflect.Value.Index", r.kind())
	return nil
}

func (m *M) rset(r *RVal, method string, v Value) {
	m.store(r.C, v)
}

func findField(t *RType, name string) ([]int, *RType, bool) {
	obj, idx, _ := types.LookupFieldOrMethod(t.T, false, nil, name)
	v, ok := obj.(*types.Var)
	if !ok {
		// unexported fields need their package
		fs := t.Fields()
		hit := -1
		for i := range fs {
			if fs[i].Name == name {
				if hit >= 0 {
					return nil, nil, false
				}
				hit = i
			}
		}
		if hit < 0 {
			return nil, nil, false
		}
		return []int{hit}, fs[hit].Type, true
	}
	return idx, RT(v.Type()), true
}

func (m *M) rfieldByIndex(r *RVal, idx []int) *RVal {
	for k, i := range idx {
		if k > 0 && r.kind() == reflect.Pointer && r.T.Elem().Kind == reflect.Struct {
			if r.get(m).O == nil {
				m.panicStr("reflect: indirection through nil pointer to embedded struct")
			}
			r = m.relem(r)
		}
		r = m.rfield(r, i)
	}
	return r
}

func (m *M) structField(t *RType, idx []int) Value {
	st := RT(U.prog.ImportedPackage("reflect").Type("StructField").Type())
	f := t.Fields()[idx[len(idx)-1]]
	var ix []Value
	for _, i := range idx {
		ix = append(ix, I(i))
	}
	a := &Agg{F: make([]Value, len(st.Fields()))}
	for i, sf := range st.Fields() {
		switch sf.Name {
		case "Name":
			a.F[i] = S(f.Name)
		case "PkgPath":
			a.F[i] = S(f.PkgPath)
		case "Type":
			a.F[i] = typeIface(f.Type)
		case "Tag":
			a.F[i] = S(f.Tag)
		case "Offset":
			a.F[i] = I(int(f.Offset))
		case "Index":
			a.F[i] = m.mkSlice(ix, RT(typInt))
		case "Anonymous":
			a.F[i] = B(f.Embedded)
		}
	}
	return Value{O: a}
}

// zeroTerm is reflect.Value.IsZero.
func (m *M) zeroTerm(t *RType, v Value) *Term {
	switch t.Kind {
	case reflect.Bool:
		return m.c.BNot(m.boolTerm(v))
	case reflect.String:
		return m.c.Bool(strLen(v) == 0)
	case reflect.Array:
		r := m.c.True
		for _, x := range v.O.(*Agg).F {
			r = m.c.BAnd(r, m.zeroTerm(t.Elem(), x))
		}
		return r
	case reflect.Struct:
		if t.opaque {
			return m.c.Bool(v.O == nil)
		}
		r := m.c.True
		for i, x := range v.O.(*Agg).F {
			r = m.c.BAnd(r, m.zeroTerm(t.Fields()[i].Type, x))
		}
		return r
	case reflect.Complex64, reflect.Complex128:
		w := uint8(32)
		if t.Kind == reflect.Complex128 {
			w = 64
		}
		re, im := cparts(v)
		return m.c.BAnd(m.c.Eq(m.term(re, w), m.c.Const(w, 0)), m.c.Eq(m.term(im, w), m.c.Const(w, 0)))
	}
	if t.W > 0 {
		return m.c.Eq(m.term(v, t.W), m.c.Const(t.W, 0))
	}
	return m.c.Bool(v.O == nil)
}

// deepEq is reflect.DeepEqual (bits=false) or bit-exact structural equality where nil and empty
// slices are the same (bits=true).
type deepKey struct {
	a, b *Cell
	t    *RType
}

func (m *M) deepEq(t *RType, a, b Value, bits bool, depth int) *Term {
	c := m.c
	if depth > 60 {
		panic(abortf("comparison of a deep value"))
	}
	switch t.Kind {
	case reflect.Float32, reflect.Float64:
		if bits {
			return c.Eq(m.term(a, t.W), m.term(b, t.W))
		}
	case reflect.Complex64, reflect.Complex128:
		if bits {
			w := uint8(32)
			if t.Kind == reflect.Complex128 {
				w = 64
			}
			ar, ai := cparts(a)
			br, bi := cparts(b)
			return c.BAnd(c.Eq(m.term(ar, w), m.term(br, w)), c.Eq(m.term(ai, w), m.term(bi, w)))
		}
	case reflect.Slice:
		x, _ := a.O.(*SliceV)
		y, _ := b.O.(*SliceV)
		if x == nil || y == nil {
			if bits {
				return c.Eq(m.term(m.sliceLen(a), 64), m.term(m.sliceLen(b), 64))
			}
			return c.Bool(x == nil && y == nil)
		}
		if x.SymLen != nil || y.SymLen != nil {
			panic(abortf("comparison of slices of symbolic length"))
		}
		if x.Len != y.Len {
			return c.False
		}
		r := c.True
		for i := 0; i < x.Len && r != c.False; i++ {
			p, q := x.M.at(x.Off+i), y.M.at(y.Off+i)
			r = c.BAnd(r, m.deepEq(t.Elem(), load(p), load(q), bits, depth+1))
		}
		return r
	case reflect.Array:
		x, y := a.O.(*Agg), b.O.(*Agg)
		r := c.True
		for i := range x.F {
			r = c.BAnd(r, m.deepEq(t.Elem(), x.F[i], y.F[i], bits, depth+1))
		}
		return r
	case reflect.Struct:
		if t.opaque {
			return c.Bool(rvalSame(a, b))
		}
		x, y := a.O.(*Agg), b.O.(*Agg)
		r := c.True
		for i, f := range t.Fields() {
			r = c.BAnd(r, m.deepEq(f.Type, x.F[i], y.F[i], bits, depth+1))
		}
		return r
	case reflect.Pointer:
		if a.O == nil || b.O == nil || samePtr(a, b) {
			return c.Bool(samePtr(a, b))
		}
		if _, ok := a.O.(*RType); ok {
			return c.False
		}
		// as in reflect.DeepEqual, pointers that are being compared count as equal
		k := deepKey{m.ptr(a), m.ptr(b), t}
		if m.deepSeen[k] {
			return c.True
		}
		if m.deepSeen == nil {
			m.deepSeen = map[deepKey]bool{}
			defer func() { m.deepSeen = nil }()
		}
		m.deepSeen[k] = true
		return m.deepEq(t.Elem(), load(k.a), load(k.b), bits, depth+1)
	case reflect.Interface:
		if a.O == nil || b.O == nil {
			return c.Bool(a.O == nil && b.O == nil)
		}
		x, y := a.O.(*Iface), b.O.(*Iface)
		if x.T != y.T {
			return c.False
		}
		return m.deepEq(x.T, x.V, y.V, bits, depth+1)
	case reflect.Map:
		x, _ := a.O.(*MapV)
		y, _ := b.O.(*MapV)
		if x == nil || y == nil {
			return c.Bool(x == nil && y == nil)
		}
		if x == y {
			return c.True
		}
		if x.n != y.n {
			return c.False
		}
		r := c.True
		for i := range x.ents {
			if x.ents[i].dead {
				continue
			}
			j := m.mapFind(y, x.ents[i].k)
			if j < 0 {
				return c.False
			}
			r = c.BAnd(r, m.deepEq(t.Elem(), load(x.ents[i].cell), load(y.ents[j].cell), bits, depth+1))
		}
		return r
	case reflect.Func:
		return c.Bool(a.O == nil && b.O == nil)
	}
	return m.eq(t, a, b)
}

func (m *M) deepEqIface(a, b Value, bits bool) *Term {
	x, _ := a.O.(*Iface)
	y, _ := b.O.(*Iface)
	if x == nil || y == nil {
		return m.c.Bool(x == nil && y == nil)
	}
	if x.T != y.T {
		return m.c.False
	}
	return m.deepEq(x.T, x.V, y.V, bits, 0)
}

type tagKey struct {
	t *RType
	i int
}

func synthPkg(path string) *types.Package {
	if p := U.prog.ImportedPackage(path); p != nil {
		return p.Pkg
	}
	fnMu.Lock()
	defer fnMu.Unlock()
	p := synthPkgs[path]
	if p == nil {
		name := path
		if i := strings.LastIndexByte(path, '/'); i >= 0 {
			name = path[i+1:]
		}
		p = types.NewPackage(path, name)
		synthPkgs[path] = p
	}
	return p
}

var synthPkgs = map[string]*types.Package{}

func exportedName(s string) bool { return s != "" && types.NewVar(0, nil, s, nil).Exported() }

func validName(s string) bool {
	for i, r := range s {
		if !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= 0x80 || i > 0 && r >= '0' && r <= '9') {
			return false
		}
	}
	return len(s) > 0
}

func (m *M) structOf(v Value) *RType {
	st := RT(U.prog.ImportedPackage("reflect").Type("StructField").Type())
	var vars []*types.Var
	var tags []string
	seen := map[string]bool{}
	for i, e := range m.vals(v) {
		a := e.O.(*Agg)
		var name, pkg, tag string
		var ft *RType
		var anon bool
		for k, sf := range st.Fields() {
			x := a.F[k]
			switch sf.Name {
			case "Name":
				name = m.concStr(x)
			case "PkgPath":
				pkg = m.concStr(x)
			case "Tag":
				tag = m.concStr(x)
			case "Type":
				if x.O == nil {
					m.panicStr(fmt.Sprintf("reflect.StructOf: field %d has no type", i))
				}
				ft = m.typeArg(x)
			case "Anonymous":
				anon = x.N != 0
			}
		}
		if name == "" {
			m.panicStr(fmt.Sprintf("reflect.StructOf: field %d has no name", i))
		}
		if !validName(name) {
			m.panicStr(fmt.Sprintf("reflect.StructOf: field %d has invalid name", i))
		}
		if !exportedName(name) && pkg == "" {
			m.panicStr("reflect.StructOf: field \"" + name + "\" is unexported but missing PkgPath")
		}
		if seen[name] && name != "_" {
			m.panicStr("reflect.StructOf: duplicate field " + name)
		}
		seen[name] = true
		var tp *types.Package
		if pkg != "" {
			tp = synthPkg(pkg)
		}
		vars = append(vars, types.NewField(0, tp, name, ft.T, anon))
		tags = append(tags, tag)
	}
	return RT(types.NewStruct(vars, tags))
}

// concStr forces a string to be concrete, forking over its bytes if need be.
func (m *M) concStr(v Value) string {
	if s, ok := strConc(v); ok {
		return s
	}
	bs := strBytes(v)
	out := make([]byte, len(bs))
	for i, b := range bs {
		if t, ok := b.O.(*Term); ok {
			out[i] = byte(m.concretize(t))
		} else {
			out[i] = byte(b.N)
		}
	}
	return string(out)
}

func (m *M) rcall(r *RVal, args []Value) Value {
	m.mustBe(r, "Call", reflect.Func)
	m.mustExp(r, "Call")
	fv := r.get(m)
	if fv.O == nil {
		m.panicStr("reflect: call of nil function")
	}
	sig := r.T.T.Underlying().(*types.Signature)
	r.T.init()
	in := m.vals(args[0])
	n := len(r.T.in)
	if sig.Variadic() {
		n--
		if len(in) < n {
			m.panicStr("reflect: Call with too few input arguments")
		}
	} else {
		if len(in) < n {
			m.panicStr("reflect: Call with too few input arguments")
		}
		if len(in) > n {
			m.panicStr("reflect: Call with too many input arguments")
		}
	}
	for _, x := range in {
		if rv(x).T == nil {
			m.panicStr("reflect: Call using zero Value argument")
		}
	}
	for i := 0; i < n; i++ {
		x := rv(in[i])
		if !x.T.assignableTo(r.T.in[i]) {
			m.panicStr("reflect: Call using " + x.T.String() + " as type " + r.T.in[i].String())
		}
	}
	var fa []Value
	for i := 0; i < n; i++ {
		x := rv(in[i])
		m.mustExp(x, "Call")
		fa = append(fa, m.assignTo(x, "reflect.Value.Call", r.T.in[i]))
	}
	if sig.Variadic() {
		st := r.T.in[n]
		var vs []Value
		for _, y := range in[n:] {
			x := rv(y)
			if !x.T.assignableTo(st.Elem()) {
				m.panicStr("reflect: cannot use " + x.T.String() + " as type " + st.Elem().String() + " in Call")
			}
			vs = append(vs, m.assignTo(x, "reflect.Value.Call", st.Elem()))
		}
		fa = append(fa, m.mkSlice(vs, st.Elem()))
	}
	res := m.callValue(m.cur, fv, fa)
	vt := RT(U.prog.ImportedPackage("reflect").Type("Value").Type())
	switch len(r.T.out) {
	case 0:
		return Value{}
	case 1:
		return m.mkSlice([]Value{RV(&RVal{T: r.T.out[0], V: res})}, vt)
	}
	var outs []Value
	for i, t := range r.T.out {
		outs = append(outs, RV(&RVal{T: t, V: res.O.(*Agg).F[i]}))
	}
	return m.mkSlice(outs, vt)
}

func rmethod(m *M, r *RVal, sel *types.Selection) *RVal {
	fn := FnOf(U.prog.MethodValue(sel))
	recv := r.get(m)
	sig := sel.Type().(*types.Signature)
	ft := RT(types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()))
	cl := &Closure{Name: fn.name, Native: func(m *M, args []Value) Value {
		return m.callFn(m.cur, fn, append([]Value{recv}, args...), nil)
	}}
	return &RVal{T: ft, V: Value{O: cl}, RO: r.RO}
}

func exportedMethods(t *RType) []*types.Selection {
	ms := t.MethodSet()
	var out []*types.Selection
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			out = append(out, ms.At(i))
		}
	}
	return out
}

func convertible(from, to *RType) bool { return types.ConvertibleTo(from.T, to.T) }

func init() {
	reg := func(name string, f Intrinsic) { intrinsics[name] = f }
	R := func(name string, f func(m *M, r *RVal, a []Value) Value) {
		reg("(reflect.Value)."+name, func(m *M, a []Value) Value { return f(m, rv(a[0]), a[1:]) })
	}
	TY := func(name string, f func(m *M, t *RType, a []Value) Value) {
		reg("(*reflect.rtype)."+name, func(m *M, a []Value) Value {
			t, ok := a[0].O.(*RType)
			if !ok {
				m.nilDeref()
			}
			return f(m, t, a[1:])
		})
	}

	// ---- package functions ----
	reg("reflect.ValueOf", func(m *M, a []Value) Value {
		i, _ := a[0].O.(*Iface)
		if i == nil {
			return Value{}
		}
		return RV(&RVal{T: i.T, V: i.V})
	})
	reg("reflect.TypeOf", func(m *M, a []Value) Value {
		i, _ := a[0].O.(*Iface)
		if i == nil {
			return Value{}
		}
		return typeIface(i.T)
	})
	reg("reflect.Zero", func(m *M, a []Value) Value {
		if a[0].O == nil {
			m.panicStr("reflect: Zero(nil)")
		}
		t := m.typeArg(a[0])
		return RV(&RVal{T: t, V: t.Zero()})
	})
	reg("reflect.New", func(m *M, a []Value) Value {
		if a[0].O == nil {
			m.panicStr("reflect: New(nil)")
		}
		t := m.typeArg(a[0])
		return RV(&RVal{T: t.PtrTo(), V: Value{O: NewCell(t)}})
	})
	reg("reflect.MakeSlice", func(m *M, a []Value) Value {
		t := m.typeArg(a[0])
		if t.Kind != reflect.Slice {
			m.panicStr("reflect.MakeSlice of non-slice type")
		}
		it := RT(typInt)
		neg := func(v Value, s string) {
			if v.O == nil {
				if int64(v.N) < 0 {
					m.panicStr(s)
				}
			} else if m.decide(m.c.Slt(v.O.(*Term), m.c.Const(64, 0))) {
				m.panicStr(s)
			}
		}
		neg(a[1], "reflect.MakeSlice: negative len")
		neg(a[2], "reflect.MakeSlice: negative cap")
		if a[1] != a[2] {
			if a[1].O == nil && a[2].O == nil && a[1].N > a[2].N {
				m.panicStr("reflect.MakeSlice: len > cap")
			}
		}
		return RV(&RVal{T: t, V: m.makeSlice(t.Elem(), a[1], it, a[2], it)})
	})
	reg("reflect.MakeMap", func(m *M, a []Value) Value {
		t := m.typeArg(a[0])
		if t.Kind != reflect.Map {
			m.panicStr("reflect.MakeMapWithSize of non-map type")
		}
		return RV(&RVal{T: t, V: Value{O: NewMap(t)}})
	})
	intrinsics["reflect.MakeMapWithSize"] = intrinsics["reflect.MakeMap"]
	reg("reflect.Append", func(m *M, a []Value) Value {
		r := rv(a[0])
		m.mustBe(r, "Append", reflect.Slice)
		m.mustExp(r, "Append")
		var vs []Value
		for _, x := range m.vals(a[1]) {
			vs = append(vs, m.assignTo(rv(x), "reflect.Set", r.T.Elem()))
		}
		return RV(&RVal{T: r.T, V: m.appendVals(r.get(m), vs, r.T.Elem())})
	})
	reg("reflect.AppendSlice", func(m *M, a []Value) Value {
		r, s := rv(a[0]), rv(a[1])
		m.mustBe(r, "AppendSlice", reflect.Slice)
		m.mustBe(s, "AppendSlice", reflect.Slice)
		return RV(&RVal{T: r.T, V: m.appendVals(r.get(m), m.vals(s.get(m)), r.T.Elem())})
	})
	reg("reflect.Copy", func(m *M, a []Value) Value {
		d, s := rv(a[0]), rv(a[1])
		m.mustBe(d, "Copy", reflect.Slice, reflect.Array)
		var vs []Value
		switch s.kind() {
		case reflect.Slice, reflect.String:
			vs = m.vals(s.get(m))
		case reflect.Array:
			vs = s.get(m).O.(*Agg).F
		default:
			m.valueErr("reflect.Copy", s.kind())
		}
		if d.kind() == reflect.Array {
			m.mustAssign(d, "Copy")
			n := min(d.T.n, len(vs))
			for i := 0; i < n; i++ {
				m.store(d.mem().at(i), vs[i])
			}
			return I(n)
		}
		sv, _ := d.get(m).O.(*SliceV)
		if sv == nil {
			return I(0)
		}
		n := min(sv.Len, len(vs))
		for i := 0; i < n; i++ {
			m.store(sv.M.at(sv.Off+i), vs[i])
		}
		return I(n)
	})
	reg("reflect.Indirect", func(m *M, a []Value) Value {
		r := rv(a[0])
		if r.kind() != reflect.Pointer {
			return a[0]
		}
		return RVn(m.relem(r))
	})
	reg("reflect.PtrTo", func(m *M, a []Value) Value { return typeIface(m.typeArg(a[0]).PtrTo()) })
	reg("reflect.PointerTo", func(m *M, a []Value) Value { return typeIface(m.typeArg(a[0]).PtrTo()) })
	reg("reflect.SliceOf", func(m *M, a []Value) Value { return typeIface(RT(types.NewSlice(m.typeArg(a[0]).T))) })
	reg("reflect.ArrayOf", func(m *M, a []Value) Value {
		n := m.intVal(a[0], 64)
		if n < 0 {
			m.panicStr("reflect: negative length passed to ArrayOf")
		}
		t := m.typeArg(a[1])
		if sz := t.Size(); sz > 0 && int64(n) > math.MaxInt64/sz {
			m.panicStr("reflect.ArrayOf: array size would exceed virtual address space")
		}
		return typeIface(RT(types.NewArray(t.T, int64(n))))
	})
	reg("reflect.MapOf", func(m *M, a []Value) Value {
		k := m.typeArg(a[0])
		if !k.Comparable() {
			m.panicStr("reflect.MapOf: invalid key type " + k.String())
		}
		return typeIface(RT(types.NewMap(k.T, m.typeArg(a[1]).T)))
	})
	reg("reflect.FuncOf", func(m *M, a []Value) Value {
		tup := func(v Value) *types.Tuple {
			var vs []*types.Var
			for _, x := range m.vals(v) {
				vs = append(vs, types.NewVar(0, nil, "", m.typeArg(x).T))
			}
			return types.NewTuple(vs...)
		}
		return typeIface(RT(types.NewSignatureType(nil, nil, nil, tup(a[0]), tup(a[1]), a[2].N != 0)))
	})
	reg("reflect.StructOf", func(m *M, a []Value) Value { return typeIface(m.structOf(a[0])) })
	reg("reflect.DeepEqual", func(m *M, a []Value) Value { return T(m.deepEqIface(a[0], a[1], false)) })
	reg("reflect.MakeFunc", func(m *M, a []Value) Value {
		t := m.typeArg(a[0])
		fn := a[1]
		t.init()
		vt := RT(U.prog.ImportedPackage("reflect").Type("Value").Type())
		cl := &Closure{Name: "reflect.MakeFunc", Native: func(m *M, args []Value) Value {
			var in []Value
			for i, x := range args {
				in = append(in, RV(&RVal{T: t.in[i], V: x}))
			}
			out := m.vals(m.callValue(m.cur, fn, []Value{m.mkSlice(in, vt)}))
			if len(out) != len(t.out) {
				m.panicStr("reflect: wrong return count from function created by MakeFunc")
			}
			var rs []Value
			for i, x := range out {
				rs = append(rs, m.assignTo(rv(x), "reflect.MakeFunc", t.out[i]))
			}
			switch len(rs) {
			case 0:
				return Value{}
			case 1:
				return rs[0]
			}
			return Value{O: &Agg{F: rs}}
		}}
		return RV(&RVal{T: t, V: Value{O: cl}})
	})
	reg("reflect.Swapper", func(m *M, a []Value) Value {
		i := a[0].O.(*Iface)
		sv, _ := i.V.O.(*SliceV)
		return Value{O: &Closure{Native: func(m *M, x []Value) Value {
			p, q := sv.M.at(sv.Off+m.intVal(x[0], 64)), sv.M.at(sv.Off+m.intVal(x[1], 64))
			pv, qv := load(p), load(q)
			m.store(p, qv)
			m.store(q, pv)
			return Value{}
		}}}
	})

	// ---- Value methods ----
	R("Kind", func(m *M, r *RVal, a []Value) Value { return I(int(r.kind())) })
	R("IsValid", func(m *M, r *RVal, a []Value) Value { return B(r.T != nil) })
	R("Type", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil {
			m.valueErr("reflect.Value.Type", reflect.Invalid)
		}
		return typeIface(r.T)
	})
	R("CanAddr", func(m *M, r *RVal, a []Value) Value { return B(r.A) })
	R("CanSet", func(m *M, r *RVal, a []Value) Value { return B(r.A && !r.RO) })
	R("CanInterface", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil {
			m.valueErr("reflect.Value.CanInterface", reflect.Invalid)
		}
		return B(!r.RO)
	})
	R("CanInt", func(m *M, r *RVal, a []Value) Value { return B(r.T != nil && r.T.isInt() && r.T.Signed) })
	R("CanUint", func(m *M, r *RVal, a []Value) Value { return B(r.T != nil && r.T.isInt() && !r.T.Signed) })
	R("CanFloat", func(m *M, r *RVal, a []Value) Value { return B(r.T != nil && r.T.isFloat()) })
	R("CanComplex", func(m *M, r *RVal, a []Value) Value {
		return B(r.kind() == reflect.Complex64 || r.kind() == reflect.Complex128)
	})
	R("Interface", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil {
			m.valueErr("Value.Interface", reflect.Invalid)
		}
		if r.RO {
			m.panicStr("reflect.Value.Interface: cannot return value obtained from unexported field or method")
		}
		return mkIface(r.T, r.get(m))
	})
	R("Addr", func(m *M, r *RVal, a []Value) Value {
		if !r.A {
			m.panicStr("reflect.Value.Addr of unaddressable value")
		}
		return RV(&RVal{T: r.T.PtrTo(), V: Value{O: r.C}, RO: r.RO})
	})
	R("UnsafeAddr", func(m *M, r *RVal, a []Value) Value { panic(abortf("UnsafeAddr")) })
	R("Elem", func(m *M, r *RVal, a []Value) Value { return RVn(m.relem(r)) })
	R("Field", func(m *M, r *RVal, a []Value) Value { return RV(m.rfield(r, m.intVal(a[0], 64))) })
	R("NumField", func(m *M, r *RVal, a []Value) Value {
		m.mustBe(r, "NumField", reflect.Struct)
		return I(len(r.T.Fields()))
	})
	R("FieldByIndex", func(m *M, r *RVal, a []Value) Value {
		var idx []int
		for _, x := range m.vals(a[0]) {
			idx = append(idx, m.intVal(x, 64))
		}
		m.mustBe(r, "FieldByIndex", reflect.Struct)
		return RV(m.rfieldByIndex(r, idx))
	})
	R("FieldByName", func(m *M, r *RVal, a []Value) Value {
		m.mustBe(r, "FieldByName", reflect.Struct)
		name := a[0]
		if s, ok := strConc(name); ok {
			idx, _, ok := findField(r.T, s)
			if !ok {
				return Value{}
			}
			return RV(m.rfieldByIndex(r, idx))
		}
		for i, f := range r.T.Fields() {
			if m.decide(m.eqStr(name, S(f.Name))) {
				return RV(m.rfield(r, i))
			}
		}
		return Value{}
	})
	R("Len", func(m *M, r *RVal, a []Value) Value { return m.rlen(r, "Len") })
	R("Cap", func(m *M, r *RVal, a []Value) Value {
		if r.kind() == reflect.Slice {
			sv, _ := r.get(m).O.(*SliceV)
			if sv == nil {
				return I(0)
			}
			if sv.SymLen != nil {
				return T(sv.SymLen)
			}
			return I(sv.Cap)
		}
		if r.kind() == reflect.Array {
			return I(r.T.n)
		}
		m.valueErr("reflect.Value.Cap", r.kind())
		return Value{}
	})
	R("Index", func(m *M, r *RVal, a []Value) Value { return RV(m.rindex(r, a[0])) })
	R("Int", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil || !r.T.isInt() || !r.T.Signed {
			m.valueErr("reflect.Value.Int", r.kind())
		}
		return convFn(r.T, RT(types.Typ[types.Int64]))(m, r.get(m))
	})
	R("Uint", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil || !r.T.isInt() || r.T.Signed {
			m.valueErr("reflect.Value.Uint", r.kind())
		}
		return convFn(r.T, RT(types.Typ[types.Uint64]))(m, r.get(m))
	})
	R("Float", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil || !r.T.isFloat() {
			m.valueErr("reflect.Value.Float", r.kind())
		}
		return convFn(r.T, RT(typFloat64))(m, r.get(m))
	})
	R("Complex", func(m *M, r *RVal, a []Value) Value {
		switch r.kind() {
		case reflect.Complex128:
			return r.get(m)
		case reflect.Complex64:
			return convFn(r.T, RT(types.Typ[types.Complex128]))(m, r.get(m))
		}
		m.valueErr("reflect.Value.Complex", r.kind())
		return Value{}
	})
	R("Bool", func(m *M, r *RVal, a []Value) Value {
		m.mustBe(r, "Bool", reflect.Bool)
		return r.get(m)
	})
	R("String", func(m *M, r *RVal, a []Value) Value {
		if r.kind() == reflect.String {
			return r.get(m)
		}
		if r.T == nil {
			return S("<invalid Value>")
		}
		return S("<" + r.T.String() + " Value>")
	})
	R("Bytes", func(m *M, r *RVal, a []Value) Value {
		switch r.kind() {
		case reflect.Slice:
			if r.T.Elem().Kind != reflect.Uint8 {
				m.panicStr("reflect.Value.Bytes of non-byte slice")
			}
			return r.get(m)
		case reflect.Array:
			if r.T.Elem().Kind != reflect.Uint8 {
				m.panicStr("reflect.Value.Bytes of non-byte array")
			}
			if !r.A {
				m.panicStr("reflect.Value.Bytes of unaddressable byte array")
			}
			return Value{O: &SliceV{M: r.mem(), Len: r.T.n, Cap: r.T.n}}
		}
		m.valueErr("reflect.Value.Bytes", r.kind())
		return Value{}
	})
	R("IsNil", func(m *M, r *RVal, a []Value) Value {
		m.mustBe(r, "IsNil", reflect.Chan, reflect.Func, reflect.Interface, reflect.Map, reflect.Pointer, reflect.Slice, reflect.UnsafePointer)
		return B(r.get(m).O == nil)
	})
	R("IsZero", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil {
			m.valueErr("reflect.Value.IsZero", reflect.Invalid)
		}
		return T(m.zeroTerm(r.T, r.get(m)))
	})
	R("Comparable", func(m *M, r *RVal, a []Value) Value { return B(r.T == nil || r.T.Comparable()) })
	R("Equal", func(m *M, r *RVal, a []Value) Value {
		s := rv(a[0])
		if r.kind() == reflect.Interface {
			r = rv(RVn(m.relem(r)))
		}
		if s.kind() == reflect.Interface {
			s = rv(RVn(m.relem(s)))
		}
		if r.T == nil || s.T == nil {
			return B(r.T == s.T)
		}
		if r.T != s.T {
			return B(false)
		}
		if !r.T.Comparable() {
			m.panicStr("reflect.Value.Equal: values of type " + r.T.String() + " are not comparable")
		}
		return T(m.eq(r.T, r.get(m), s.get(m)))
	})
	R("Pointer", func(m *M, r *RVal, a []Value) Value {
		m.mustBe(r, "Pointer", reflect.Chan, reflect.Func, reflect.Map, reflect.Pointer, reflect.Slice, reflect.String, reflect.UnsafePointer)
		return m.ptrID(r.get(m))
	})
	R("UnsafePointer", func(m *M, r *RVal, a []Value) Value { return r.get(m) })

	R("Set", func(m *M, r *RVal, a []Value) Value {
		m.mustAssign(r, "Set")
		x := rv(a[0])
		m.mustExp(x, "Set")
		m.store(r.C, m.assignTo(x, "reflect.Set", r.T))
		return Value{}
	})
	R("SetZero", func(m *M, r *RVal, a []Value) Value {
		m.mustAssign(r, "SetZero")
		m.store(r.C, r.T.Zero())
		return Value{}
	})
	R("SetBool", func(m *M, r *RVal, a []Value) Value {
		m.mustAssign(r, "SetBool")
		m.mustBe(r, "SetBool", reflect.Bool)
		m.store(r.C, a[0])
		return Value{}
	})
	R("SetInt", func(m *M, r *RVal, a []Value) Value {
		m.mustAssign(r, "SetInt")
		if !r.T.isInt() || !r.T.Signed {
			m.valueErr("reflect.Value.SetInt", r.kind())
		}
		m.store(r.C, convFn(RT(types.Typ[types.Int64]), r.T)(m, a[0]))
		return Value{}
	})
	R("SetUint", func(m *M, r *RVal, a []Value) Value {
		m.mustAssign(r, "SetUint")
		if !r.T.isInt() || r.T.Signed {
			m.valueErr("reflect.Value.SetUint", r.kind())
		}
		m.store(r.C, convFn(RT(types.Typ[types.Uint64]), r.T)(m, a[0]))
		return Value{}
	})
	R("SetFloat", func(m *M, r *RVal, a []Value) Value {
		m.mustAssign(r, "SetFloat")
		if !r.T.isFloat() {
			m.valueErr("reflect.Value.SetFloat", r.kind())
		}
		m.store(r.C, convFn(RT(typFloat64), r.T)(m, a[0]))
		return Value{}
	})
	R("SetComplex", func(m *M, r *RVal, a []Value) Value {
		m.mustAssign(r, "SetComplex")
		switch r.kind() {
		case reflect.Complex128:
			m.store(r.C, a[0])
		case reflect.Complex64:
			m.store(r.C, convFn(RT(types.Typ[types.Complex128]), r.T)(m, a[0]))
		default:
			m.valueErr("reflect.Value.SetComplex", r.kind())
		}
		return Value{}
	})
	R("SetString", func(m *M, r *RVal, a []Value) Value {
		m.mustAssign(r, "SetString")
		m.mustBe(r, "SetString", reflect.String)
		m.store(r.C, a[0])
		return Value{}
	})
	R("SetBytes", func(m *M, r *RVal, a []Value) Value {
		m.mustAssign(r, "SetBytes")
		m.mustBe(r, "SetBytes", reflect.Slice)
		if r.T.Elem().Kind != reflect.Uint8 {
			m.panicStr("reflect.Value.SetBytes of non-byte slice")
		}
		m.store(r.C, a[0])
		return Value{}
	})
	R("Grow", func(m *M, r *RVal, a []Value) Value {
		m.mustAssign(r, "Grow")
		m.mustBe(r, "Grow", reflect.Slice)
		n := m.intVal(a[0], 64)
		if n < 0 {
			m.panicStr("reflect.Value.Grow: negative len")
		}
		sv, _ := r.get(m).O.(*SliceV)
		l, c := 0, 0
		if sv != nil {
			l, c = sv.Len, sv.Cap
		}
		if l+n > c {
			vs := append([]Value(nil), m.vals(r.get(m))...)
			for len(vs) < l+n {
				vs = append(vs, r.T.Elem().Zero())
			}
			ns := m.mkSlice(vs, r.T.Elem()).O.(*SliceV)
			m.store(r.C, Value{O: &SliceV{M: ns.M, Off: ns.Off, Len: l, Cap: ns.Cap}})
		}
		return Value{}
	})
	R("SetLen", func(m *M, r *RVal, a []Value) Value {
		m.mustAssign(r, "SetLen")
		m.mustBe(r, "SetLen", reflect.Slice)
		n := m.intVal(a[0], 64)
		sv, _ := r.get(m).O.(*SliceV)
		c := 0
		if sv != nil {
			c = sv.Cap
		}
		if n < 0 || n > c {
			m.panicStr("reflect: slice length out of range in SetLen")
		}
		if sv != nil {
			m.store(r.C, Value{O: &SliceV{M: sv.M, Off: sv.Off, Len: n, Cap: sv.Cap}})
		}
		return Value{}
	})
	R("Slice", func(m *M, r *RVal, a []Value) Value { return m.rslice(r, a[0], a[1]) })
	R("SetMapIndex", func(m *M, r *RVal, a []Value) Value {
		m.mustBe(r, "SetMapIndex", reflect.Map)
		m.mustExp(r, "SetMapIndex")
		mp, _ := r.get(m).O.(*MapV)
		k := m.assignTo(rv(a[0]), "reflect.Value.SetMapIndex", r.T.Key())
		e := rv(a[1])
		if e.T == nil {
			if mp != nil {
				if m.raceOn {
					m.raceMap(mp, true)
				}
				m.mapDelete(mp, k)
			}
			return Value{}
		}
		v := m.assignTo(e, "reflect.Value.SetMapIndex", r.T.Elem())
		if mp == nil {
			m.rtPanic("assignment to entry in nil map")
		}
		if m.raceOn {
			m.raceMap(mp, true)
		}
		m.mapSet(mp, k, v)
		return Value{}
	})
	R("MapIndex", func(m *M, r *RVal, a []Value) Value {
		m.mustBe(r, "MapIndex", reflect.Map)
		mp, _ := r.get(m).O.(*MapV)
		k := m.assignTo(rv(a[0]), "reflect.Value.MapIndex", r.T.Key())
		if mp == nil {
			return Value{}
		}
		if m.raceOn {
			m.raceMap(mp, false)
		}
		i := m.mapFind(mp, k)
		if i < 0 {
			return Value{}
		}
		return RV(&RVal{T: r.T.Elem(), V: load(mp.ents[i].cell), RO: r.RO || rv(a[0]).RO})
	})
	R("MapKeys", func(m *M, r *RVal, a []Value) Value {
		m.mustBe(r, "MapKeys", reflect.Map)
		mp, _ := r.get(m).O.(*MapV)
		var out []Value
		if mp != nil {
			for _, e := range mp.ents {
				if !e.dead {
					out = append(out, RV(&RVal{T: r.T.Key(), V: e.k, RO: r.RO}))
				}
			}
		}
		return m.mkSlice(out, RT(U.prog.ImportedPackage("reflect").Type("Value").Type()))
	})
	type mapIter struct {
		r *RVal
		e []mapEnt
		i int
	}
	R("MapRange", func(m *M, r *RVal, a []Value) Value {
		m.mustBe(r, "MapRange", reflect.Map)
		it := &mapIter{r: r, i: -1}
		if mp, _ := r.get(m).O.(*MapV); mp != nil {
			for _, e := range mp.ents {
				if !e.dead {
					it.e = append(it.e, e)
				}
			}
		}
		return Value{O: it}
	})
	reg("(*reflect.MapIter).Next", func(m *M, a []Value) Value {
		it := a[0].O.(*mapIter)
		it.i++
		return B(it.i < len(it.e))
	})
	reg("(*reflect.MapIter).Key", func(m *M, a []Value) Value {
		it := a[0].O.(*mapIter)
		return RV(&RVal{T: it.r.T.Key(), V: it.e[it.i].k, RO: it.r.RO})
	})
	reg("(*reflect.MapIter).Value", func(m *M, a []Value) Value {
		it := a[0].O.(*mapIter)
		return RV(&RVal{T: it.r.T.Elem(), V: load(it.e[it.i].cell), RO: it.r.RO})
	})
	R("NumMethod", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil {
			m.valueErr("reflect.Value.NumMethod", reflect.Invalid)
		}
		return I(len(exportedMethods(r.T)))
	})
	R("Method", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil {
			m.valueErr("reflect.Value.Method", reflect.Invalid)
		}
		ms := exportedMethods(r.T)
		i := m.intVal(a[0], 64)
		if i < 0 || i >= len(ms) {
			m.panicStr("reflect: Method index out of range")
		}
		return RV(rmethod(m, r, ms[i]))
	})
	R("MethodByName", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil {
			m.valueErr("reflect.Value.MethodByName", reflect.Invalid)
		}
		name := m.concStr(a[0])
		for _, s := range exportedMethods(r.T) {
			if s.Obj().Name() == name {
				if r.T.Kind == reflect.Interface {
					panic(abortf("MethodByName on interface"))
				}
				return RV(rmethod(m, r, s))
			}
		}
		return Value{}
	})
	R("Call", func(m *M, r *RVal, a []Value) Value { return m.rcall(r, a) })
	R("Convert", func(m *M, r *RVal, a []Value) Value {
		t := m.typeArg(a[0])
		if r.T == nil || !convertible(r.T, t) {
			m.panicStr("reflect.Value.Convert: value of type " + r.T.String() + " cannot be converted to type " + t.String())
		}
		v := r.get(m)
		if t.Kind == reflect.Interface {
			return RV(&RVal{T: t, V: mkIface(r.T, v), RO: r.RO})
		}
		return RV(&RVal{T: t, V: convFn(r.T, t)(m, v), RO: r.RO})
	})
	R("CanConvert", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil {
			m.nilDeref()
		}
		return B(convertible(r.T, m.typeArg(a[0])))
	})
	ovf := func(m *M, w uint8, v Value, signed bool) Value {
		if w == 64 {
			return B(false)
		}
		t := m.term(v, 64)
		return T(m.c.BNot(m.c.Eq(m.c.Resize(m.c.Extract(t, w-1, 0), 64, signed), t)))
	}
	R("OverflowInt", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil || !r.T.isInt() || !r.T.Signed {
			m.valueErr("reflect.Value.OverflowInt", r.kind())
		}
		return ovf(m, r.T.W, a[0], true)
	})
	R("OverflowUint", func(m *M, r *RVal, a []Value) Value {
		if r.T == nil || !r.T.isInt() || r.T.Signed {
			m.valueErr("reflect.Value.OverflowUint", r.kind())
		}
		return ovf(m, r.T.W, a[0], false)
	})

	// ---- Type methods ----
	TY("Kind", func(m *M, t *RType, a []Value) Value { return I(int(t.Kind)) })
	TY("String", func(m *M, t *RType, a []Value) Value { return S(t.String()) })
	TY("Name", func(m *M, t *RType, a []Value) Value { return S(t.Name()) })
	TY("PkgPath", func(m *M, t *RType, a []Value) Value { return S(t.PkgPath()) })
	TY("Size", func(m *M, t *RType, a []Value) Value { return I(int(t.Size())) })
	TY("Align", func(m *M, t *RType, a []Value) Value { return I(int(U.sizes.Alignof(t.T))) })
	TY("FieldAlign", func(m *M, t *RType, a []Value) Value { return I(int(U.sizes.Alignof(t.T))) })
	TY("Bits", func(m *M, t *RType, a []Value) Value {
		if t.W > 0 || t.Kind == reflect.Complex64 || t.Kind == reflect.Complex128 {
			return I(int(t.Size() * 8))
		}
		m.panicStr("reflect: Bits of non-arithmetic Type " + t.String())
		return Value{}
	})
	TY("Comparable", func(m *M, t *RType, a []Value) Value { return B(t.Comparable()) })
	TY("Elem", func(m *M, t *RType, a []Value) Value {
		switch t.Kind {
		case reflect.Array, reflect.Chan, reflect.Map, reflect.Pointer, reflect.Slice:
			return typeIface(t.Elem())
		}
		m.panicStr("reflect: Elem of invalid type " + t.String())
		return Value{}
	})
	TY("Key", func(m *M, t *RType, a []Value) Value {
		if t.Kind != reflect.Map {
			m.panicStr("reflect: Key of non-map type " + t.String())
		}
		return typeIface(t.Key())
	})
	TY("Len", func(m *M, t *RType, a []Value) Value {
		if t.Kind != reflect.Array {
			m.panicStr("reflect: Len of non-array type " + t.String())
		}
		return I(t.n)
	})
	TY("NumField", func(m *M, t *RType, a []Value) Value {
		if t.Kind != reflect.Struct {
			m.panicStr("reflect: NumField of non-struct type " + t.String())
		}
		return I(len(t.Fields()))
	})
	TY("Field", func(m *M, t *RType, a []Value) Value {
		if t.Kind != reflect.Struct {
			m.panicStr("reflect: Field of non-struct type " + t.String())
		}
		i := m.intVal(a[0], 64)
		if i < 0 || i >= len(t.Fields()) {
			m.panicStr("reflect: Field index out of bounds")
		}
		return m.structField(t, []int{i})
	})
	TY("FieldByName", func(m *M, t *RType, a []Value) Value {
		if t.Kind != reflect.Struct {
			m.panicStr("reflect: FieldByName of non-struct type " + t.String())
		}
		idx, _, ok := findField(t, m.concStr(a[0]))
		if !ok {
			st := RT(U.prog.ImportedPackage("reflect").Type("StructField").Type())
			return Value{O: &Agg{F: []Value{st.Zero(), B(false)}}}
		}
		tt := t
		for _, i := range idx[:len(idx)-1] {
			tt = tt.Fields()[i].Type
			if tt.Kind == reflect.Pointer {
				tt = tt.Elem()
			}
		}
		return Value{O: &Agg{F: []Value{m.structField(tt, idx), B(true)}}}
	})
	TY("NumMethod", func(m *M, t *RType, a []Value) Value { return I(len(exportedMethods(t))) })
	TY("MethodByName", func(m *M, t *RType, a []Value) Value { panic(abortf("reflect.Type.MethodByName")) })
	TY("Method", func(m *M, t *RType, a []Value) Value { panic(abortf("reflect.Type.Method")) })
	TY("Implements", func(m *M, t *RType, a []Value) Value {
		if a[0].O == nil {
			m.panicStr("reflect: nil type passed to Type.Implements")
		}
		u := m.typeArg(a[0])
		if u.Kind != reflect.Interface {
			m.panicStr("reflect: non-interface type passed to Type.Implements")
		}
		return B(t.Implements(u))
	})
	TY("AssignableTo", func(m *M, t *RType, a []Value) Value {
		if a[0].O == nil {
			m.panicStr("reflect: nil type passed to Type.AssignableTo")
		}
		return B(t.assignableTo(m.typeArg(a[0])))
	})
	TY("ConvertibleTo", func(m *M, t *RType, a []Value) Value { return B(convertible(t, m.typeArg(a[0]))) })
	fnT := func(m *M, t *RType, what string) {
		if t.Kind != reflect.Func {
			m.panicStr("reflect: " + what + " of non-func type " + t.String())
		}
		t.init()
	}
	TY("NumIn", func(m *M, t *RType, a []Value) Value { fnT(m, t, "NumIn"); return I(len(t.in)) })
	TY("NumOut", func(m *M, t *RType, a []Value) Value { fnT(m, t, "NumOut"); return I(len(t.out)) })
	at := func(m *M, l []*RType, i int) Value {
		if i < 0 || i >= len(l) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, len(l)))
		}
		return typeIface(l[i])
	}
	TY("In", func(m *M, t *RType, a []Value) Value { fnT(m, t, "In"); return at(m, t.in, m.intVal(a[0], 64)) })
	TY("Out", func(m *M, t *RType, a []Value) Value { fnT(m, t, "Out"); return at(m, t.out, m.intVal(a[0], 64)) })
	TY("IsVariadic", func(m *M, t *RType, a []Value) Value {
		fnT(m, t, "IsVariadic")
		return B(t.T.Underlying().(*types.Signature).Variadic())
	})
	TY("common", func(m *M, t *RType, a []Value) Value { panic(abortf("reflect internals")) })
	TY("uncommon", func(m *M, t *RType, a []Value) Value { panic(abortf("reflect internals")) })
}

func (m *M) rslice(r *RVal, lo, hi Value) Value {
	switch r.kind() {
	case reflect.Slice, reflect.String:
	case reflect.Array:
		if !r.A {
			m.panicStr("reflect.Value.Slice: slice of unaddressable array")
		}
	default:
		m.valueErr("reflect.Value.Slice", r.kind())
	}
	l, h := m.intVal(lo, 64), m.intVal(hi, 64)
	switch r.kind() {
	case reflect.String:
		s := r.get(m)
		if l < 0 || h < l || h > strLen(s) {
			m.panicStr("reflect.Value.Slice: string slice index out of bounds")
		}
		return RV(&RVal{T: r.T, V: strSlice(s, l, h), RO: r.RO})
	case reflect.Array:
		if l < 0 || h < l || h > r.T.n {
			m.panicStr("reflect.Value.Slice: slice index out of bounds")
		}
		return RV(&RVal{T: RT(types.NewSlice(r.T.Elem().T)), V: Value{O: &SliceV{M: r.mem(), Off: l, Len: h - l, Cap: r.T.n - l}}, RO: r.RO})
	}
	sv, _ := r.get(m).O.(*SliceV)
	if sv == nil {
		if l != 0 || h != 0 {
			m.panicStr("reflect.Value.Slice: slice index out of bounds")
		}
		return RV(&RVal{T: r.T, RO: r.RO})
	}
	if sv.SymLen != nil {
		lv, hv := I(l), I(h)
		if !m.decide(m.c.Ule(m.c.Const(64, uint64(h)), sv.SymLen)) {
			m.panicStr("reflect.Value.Slice: slice index out of bounds")
		}
		return RV(&RVal{T: r.T, V: m.sliceSym(sv, &lv, &hv, nil), RO: r.RO})
	}
	if l < 0 || h < l || h > sv.Cap {
		m.panicStr("reflect.Value.Slice: slice index out of bounds")
	}
	return RV(&RVal{T: r.T, V: Value{O: &SliceV{M: sv.M, Off: sv.Off + l, Len: h - l, Cap: sv.Cap - l}}, RO: r.RO})
}

var _ = ssa.NewProgram

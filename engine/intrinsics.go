package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strings"
	"unicode"
)

var anyMapType = types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil))

// native renders a value for message formatting only; symbolic parts become a placeholder.
type placeholder string

func (p placeholder) Format(s fmt.State, v rune) { fmt.Fprint(s, string(p)) }

func (m *M) native(i *Iface, depth int) any {
	if i == nil {
		return nil
	}
	v, t := i.V, i.T
	if depth < 3 {
		if t.Implements(errorRT()) && t.Kind != reflect.Interface {
			if s, ok := m.tryString(i, "Error"); ok {
				return placeholder(s)
			}
		}
	}
	if v.isSym() {
		return placeholder("?")
	}
	switch t.Kind {
	case reflect.Bool:
		return v.N != 0
	case reflect.String:
		if s, ok := strConc(v); ok {
			return s
		}
		return placeholder("?")
	case reflect.Float32, reflect.Float64:
		return f64(t.W, v.N)
	}
	if t.isInt() {
		if t.Signed {
			return sgn(v.N, t.W)
		}
		return v.N
	}
	if t.Kind == reflect.Pointer {
		if rt, ok := v.O.(*RType); ok {
			return placeholder(rt.String())
		}
	}
	return placeholder("<" + t.String() + ">")
}

var errorRTv *RType

func errorRT() *RType {
	if errorRTv == nil {
		errorRTv = RT(types.Universe.Lookup("error").Type())
	}
	return errorRTv
}

// tryString calls a message method when it is cheap and cannot disturb the path.
func (m *M) tryString(i *Iface, name string) (string, bool) {
	switch i.T.String() {
	case "*errors.errorString", "*fmt.wrapError":
		mem := m.ptr(i.V).V.O.(*Mem)
		if s, ok := strConc(mem.C[0].V); ok {
			return s, true
		}
	case "runtime.errorString":
		if s, ok := strConc(i.V); ok {
			return "runtime error: " + s, true
		}
	}
	return "<" + i.T.String() + ">", true
}

func (m *M) panicText(v Value) string {
	i, _ := v.O.(*Iface)
	if i == nil {
		return "nil"
	}
	return fmt.Sprint(m.native(i, 0)) + " (" + i.T.String() + ")"
}

func (m *M) sprintf(format Value, args Value) string {
	f, ok := strConc(format)
	if !ok {
		f = "?"
	}
	var as []any
	for _, a := range m.vals(args) {
		i, _ := a.O.(*Iface)
		as = append(as, m.native(i, 0))
	}
	return fmt.Sprintf(strings.ReplaceAll(f, "%w", "%v"), as...)
}

func (m *M) newError(s string) Value {
	t := RT(types.NewPointer(U.prog.ImportedPackage("errors").Type("errorString").Type()))
	c := NewCell(t.Elem())
	c.V.O.(*Mem).C[0].V = S(s)
	return Value{O: &Iface{T: t, V: Value{O: c}}}
}

func (m *M) ptrID(v Value) Value {
	if v.O == nil {
		return Value{}
	}
	key := v.O
	if s, ok := key.(*SliceV); ok {
		if s.M.lazy == nil && len(s.M.C) > s.Off {
			key = &s.M.C[s.Off]
		}
	}
	ids, _ := m.side["ptrids"].(map[any]uint64)
	if ids == nil {
		ids = map[any]uint64{}
		m.side["ptrids"] = ids
	}
	id, ok := ids[key]
	if !ok {
		id = 0xc000000000 + uint64(len(ids))*64
		ids[key] = id
	}
	return Value{N: id}
}

func runePred(f func(rune) bool) Intrinsic {
	type rg struct{ lo, hi uint64 }
	var ranges []rg
	build := func() {
		if ranges != nil {
			return
		}
		in := false
		for r := rune(0); r <= unicode.MaxRune+1; r++ {
			x := r <= unicode.MaxRune && f(r)
			if x && !in {
				ranges = append(ranges, rg{uint64(r), 0})
			}
			if !x && in {
				ranges[len(ranges)-1].hi = uint64(r) - 1
			}
			in = x
		}
	}
	return func(m *M, a []Value) Value {
		if a[0].O == nil {
			return B(f(rune(int32(a[0].N))))
		}
		fnMu.Lock()
		build()
		fnMu.Unlock()
		c := m.c
		t := a[0].O.(*Term)
		r := c.False
		for _, g := range ranges {
			if t.umax < g.lo {
				break
			}
			r = c.BOr(r, c.BAnd(c.Ule(c.Const(32, g.lo), t), c.Ule(t, c.Const(32, g.hi))))
		}
		return T(r)
	}
}

func init() {
	reg := func(name string, f Intrinsic) { intrinsics[name] = f }
	id := func(m *M, a []Value) Value { return a[0] }
	zero := func(m *M, a []Value) Value { return Value{} }

	reg("math.Float64bits", id)
	reg("math.Float64frombits", id)
	reg("math.Float32bits", id)
	reg("math.Float32frombits", id)
	reg("math.IsNaN", func(m *M, a []Value) Value {
		t := m.term(a[0], 64)
		return T(m.c.BNot(m.c.FCmp(OpFEq, t, t)))
	})
	// functions with an assembly body: natively on constants, else the portable body, if there is one
	f1 := func(f func(float64) float64, body string) Intrinsic {
		return func(m *M, a []Value) Value {
			if a[0].O != nil {
				if body == "" {
					panic(abortf("symbolic argument to a math function"))
				}
				return m.callFn(m.cur, FnOf(U.prog.ImportedPackage("math").Func(body)), a, nil)
			}
			return Value{N: math.Float64bits(f(math.Float64frombits(a[0].N)))}
		}
	}
	reg("math.Sqrt", f1(math.Sqrt, ""))
	reg("math.Floor", f1(math.Floor, "floor"))
	reg("math.Ceil", f1(math.Ceil, "ceil"))
	reg("math.Trunc", f1(math.Trunc, "trunc"))
	for n, b := range map[string]string{"Max": "max", "Min": "min", "Hypot": "hypot"} {
		reg("math."+n, func(m *M, a []Value) Value {
			f := U.prog.ImportedPackage("math").Func(b)
			if f == nil {
				panic(abortf("math.%s", b))
			}
			return m.callFn(m.cur, FnOf(f), a, nil)
		})
	}
	reg("math.Modf", func(m *M, a []Value) Value {
		if a[0].O != nil {
			panic(abortf("symbolic argument to math.Modf"))
		}
		x, y := math.Modf(math.Float64frombits(a[0].N))
		return Value{O: &Agg{F: []Value{{N: math.Float64bits(x)}, {N: math.Float64bits(y)}}}}
	})
	reg("(*errors.joinError).Error", func(m *M, a []Value) Value {
		out := Value{}
		for i, e := range m.vals(load(m.ptr(a[0])).O.(*Agg).F[0]) {
			x := e.O.(*Iface)
			sel := x.T.MethodSet().Lookup(nil, "Error")
			if i > 0 {
				out = m.concat(out, S("\n"))
			}
			out = m.concat(out, m.callFn(m.cur, FnOf(U.prog.MethodValue(sel)), []Value{x.V}, nil))
		}
		return out
	})
	sorter := func(m *M, a []Value) Value {
		i, ok := a[0].O.(*Iface)
		if !ok || i.T.Kind != reflect.Slice {
			panic(abortf("sort.Slice of no slice"))
		}
		sv, _ := i.V.O.(*SliceV)
		if sv == nil {
			return Value{}
		}
		for j := 1; j < sv.Len; j++ {
			for k := j; k > 0; k-- {
				r := m.callValue(m.cur, a[1], []Value{I(k), I(k - 1)})
				if !m.decide(m.boolTerm(r)) {
					break
				}
				p, q := sv.M.at(sv.Off+k), sv.M.at(sv.Off+k-1)
				pv, qv := load(p), load(q)
				m.store(p, qv)
				m.store(q, pv)
			}
		}
		return Value{}
	}
	reg("sort.Slice", sorter)
	reg("sort.SliceStable", sorter)
	reg("math.Abs", func(m *M, a []Value) Value {
		return T(m.c.And(m.term(a[0], 64), m.c.Const(64, 1<<63-1)))
	})

	reg("fmt.Sprintf", func(m *M, a []Value) Value { return S(m.sprintf(a[0], a[1])) })
	reg("fmt.Errorf", func(m *M, a []Value) Value {
		s := m.sprintf(a[0], a[1])
		f, _ := strConc(a[0])
		if strings.Contains(f, "%w") {
			for _, x := range m.vals(a[1]) {
				if i, _ := x.O.(*Iface); i != nil && i.T.Implements(errorRT()) {
					t := RT(types.NewPointer(U.prog.ImportedPackage("fmt").Type("wrapError").Type()))
					c := NewCell(t.Elem())
					mem := c.V.O.(*Mem)
					mem.C[0].V = S(s)
					mem.C[1].V = x
					return Value{O: &Iface{T: t, V: Value{O: c}}}
				}
			}
		}
		return m.newError(s)
	})
	spr := func(ln bool) Intrinsic {
		return func(m *M, a []Value) Value {
			var as []any
			for _, x := range m.vals(a[0]) {
				i, _ := x.O.(*Iface)
				as = append(as, m.native(i, 0))
			}
			if ln {
				return S(fmt.Sprintln(as...))
			}
			return S(fmt.Sprint(as...))
		}
	}
	reg("fmt.Sprint", spr(false))
	reg("fmt.Sprintln", spr(true))
	for _, n := range []string{"Print", "Println", "Printf", "Fprint", "Fprintln", "Fprintf"} {
		reg("fmt."+n, func(m *M, a []Value) Value { return Value{O: &Agg{F: []Value{{}, {}}}} })
	}

	// byte search
	idxByte := func(m *M, a []Value) Value {
		var bs []Value
		if _, ok := a[0].O.(*SliceV); ok {
			bs = m.vals(a[0])
		} else {
			bs = strBytes(a[0])
		}
		for i, b := range bs {
			if m.decide(m.c.Eq(m.term(b, 8), m.term(a[1], 8))) {
				return I(i)
			}
		}
		return I(-1)
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte", "internal/stringslite.IndexByte"} {
		reg(n, idxByte)
	}
	lastByte := func(m *M, a []Value) Value {
		var bs []Value
		if _, ok := a[0].O.(*SliceV); ok {
			bs = m.vals(a[0])
		} else {
			bs = strBytes(a[0])
		}
		for i := len(bs) - 1; i >= 0; i-- {
			if m.decide(m.c.Eq(m.term(bs[i], 8), m.term(a[1], 8))) {
				return I(i)
			}
		}
		return I(-1)
	}
	reg("internal/bytealg.LastIndexByte", lastByte)
	reg("internal/bytealg.LastIndexByteString", lastByte)
	count := func(m *M, a []Value) Value {
		n := 0
		var bs []Value
		if _, ok := a[0].O.(*SliceV); ok {
			bs = m.vals(a[0])
		} else {
			bs = strBytes(a[0])
		}
		for _, b := range bs {
			if m.decide(m.c.Eq(m.term(b, 8), m.term(a[1], 8))) {
				n++
			}
		}
		return I(n)
	}
	reg("internal/bytealg.Count", count)
	reg("internal/bytealg.CountString", count)
	sbytes := func(m *M, v Value) Value {
		if _, ok := v.O.(*SliceV); ok {
			return mkStr(m.vals(v))
		}
		return v
	}
	reg("internal/bytealg.Equal", func(m *M, a []Value) Value { return T(m.eqStr(sbytes(m, a[0]), sbytes(m, a[1]))) })
	reg("bytes.Equal", func(m *M, a []Value) Value { return T(m.eqStr(sbytes(m, a[0]), sbytes(m, a[1]))) })
	cmp := func(m *M, a []Value) Value {
		x, y := sbytes(m, a[0]), sbytes(m, a[1])
		if m.decide(m.eqStr(x, y)) {
			return I(0)
		}
		if m.decide(m.boolTerm(m.cmpStr(token.LSS, x, y))) {
			return I(-1)
		}
		return I(1)
	}
	reg("internal/bytealg.Compare", cmp)
	reg("internal/bytealg.CompareString", cmp)
	reg("bytes.Compare", cmp)
	index := func(m *M, a []Value) Value {
		x, y := sbytes(m, a[0]), sbytes(m, a[1])
		n := strLen(y)
		for i := 0; i+n <= strLen(x); i++ {
			if m.decide(m.eqStr(strSlice(x, i, i+n), y)) {
				return I(i)
			}
		}
		return I(-1)
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/stringslite.Index", "internal/bytealg.Index", "internal/bytealg.IndexString"} {
		reg(n, index)
	}
	reg("internal/bytealg.MakeNoZero", func(m *M, a []Value) Value {
		it := RT(typInt)
		return m.makeSlice(RT(typUint8), a[0], it, a[0], it)
	})
	reg("internal/abi.NoEscape", id)
	reg("internal/abi.Escape", id)
	reg("strings.noescape", id)
	reg("internal/stringslite.Clone", id)
	reg("strings.Clone", id)

	for n, f := range map[string]func(rune) bool{"IsLetter": unicode.IsLetter, "IsDigit": unicode.IsDigit, "IsSpace": unicode.IsSpace,
		"IsUpper": unicode.IsUpper, "IsLower": unicode.IsLower, "IsPrint": unicode.IsPrint, "IsNumber": unicode.IsNumber,
		"IsControl": unicode.IsControl, "IsPunct": unicode.IsPunct, "IsGraphic": unicode.IsGraphic} {
		reg("unicode."+n, runePred(f))
	}
	conv := func(f func(rune) rune) Intrinsic {
		return func(m *M, a []Value) Value {
			r := rune(int32(m.intVal(a[0], 32)))
			return Value{N: uint64(uint32(f(r)))}
		}
	}
	reg("unicode.ToUpper", conv(unicode.ToUpper))
	reg("unicode.ToLower", conv(unicode.ToLower))

	// runtime and environment
	reg("runtime.Callers", func(m *M, a []Value) Value { return I(0) })
	reg("runtime.Caller", func(m *M, a []Value) Value { return Value{O: &Agg{F: []Value{{}, {}, {}, B(false)}}} })
	reg("runtime.KeepAlive", zero)
	reg("runtime.GC", zero)
	reg("runtime.SetFinalizer", zero)
	reg("runtime.NumGoroutine", func(m *M, a []Value) Value { return I(1) })
	reg("(runtime.errorString).Error", func(m *M, a []Value) Value { return m.concat(S("runtime error: "), a[0]) })
	reg("(*runtime.TypeAssertionError).Error", func(m *M, a []Value) Value { return S("interface conversion") })
	reg("(*runtime.PanicNilError).Error", func(m *M, a []Value) Value { return S("panic called with nil argument") })
	reg("(*reflect.ValueError).Error", func(m *M, a []Value) Value { return S("reflect: call on wrong kind of Value") })
	reg("(reflect.Kind).String", func(m *M, a []Value) Value { return S(reflect.Kind(m.intVal(a[0], 64)).String()) })
	reg("os.Getenv", zero)
	reg("internal/godebug.New", func(m *M, a []Value) Value {
		t := RT(U.prog.ImportedPackage("internal/godebug").Type("Setting").Type())
		return Value{O: NewCell(t)}
	})
	reg("(*internal/godebug.Setting).Value", zero)
	reg("(*internal/godebug.Setting).IncNonDefault", zero)

	reg("errors.Is", func(m *M, a []Value) Value {
		target := a[1]
		var is func(e Value) bool
		is = func(e Value) bool {
			if e.O == nil || target.O == nil {
				return e.O == nil && target.O == nil
			}
			i, tg := e.O.(*Iface), target.O.(*Iface)
			if i.T == tg.T && i.T.Comparable() && m.decide(m.eq(i.T, i.V, tg.V)) {
				return true
			}
			if sel := i.T.MethodSet().Lookup(nil, "Is"); sel != nil {
				if m.decide(m.boolTerm(m.callFn(m.cur, FnOf(U.prog.MethodValue(sel)), []Value{i.V, target}, nil))) {
					return true
				}
			}
			for _, u := range m.unwrapErr(i) {
				if u.O != nil && is(u) {
					return true
				}
			}
			return false
		}
		return B(is(a[0]))
	})
	reg("errors.As", func(m *M, a []Value) Value {
		tp := a[1].O.(*Iface)
		tt := tp.T.Elem()
		var as func(e Value) bool
		as = func(e Value) bool {
			if e.O == nil {
				return false
			}
			i := e.O.(*Iface)
			if i.T.assignableTo(tt) {
				v := i.V
				if tt.Kind == reflect.Interface {
					v = e
				}
				m.store(m.ptr(tp.V), v)
				return true
			}
			for _, u := range m.unwrapErr(i) {
				if as(u) {
					return true
				}
			}
			return false
		}
		return B(as(a[0]))
	})
}

// unwrapErr gives the errors that an error wraps.
func (m *M) unwrapErr(i *Iface) []Value {
	sel := i.T.MethodSet().Lookup(nil, "Unwrap")
	if sel == nil {
		return nil
	}
	r := m.callFn(m.cur, FnOf(U.prog.MethodValue(sel)), []Value{i.V}, nil)
	if _, ok := r.O.(*Iface); ok || r.O == nil {
		return []Value{r}
	}
	return m.vals(r)
}

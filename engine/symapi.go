package main

// The functions of package verif/harness/sym, as seen by the symbolic machine.

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"strconv"
	"strings"
)

const symPath = "verif/harness/sym"

func (m *M) name(v Value) string {
	s, _ := strConc(v)
	return s
}

func (m *M) newInput(name string, w uint8) Value {
	if m.inInit {
		panic(abortf("symbolic input during initialisation"))
	}
	return Value{O: m.freshVar(name, w)}
}

type assertFail struct {
	label string
	known string
}

// check decides an assertion on the current path. It reports a counterexample if one exists and
// continues on the side where the assertion holds.
func (m *M) check(cond *Term, label, known string) {
	m.asserts++
	if m.guided {
		m.rawCheck(cond, label, known)
		return
	}
	if cond == m.c.True {
		return
	}
	if d, ok := m.nextDec(); ok {
		if d.K != 'a' {
			panic(abortf("replay mismatch (assert vs %c)", d.K))
		}
		if d.V != 0 {
			m.addPC(cond)
		}
		return
	}
	m.symAsserts++
	neg := m.c.BNot(cond)
	r, mod := m.decideSat(neg, false)
	viol := uint64(0)
	switch r {
	case Sat:
		viol = 1
		m.w.violation(m, label, known, mod)
	case Unknown:
		viol = 1
		m.w.noteUnknown(m)
	case Unsat:
		m.w.obligation(m, neg)
	}
	m.decs = append(m.decs, Dec{'a', viol})
	if viol != 0 {
		m.assume(cond)
	}
}

func init() {
	reg := func(name string, f Intrinsic) { intrinsics[symPath+"."+name] = f }
	for n, w := range map[string]uint8{"U8": 8, "U16": 16, "U32": 32, "U64": 64, "I8": 8, "I16": 16, "I32": 32, "I64": 64, "Int": 64, "Uint": 64, "F32": 32, "F64": 64} {
		reg(n, func(m *M, a []Value) Value { return m.newInput(m.name(a[0]), w) })
	}
	reg("Bool", func(m *M, a []Value) Value {
		return T(m.c.Eq(m.newInput(m.name(a[0]), 1).O.(*Term), m.c.Const(1, 1)))
	})
	bytesN := func(m *M, a []Value) []Value {
		n := m.intVal(a[1], 64)
		nm := m.name(a[0])
		vs := make([]Value, n)
		for i := range vs {
			vs[i] = m.newInput(fmt.Sprintf("%s[%d]", nm, i), 8)
		}
		return vs
	}
	reg("Bytes", func(m *M, a []Value) Value { return m.mkSlice(bytesN(m, a), RT(typUint8)) })
	reg("Str", func(m *M, a []Value) Value { return mkStr(bytesN(m, a)) })
	reg("Choose", func(m *M, a []Value) Value {
		n := m.intVal(a[1], 64)
		k := 0
		if n > 1 {
			k = m.choose(n)
		}
		m.vars = append(m.vars, VarInfo{Name: m.name(a[0]), C: true, Val: uint64(k)})
		return I(k)
	})
	reg("Pick", func(m *M, a []Value) Value {
		// forks over every feasible value of an integer
		return I(m.intVal(a[0], 64))
	})
	reg("Assume", func(m *M, a []Value) Value { m.assume(m.boolTerm(a[0])); return Value{} })
	reg("Assert", func(m *M, a []Value) Value {
		m.check(m.boolTerm(a[0]), m.name(a[1]), "")
		return Value{}
	})
	reg("AssertKnown", func(m *M, a []Value) Value {
		// AssertKnown(id, pred, ok, label): a failure under pred is the recorded finding id
		pred, ok := m.boolTerm(a[1]), m.boolTerm(a[2])
		m.check(m.c.BOr(ok, pred), m.name(a[3]), "")
		m.check(m.c.BOr(ok, m.c.BNot(pred)), m.name(a[3]), m.name(a[0]))
		return Value{}
	})
	reg("Fail", func(m *M, a []Value) Value {
		m.check(m.c.False, m.name(a[0]), "")
		return Value{}
	})
	reg("Stop", func(m *M, a []Value) Value { panic(&pathAbort{abStop, "stop"}) })
	reg("Cover", func(m *M, a []Value) Value { m.covers[m.name(a[0])] = true; return Value{} })
	reg("Observe", func(m *M, a []Value) Value {
		i, _ := a[1].O.(*Iface)
		o := Obs{Label: m.name(a[0])}
		o.Txt = m.obsText(i)
		m.obs = append(m.obs, o)
		return Value{}
	})
	reg("Same", func(m *M, a []Value) Value { return T(m.deepEqIface(a[0], a[1], true)) })
	reg("And", func(m *M, a []Value) Value {
		r := m.c.True
		for _, v := range m.vals(a[0]) {
			r = m.c.BAnd(r, m.boolTerm(v))
		}
		return T(r)
	})
	reg("Or", func(m *M, a []Value) Value {
		r := m.c.False
		for _, v := range m.vals(a[0]) {
			r = m.c.BOr(r, m.boolTerm(v))
		}
		return T(r)
	})
	reg("Implies", func(m *M, a []Value) Value {
		return T(m.c.BOr(m.c.BNot(m.boolTerm(a[0])), m.boolTerm(a[1])))
	})
	reg("EqBytes", func(m *M, a []Value) Value {
		return T(m.eqStr(mkStr(m.vals(a[0])), mkStr(m.vals(a[1]))))
	})
	reg("Ite", func(m *M, a []Value) Value {
		return T(m.c.Ite(m.boolTerm(a[0]), m.term(a[1], 64), m.term(a[2], 64)))
	})
	// Tag(key, content): a struct tag with symbolic content. Its concrete text holds a token that
	// Get and Lookup replace by the content.
	reg("Tag", func(m *M, a []Value) Value {
		if c, ok := strConc(a[1]); ok {
			return S(m.name(a[0]) + ":" + strconv.Quote(c))
		}
		k := 0
		if x, ok := m.side["ntags"].(int); ok {
			k = x
		}
		m.side["ntags"] = k + 1
		tok := fmt.Sprintf("\x01sym%d\x01", k)
		m.side[tok] = a[1]
		return S(m.name(a[0]) + ":" + strconv.Quote(tok))
	})
	tagGet := func(m *M, a []Value) (Value, bool) {
		tag, key := m.concStr(a[0]), m.concStr(a[1])
		x, ok := reflect.StructTag(tag).Lookup(key)
		if v, found := m.side[x]; found && strings.HasPrefix(x, "\x01sym") {
			return v.(Value), ok
		}
		return S(x), ok
	}
	intrinsics["(reflect.StructTag).Get"] = func(m *M, a []Value) Value { v, _ := tagGet(m, a); return v }
	intrinsics["(reflect.StructTag).Lookup"] = func(m *M, a []Value) Value {
		v, ok := tagGet(m, a)
		return Value{O: &Agg{F: []Value{v, B(ok)}}}
	}
	reg("Thorough", func(m *M, a []Value) Value { return B(m.w.ex.thorough) })
	reg("SmallLen", func(m *M, a []Value) Value { m.smallLen = m.intVal(a[0], 64); return Value{} })
	reg("Steps", func(m *M, a []Value) Value { m.stepLimit = int64(m.intVal(a[0], 64)); return Value{} })
	reg("Preempt", func(m *M, a []Value) Value { m.side["maxpre"] = m.intVal(a[0], 64); return Value{} })
	reg("spawn", func(m *M, a []Value) Value { m.spawn(a[0], nil); return Value{} })
	reg("join", func(m *M, a []Value) Value {
		if m.rs == nil {
			return Value{}
		}
		m.wait(func() bool {
			for _, g := range m.rs.gs[1:] {
				if !g.done {
					return false
				}
			}
			return true
		})
		for _, g := range m.rs.gs[1:] {
			m.acquire(g.vc)
		}
		return Value{}
	})
	reg("NoRace", func(m *M, a []Value) Value {
		m.asserts++
		if m.rs != nil && len(m.rs.races) > 0 {
			for _, r := range m.rs.races {
				m.w.candidate(m, "race", r, "", m.model)
			}
		}
		return Value{}
	})
	reg("Mem", func(m *M, a []Value) Value { return Value{} })
}

// obsPart is either literal text or a term printed in hexadecimal.
type obsPart struct {
	s string
	t *Term
	f func(Model) string
}

func (m *M) obsText(i *Iface) []obsPart {
	var out []obsPart
	if i == nil {
		return []obsPart{{s: "nil"}}
	}
	m.obsVal(&out, i.T, i.V, 0)
	return out
}

func (m *M) obsVal(out *[]obsPart, t *RType, v Value, depth int) {
	lit := func(s string) { *out = append(*out, obsPart{s: s}) }
	num := func(v Value, w uint8) {
		if x, ok := v.O.(*Term); ok {
			*out = append(*out, obsPart{t: x})
			return
		}
		lit(fmt.Sprintf("%x", v.N&mask(max(w, 1))))
	}
	if depth > 12 {
		lit("...")
		return
	}
	if t.Implements(errorRT()) && t.Kind != reflect.Interface {
		lit("error")
		return
	}
	switch t.Kind {
	case reflect.Bool:
		if x, ok := v.O.(*Term); ok {
			*out = append(*out, obsPart{t: m.c.B2V(x)})
			return
		}
		lit(fmt.Sprintf("%x", v.N))
		return
	case reflect.String:
		lit("\"")
		for _, b := range strBytes(v) {
			if x, ok := b.O.(*Term); ok {
				*out = append(*out, obsPart{t: x})
			} else {
				lit(fmt.Sprintf("%x", b.N))
			}
			lit(".")
		}
		lit("\"")
		return
	case reflect.Complex64, reflect.Complex128:
		re, im := cparts(v)
		w := uint8(t.Size() * 4)
		num(re, w)
		lit("+")
		num(im, w)
		return
	case reflect.Slice:
		s, _ := v.O.(*SliceV)
		if s != nil && s.SymLen != nil {
			el := map[int][]obsPart{}
			for k, c := range s.M.lazy {
				var p []obsPart
				m.obsVal(&p, t.Elem(), load(c), depth+1)
				el[k-s.Off] = p
			}
			var z []obsPart
			m.obsVal(&z, t.Elem(), t.Elem().Zero(), depth+1)
			*out = append(*out, obsPart{t: s.SymLen, f: func(mod Model) string {
				n := int(m.c.Eval(s.SymLen, mod))
				if n > 4096 || n < 0 {
					return fmt.Sprintf("[len %d]", n)
				}
				var sb strings.Builder
				sb.WriteString("[")
				for k := 0; k < n; k++ {
					p, ok := el[k]
					if !ok {
						p = z
					}
					sb.WriteString(m.obsEval(p, mod) + " ")
				}
				return sb.String() + "]"
			}})
			return
		}
		lit("[")
		if s != nil {
			for k := 0; k < s.Len; k++ {
				m.obsVal(out, t.Elem(), load(s.M.at(s.Off+k)), depth+1)
				lit(" ")
			}
		}
		lit("]")
		return
	case reflect.Array:
		lit("[")
		for _, x := range v.O.(*Agg).F {
			m.obsVal(out, t.Elem(), x, depth+1)
			lit(" ")
		}
		lit("]")
		return
	case reflect.Struct:
		if t.opaque {
			lit("Value")
			return
		}
		lit("{")
		for k, x := range v.O.(*Agg).F {
			m.obsVal(out, t.Fields()[k].Type, x, depth+1)
			lit(" ")
		}
		lit("}")
		return
	case reflect.Pointer:
		if v.O == nil {
			lit("nil")
			return
		}
		if _, ok := v.O.(*RType); ok {
			lit("type")
			return
		}
		lit("&")
		m.obsVal(out, t.Elem(), load(m.ptr(v)), depth+1)
		return
	case reflect.Interface:
		if v.O == nil {
			lit("nil")
			return
		}
		i := v.O.(*Iface)
		m.obsVal(out, i.T, i.V, depth+1)
		return
	case reflect.Map, reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.O == nil {
			lit("nil")
		} else {
			lit(t.Kind.String())
		}
		return
	}
	num(v, t.W)
}

func (m *M) obsEval(parts []obsPart, mod Model) string {
	var sb strings.Builder
	for _, p := range parts {
		if p.f != nil {
			sb.WriteString(p.f(mod))
		} else if p.t != nil {
			fmt.Fprintf(&sb, "%x", m.c.Eval(p.t, mod))
		} else {
			sb.WriteString(p.s)
		}
	}
	return sb.String()
}

var _ = hex.EncodeToString

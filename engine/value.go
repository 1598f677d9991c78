package main

import (
	"fmt"
	"math"
	"reflect"
	"strings"
	"unsafe"
)

// Value is a runtime value. Scalars are concrete in N (zero-extended bit pattern) or symbolic with
// O=*Term. Other kinds use O:
//
//	string *Str (nil = ""), slice *SliceV, pointer *Cell or *SymPtr or *RType (reflect.Type data),
//	struct/array/tuple/complex *Agg, interface *Iface, func *Closure, map *MapV, reflect.Value *RVal.
type Value struct {
	N uint64
	O any
}

type Cell struct{ V Value }

// Mem backs the fields of a struct or the elements of an array in memory.
type Mem struct {
	C    []Cell
	lazy map[int]*Cell // elements materialised on demand (symbolic or huge length)
	et   *RType
}

type Agg struct{ F []Value }

type Str struct {
	S   string
	Sym []Value
}

type SliceV struct {
	M        *Mem
	Off      int
	Len, Cap int
	SymLen   *Term // 64-bit; when set, Len is only an upper bound of what may be accessed
}

type Iface struct {
	T *RType
	V Value
}

type Closure struct {
	Fn     *Fn
	Free   []Value
	Native func(m *M, args []Value) Value
	Name   string
}

type SymPtr struct {
	S   *SliceV
	Idx *Term
}

type mapEnt struct {
	k    Value
	cell *Cell
	dead bool
}

type MapV struct {
	ents  []mapEnt
	idx   map[string]int
	n     int
	epoch uint32
	rt    *RType
}

func I(n int) Value  { return Value{N: uint64(n)} }
func B(b bool) Value { return Value{N: b2u(b)} }
func S(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{O: &Str{S: s}}
}
func T(t *Term) Value {
	if t.Op == OpConst {
		return Value{N: t.K}
	}
	return Value{O: t}
}
func (v Value) isSym() bool { _, ok := v.O.(*Term); return ok }

func strLen(v Value) int {
	if v.O == nil {
		return 0
	}
	s := v.O.(*Str)
	if s.Sym != nil {
		return len(s.Sym)
	}
	return len(s.S)
}

func strAt(v Value, i int) Value {
	s := v.O.(*Str)
	if s.Sym != nil {
		return s.Sym[i]
	}
	return Value{N: uint64(s.S[i])}
}

func strConc(v Value) (string, bool) {
	if v.O == nil {
		return "", true
	}
	s := v.O.(*Str)
	if s.Sym != nil {
		return "", false
	}
	return s.S, true
}

// mkStr builds a string from byte values.
func mkStr(bs []Value) Value {
	if len(bs) == 0 {
		return Value{}
	}
	conc := true
	for _, b := range bs {
		if b.O != nil {
			conc = false
			break
		}
	}
	if conc {
		buf := make([]byte, len(bs))
		for i, b := range bs {
			buf[i] = byte(b.N)
		}
		return Value{O: &Str{S: string(buf)}}
	}
	return Value{O: &Str{Sym: append([]Value(nil), bs...)}}
}

func strBytes(v Value) []Value {
	if v.O == nil {
		return nil
	}
	s := v.O.(*Str)
	if s.Sym != nil {
		return s.Sym
	}
	out := make([]Value, len(s.S))
	for i := range out {
		out[i] = Value{N: uint64(s.S[i])}
	}
	return out
}

func strSlice(v Value, lo, hi int) Value {
	if lo == hi {
		return Value{}
	}
	s := v.O.(*Str)
	if s.Sym != nil {
		return mkStr(s.Sym[lo:hi])
	}
	return Value{O: &Str{S: s.S[lo:hi]}}
}

func (m *Mem) at(i int) *Cell {
	if m.lazy == nil {
		return &m.C[i]
	}
	c := m.lazy[i]
	if c == nil {
		c = NewCell(m.et)
		m.lazy[i] = c
	}
	return c
}

func isMemKind(t *RType) bool {
	return t.Kind == reflect.Array || t.Kind == reflect.Struct && !t.opaque
}

// initCell sets up a cell of type t holding its zero value.
func initCell(c *Cell, t *RType) {
	switch {
	case t.Kind == reflect.Struct && !t.opaque:
		fs := t.Fields()
		mem := &Mem{C: make([]Cell, len(fs))}
		for i := range fs {
			initCell(&mem.C[i], fs[i].Type)
		}
		c.V = Value{O: mem}
	case t.Kind == reflect.Array:
		c.V = Value{O: NewMem(t.Elem(), t.n)}
	default:
		c.V = t.Zero()
	}
}

const lazyLimit = 1 << 16

func NewMem(et *RType, n int) *Mem {
	if n > lazyLimit {
		return &Mem{lazy: map[int]*Cell{}, et: et}
	}
	mem := &Mem{C: make([]Cell, n)}
	if isMemKind(et) {
		for i := range mem.C {
			initCell(&mem.C[i], et)
		}
	} else if z := et.Zero(); z.O != nil {
		for i := range mem.C {
			mem.C[i].V = z
		}
	}
	return mem
}

func NewCell(t *RType) *Cell {
	c := new(Cell)
	initCell(c, t)
	return c
}

// load reads a cell into register form.
func load(c *Cell) Value {
	if mem, ok := c.V.O.(*Mem); ok {
		return loadMem(mem)
	}
	return c.V
}

func loadMem(mem *Mem) Value {
	if mem.lazy != nil {
		panic(abortf("load of a lazily materialised array"))
	}
	a := &Agg{F: make([]Value, len(mem.C))}
	for i := range mem.C {
		a.F[i] = load(&mem.C[i])
	}
	return Value{O: a}
}

// store writes a register-form value, keeping the identity of nested cells.
func (m *M) store(c *Cell, v Value) {
	if mem, ok := c.V.O.(*Mem); ok {
		a := v.O.(*Agg)
		for i := range mem.C {
			m.store(&mem.C[i], a.F[i])
		}
		return
	}
	if m.raceOn {
		m.race(c, true)
	}
	m.trail = append(m.trail, undo{c, c.V})
	c.V = v
}

// newCellFrom allocates memory of type t holding v.
func newCellFrom(t *RType, v Value) *Cell {
	c := new(Cell)
	setCell(c, t, v)
	return c
}

func setCell(c *Cell, t *RType, v Value) {
	if isMemKind(t) {
		a := v.O.(*Agg)
		mem := &Mem{C: make([]Cell, len(a.F))}
		if t.Kind == reflect.Struct {
			for i, f := range t.Fields() {
				setCell(&mem.C[i], f.Type, a.F[i])
			}
		} else {
			for i := range a.F {
				setCell(&mem.C[i], t.Elem(), a.F[i])
			}
		}
		c.V = Value{O: mem}
		return
	}
	c.V = v
}

type undo struct {
	c *Cell
	v Value
}

// ---- equality ----

func (m *M) boolTerm(v Value) *Term {
	if t, ok := v.O.(*Term); ok {
		return t
	}
	return m.c.Bool(v.N != 0)
}

func (m *M) term(v Value, w uint8) *Term {
	if t, ok := v.O.(*Term); ok {
		return t
	}
	return m.c.Const(w, v.N)
}

// eq compares two values of static type t as == does; it returns a boolean term.
func (m *M) eq(t *RType, a, b Value) *Term {
	switch t.Kind {
	case reflect.Bool:
		return m.c.Eq(m.boolTerm(a), m.boolTerm(b))
	case reflect.Float32, reflect.Float64:
		return m.c.FCmp(OpFEq, m.term(a, t.W), m.term(b, t.W))
	case reflect.Complex64, reflect.Complex128:
		w := uint8(32)
		if t.Kind == reflect.Complex128 {
			w = 64
		}
		x, y := a.O.(*Agg), b.O.(*Agg)
		return m.c.BAnd(m.c.FCmp(OpFEq, m.term(x.F[0], w), m.term(y.F[0], w)), m.c.FCmp(OpFEq, m.term(x.F[1], w), m.term(y.F[1], w)))
	case reflect.String:
		return m.eqStr(a, b)
	case reflect.Struct:
		if t.opaque {
			return m.c.Bool(rvalSame(a, b))
		}
		x, y := a.O.(*Agg), b.O.(*Agg)
		r := m.c.True
		for i, f := range t.Fields() {
			if f.Name == "_" {
				continue
			}
			r = m.c.BAnd(r, m.eq(f.Type, x.F[i], y.F[i]))
			if r == m.c.False {
				return r
			}
		}
		return r
	case reflect.Array:
		x, y := a.O.(*Agg), b.O.(*Agg)
		r := m.c.True
		for i := range x.F {
			r = m.c.BAnd(r, m.eq(t.Elem(), x.F[i], y.F[i]))
			if r == m.c.False {
				return r
			}
		}
		return r
	case reflect.Interface:
		if a.O == nil || b.O == nil {
			return m.c.Bool(a.O == nil && b.O == nil)
		}
		x, y := a.O.(*Iface), b.O.(*Iface)
		if x.T != y.T {
			return m.c.False
		}
		if !x.T.Comparable() {
			m.rtPanic("comparing uncomparable type " + x.T.String())
		}
		return m.eq(x.T, x.V, y.V)
	case reflect.Pointer, reflect.UnsafePointer, reflect.Chan:
		return m.c.Bool(samePtr(a, b))
	case reflect.Slice, reflect.Map, reflect.Func:
		// only comparisons with nil reach here
		return m.c.Bool(a.O == nil && b.O == nil)
	}
	if a.O == nil && b.O == nil {
		return m.c.Bool(a.N == b.N)
	}
	return m.c.Eq(m.term(a, t.W), m.term(b, t.W))
}

var zeroSized Cell

func samePtr(a, b Value) bool {
	if p, ok := a.O.(*SymPtr); ok {
		a = Value{O: p}
	}
	return a.O == b.O && a.N == b.N
}

func (m *M) eqStr(a, b Value) *Term {
	if strLen(a) != strLen(b) {
		return m.c.False
	}
	if x, ok := strConc(a); ok {
		if y, ok := strConc(b); ok {
			return m.c.Bool(x == y)
		}
	}
	r := m.c.True
	n := strLen(a)
	for i := 0; i < n; i++ {
		x, y := strAt(a, i), strAt(b, i)
		if x.O == nil && y.O == nil {
			if x.N != y.N {
				return m.c.False
			}
			continue
		}
		r = m.c.BAnd(r, m.c.Eq(m.term(x, 8), m.term(y, 8)))
		if r == m.c.False {
			return r
		}
	}
	return r
}

// ---- maps ----

// keyString encodes a fully concrete key; ok is false when it contains symbolic parts.
func keyString(sb *strings.Builder, t *RType, v Value) bool {
	switch t.Kind {
	case reflect.String:
		s, ok := strConc(v)
		if !ok {
			return false
		}
		fmt.Fprintf(sb, "%d:%s", len(s), s)
		return true
	case reflect.Interface:
		if v.O == nil {
			sb.WriteString("nil;")
			return true
		}
		i := v.O.(*Iface)
		fmt.Fprintf(sb, "t%d:", i.T.id)
		return keyString(sb, i.T, i.V)
	case reflect.Struct:
		if t.opaque {
			return false
		}
		for i, f := range t.Fields() {
			if !keyString(sb, f.Type, v.O.(*Agg).F[i]) {
				return false
			}
		}
		return true
	case reflect.Array:
		for _, f := range v.O.(*Agg).F {
			if !keyString(sb, t.Elem(), f) {
				return false
			}
		}
		return true
	case reflect.Pointer, reflect.Chan, reflect.UnsafePointer:
		switch p := v.O.(type) {
		case nil:
			sb.WriteString("p0;")
		case *Cell:
			fmt.Fprintf(sb, "p%x;", uintptr(unsafe.Pointer(p)))
		case *RType:
			fmt.Fprintf(sb, "r%d;", p.id)
		default:
			return false
		}
		return true
	case reflect.Float32, reflect.Float64:
		if v.O != nil {
			return false
		}
		f := f64(t.W, v.N)
		if f == 0 {
			f = 0
		}
		fmt.Fprintf(sb, "f%x;", math.Float64bits(f))
		return true
	}
	if v.O != nil {
		return false
	}
	fmt.Fprintf(sb, "%x;", v.N)
	return true
}

func NewMap(rt *RType) *MapV { return &MapV{idx: map[string]int{}, rt: rt} }

type mapUndo struct {
	mp   *MapV
	ents []mapEnt
	idx  map[string]int
	n    int
}

func (m *M) mapTouch(mp *MapV) {
	if mp.epoch == m.epoch {
		return
	}
	mp.epoch = m.epoch
	idx := make(map[string]int, len(mp.idx))
	for k, v := range mp.idx {
		idx[k] = v
	}
	m.mapTrail = append(m.mapTrail, mapUndo{mp, append([]mapEnt(nil), mp.ents...), idx, mp.n})
}

func (m *M) mapFind(mp *MapV, k Value) int {
	if mp == nil {
		return -1
	}
	kt := mp.rt.Key()
	if kt.Kind == reflect.Interface && k.O != nil && !k.O.(*Iface).T.Comparable() {
		m.rtPanic("hash of unhashable type " + k.O.(*Iface).T.String())
	}
	var sb strings.Builder
	if keyString(&sb, kt, k) {
		if i, ok := mp.idx[sb.String()]; ok {
			return i
		}
		// symbolic keys stored earlier may still be equal
		if len(mp.idx) == mp.n {
			return -1
		}
	}
	for i := range mp.ents {
		if mp.ents[i].dead {
			continue
		}
		if m.decide(m.eq(kt, mp.ents[i].k, k)) {
			return i
		}
	}
	return -1
}

func (m *M) mapSet(mp *MapV, k, v Value) {
	i := m.mapFind(mp, k)
	m.mapTouch(mp)
	if i >= 0 {
		m.store(mp.ents[i].cell, v)
		return
	}
	c := newCellFrom(mp.rt.Elem(), v)
	var sb strings.Builder
	if keyString(&sb, mp.rt.Key(), k) {
		mp.idx[sb.String()] = len(mp.ents)
	}
	mp.ents = append(mp.ents, mapEnt{k: k, cell: c})
	mp.n++
}

func (m *M) mapDelete(mp *MapV, k Value) {
	i := m.mapFind(mp, k)
	if i < 0 {
		return
	}
	m.mapTouch(mp)
	var sb strings.Builder
	if keyString(&sb, mp.rt.Key(), mp.ents[i].k) {
		delete(mp.idx, sb.String())
	}
	mp.ents[i].dead = true
	mp.n--
}

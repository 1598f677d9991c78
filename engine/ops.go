package main

import (
	"fmt"
	"go/token"
	"math"
	"reflect"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func fcvtC(f float64, w uint8) uint64 {
	if w == 32 {
		return uint64(math.Float32bits(float32(f)))
	}
	return math.Float64bits(f)
}

// ptr dereferences a pointer value, panicking like Go on nil.
func (m *M) ptr(v Value) *Cell {
	switch p := v.O.(type) {
	case *Cell:
		return p
	case nil:
		m.nilDeref()
	case *SymPtr:
		i := int(m.concretize(p.Idx))
		return p.S.M.at(p.S.Off + i)
	}
	panic(abortf("dereference of %T", v.O))
}

func (m *M) panicPlain(s string) { m.rtPanic(s) }

// ---- arithmetic ----

func (m *M) intBin(op token.Token, t *RType, a, b Value) Value {
	w := t.W
	if a.O == nil && b.O == nil {
		x, y := a.N, b.N
		switch op {
		case token.ADD:
			return Value{N: (x + y) & mask(w)}
		case token.SUB:
			return Value{N: (x - y) & mask(w)}
		case token.MUL:
			return Value{N: (x * y) & mask(w)}
		case token.AND:
			return Value{N: x & y}
		case token.OR:
			return Value{N: x | y}
		case token.XOR:
			return Value{N: x ^ y}
		case token.AND_NOT:
			return Value{N: x &^ y}
		case token.LSS:
			if t.Signed {
				return B(sgn(x, w) < sgn(y, w))
			}
			return B(x < y)
		case token.LEQ:
			if t.Signed {
				return B(sgn(x, w) <= sgn(y, w))
			}
			return B(x <= y)
		case token.GTR:
			if t.Signed {
				return B(sgn(x, w) > sgn(y, w))
			}
			return B(x > y)
		case token.GEQ:
			if t.Signed {
				return B(sgn(x, w) >= sgn(y, w))
			}
			return B(x >= y)
		case token.QUO, token.REM:
			if y == 0 {
				m.rtPanic("integer divide by zero")
			}
			if t.Signed {
				sx, sy := sgn(x, w), sgn(y, w)
				if sy == -1 {
					if op == token.QUO {
						return Value{N: uint64(-sx) & mask(w)}
					}
					return Value{}
				}
				if op == token.QUO {
					return Value{N: uint64(sx/sy) & mask(w)}
				}
				return Value{N: uint64(sx%sy) & mask(w)}
			}
			if op == token.QUO {
				return Value{N: x / y}
			}
			return Value{N: x % y}
		}
	}
	c := m.c
	x, y := m.term(a, w), m.term(b, w)
	switch op {
	case token.ADD:
		return T(c.Add(x, y))
	case token.SUB:
		return T(c.Sub(x, y))
	case token.MUL:
		return T(c.Mul(x, y))
	case token.AND:
		return T(c.And(x, y))
	case token.OR:
		return T(c.Or(x, y))
	case token.XOR:
		return T(c.Xor(x, y))
	case token.AND_NOT:
		return T(c.And(x, c.NotBV(y)))
	case token.LSS:
		if t.Signed {
			return T(c.Slt(x, y))
		}
		return T(c.Ult(x, y))
	case token.LEQ:
		if t.Signed {
			return T(c.Sle(x, y))
		}
		return T(c.Ule(x, y))
	case token.GTR:
		if t.Signed {
			return T(c.Slt(y, x))
		}
		return T(c.Ult(y, x))
	case token.GEQ:
		if t.Signed {
			return T(c.Sle(y, x))
		}
		return T(c.Ule(y, x))
	case token.QUO, token.REM:
		if m.decide(c.Eq(y, c.Const(w, 0))) {
			m.rtPanic("integer divide by zero")
		}
		switch {
		case t.Signed && op == token.QUO:
			return T(c.SDiv(x, y))
		case t.Signed:
			return T(c.SRem(x, y))
		case op == token.QUO:
			return T(c.UDiv(x, y))
		}
		return T(c.URem(x, y))
	}
	panic(abortf("int op %s", op))
}

func (m *M) floatBin(op token.Token, t *RType, a, b Value) Value {
	x, y := m.term(a, t.W), m.term(b, t.W)
	c := m.c
	switch op {
	case token.ADD:
		return T(c.FBin(OpFAdd, x, y))
	case token.SUB:
		return T(c.FBin(OpFSub, x, y))
	case token.MUL:
		return T(c.FBin(OpFMul, x, y))
	case token.QUO:
		return T(c.FBin(OpFDiv, x, y))
	case token.LSS:
		return T(c.FCmp(OpFLt, x, y))
	case token.LEQ:
		return T(c.FCmp(OpFLe, x, y))
	case token.GTR:
		return T(c.FCmp(OpFLt, y, x))
	case token.GEQ:
		return T(c.FCmp(OpFLe, y, x))
	}
	panic(abortf("float op %s", op))
}

func (m *M) shift(op token.Token, t, yt *RType, a, b Value) Value {
	w := t.W
	if b.O == nil {
		n := b.N
		if yt.Signed && sgn(n, yt.W) < 0 {
			m.rtPanic("negative shift amount")
		}
		if a.O == nil {
			if op == token.SHL {
				if n >= uint64(w) {
					return Value{}
				}
				return Value{N: a.N << n & mask(w)}
			}
			if t.Signed {
				if n >= uint64(w) {
					n = uint64(w) - 1
				}
				return Value{N: uint64(sgn(a.N, w)>>n) & mask(w)}
			}
			if n >= uint64(w) {
				return Value{}
			}
			return Value{N: a.N >> n}
		}
	}
	c := m.c
	y := m.term(b, yt.W)
	if yt.Signed && m.decide(c.Slt(y, c.Const(yt.W, 0))) {
		m.rtPanic("negative shift amount")
	}
	x := m.term(a, w)
	f := func(n *Term) *Term {
		switch {
		case op == token.SHL:
			return c.Shl(x, n)
		case t.Signed:
			return c.AShr(x, n)
		}
		return c.LShr(x, n)
	}
	if y.W <= w {
		return T(f(c.ZExt(y, w)))
	}
	big := c.Const(w, uint64(w))
	if w < 8 {
		panic(abortf("shift width"))
	}
	return T(f(c.Ite(c.Ult(y, c.Const(y.W, uint64(w))), c.Extract(y, w-1, 0), big)))
}

func (m *M) cmpStr(op token.Token, a, b Value) Value {
	if x, ok := strConc(a); ok {
		if y, ok := strConc(b); ok {
			switch op {
			case token.LSS:
				return B(x < y)
			case token.LEQ:
				return B(x <= y)
			case token.GTR:
				return B(x > y)
			}
			return B(x >= y)
		}
	}
	// lexicographic comparison as one term
	x, y := strBytes(a), strBytes(b)
	c := m.c
	lt := c.Bool(len(x) < len(y)) // when all common bytes are equal
	eq := c.Bool(len(x) == len(y))
	n := min(len(x), len(y))
	for i := n - 1; i >= 0; i-- {
		p, q := m.term(x[i], 8), m.term(y[i], 8)
		e := c.Eq(p, q)
		lt = c.BOr(c.Ult(p, q), c.BAnd(e, lt))
		eq = c.BAnd(e, eq)
	}
	switch op {
	case token.LSS:
		return T(lt)
	case token.LEQ:
		return T(c.BOr(lt, eq))
	case token.GTR:
		return T(c.BNot(c.BOr(lt, eq)))
	}
	return T(c.BNot(lt))
}

func cparts(v Value) (Value, Value) { a := v.O.(*Agg); return a.F[0], a.F[1] }
func mkComplex(re, im Value) Value  { return Value{O: &Agg{F: []Value{re, im}}} }

func (m *M) complexBin(op token.Token, t *RType, a, b Value) Value {
	ft := RT(typFloat64)
	if t.Kind == reflect.Complex64 {
		ft = RT(typFloat32)
	}
	ar, ai := cparts(a)
	br, bi := cparts(b)
	f := func(op token.Token, x, y Value) Value { return m.floatBin(op, ft, x, y) }
	switch op {
	case token.ADD, token.SUB:
		return mkComplex(f(op, ar, br), f(op, ai, bi))
	case token.MUL:
		return mkComplex(f(token.SUB, f(token.MUL, ar, br), f(token.MUL, ai, bi)), f(token.ADD, f(token.MUL, ar, bi), f(token.MUL, ai, br)))
	}
	panic(abortf("complex op %s", op))
}

func (c *compiler) binop(x *ssa.BinOp) instrFn {
	d, a, b := c.slot(x), c.slot(x.X), c.slot(x.Y)
	t := RT(x.X.Type())
	yt := RT(x.Y.Type())
	op := x.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		if t.isInt() {
			w := t.W
			return func(m *M, fr *Frame) {
				p, q := fr.r[a], fr.r[b]
				if p.O == nil && q.O == nil {
					fr.r[d] = B((p.N == q.N) != neg)
					return
				}
				e := m.c.Eq(m.term(p, w), m.term(q, w))
				if neg {
					e = m.c.BNot(e)
				}
				fr.r[d] = T(e)
			}
		}
		if t.Kind != reflect.Interface && yt.Kind == reflect.Interface {
			t = yt
		}
		return func(m *M, fr *Frame) {
			e := m.eq(t, fr.r[a], fr.r[b])
			if neg {
				e = m.c.BNot(e)
			}
			fr.r[d] = T(e)
		}
	case token.SHL, token.SHR:
		return func(m *M, fr *Frame) { fr.r[d] = m.shift(op, t, yt, fr.r[a], fr.r[b]) }
	}
	switch {
	case t.isInt():
		return func(m *M, fr *Frame) { fr.r[d] = m.intBin(op, t, fr.r[a], fr.r[b]) }
	case t.isFloat():
		return func(m *M, fr *Frame) { fr.r[d] = m.floatBin(op, t, fr.r[a], fr.r[b]) }
	case t.Kind == reflect.String:
		if op == token.ADD {
			return func(m *M, fr *Frame) { fr.r[d] = m.concat(fr.r[a], fr.r[b]) }
		}
		return func(m *M, fr *Frame) { fr.r[d] = m.cmpStr(op, fr.r[a], fr.r[b]) }
	case t.Kind == reflect.Complex64 || t.Kind == reflect.Complex128:
		return func(m *M, fr *Frame) { fr.r[d] = m.complexBin(op, t, fr.r[a], fr.r[b]) }
	case t.Kind == reflect.Bool:
		return func(m *M, fr *Frame) {
			p, q := m.boolTerm(fr.r[a]), m.boolTerm(fr.r[b])
			switch op {
			case token.AND:
				fr.r[d] = T(m.c.BAnd(p, q))
			case token.OR:
				fr.r[d] = T(m.c.BOr(p, q))
			default:
				panic(abortf("bool op %s", op))
			}
		}
	}
	panic(compileErr(fmt.Sprintf("binop %s on %s", op, t)))
}

func (m *M) concat(a, b Value) Value {
	if a.O == nil {
		return b
	}
	if b.O == nil {
		return a
	}
	x, ok1 := strConc(a)
	y, ok2 := strConc(b)
	if ok1 && ok2 {
		return S(x + y)
	}
	return mkStr(append(append([]Value(nil), strBytes(a)...), strBytes(b)...))
}

func (c *compiler) unop(x *ssa.UnOp) instrFn {
	d, a := c.slot(x), c.slot(x.X)
	t := RT(x.Type())
	switch x.Op {
	case token.MUL:
		return func(m *M, fr *Frame) {
			if sp, ok := fr.r[a].O.(*SymPtr); ok {
				fr.r[d] = m.selectTerm(sp.S.Len, func(k int) Value { return load(sp.S.M.at(sp.S.Off + k)) }, t, sp.Idx)
				return
			}
			p := m.ptr(fr.r[a])
			if m.raceOn {
				m.raceLoad(p)
			}
			fr.r[d] = load(p)
		}
	case token.NOT:
		return func(m *M, fr *Frame) {
			if p, ok := fr.r[a].O.(*Term); ok {
				fr.r[d] = T(m.c.BNot(p))
			} else {
				fr.r[d] = B(fr.r[a].N == 0)
			}
		}
	case token.SUB:
		switch {
		case t.isInt():
			return func(m *M, fr *Frame) { fr.r[d] = T(m.c.Neg(m.term(fr.r[a], t.W))) }
		case t.isFloat():
			return func(m *M, fr *Frame) { fr.r[d] = T(m.c.FNeg(m.term(fr.r[a], t.W))) }
		default:
			w := uint8(32)
			if t.Kind == reflect.Complex128 {
				w = 64
			}
			return func(m *M, fr *Frame) {
				re, im := cparts(fr.r[a])
				fr.r[d] = mkComplex(T(m.c.FNeg(m.term(re, w))), T(m.c.FNeg(m.term(im, w))))
			}
		}
	case token.XOR:
		return func(m *M, fr *Frame) { fr.r[d] = T(m.c.NotBV(m.term(fr.r[a], t.W))) }
	}
	return func(m *M, fr *Frame) { panic(abortf("unop %s", x.Op)) }
}

// ---- conversions ----

func (c *compiler) convert(d, s int, from, to *RType) instrFn {
	f := convFn(from, to)
	return func(m *M, fr *Frame) { fr.r[d] = f(m, fr.r[s]) }
}

func convFn(from, to *RType) func(m *M, v Value) Value {
	isBytes := func(t *RType) bool { return t.Kind == reflect.Slice && t.Elem().Kind == reflect.Uint8 }
	isRunes := func(t *RType) bool { return t.Kind == reflect.Slice && t.Elem().Kind == reflect.Int32 }
	switch {
	case from.isInt() && to.isInt():
		w, sg := to.W, from.Signed
		fw := from.W
		return func(m *M, v Value) Value {
			if v.O == nil {
				if sg {
					return Value{N: uint64(sgn(v.N, fw)) & mask(w)}
				}
				return Value{N: v.N & mask(w)}
			}
			return T(m.c.Resize(v.O.(*Term), w, sg))
		}
	case from.isInt() && to.isFloat():
		return func(m *M, v Value) Value { return T(m.c.IToF(m.term(v, from.W), to.W, from.Signed)) }
	case from.isFloat() && to.isInt():
		return func(m *M, v Value) Value { return T(m.c.FToI(m.term(v, from.W), to.W, to.Signed)) }
	case from.isFloat() && to.isFloat():
		return func(m *M, v Value) Value { return T(m.c.FCvt(m.term(v, from.W), to.W)) }
	case from.Kind == reflect.Complex64 && to.Kind == reflect.Complex128, from.Kind == reflect.Complex128 && to.Kind == reflect.Complex64:
		fw, tw := uint8(32), uint8(64)
		if to.Kind == reflect.Complex64 {
			fw, tw = 64, 32
		}
		return func(m *M, v Value) Value {
			re, im := cparts(v)
			return mkComplex(T(m.c.FCvt(m.term(re, fw), tw)), T(m.c.FCvt(m.term(im, fw), tw)))
		}
	case to.Kind == reflect.String && isBytes(from):
		return func(m *M, v Value) Value { return mkStr(m.vals(v)) }
	case to.Kind == reflect.String && isRunes(from):
		return func(m *M, v Value) Value {
			r := Value{}
			for _, x := range m.vals(v) {
				r = m.concat(r, m.runeStr(x, 32, true))
			}
			return r
		}
	case to.Kind == reflect.String && from.isInt():
		return func(m *M, v Value) Value { return m.runeStr(v, from.W, from.Signed) }
	case from.Kind == reflect.String && isBytes(to):
		return func(m *M, v Value) Value { return m.mkSlice(strBytes(v), to.Elem()) }
	case from.Kind == reflect.String && isRunes(to):
		return func(m *M, v Value) Value {
			bs := strBytes(v)
			var out []Value
			for len(bs) > 0 {
				r, n := m.decodeRune(bs)
				out = append(out, r)
				bs = bs[n:]
			}
			return m.mkSlice(out, to.Elem())
		}
	case from.Kind == reflect.Uintptr || to.Kind == reflect.Uintptr:
		return func(m *M, v Value) Value { panic(abortf("conversion %s -> %s", from, to)) }
	}
	return func(m *M, v Value) Value { return v }
}

// runeStr is string(rune).
func (m *M) runeStr(v Value, w uint8, signed bool) Value {
	if v.O == nil {
		r := int64(v.N)
		if signed {
			r = sgn(v.N, w)
		}
		if r < 0 || r > utf8.MaxRune {
			r = utf8.RuneError
		}
		return S(string(rune(r)))
	}
	c := m.c
	t := v.O.(*Term)
	if t.W < 32 {
		t = c.Resize(t, 32, signed)
	}
	lt := func(k uint64) bool { return m.decide(c.Ult(t, c.Const(t.W, k))) }
	b := func(hi, lo uint8, pre *Term) Value { return T(c.Concat(pre, c.Extract(t, hi, lo))) }
	if lt(0x80) {
		return mkStr([]Value{T(c.Extract(t, 7, 0))})
	}
	if lt(0x800) {
		return mkStr([]Value{b(10, 6, c.Const(3, 6)), b(5, 0, c.Const(2, 2))})
	}
	if lt(0x10000) {
		if m.decide(c.Eq(c.Extract(t, 15, 11), c.Const(5, 0x1b))) {
			return S("\uFFFD")
		}
		return mkStr([]Value{b(15, 12, c.Const(4, 14)), b(11, 6, c.Const(2, 2)), b(5, 0, c.Const(2, 2))})
	}
	if lt(0x110000) {
		return mkStr([]Value{b(20, 18, c.Const(5, 30)), b(17, 12, c.Const(2, 2)), b(11, 6, c.Const(2, 2)), b(5, 0, c.Const(2, 2))})
	}
	return S("\uFFFD")
}

// decodeRune decodes the first rune of bs (utf8.DecodeRune).
func (m *M) decodeRune(bs []Value) (Value, int) {
	if len(bs) == 0 {
		return Value{N: utf8.RuneError}, 0
	}
	n := min(len(bs), 4)
	conc := true
	var buf [4]byte
	for i := 0; i < n; i++ {
		if bs[i].O != nil {
			conc = false
			break
		}
		buf[i] = byte(bs[i].N)
		if buf[0] < 0x80 {
			n = 1
			break
		}
	}
	if conc {
		r, k := utf8.DecodeRune(buf[:n])
		return Value{N: uint64(uint32(r))}, k
	}
	c := m.c
	b0 := m.term(bs[0], 8)
	in := func(b *Term, lo, hi uint64) bool {
		return m.decide(c.BAnd(c.Ule(c.Const(8, lo), b), c.Ule(b, c.Const(8, hi))))
	}
	if in(b0, 0, 0x7f) {
		return T(c.ZExt(b0, 32)), 1
	}
	bad := Value{N: utf8.RuneError}
	size, lo, hi := 0, uint64(0x80), uint64(0xbf)
	switch {
	case in(b0, 0xc2, 0xdf):
		size = 2
	case in(b0, 0xe1, 0xec), in(b0, 0xee, 0xef):
		size = 3
	case in(b0, 0xf1, 0xf3):
		size = 4
	case in(b0, 0xe0, 0xe0):
		size, lo = 3, 0xa0
	case in(b0, 0xed, 0xed):
		size, hi = 3, 0x9f
	case in(b0, 0xf0, 0xf0):
		size, lo = 4, 0x90
	case in(b0, 0xf4, 0xf4):
		size, hi = 4, 0x8f
	default:
		return bad, 1
	}
	if len(bs) < size {
		return bad, 1
	}
	ts := []*Term{b0}
	for i := 1; i < size; i++ {
		b := m.term(bs[i], 8)
		if !in(b, lo, hi) {
			return bad, 1
		}
		lo, hi = 0x80, 0xbf
		ts = append(ts, b)
	}
	var r *Term
	low := func(i int) *Term { return c.Extract(ts[i], 5, 0) }
	switch size {
	case 2:
		r = c.Concat(c.Extract(b0, 4, 0), low(1))
	case 3:
		r = c.Concat(c.Extract(b0, 3, 0), low(1), low(2))
	case 4:
		r = c.Concat(c.Extract(b0, 2, 0), low(1), low(2), low(3))
	}
	return T(c.ZExt(r, 32)), size
}

// ---- slices ----

// vals reads the elements of a slice (or the bytes of a string value).
func (m *M) vals(v Value) []Value {
	s, _ := v.O.(*SliceV)
	if s == nil {
		if _, ok := v.O.(*Str); ok {
			return strBytes(v)
		}
		return nil
	}
	if s.SymLen != nil {
		panic(abortf("use of a slice of unbounded symbolic length"))
	}
	out := make([]Value, s.Len)
	for i := range out {
		c := s.M.at(s.Off + i)
		if m.raceOn {
			m.raceLoad(c)
		}
		out[i] = load(c)
	}
	return out
}

func (m *M) mkSlice(vs []Value, et *RType) Value {
	mem := &Mem{C: make([]Cell, len(vs))}
	for i, v := range vs {
		setCell(&mem.C[i], et, v)
	}
	return Value{O: &SliceV{M: mem, Len: len(vs), Cap: len(vs)}}
}

func (m *M) makeSlice(et *RType, l Value, lt *RType, cp Value, ct *RType) Value {
	c := m.c
	sz := uint64(et.Size())
	if sz == 0 {
		sz = 1
	}
	maxLen := uint64(1<<47) / sz
	if l.O == nil && cp.O == nil {
		n, k := sgnT(l.N, lt), sgnT(cp.N, ct)
		if n < 0 || uint64(n) > maxLen {
			m.rtPanic("makeslice: len out of range")
		}
		if k < n || uint64(k) > maxLen {
			m.rtPanic("makeslice: cap out of range")
		}
		return Value{O: &SliceV{M: NewMem(et, int(k)), Len: int(n), Cap: int(k)}}
	}
	x := c.Resize(m.term(l, lt.W), 64, lt.Signed)
	if !m.decide(c.Ule(x, c.Const(64, maxLen))) {
		m.rtPanic("makeslice: len out of range")
	}
	if m.decide(c.Ult(x, c.Const(64, uint64(m.smallLen)+1))) {
		n := m.concretize(x)
		k := n
		if cp != l {
			kk := c.Resize(m.term(cp, ct.W), 64, ct.Signed)
			if !m.decide(c.BAnd(c.Ule(c.Const(64, n), kk), c.Ule(kk, c.Const(64, maxLen)))) {
				m.rtPanic("makeslice: cap out of range")
			}
			k = m.concretize(kk)
		}
		return Value{O: &SliceV{M: NewMem(et, int(k)), Len: int(n), Cap: int(k)}}
	}
	return Value{O: &SliceV{M: &Mem{lazy: map[int]*Cell{}, et: et}, Len: math.MaxInt32, Cap: math.MaxInt32, SymLen: x}}
}

func sgnT(n uint64, t *RType) int64 {
	if t.Signed {
		return sgn(n, t.W)
	}
	if n > math.MaxInt64 {
		return math.MaxInt64
	}
	return int64(n)
}

// checkIndex panics unless 0 <= idx < n; it returns the index as a 64-bit term or a constant.
func (m *M) checkIndex(idx Value, it *RType, n int) (int, *Term) {
	if idx.O == nil {
		k := sgnT(idx.N, it)
		if k < 0 || k >= int64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, n))
		}
		return int(k), nil
	}
	x := m.c.Resize(idx.O.(*Term), 64, it.Signed)
	if !m.decide(m.c.Ult(x, m.c.Const(64, uint64(n)))) {
		m.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	if x.Op == OpConst {
		return int(x.K), nil
	}
	if n == 1 {
		return 0, nil
	}
	return 0, x
}

func scalarType(t *RType) bool { return t.W > 0 || t.Kind == reflect.Bool }

func (m *M) selectFrom(n int, at func(int) Value, et *RType, idx Value, it *RType) Value {
	k, x := m.checkIndex(idx, it, n)
	if x == nil {
		return at(k)
	}
	return m.selectTerm(n, at, et, x)
}

// selectTerm reads element x (already in range) as an if-then-else over runs of equal elements.
func (m *M) selectTerm(n int, at func(int) Value, et *RType, x *Term) Value {
	if !scalarType(et) || n > 1<<13 {
		return at(int(m.concretize(x)))
	}
	if x.umax < uint64(n) {
		n = int(x.umax) + 1
	}
	type run struct {
		start int
		t     *Term
	}
	var runs []run
	for i := 0; i < n; i++ {
		v := at(i)
		var t *Term
		if et.Kind == reflect.Bool {
			t = m.boolTerm(v)
		} else {
			t = m.term(v, et.W)
		}
		if len(runs) > 0 && runs[len(runs)-1].t == t {
			continue
		}
		runs = append(runs, run{i, t})
	}
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return runs[lo].t
		}
		mid := (lo + hi) / 2
		return m.c.Ite(m.c.Ult(x, m.c.Const(64, uint64(runs[mid].start))), build(lo, mid), build(mid, hi))
	}
	return T(build(0, len(runs)))
}

func (m *M) strIndex(s, idx Value, it *RType) Value {
	if idx.O == nil {
		k := sgnT(idx.N, it)
		if k < 0 || k >= int64(strLen(s)) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", k, strLen(s)))
		}
		return strAt(s, int(k))
	}
	return m.selectFrom(strLen(s), func(k int) Value { return strAt(s, k) }, RT(typUint8), idx, it)
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) instrFn {
	d, s, i := c.slot(x), c.slot(x.X), c.slot(x.Index)
	it := RT(x.Index.Type())
	xt := RT(x.X.Type())
	onlyLoads := true
	for _, r := range *x.Referrers() {
		if u, ok := r.(*ssa.UnOp); !ok || u.Op != token.MUL {
			onlyLoads = false
		}
	}
	if xt.Kind == reflect.Pointer {
		n := xt.Elem().n
		return func(m *M, fr *Frame) {
			p := m.ptr(fr.r[s])
			mem := p.V.O.(*Mem)
			k, t := m.checkIndex(fr.r[i], it, n)
			if t != nil {
				if onlyLoads {
					fr.r[d] = Value{O: &SymPtr{S: &SliceV{M: mem, Len: n, Cap: n}, Idx: t}}
					return
				}
				k = int(m.concretize(t))
			}
			fr.r[d] = Value{O: mem.at(k)}
		}
	}
	return func(m *M, fr *Frame) { fr.r[d] = m.elemAddr(fr.r[s], fr.r[i], it, onlyLoads) }
}

func (m *M) elemAddr(sl, idx Value, it *RType, onlyLoads bool) Value {
	sv, _ := sl.O.(*SliceV)
	n := 0
	if sv != nil {
		n = sv.Len
		if sv.SymLen != nil {
			if idx.O != nil {
				panic(abortf("symbolic index into a slice of symbolic length"))
			}
			if !m.decide(m.c.Ult(m.c.Const(64, idx.N), sv.SymLen)) {
				m.rtPanic("index out of range")
			}
			return Value{O: sv.M.at(sv.Off + int(idx.N))}
		}
	}
	k, t := m.checkIndex(idx, it, n)
	if t != nil {
		if onlyLoads {
			return Value{O: &SymPtr{S: sv, Idx: t}}
		}
		k = int(m.concretize(t))
	}
	return Value{O: sv.M.at(sv.Off + k)}
}

func (c *compiler) slice(x *ssa.Slice) instrFn {
	d, s := c.slot(x), c.slot(x.X)
	lo, hi, mx := -1, -1, -1
	var lt, ht, mt *RType
	if x.Low != nil {
		lo, lt = c.slot(x.Low), RT(x.Low.Type())
	}
	if x.High != nil {
		hi, ht = c.slot(x.High), RT(x.High.Type())
	}
	if x.Max != nil {
		mx, mt = c.slot(x.Max), RT(x.Max.Type())
	}
	xt := RT(x.X.Type())
	return func(m *M, fr *Frame) {
		get := func(i int, t *RType) *Value {
			if i < 0 {
				return nil
			}
			v := fr.r[i]
			if tm, ok := v.O.(*Term); ok {
				v = T(m.c.Resize(tm, 64, t.Signed))
			} else if t.Signed {
				v.N = uint64(sgn(v.N, t.W))
			}
			return &v
		}
		fr.r[d] = m.sliceOp(fr.r[s], xt, get(lo, lt), get(hi, ht), get(mx, mt))
	}
}

// sliceOp implements x[lo:hi:max]; bounds are 64-bit values or nil.
func (m *M) sliceOp(v Value, xt *RType, lo, hi, mx *Value) Value {
	c := m.c
	var length, capacity int
	var sv *SliceV
	isStr := false
	switch xt.Kind {
	case reflect.String:
		isStr = true
		length = strLen(v)
		capacity = length
	case reflect.Pointer:
		mem := m.ptr(v).V.O.(*Mem)
		n := xt.Elem().n
		sv = &SliceV{M: mem, Len: n, Cap: n}
		length, capacity = n, n
	default:
		sv, _ = v.O.(*SliceV)
		if sv != nil {
			length, capacity = sv.Len, sv.Cap
			if sv.SymLen != nil {
				return m.sliceSym(sv, lo, hi, mx)
			}
		}
	}
	bnd := func(x Value, max int) int {
		// 0 <= x <= max or panic
		if x.O == nil {
			if x.N > uint64(max) {
				m.rtPanic(fmt.Sprintf("slice bounds out of range [%d] with limit %d", int64(x.N), max))
			}
			return int(x.N)
		}
		t := x.O.(*Term)
		if !m.decide(c.Ule(t, c.Const(64, uint64(max)))) {
			m.rtPanic("slice bounds out of range")
		}
		return int(m.concretize(t))
	}
	mxv := capacity
	if mx != nil {
		mxv = bnd(*mx, capacity)
	}
	h := length
	if hi != nil {
		h = bnd(*hi, mxv)
	}
	l := 0
	if lo != nil {
		l = bnd(*lo, h)
	} else if h < 0 {
		l = 0
	}
	if l > h {
		m.rtPanic("slice bounds out of range")
	}
	if isStr {
		return strSlice(v, l, h)
	}
	if sv == nil {
		return Value{}
	}
	return Value{O: &SliceV{M: sv.M, Off: sv.Off + l, Len: h - l, Cap: mxv - l}}
}

func (m *M) sliceSym(sv *SliceV, lo, hi, mx *Value) Value {
	c := m.c
	if mx != nil || lo != nil && lo.O != nil || hi != nil && hi.O != nil {
		panic(abortf("slicing a slice of symbolic length"))
	}
	l := 0
	if lo != nil {
		l = int(lo.N)
	}
	if hi == nil {
		if l == 0 {
			return Value{O: sv}
		}
		if !m.decide(c.Ule(c.Const(64, uint64(l)), sv.SymLen)) {
			m.rtPanic("slice bounds out of range")
		}
		return Value{O: &SliceV{M: sv.M, Off: sv.Off + l, Len: sv.Len - l, Cap: sv.Cap - l, SymLen: c.Sub(sv.SymLen, c.Const(64, uint64(l)))}}
	}
	h := int(hi.N)
	if h < l {
		m.rtPanic("slice bounds out of range")
	}
	if !m.decide(c.Ule(c.Const(64, uint64(h)), sv.SymLen)) {
		m.rtPanic("slice bounds out of range")
	}
	return Value{O: &SliceV{M: sv.M, Off: sv.Off + l, Len: h - l, Cap: h - l}}
}

func (m *M) sliceLen(v Value) Value {
	s, _ := v.O.(*SliceV)
	if s == nil {
		return Value{}
	}
	if s.SymLen != nil {
		return T(s.SymLen)
	}
	return I(s.Len)
}

func (m *M) appendVals(s Value, vs []Value, et *RType) Value {
	sv, _ := s.O.(*SliceV)
	if sv == nil {
		if len(vs) == 0 {
			return s
		}
		sv = &SliceV{M: &Mem{}}
	}
	if sv.SymLen != nil {
		panic(abortf("append to a slice of symbolic length"))
	}
	n := sv.Len + len(vs)
	if n <= sv.Cap {
		for i, v := range vs {
			m.store(sv.M.at(sv.Off+sv.Len+i), v)
		}
		return Value{O: &SliceV{M: sv.M, Off: sv.Off, Len: n, Cap: sv.Cap}}
	}
	nc := sv.Cap
	if nc < 256 {
		nc *= 2
	} else {
		nc += nc/4 + 192
	}
	if nc < n {
		nc = n
	}
	if sz := int(et.Size()); sz > 0 && nc*sz < 8 {
		nc = 8 / sz
	}
	mem := &Mem{C: make([]Cell, nc)}
	for i := 0; i < sv.Len; i++ {
		c := sv.M.at(sv.Off + i)
		if m.raceOn {
			m.raceLoad(c)
		}
		setCell(&mem.C[i], et, load(c))
	}
	for i, v := range vs {
		setCell(&mem.C[sv.Len+i], et, v)
	}
	for i := n; i < nc; i++ {
		initCell(&mem.C[i], et)
	}
	return Value{O: &SliceV{M: mem, Len: n, Cap: nc}}
}

// ---- builtins ----

func (m *M) builtin(fr *Frame, b *ssa.Builtin, args []Value, site ssa.Instruction) Value {
	var cc *ssa.CallCommon
	switch s := site.(type) {
	case *ssa.Call:
		cc = &s.Call
	case *ssa.Defer:
		cc = &s.Call
	case *ssa.Go:
		cc = &s.Call
	}
	argT := func(i int) *RType { return RT(cc.Args[i].Type()) }
	switch b.Name() {
	case "len":
		t := argT(0)
		switch t.Kind {
		case reflect.String:
			return I(strLen(args[0]))
		case reflect.Slice:
			return m.sliceLen(args[0])
		case reflect.Map:
			mp, _ := args[0].O.(*MapV)
			if mp == nil {
				return I(0)
			}
			if m.raceOn {
				m.raceMap(mp, false)
			}
			return I(mp.n)
		case reflect.Array:
			return I(t.n)
		case reflect.Pointer:
			return I(t.Elem().n)
		case reflect.Chan:
			return I(0)
		}
	case "cap":
		t := argT(0)
		switch t.Kind {
		case reflect.Slice:
			s, _ := args[0].O.(*SliceV)
			if s == nil {
				return I(0)
			}
			if s.SymLen != nil {
				return T(s.SymLen)
			}
			return I(s.Cap)
		case reflect.Array:
			return I(t.n)
		case reflect.Pointer:
			return I(t.Elem().n)
		}
	case "append":
		et := argT(0).Elem()
		return m.appendVals(args[0], m.vals(args[1]), et)
	case "copy":
		ds, _ := args[0].O.(*SliceV)
		if ds == nil {
			return I(0)
		}
		if ds.SymLen != nil {
			panic(abortf("copy to a slice of symbolic length"))
		}
		vs := m.vals(args[1])
		n := min(ds.Len, len(vs))
		for i := 0; i < n; i++ {
			m.store(ds.M.at(ds.Off+i), vs[i])
		}
		return I(n)
	case "delete":
		mp, _ := args[0].O.(*MapV)
		if mp != nil {
			if m.raceOn {
				m.raceMap(mp, true)
			}
			m.mapDelete(mp, args[1])
		}
		return Value{}
	case "clear":
		switch argT(0).Kind {
		case reflect.Map:
			if mp, _ := args[0].O.(*MapV); mp != nil {
				m.mapTouch(mp)
				mp.ents, mp.idx, mp.n = nil, map[string]int{}, 0
			}
		default:
			if s, _ := args[0].O.(*SliceV); s != nil {
				z := argT(0).Elem().Zero()
				for i := 0; i < s.Len; i++ {
					m.store(s.M.at(s.Off+i), z)
				}
			}
		}
		return Value{}
	case "print", "println":
		return Value{}
	case "recover":
		return doRecover(fr)
	case "panic":
		panic(&goPanic{args[0]})
	case "real":
		re, _ := cparts(args[0])
		return re
	case "imag":
		_, im := cparts(args[0])
		return im
	case "complex":
		return mkComplex(args[0], args[1])
	case "min", "max":
		t := argT(0)
		r := args[0]
		for _, v := range args[1:] {
			var lt Value
			switch {
			case t.isInt():
				lt = m.intBin(token.LSS, t, v, r)
			case t.Kind == reflect.String:
				lt = m.cmpStr(token.LSS, v, r)
			default:
				panic(abortf("min/max of %s", t))
			}
			cond := m.boolTerm(lt)
			if b.Name() == "max" {
				cond = m.c.BNot(cond)
			}
			if t.isInt() {
				r = T(m.c.Ite(cond, m.term(v, t.W), m.term(r, t.W)))
			} else if m.decide(cond) {
				r = v
			}
		}
		return r
	case "ssa:wrapnilchk":
		if args[0].O == nil {
			m.nilDeref()
		}
		return args[0]
	case "SliceData":
		s, _ := args[0].O.(*SliceV)
		if s == nil {
			return Value{}
		}
		return Value{O: &rawPtr{s}}
	case "StringData":
		return Value{O: &rawPtr{m.mkSlice(strBytes(args[0]), RT(typUint8)).O.(*SliceV)}}
	case "String":
		if rp, ok := args[0].O.(*rawPtr); ok {
			n := m.intVal(args[1], argT(1).W)
			return mkStr(m.vals(Value{O: &SliceV{M: rp.s.M, Off: rp.s.Off, Len: n, Cap: n}}))
		}
		if args[0].O == nil {
			return Value{}
		}
	case "Slice":
		if rp, ok := args[0].O.(*rawPtr); ok {
			n := m.intVal(args[1], argT(1).W)
			return Value{O: &SliceV{M: rp.s.M, Off: rp.s.Off, Len: n, Cap: n}}
		}
	}
	panic(abortf("builtin %s", b.Name()))
}

// rawPtr is the result of unsafe.SliceData / unsafe.StringData.
type rawPtr struct{ s *SliceV }

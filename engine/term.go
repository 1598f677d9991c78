package main

// Hash-consed bit-vector / boolean terms with an aggressive, exact simplifier. Widths are 1..64
// bits; W==0 denotes a boolean. Floating-point values are carried as their IEEE bit patterns.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strings"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	// bit-vector
	OpNot
	OpAnd
	OpOr
	OpXor
	OpNeg
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpShl
	OpLShr
	OpAShr
	OpConcat // msb piece first
	OpExtract
	OpSExt
	OpIte
	// boolean results
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpBNot
	OpBAnd
	OpBOr
	// floating point on bit patterns; width of args decides format
	OpFAdd
	OpFSub
	OpFMul
	OpFDiv
	OpFNeg // sign flip
	OpFLt
	OpFLe
	OpFEq
	OpFCvt // float<->float by arg/result widths
	OpFToS // float -> signed int (result width), Go amd64 semantics
	OpFToU // float -> unsigned int
	OpSToF // signed int -> float
	OpUToF // unsigned int -> float
	OpFSqrt
)

type Term struct {
	Op        Op
	W         uint8
	K         uint64 // const value, var index, extract hi<<8|lo
	Args      []*Term
	id        uint32
	sup       int32 // -1 none, -2 several, >=0 the only variable
	fp        bool  // contains FP operation
	tt        *[4]uint64
	umax      uint64 // upper bound of the unsigned value
	memoStamp uint32
	memo      uint64
	name      string // smt name once emitted
	side      string // constraint that gives an FP result its meaning
	emit      uint32 // solver generation in which it was emitted
}

type Ctx struct {
	tab   map[uint64][]*Term
	nid   uint32
	vars  []*Term
	stamp uint32
	True  *Term
	False *Term
	ratio int
	raw   bool // build terms as they are, without simplification
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[uint64][]*Term{}}
	c.True = c.mk(OpConst, 0, 1)
	c.False = c.mk(OpConst, 0, 0)
	return c
}

func mask(w uint8) uint64 {
	if w == 0 {
		return 1
	}
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func (c *Ctx) mk(op Op, w uint8, k uint64, args ...*Term) *Term {
	h := uint64(op)*0x9E3779B97F4A7C15 ^ uint64(w)*0xC2B2AE3D27D4EB4F ^ k*0x165667B19E3779F9
	for _, a := range args {
		h = (h ^ uint64(a.id)) * 0x100000001B3
		h ^= h >> 29
	}
outer:
	for _, t := range c.tab[h] {
		if t.Op != op || t.W != w || t.K != k || len(t.Args) != len(args) {
			continue
		}
		for i := range args {
			if t.Args[i] != args[i] {
				continue outer
			}
		}
		return t
	}
	t := &Term{Op: op, W: w, K: k, id: c.nid, sup: -1}
	if len(args) > 0 {
		t.Args = append([]*Term(nil), args...)
	}
	c.nid++
	switch op {
	case OpConst:
		t.umax = k
	case OpVar:
		t.sup = int32(k)
		t.umax = mask(w)
	default:
		for _, a := range args {
			if a.sup == -2 || (t.sup >= 0 && a.sup >= 0 && a.sup != t.sup) {
				t.sup = -2
			} else if t.sup == -1 {
				t.sup = a.sup
			}
			if a.fp {
				t.fp = true
			}
		}
		if op >= OpFAdd {
			t.fp = true
		}
		t.umax = c.bound(t)
	}
	c.tab[h] = append(c.tab[h], t)
	return t
}

func (c *Ctx) bound(t *Term) uint64 {
	m := mask(t.W)
	switch t.Op {
	case OpConcat:
		v := uint64(0)
		for _, a := range t.Args {
			v = v<<a.W | a.umax
		}
		return v
	case OpIte:
		if t.Args[1].umax > t.Args[2].umax {
			return t.Args[1].umax
		}
		return t.Args[2].umax
	case OpExtract:
		a := t.Args[0]
		lo := uint8(t.K & 0xff)
		if v := a.umax >> lo; v <= m {
			return v
		}
		return m
	case OpAdd:
		s, carry := bits.Add64(t.Args[0].umax, t.Args[1].umax, 0)
		if carry == 0 && s <= m {
			return s
		}
		return m
	case OpMul:
		hi, lo := bits.Mul64(t.Args[0].umax, t.Args[1].umax)
		if hi == 0 && lo <= m {
			return lo
		}
		return m
	case OpAnd:
		r := m
		for _, a := range t.Args {
			if a.umax < r {
				r = a.umax
			}
		}
		return r
	case OpOr, OpXor:
		r := uint64(0)
		for _, a := range t.Args {
			r |= a.umax
		}
		if r == 0 {
			return 0
		}
		return mask(uint8(bits.Len64(r)))
	case OpUDiv:
		if t.Args[1].Op == OpConst && t.Args[1].K != 0 {
			return t.Args[0].umax / t.Args[1].K
		}
		return m
	case OpURem:
		if t.Args[1].Op == OpConst && t.Args[1].K != 0 {
			return t.Args[1].K - 1
		}
		return m
	case OpLShr:
		return t.Args[0].umax
	}
	return m
}

func (c *Ctx) Const(w uint8, v uint64) *Term {
	if w == 0 {
		return c.Bool(v != 0)
	}
	return c.mk(OpConst, w, v&mask(w))
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}

// Var returns the variable with the given index, creating it on demand. A path always creates its
// variables in the same order, but other paths may use the same index with another width.
func (c *Ctx) Var(idx int, w uint8) *Term {
	t := c.mk(OpVar, w, uint64(idx))
	for len(c.vars) <= idx {
		c.vars = append(c.vars, nil)
	}
	c.vars[idx] = t
	return t
}

func (t *Term) IsConst() bool { return t.Op == OpConst }

func (c *Ctx) Extract(x *Term, hi, lo uint8) *Term {
	w := hi - lo + 1
	if w == x.W {
		return x
	}
	if c.raw {
		return c.rawMk(OpExtract, w, uint64(hi)<<8|uint64(lo), x)
	}
	switch x.Op {
	case OpConst:
		return c.Const(w, x.K>>lo)
	case OpExtract:
		l0 := uint8(x.K & 0xff)
		return c.Extract(x.Args[0], hi+l0, lo+l0)
	case OpConcat:
		var ps []*Term
		pos := x.W
		for _, p := range x.Args {
			ph := pos - 1
			pl := pos - p.W
			pos = pl
			if ph < lo || pl > hi {
				continue
			}
			h, l := ph, pl
			if h > hi {
				h = hi
			}
			if l < lo {
				l = lo
			}
			ps = append(ps, c.Extract(p, h-pl, l-pl))
		}
		return c.Concat(ps...)
	case OpSExt:
		a := x.Args[0]
		if hi < a.W {
			return c.Extract(a, hi, lo)
		}
		if lo < a.W {
			return c.SExt(c.Extract(a, a.W-1, lo), w)
		}
		return c.SExt(c.Extract(a, a.W-1, a.W-1), w)
	case OpAnd, OpOr, OpXor:
		return c.bitop(x.Op, c.Extract(x.Args[0], hi, lo), c.Extract(x.Args[1], hi, lo))
	case OpNot:
		return c.NotBV(c.Extract(x.Args[0], hi, lo))
	case OpAdd, OpSub, OpMul, OpNeg:
		if lo == 0 {
			as := make([]*Term, len(x.Args))
			for i, a := range x.Args {
				as[i] = c.Extract(a, hi, lo)
			}
			return c.arith(x.Op, as)
		}
	case OpIte:
		return c.Ite(x.Args[0], c.Extract(x.Args[1], hi, lo), c.Extract(x.Args[2], hi, lo))
	}
	if x.umax>>lo == 0 {
		return c.Const(w, 0)
	}
	return c.mk(OpExtract, w, uint64(hi)<<8|uint64(lo), x)
}

func (c *Ctx) arith(op Op, as []*Term) *Term {
	switch op {
	case OpAdd:
		return c.Add(as[0], as[1])
	case OpSub:
		return c.Sub(as[0], as[1])
	case OpMul:
		return c.Mul(as[0], as[1])
	case OpNeg:
		return c.Neg(as[0])
	}
	panic("arith")
}

func (c *Ctx) Concat(ps ...*Term) *Term {
	if c.raw {
		if len(ps) == 1 {
			return ps[0]
		}
		w := uint8(0)
		for _, p := range ps {
			w += p.W
		}
		return c.rawMk(OpConcat, w, 0, ps...)
	}
	var out []*Term
	var add func(p *Term)
	add = func(p *Term) {
		if p.Op == OpConcat {
			for _, q := range p.Args {
				add(q)
			}
			return
		}
		if n := len(out); n > 0 {
			l := out[n-1]
			if l.Op == OpConst && p.Op == OpConst {
				out[n-1] = c.Const(l.W+p.W, l.K<<p.W|p.K)
				return
			}
			lb, lh, ll := base(l)
			pb, ph, pl := base(p)
			if lb == pb && ll == ph+1 && lb.Op != OpConst {
				out[n-1] = c.Extract(lb, lh, pl)
				if out[n-1].Op == OpConcat { // cannot happen for atoms, but stay safe
					q := out[n-1]
					out = out[:n-1]
					out = append(out, q.Args...)
				}
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range ps {
		add(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	w := 0
	for _, p := range out {
		w += int(p.W)
	}
	if w > 64 {
		panic(fmt.Sprintf("concat too wide: %d", w))
	}
	return c.mk(OpConcat, uint8(w), 0, out...)
}

func base(t *Term) (*Term, uint8, uint8) {
	if t.Op == OpExtract {
		return t.Args[0], uint8(t.K >> 8), uint8(t.K & 0xff)
	}
	return t, t.W - 1, 0
}

func (c *Ctx) ZExt(x *Term, w uint8) *Term {
	if w == x.W {
		return x
	}
	return c.Concat(c.Const(w-x.W, 0), x)
}

func (c *Ctx) SExt(x *Term, w uint8) *Term {
	if w == x.W {
		return x
	}
	if c.raw {
		return c.rawMk(OpSExt, w, 0, x)
	}
	switch x.Op {
	case OpConst:
		s := int64(x.K<<(64-x.W)) >> (64 - x.W)
		return c.Const(w, uint64(s))
	case OpSExt:
		return c.SExt(x.Args[0], w)
	case OpConcat:
		p := x.Args[0]
		if p.Op == OpConst && p.K>>(p.W-1)&1 == 0 {
			return c.ZExt(x, w)
		}
	case OpIte:
		if x.Args[1].IsConst() || x.Args[2].IsConst() {
			return c.Ite(x.Args[0], c.SExt(x.Args[1], w), c.SExt(x.Args[2], w))
		}
	}
	if x.umax>>(x.W-1) == 0 {
		return c.ZExt(x, w)
	}
	return c.mk(OpSExt, w, 0, x)
}

// Resize truncates or extends to w.
func (c *Ctx) Resize(x *Term, w uint8, signed bool) *Term {
	switch {
	case x.W == w:
		return x
	case w < x.W:
		return c.Extract(x, w-1, 0)
	case signed:
		return c.SExt(x, w)
	}
	return c.ZExt(x, w)
}

func (c *Ctx) NotBV(x *Term) *Term {
	if c.raw {
		return c.rawMk(OpNot, x.W, 0, x)
	}
	switch x.Op {
	case OpConst:
		return c.Const(x.W, ^x.K)
	case OpNot:
		return x.Args[0]
	case OpConcat:
		ps := make([]*Term, len(x.Args))
		for i, p := range x.Args {
			ps[i] = c.NotBV(p)
		}
		return c.Concat(ps...)
	case OpSExt:
		return c.SExt(c.NotBV(x.Args[0]), x.W)
	case OpIte:
		if x.Args[1].IsConst() && x.Args[2].IsConst() {
			return c.Ite(x.Args[0], c.NotBV(x.Args[1]), c.NotBV(x.Args[2]))
		}
	}
	return c.mk(OpNot, x.W, 0, x)
}

func (c *Ctx) And(a, b *Term) *Term { return c.bitop(OpAnd, a, b) }
func (c *Ctx) Or(a, b *Term) *Term  { return c.bitop(OpOr, a, b) }
func (c *Ctx) Xor(a, b *Term) *Term { return c.bitop(OpXor, a, b) }

func bitK(op Op, a, b uint64) uint64 {
	switch op {
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	}
	return a ^ b
}

func (c *Ctx) bitop(op Op, a, b *Term) *Term {
	if c.raw {
		return c.rawMk(op, a.W, 0, a, b)
	}
	if a.W != b.W {
		panic("bitop width")
	}
	if a.id > b.id {
		a, b = b, a
	}
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, bitK(op, a.K, b.K))
	}
	if b.IsConst() {
		a, b = b, a
	}
	m := mask(a.W)
	if a == b {
		if op == OpXor {
			return c.Const(a.W, 0)
		}
		return a
	}
	if a.IsConst() {
		switch {
		case a.K == 0 && op == OpAnd:
			return a
		case a.K == 0:
			return b
		case a.K == m && op == OpAnd:
			return b
		case a.K == m && op == OpOr:
			return a
		case a.K == m && op == OpXor:
			return c.NotBV(b)
		}
		// split the constant into runs so that masks become concatenations
		if a.W > 1 {
			var ps []*Term
			hi := int(a.W) - 1
			for hi >= 0 {
				bit := a.K >> uint(hi) & 1
				lo := hi
				for lo > 0 && a.K>>uint(lo-1)&1 == bit {
					lo--
				}
				w := uint8(hi - lo + 1)
				ps = append(ps, c.bitop(op, c.Const(w, a.K>>uint(lo)), c.Extract(b, uint8(hi), uint8(lo))))
				hi = lo - 1
			}
			return c.Concat(ps...)
		}
	}
	if a.Op == OpConcat || b.Op == OpConcat {
		// align on the union of the piece boundaries
		cut := [65]bool{}
		for _, x := range []*Term{a, b} {
			if x.Op == OpConcat {
				pos := x.W
				for _, p := range x.Args {
					pos -= p.W
					cut[pos] = true
				}
			}
		}
		var ps []*Term
		hi := int(a.W) - 1
		for hi >= 0 {
			lo := hi
			for !cut[lo] && lo > 0 {
				lo--
			}
			ps = append(ps, c.bitop(op, c.Extract(a, uint8(hi), uint8(lo)), c.Extract(b, uint8(hi), uint8(lo))))
			hi = lo - 1
		}
		return c.Concat(ps...)
	}
	if a.Op == OpNot && a.Args[0] == b || b.Op == OpNot && b.Args[0] == a {
		if op == OpAnd {
			return c.Const(a.W, 0)
		}
		return c.Const(a.W, m)
	}
	// ite of constants distributes
	if a.IsConst() && b.Op == OpIte && b.Args[1].IsConst() && b.Args[2].IsConst() {
		return c.Ite(b.Args[0], c.bitop(op, a, b.Args[1]), c.bitop(op, a, b.Args[2]))
	}
	if a.Op == OpSExt && b.Op == OpSExt && a.Args[0].W == b.Args[0].W {
		return c.SExt(c.bitop(op, a.Args[0], b.Args[0]), a.W)
	}
	if op == OpXor {
		// (x ^ y) ^ y = x
		for i := 0; i < 2; i++ {
			p, q := a, b
			if i == 1 {
				p, q = b, a
			}
			if p.Op == OpXor {
				if p.Args[0] == q {
					return p.Args[1]
				}
				if p.Args[1] == q {
					return p.Args[0]
				}
			}
		}
	}
	return c.mk(op, a.W, 0, a, b)
}

func (c *Ctx) Neg(x *Term) *Term {
	if c.raw {
		return c.rawMk(OpNeg, x.W, 0, x)
	}
	if x.IsConst() {
		return c.Const(x.W, -x.K)
	}
	if x.Op == OpNeg {
		return x.Args[0]
	}
	return c.mk(OpNeg, x.W, 0, x)
}

func (c *Ctx) Add(a, b *Term) *Term {
	if c.raw {
		return c.rawMk(OpAdd, a.W, 0, a, b)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		return c.Const(a.W, a.K+b.K)
	}
	if b.IsConst() {
		if b.K == 0 {
			return a
		}
		if a.Op == OpAdd && a.Args[1].IsConst() {
			return c.Add(a.Args[0], c.Const(a.W, a.Args[1].K+b.K))
		}
		if a.Op == OpIte && a.Args[1].IsConst() && a.Args[2].IsConst() {
			return c.Ite(a.Args[0], c.Add(a.Args[1], b), c.Add(a.Args[2], b))
		}
		// zext(x)+c without carry out of x's width narrows
		return c.mk(OpAdd, a.W, 0, a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	if r := c.narrow2(OpAdd, a, b); r != nil {
		return r
	}
	return c.mk(OpAdd, a.W, 0, a, b)
}

// narrow2 performs an unsigned-safe operation at the width its result bound needs.
func (c *Ctx) narrow2(op Op, a, b *Term) *Term {
	if a.W <= 8 {
		return nil
	}
	var r uint64
	switch op {
	case OpAdd:
		s, cy := bits.Add64(a.umax, b.umax, 0)
		if cy != 0 {
			return nil
		}
		r = s
	case OpMul:
		hi, lo := bits.Mul64(a.umax, b.umax)
		if hi != 0 {
			return nil
		}
		r = lo
	}
	w := uint8(bits.Len64(r))
	if w == 0 {
		return c.Const(a.W, 0)
	}
	if w >= a.W {
		return nil
	}
	x, y := c.Extract(a, w-1, 0), c.Extract(b, w-1, 0)
	if x.id > y.id {
		x, y = y, x
	}
	return c.ZExt(c.mk(op, w, 0, x, y), a.W)
}

func (c *Ctx) Sub(a, b *Term) *Term {
	if c.raw {
		return c.rawMk(OpSub, a.W, 0, a, b)
	}
	if a == b {
		return c.Const(a.W, 0)
	}
	if b.IsConst() {
		return c.Add(a, c.Const(a.W, -b.K))
	}
	if a.Op == OpAdd {
		if a.Args[0] == b {
			return a.Args[1]
		}
		if a.Args[1] == b {
			return a.Args[0]
		}
	}
	if a.IsConst() && a.K == 0 {
		return c.Neg(b)
	}
	return c.mk(OpSub, a.W, 0, a, b)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	if c.raw {
		return c.rawMk(OpMul, a.W, 0, a, b)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		return c.Const(a.W, a.K*b.K)
	}
	if b.IsConst() {
		switch {
		case b.K == 0:
			return b
		case b.K == 1:
			return a
		case b.K == mask(b.W):
			return c.Neg(a)
		case b.K&(b.K-1) == 0:
			return c.Shl(a, c.Const(a.W, uint64(bits.TrailingZeros64(b.K))))
		}
	}
	if !b.IsConst() && a.id > b.id {
		a, b = b, a
	}
	if r := c.narrow2(OpMul, a, b); r != nil {
		return r
	}
	return c.mk(OpMul, a.W, 0, a, b)
}

func sgn(v uint64, w uint8) int64 { return int64(v<<(64-w)) >> (64 - w) }

func (c *Ctx) UDiv(a, b *Term) *Term {
	if c.raw {
		return c.rawMk(OpUDiv, a.W, 0, a, b)
	}
	if b.IsConst() && b.K != 0 {
		if a.IsConst() {
			return c.Const(a.W, a.K/b.K)
		}
		if b.K&(b.K-1) == 0 {
			return c.LShr(a, c.Const(a.W, uint64(bits.TrailingZeros64(b.K))))
		}
	}
	return c.mk(OpUDiv, a.W, 0, a, b)
}
func (c *Ctx) URem(a, b *Term) *Term {
	if c.raw {
		return c.rawMk(OpURem, a.W, 0, a, b)
	}
	if b.IsConst() && b.K != 0 {
		if a.IsConst() {
			return c.Const(a.W, a.K%b.K)
		}
		if b.K&(b.K-1) == 0 {
			return c.And(a, c.Const(a.W, b.K-1))
		}
		if a.umax < b.K {
			return a
		}
	}
	return c.mk(OpURem, a.W, 0, a, b)
}
func (c *Ctx) nonneg(x *Term) bool { return x.umax>>(x.W-1) == 0 }

func (c *Ctx) SDiv(a, b *Term) *Term {
	if c.raw {
		return c.rawMk(OpSDiv, a.W, 0, a, b)
	}
	if a.IsConst() && b.IsConst() && b.K != 0 {
		x, y := sgn(a.K, a.W), sgn(b.K, b.W)
		if y == -1 {
			return c.Const(a.W, uint64(-x))
		}
		return c.Const(a.W, uint64(x/y))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.UDiv(a, b)
	}
	return c.mk(OpSDiv, a.W, 0, a, b)
}
func (c *Ctx) SRem(a, b *Term) *Term {
	if c.raw {
		return c.rawMk(OpSRem, a.W, 0, a, b)
	}
	if a.IsConst() && b.IsConst() && b.K != 0 {
		x, y := sgn(a.K, a.W), sgn(b.K, b.W)
		if y == -1 {
			return c.Const(a.W, 0)
		}
		return c.Const(a.W, uint64(x%y))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.URem(a, b)
	}
	return c.mk(OpSRem, a.W, 0, a, b)
}

// Shifts: both operands have the same width; a count >= width gives 0 (or the sign).
func (c *Ctx) Shl(a, n *Term) *Term {
	if c.raw {
		return c.rawMk(OpShl, a.W, 0, a, n)
	}
	if n.IsConst() {
		if n.K == 0 {
			return a
		}
		if n.K >= uint64(a.W) {
			return c.Const(a.W, 0)
		}
		s := uint8(n.K)
		return c.Concat(c.Extract(a, a.W-1-s, 0), c.Const(s, 0))
	}
	if a.IsConst() && a.K == 0 {
		return a
	}
	return c.mk(OpShl, a.W, 0, a, n)
}
func (c *Ctx) LShr(a, n *Term) *Term {
	if c.raw {
		return c.rawMk(OpLShr, a.W, 0, a, n)
	}
	if n.IsConst() {
		if n.K == 0 {
			return a
		}
		if n.K >= uint64(a.W) {
			return c.Const(a.W, 0)
		}
		s := uint8(n.K)
		return c.Concat(c.Const(s, 0), c.Extract(a, a.W-1, s))
	}
	if a.IsConst() && a.K == 0 {
		return a
	}
	return c.mk(OpLShr, a.W, 0, a, n)
}
func (c *Ctx) AShr(a, n *Term) *Term {
	if c.raw {
		return c.rawMk(OpAShr, a.W, 0, a, n)
	}
	if n.IsConst() {
		if n.K == 0 {
			return a
		}
		s := n.K
		if s >= uint64(a.W) {
			s = uint64(a.W) - 1
		}
		return c.SExt(c.Extract(a, a.W-1, uint8(s)), a.W)
	}
	if c.nonneg(a) {
		return c.LShr(a, n)
	}
	return c.mk(OpAShr, a.W, 0, a, n)
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	if p == c.True {
		return a
	}
	if p == c.False {
		return b
	}
	if a == b && !c.raw {
		return a
	}
	if a.W == 0 {
		if a == c.True && b == c.False {
			return p
		}
		if a == c.False && b == c.True {
			return c.BNot(p)
		}
		return c.BOr(c.BAnd(p, a), c.BAnd(c.BNot(p), b))
	}
	if c.raw {
		return c.rawMk(OpIte, a.W, 0, p, a, b)
	}
	if p.Op == OpBNot {
		return c.Ite(p.Args[0], b, a)
	}
	if b.Op == OpIte && b.Args[0] == p {
		b = b.Args[2]
	}
	if a.Op == OpIte && a.Args[0] == p {
		a = a.Args[1]
	}
	// a bit test turned back into the bit
	if a.W == 1 && a.IsConst() && b.IsConst() && p.Op == OpEq && p.Args[0].W == 1 {
		x, y := p.Args[0], p.Args[1]
		if x.IsConst() {
			x, y = y, x
		}
		if y.IsConst() {
			if y.K == a.K {
				return x
			}
			return c.NotBV(x)
		}
	}
	// common leading / trailing pieces
	if a.W > 1 {
		if a.IsConst() && b.IsConst() {
			d := a.K ^ b.K
			hi, lo := uint8(63-bits.LeadingZeros64(d)), uint8(bits.TrailingZeros64(d))
			if hi < a.W-1 || lo > 0 {
				var ps []*Term
				if hi < a.W-1 {
					ps = append(ps, c.Extract(a, a.W-1, hi+1))
				}
				ps = append(ps, c.Ite(p, c.Extract(a, hi, lo), c.Extract(b, hi, lo)))
				if lo > 0 {
					ps = append(ps, c.Extract(a, lo-1, 0))
				}
				return c.Concat(ps...)
			}
		} else if a.Op == OpConcat || b.Op == OpConcat {
			cut := [65]bool{}
			for _, x := range []*Term{a, b} {
				if x.Op == OpConcat {
					pos := x.W
					for _, p := range x.Args {
						pos -= p.W
						cut[pos] = true
					}
				}
			}
			any := false
			var ps []*Term
			hi := int(a.W) - 1
			for hi >= 0 {
				lo := hi
				for !cut[lo] && lo > 0 {
					lo--
				}
				x, y := c.Extract(a, uint8(hi), uint8(lo)), c.Extract(b, uint8(hi), uint8(lo))
				if x == y {
					any = true
				}
				ps = append(ps, x, y)
				hi = lo - 1
			}
			if any {
				var qs []*Term
				for i := 0; i < len(ps); i += 2 {
					qs = append(qs, c.Ite(p, ps[i], ps[i+1]))
				}
				return c.Concat(qs...)
			}
		}
	}
	return c.mk(OpIte, a.W, 0, p, a, b)
}

func (c *Ctx) Eq(a, b *Term) *Term {
	if c.raw {
		return c.rawMk(OpEq, 0, 0, a, b)
	}
	if a == b {
		return c.True
	}
	if a.W != b.W {
		panic(fmt.Sprintf("eq width %d %d", a.W, b.W))
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b == c.True {
			return a
		}
		if b == c.False {
			return c.BNot(a)
		}
		if a.Op == OpBNot && a.Args[0] == b || b.Op == OpBNot && b.Args[0] == a {
			return c.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OpEq, 0, 0, a, b)
	}
	if a.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		return c.False
	}
	if b.IsConst() {
		if b.K > a.umax {
			return c.False
		}
		switch a.Op {
		case OpConcat:
			r := c.True
			pos := a.W
			for _, p := range a.Args {
				pos -= p.W
				r = c.BAnd(r, c.Eq(p, c.Const(p.W, b.K>>pos)))
				if r == c.False {
					return r
				}
			}
			return r
		case OpSExt:
			x := a.Args[0]
			if uint64(sgn(b.K&mask(x.W), x.W))&mask(a.W) != b.K {
				return c.False
			}
			return c.Eq(x, c.Const(x.W, b.K))
		case OpNot:
			return c.Eq(a.Args[0], c.Const(a.W, ^b.K))
		case OpNeg:
			return c.Eq(a.Args[0], c.Const(a.W, -b.K))
		case OpAdd:
			if a.Args[1].IsConst() {
				return c.Eq(a.Args[0], c.Const(a.W, b.K-a.Args[1].K))
			}
		case OpXor:
			if a.Args[0].IsConst() {
				return c.Eq(a.Args[1], c.Const(a.W, b.K^a.Args[0].K))
			}
		case OpIte:
			x, y := a.Args[1], a.Args[2]
			if x.IsConst() || y.IsConst() {
				return c.Ite(a.Args[0], c.Eq(x, b), c.Eq(y, b))
			}
		}
		if a.W == 1 && b.K == 0 {
			return c.BNot(c.Eq(a, c.Const(1, 1)))
		}
		return c.mk(OpEq, 0, 0, a, b)
	}
	if a.Op == OpConcat || b.Op == OpConcat {
		cut := [65]bool{}
		for _, x := range []*Term{a, b} {
			if x.Op == OpConcat {
				pos := x.W
				for _, p := range x.Args {
					pos -= p.W
					cut[pos] = true
				}
			}
		}
		r := c.True
		hi := int(a.W) - 1
		for hi >= 0 {
			lo := hi
			for !cut[lo] && lo > 0 {
				lo--
			}
			r = c.BAnd(r, c.Eq(c.Extract(a, uint8(hi), uint8(lo)), c.Extract(b, uint8(hi), uint8(lo))))
			if r == c.False {
				return r
			}
			hi = lo - 1
		}
		return r
	}
	if a.Op == OpSExt && b.Op == OpSExt && a.Args[0].W == b.Args[0].W {
		return c.Eq(a.Args[0], b.Args[0])
	}
	if a.Op == OpIte && b.Op == OpIte && a.Args[0] == b.Args[0] {
		return c.Ite(a.Args[0], c.Eq(a.Args[1], b.Args[1]), c.Eq(a.Args[2], b.Args[2]))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, 0, a, b)
}

func (c *Ctx) Ult(a, b *Term) *Term {
	if c.raw {
		return c.rawMk(OpUlt, 0, 0, a, b)
	}
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.K < b.K)
	}
	if b.IsConst() {
		if b.K == 0 {
			return c.False
		}
		if a.umax < b.K {
			return c.True
		}
		if b.K == 1 {
			return c.Eq(a, c.Const(a.W, 0))
		}
	}
	if a.IsConst() {
		if a.K >= b.umax {
			return c.False
		}
		if a.K == 0 {
			return c.BNot(c.Eq(b, c.Const(b.W, 0)))
		}
	}
	// drop common zero top
	if n := uint8(bits.Len64(a.umax | b.umax)); n < a.W && n > 0 {
		return c.Ult(c.Extract(a, n-1, 0), c.Extract(b, n-1, 0))
	}
	// x < 2^k is a test of the high bits
	if b.IsConst() && b.K&(b.K-1) == 0 {
		k := uint8(bits.TrailingZeros64(b.K))
		h := c.Extract(a, a.W-1, k)
		if h.Op != OpExtract || a.Op == OpExtract {
			return c.Eq(h, c.Const(h.W, 0))
		}
	}
	return c.mk(OpUlt, 0, 0, a, b)
}
func (c *Ctx) Ule(a, b *Term) *Term { return c.BNot(c.Ult(b, a)) }
func (c *Ctx) Slt(a, b *Term) *Term {
	if c.raw {
		return c.rawMk(OpSlt, 0, 0, a, b)
	}
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(sgn(a.K, a.W) < sgn(b.K, b.W))
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if b.IsConst() && b.K == 0 {
		return c.Eq(c.Extract(a, a.W-1, a.W-1), c.Const(1, 1))
	}
	if c.nonneg(a) && b.IsConst() && sgn(b.K, b.W) < 0 {
		return c.False
	}
	if a.IsConst() && sgn(a.K, a.W) < 0 && c.nonneg(b) {
		return c.True
	}
	if a.Op == OpSExt && (b.Op == OpSExt && a.Args[0].W == b.Args[0].W) {
		return c.Slt(a.Args[0], b.Args[0])
	}
	if a.Op == OpSExt && b.IsConst() {
		w := a.Args[0].W
		s := sgn(b.K, b.W)
		if s >= -(int64(1)<<(w-1)) && s < int64(1)<<(w-1) {
			return c.Slt(a.Args[0], c.Const(w, uint64(s)))
		}
		return c.Bool(s > 0)
	}
	if b.Op == OpSExt && a.IsConst() {
		w := b.Args[0].W
		s := sgn(a.K, a.W)
		if s >= -(int64(1)<<(w-1)) && s < int64(1)<<(w-1) {
			return c.Slt(c.Const(w, uint64(s)), b.Args[0])
		}
		return c.Bool(s < 0)
	}
	return c.mk(OpSlt, 0, 0, a, b)
}
func (c *Ctx) Sle(a, b *Term) *Term { return c.BNot(c.Slt(b, a)) }

func (c *Ctx) BNot(x *Term) *Term {
	switch {
	case x == c.True:
		return c.False
	case x == c.False:
		return c.True
	case x.Op == OpBNot && !c.raw:
		return x.Args[0]
	}
	return c.mk(OpBNot, 0, 0, x)
}
func (c *Ctx) BAnd(a, b *Term) *Term {
	if a == c.False || b == c.False {
		return c.False
	}
	if a == c.True || a == b {
		return b
	}
	if b == c.True {
		return a
	}
	if c.raw {
		return c.mk(OpBAnd, 0, 0, a, b)
	}
	if a.Op == OpBNot && a.Args[0] == b || b.Op == OpBNot && b.Args[0] == a {
		return c.False
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBAnd, 0, 0, a, b)
}
func (c *Ctx) BOr(a, b *Term) *Term {
	if a == c.True || b == c.True {
		return c.True
	}
	if a == c.False || a == b {
		return b
	}
	if b == c.False {
		return a
	}
	if c.raw {
		return c.mk(OpBOr, 0, 0, a, b)
	}
	if a.Op == OpBNot && a.Args[0] == b || b.Op == OpBNot && b.Args[0] == a {
		return c.True
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpBOr, 0, 0, a, b)
}

// B2V turns a boolean into a 1-bit vector.
func (c *Ctx) B2V(p *Term) *Term { return c.Ite(p, c.Const(1, 1), c.Const(1, 0)) }

// ---- floating point ----

func (c *Ctx) FBin(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Const(a.W, fbin(op, a.W, a.K, b.K))
	}
	return c.mk(op, a.W, 0, a, b)
}
func (c *Ctx) FCmp(op Op, a, b *Term) *Term {
	if a.IsConst() && b.IsConst() {
		return c.Bool(fcmp(op, a.W, a.K, b.K))
	}
	return c.mk(op, 0, 0, a, b)
}
func (c *Ctx) FNeg(a *Term) *Term {
	return c.Concat(c.NotBV(c.Extract(a, a.W-1, a.W-1)), c.Extract(a, a.W-2, 0))
}
func (c *Ctx) FCvt(a *Term, w uint8) *Term {
	if a.W == w {
		return a
	}
	if a.IsConst() {
		return c.Const(w, fcvt(a.K, a.W, w))
	}
	if w == 32 && !c.raw && a.Op == OpFCvt && a.Args[0].W == 32 {
		// exact: widening then narrowing is the identity except that signalling NaNs are quieted
		x := a.Args[0]
		isNaN := c.BAnd(c.Eq(c.Extract(x, 30, 23), c.Const(8, 0xff)), c.BNot(c.Eq(c.Extract(x, 22, 0), c.Const(23, 0))))
		return c.Concat(c.Extract(x, 31, 23), c.Or(c.Extract(x, 22, 22), c.B2V(isNaN)), c.Extract(x, 21, 0))
	}
	return c.mk(OpFCvt, w, 0, a)
}
func (c *Ctx) FToI(a *Term, w uint8, signed bool) *Term {
	op := OpFToU
	if signed {
		op = OpFToS
	}
	if a.IsConst() {
		return c.Const(w, ftoi(a.K, a.W, w, signed))
	}
	return c.mk(op, w, 0, a)
}
func (c *Ctx) IToF(a *Term, w uint8, signed bool) *Term {
	op := OpUToF
	if signed {
		op = OpSToF
	}
	if a.IsConst() {
		return c.Const(w, itof(a.K, a.W, w, signed))
	}
	return c.mk(op, w, 0, a)
}

func f64(w uint8, k uint64) float64 {
	if w == 32 {
		return float64(math.Float32frombits(uint32(k)))
	}
	return math.Float64frombits(k)
}
func fbin(op Op, w uint8, x, y uint64) uint64 {
	if w == 32 {
		a, b := math.Float32frombits(uint32(x)), math.Float32frombits(uint32(y))
		var r float32
		switch op {
		case OpFAdd:
			r = a + b
		case OpFSub:
			r = a - b
		case OpFMul:
			r = a * b
		case OpFDiv:
			r = a / b
		}
		return uint64(math.Float32bits(r))
	}
	a, b := math.Float64frombits(x), math.Float64frombits(y)
	var r float64
	switch op {
	case OpFAdd:
		r = a + b
	case OpFSub:
		r = a - b
	case OpFMul:
		r = a * b
	case OpFDiv:
		r = a / b
	}
	return math.Float64bits(r)
}
func fcmp(op Op, w uint8, x, y uint64) bool {
	a, b := f64(w, x), f64(w, y)
	switch op {
	case OpFLt:
		return a < b
	case OpFLe:
		return a <= b
	}
	return a == b
}
func fcvt(k uint64, from, to uint8) uint64 {
	if from == 32 {
		return math.Float64bits(float64(math.Float32frombits(uint32(k))))
	}
	return uint64(math.Float32bits(float32(math.Float64frombits(k))))
}
func ftoi(k uint64, from, to uint8, signed bool) uint64 {
	f := f64(from, k)
	if signed {
		switch to {
		case 8:
			return uint64(int8(f))
		case 16:
			return uint64(int16(f))
		case 32:
			return uint64(int32(f))
		}
		return uint64(int64(f))
	}
	switch to {
	case 8:
		return uint64(uint8(f))
	case 16:
		return uint64(uint16(f))
	case 32:
		return uint64(uint32(f))
	}
	return uint64(f)
}
func itof(k uint64, from, to uint8, signed bool) uint64 {
	if signed {
		s := sgn(k, from)
		if to == 32 {
			return uint64(math.Float32bits(float32(s)))
		}
		return math.Float64bits(float64(s))
	}
	if to == 32 {
		return uint64(math.Float32bits(float32(k)))
	}
	return math.Float64bits(float64(k))
}

// ---- evaluation under a model ----

type Model []uint64

func (m Model) get(i uint64) uint64 {
	if i < uint64(len(m)) {
		return m[i]
	}
	return 0
}

func (c *Ctx) Eval(t *Term, m Model) uint64 {
	if t.Op == OpConst {
		return t.K
	}
	c.stamp++
	return c.eval(t, m)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (c *Ctx) eval(t *Term, m Model) uint64 {
	if t.Op == OpConst {
		return t.K
	}
	if t.Op == OpVar {
		return m.get(t.K) & mask(t.W)
	}
	if t.memoStamp == c.stamp {
		return t.memo
	}
	var r uint64
	a := t.Args
	switch t.Op {
	case OpIte:
		if c.eval(a[0], m) != 0 {
			r = c.eval(a[1], m)
		} else {
			r = c.eval(a[2], m)
		}
	case OpConcat:
		for _, p := range a {
			r = r<<p.W | c.eval(p, m)
		}
	case OpBAnd:
		r = c.eval(a[0], m)
		if r != 0 {
			r = c.eval(a[1], m)
		}
	case OpBOr:
		r = c.eval(a[0], m)
		if r == 0 {
			r = c.eval(a[1], m)
		}
	default:
		x := c.eval(a[0], m)
		var y uint64
		if len(a) > 1 {
			y = c.eval(a[1], m)
		}
		w := a[0].W
		switch t.Op {
		case OpNot:
			r = ^x
		case OpAnd:
			r = x & y
		case OpOr:
			r = x | y
		case OpXor:
			r = x ^ y
		case OpNeg:
			r = -x
		case OpAdd:
			r = x + y
		case OpSub:
			r = x - y
		case OpMul:
			r = x * y
		case OpUDiv:
			if y == 0 {
				r = ^uint64(0)
			} else {
				r = x / y
			}
		case OpURem:
			if y == 0 {
				r = x
			} else {
				r = x % y
			}
		case OpSDiv:
			sx, sy := sgn(x, w), sgn(y, w)
			switch {
			case sy == 0:
				if sx < 0 {
					r = 1
				} else {
					r = ^uint64(0)
				}
			case sy == -1:
				r = uint64(-sx)
			default:
				r = uint64(sx / sy)
			}
		case OpSRem:
			sx, sy := sgn(x, w), sgn(y, w)
			switch {
			case sy == 0:
				r = x
			case sy == -1:
				r = 0
			default:
				r = uint64(sx % sy)
			}
		case OpShl:
			if y < uint64(w) {
				r = x << y
			}
		case OpLShr:
			if y < uint64(w) {
				r = x >> y
			}
		case OpAShr:
			if y >= uint64(w) {
				y = uint64(w) - 1
			}
			r = uint64(sgn(x, w) >> y)
		case OpExtract:
			r = x >> (t.K & 0xff)
		case OpSExt:
			r = uint64(sgn(x, w))
		case OpEq:
			r = b2u(x == y)
		case OpUlt:
			r = b2u(x < y)
		case OpUle:
			r = b2u(x <= y)
		case OpSlt:
			r = b2u(sgn(x, w) < sgn(y, w))
		case OpSle:
			r = b2u(sgn(x, w) <= sgn(y, w))
		case OpBNot:
			r = 1 - x
		case OpFAdd, OpFSub, OpFMul, OpFDiv:
			r = fbin(t.Op, w, x, y)
		case OpFLt, OpFLe, OpFEq:
			r = b2u(fcmp(t.Op, w, x, y))
		case OpFCvt:
			r = fcvt(x, w, t.W)
		case OpFToS:
			r = ftoi(x, w, t.W, true)
		case OpFToU:
			r = ftoi(x, w, t.W, false)
		case OpSToF:
			r = itof(x, w, t.W, true)
		case OpUToF:
			r = itof(x, w, t.W, false)
		case OpFSqrt:
			if w == 32 {
				r = uint64(math.Float32bits(float32(math.Sqrt(f64(w, x)))))
			} else {
				r = math.Float64bits(math.Sqrt(f64(w, x)))
			}
		default:
			panic(fmt.Sprintf("eval op %d", t.Op))
		}
		r &= mask(t.W)
	}
	t.memoStamp = c.stamp
	t.memo = r
	return r
}

// TruthTable gives, for a boolean term over one variable of at most 8 bits, the set of values of
// the variable for which it holds.
func (c *Ctx) TruthTable(t *Term) *[4]uint64 {
	if t.tt != nil {
		return t.tt
	}
	if t.sup < 0 || t.W != 0 {
		return nil
	}
	v := findVar(t)
	if v.W > 8 || v.W == 0 {
		return nil
	}
	m := make(Model, t.sup+1)
	var tt [4]uint64
	for x := uint64(0); x <= mask(v.W); x++ {
		m[t.sup] = x
		if c.Eval(t, m) != 0 {
			tt[x>>6] |= 1 << (x & 63)
		}
	}
	t.tt = &tt
	return t.tt
}

func findVar(t *Term) *Term {
	for t.Op != OpVar {
		for _, a := range t.Args {
			if a.sup >= 0 {
				t = a
				break
			}
		}
	}
	return t
}

func (c *Ctx) Support(ts []*Term) []int {
	seen := map[*Term]bool{}
	set := map[int]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.sup == -1 || seen[t] {
			return
		}
		seen[t] = true
		if t.Op == OpVar {
			set[int(t.K)] = true
			return
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, t := range ts {
		rec(t)
	}
	var out []int
	for k := range set {
		out = append(out, k)
	}
	sort.Ints(out)
	return out
}

// ---- SMT-LIB ----

var smtName = map[Op]string{OpNot: "bvnot", OpAnd: "bvand", OpOr: "bvor", OpXor: "bvxor", OpNeg: "bvneg",
	OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpSDiv: "bvsdiv", OpURem: "bvurem",
	OpSRem: "bvsrem", OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr", OpConcat: "concat", OpIte: "ite",
	OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle", OpBNot: "not", OpBAnd: "and", OpBOr: "or"}

func sortName(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func fmtFP(w uint8) (string, string) {
	if w == 32 {
		return "(_ to_fp 8 24)", "Float32"
	}
	return "(_ to_fp 11 53)", "Float64"
}

// sides lists the FP side constraints of everything t depends on (after smt has been called).
func (t *Term) sides(seen map[*Term]bool, out *[]string) {
	if !t.fp || seen[t] {
		return
	}
	seen[t] = true
	for _, a := range t.Args {
		a.sides(seen, out)
	}
	if t.side != "" {
		*out = append(*out, t.side)
	}
}

// smt writes definitions for t into sb and returns the name to use for it.
func (t *Term) smt(sb *strings.Builder, gen uint32) string {
	if t.emit == gen && t.name != "" {
		return t.name
	}
	switch t.Op {
	case OpConst:
		if t.W == 0 {
			if t.K != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.K, t.W)
	case OpVar:
		t.name = fmt.Sprintf("v%d_%d", t.K, t.W)
		t.emit = gen
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.name, sortName(t.W))
		return t.name
	}
	as := make([]string, len(t.Args))
	for i, a := range t.Args {
		as[i] = a.smt(sb, gen)
	}
	var e string
	fpof := func(i int) string { f, _ := fmtFP(t.Args[i].W); return "(" + f + " " + as[i] + ")" }
	t.name = fmt.Sprintf("t%d", t.id)
	switch t.Op {
	case OpExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.K>>8, t.K&0xff, as[0])
	case OpSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.W-t.Args[0].W, as[0])
	case OpFLt:
		e = "(fp.lt " + fpof(0) + " " + fpof(1) + ")"
	case OpFLe:
		e = "(fp.leq " + fpof(0) + " " + fpof(1) + ")"
	case OpFEq:
		e = "(fp.eq " + fpof(0) + " " + fpof(1) + ")"
	case OpFAdd, OpFSub, OpFMul, OpFDiv, OpFCvt, OpSToF, OpUToF, OpFSqrt:
		// The result is a fresh bit pattern constrained to denote the FP result. Any NaN pattern is
		// allowed for a NaN result, as Go leaves it unspecified.
		var fpe string
		f, _ := fmtFP(t.W)
		switch t.Op {
		case OpFAdd:
			fpe = "(fp.add RNE " + fpof(0) + " " + fpof(1) + ")"
		case OpFSub:
			fpe = "(fp.sub RNE " + fpof(0) + " " + fpof(1) + ")"
		case OpFMul:
			fpe = "(fp.mul RNE " + fpof(0) + " " + fpof(1) + ")"
		case OpFDiv:
			fpe = "(fp.div RNE " + fpof(0) + " " + fpof(1) + ")"
		case OpFSqrt:
			fpe = "(fp.sqrt RNE " + fpof(0) + ")"
		case OpFCvt:
			fpe = "(" + f + " RNE " + fpof(0) + ")"
		case OpSToF:
			fpe = "(" + f + " RNE " + as[0] + ")"
		case OpUToF:
			fpe = "((_ to_fp_unsigned " + f[len("(_ to_fp "):] + " RNE " + as[0] + ")"
		}
		fmt.Fprintf(sb, "(declare-const %s %s)\n", t.name, sortName(t.W))
		t.side = fmt.Sprintf("(= (%s %s) %s)", f, t.name, fpe)
		t.emit = gen
		return t.name
	case OpFToS, OpFToU:
		// amd64: out-of-range conversions give the "integer indefinite" value in 64 bits (32 for narrow
		// unsigned/signed); only in-range results are given a meaning here.
		fn := "fp.to_sbv"
		if t.Op == OpFToU {
			fn = "fp.to_ubv"
		}
		e = fmt.Sprintf("((_ %s %d) RTZ %s)", fn, t.W, fpof(0))
	default:
		e = "(" + smtName[t.Op] + " " + strings.Join(as, " ") + ")"
	}
	fmt.Fprintf(sb, "(define-fun %s () %s %s)\n", t.name, sortName(t.W), e)
	t.emit = gen
	return t.name
}

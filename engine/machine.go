package main

import (
	"fmt"
	"go/types"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Dec struct {
	K uint8 // 'b' branch, 'v' value taken, 'x' value excluded, 'c' choice
	V uint64
}

type abortKind int

const (
	abInfeasible abortKind = iota
	abUnsupported
	abSteps
	abDeadline
	abDepth
	abUnknown
	abDeadlock
	abStop // harness asked to end this path
)

type pathAbort struct {
	kind abortKind
	msg  string
}

func abortf(f string, a ...any) *pathAbort { return &pathAbort{abUnsupported, fmt.Sprintf(f, a...)} }

type goPanic struct{ v Value } // v is an interface value

type VarInfo struct {
	Name string `json:"name"`
	W    uint8  `json:"w"`
	C    bool   `json:"-"` // a choice: value decided by forking
	Val  uint64 `json:"-"`
}

type deferred struct {
	fn   Value
	bi   *ssa.Builtin
	args []Value
	tail *deferred
	site ssa.Instruction
}

type Frame struct {
	m         *M
	fn        *Fn
	r         []Value
	caller    *Frame
	block     int
	prev      int
	defers    *deferred
	result    Value
	done      bool
	panicking bool
	panic     any
}

// M is one symbolic machine: a heap, a current path and a solver.
type M struct {
	c       *Ctx
	s       *Solver
	w       *Worker
	globals map[*ssa.Global]*Cell
	tmpl    [][]Value

	trail    []undo
	mapTrail []mapUndo
	epoch    uint32

	prefix   []Dec
	decs     []Dec
	sched    []int
	deepSeen map[deepKey]bool
	pos      int
	pc       []*Term
	pcDom    []bool // pc entry fully captured by dom
	model    Model
	dom      map[int]*[4]uint64
	multi    map[int]bool
	vars     []VarInfo
	obs      []Obs
	covers   map[string]bool
	known    []string

	steps      int64
	stepLimit  int64
	tick       int64 // steps at which to look at the clock
	depth      int
	depthLimit int
	cur        *Frame
	smallLen   int
	side       map[any]any // per-path side tables for intrinsics
	raceOn     bool
	rs         *raceState
	inInit     bool
	fnSeen     map[*Fn]int64
	asserts    int
	symAsserts int
	guided     bool     // follow the model, fork nowhere
	guideC     []uint64 // choices to take on a guided path
	forks      int
	funcPCs    int
}

type Obs struct {
	Label string
	Txt   []obsPart
}

func NewM() *M {
	m := &M{c: NewCtx(), globals: map[*ssa.Global]*Cell{}, stepLimit: 40_000_000, depthLimit: 60000, smallLen: 16, fnSeen: map[*Fn]int64{}}
	m.resetPath()
	return m
}

func (m *M) resetPath() {
	m.epoch++
	m.prefix, m.decs, m.pos = nil, m.decs[:0], 0
	m.pc = m.pc[:0]
	m.model = nil
	m.dom = map[int]*[4]uint64{}
	m.multi = map[int]bool{}
	m.vars = m.vars[:0]
	m.obs = nil
	m.covers = map[string]bool{}
	m.known = nil
	m.steps, m.depth = 0, 0
	m.tick = 0
	m.side = map[any]any{}
	m.raceOn = false
	m.rs = nil
	m.sched, m.deepSeen = nil, nil
	m.cur = nil
	m.asserts, m.symAsserts = 0, 0
}

func (m *M) undoAll() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		u := &m.trail[i]
		u.c.V = u.v
		u.c, u.v = nil, Value{}
	}
	m.trail = m.trail[:0]
	for i := len(m.mapTrail) - 1; i >= 0; i-- {
		u := m.mapTrail[i]
		u.mp.ents, u.mp.idx, u.mp.n = u.ents, u.idx, u.n
	}
	m.mapTrail = m.mapTrail[:0]
}

// ---- decisions ----

func (m *M) addPC(t *Term) {
	if t == m.c.True {
		return
	}
	m.pc = append(m.pc, t)
	if m.guided {
		return
	}
	if t.sup >= 0 {
		if tt := m.c.TruthTable(t); tt != nil {
			d := m.dom[int(t.sup)]
			n := *tt
			if d != nil {
				for i := range n {
					n[i] &= d[i]
				}
			}
			m.dom[int(t.sup)] = &n
			return
		}
	}
	for _, v := range m.c.Support([]*Term{t}) {
		m.multi[v] = true
	}
}

// domainSat decides pc ∧ t when t depends on one small variable. known is false if it cannot.
func (m *M) domainSat(t *Term) (sat, known bool, witness uint64) {
	if t.sup < 0 {
		return
	}
	tt := m.c.TruthTable(t)
	if tt == nil {
		return
	}
	d := m.dom[int(t.sup)]
	for i := 0; i < 4; i++ {
		x := tt[i]
		if d != nil {
			x &= d[i]
		}
		if x != 0 {
			if m.multi[int(t.sup)] {
				return false, false, 0
			}
			for b := 0; b < 64; b++ {
				if x>>uint(b)&1 != 0 {
					return true, true, uint64(i*64 + b)
				}
			}
		}
	}
	return false, true, 0
}

// feasible decides pc ∧ t and, when satisfiable, returns a model.
func (m *M) feasible(t *Term) (SatResult, Model) { return m.decideSat(t, true) }

// decideSat decides pc ∧ t. Branch feasibility may use the truth table of a condition over one small
// variable; assertions always go to the SMT solver unless the current model already refutes them.
func (m *M) decideSat(t *Term, table bool) (SatResult, Model) {
	if t == m.c.False {
		return Unsat, nil
	}
	if m.model != nil && m.c.Eval(t, m.model) != 0 {
		m.s.Stats.ModelHits++
		return Sat, m.model
	}
	if !table {
	} else if sat, known, wit := m.domainSat(t); known {
		m.s.Stats.DomainDecisions++
		if !sat {
			return Unsat, nil
		}
		n := make(Model, max(len(m.model), int(t.sup)+1))
		copy(n, m.model)
		n[t.sup] = wit
		return Sat, n
	}
	r, mod := m.s.Check(m.pc, t, len(m.vars))
	if r == Unknown {
		if t.fp {
			r, mod = m.checkNarrow(t)
		}
		if r == Unknown {
			r, mod = m.s.oneShot(m.pc, t)
		}
	}
	if r == Sat {
		// variables outside the query keep the current model's values: they are unconstrained there
		full := make(Model, max(len(m.model), len(mod)))
		copy(full, m.model)
		for _, v := range m.c.Support(append(append([]*Term(nil), m.pc...), t)) {
			full[v] = mod.get(uint64(v))
		}
		for _, p := range m.pc {
			if m.c.Eval(p, full) == 0 {
				return Unknown, nil
			}
		}
		if m.c.Eval(t, full) == 0 {
			return Unknown, nil
		}
		mod = full
	}
	return r, mod
}

// checkNarrow looks for a model among floating-point numbers with few significant bits, when the
// solver gives up on all of them. It answers Sat or Unknown: what it excludes stays undecided.
func (m *M) checkNarrow(t *Term) (SatResult, Model) {
	c := m.c
	for _, r := range []struct{ man, exp uint64 }{{3, 2}, {6, 3}, {10, 8}} {
		e := t
		for _, v := range c.Support([]*Term{t}) {
			x := m.vars[v]
			if x.C || x.W != 32 && x.W != 64 {
				continue
			}
			man, eb := uint64(52), uint64(11)
			if x.W == 32 {
				man, eb = 23, 8
			}
			b := c.Var(v, x.W)
			bias := uint64(1)<<(eb-1) - 1
			ex := c.Extract(b, uint8(man+eb-1), uint8(man))
			low := c.Eq(c.Extract(b, uint8(man-r.man-1), 0), c.Const(uint8(man-r.man), 0))
			in := c.BAnd(c.Ule(c.Const(uint8(eb), bias-r.exp), ex), c.Ule(ex, c.Const(uint8(eb), bias+r.exp)))
			e = c.BAnd(e, c.BAnd(low, in))
		}
		if res, mod := m.s.oneShot(m.pc, e); res == Sat {
			return res, mod
		}
	}
	return Unknown, nil
}

func (m *M) nextDec() (Dec, bool) {
	if m.pos < len(m.prefix) {
		d := m.prefix[m.pos]
		m.pos++
		m.decs = append(m.decs, d)
		return d, true
	}
	return Dec{}, false
}

func (m *M) pushAlt(d Dec, mod Model) {
	alt := make([]Dec, len(m.decs)+1)
	copy(alt, m.decs)
	alt[len(m.decs)] = d
	m.forks++
	m.w.push(Task{H: m.w.task.H, Prefix: alt, Model: mod})
}

// decide follows one side of a symbolic condition and schedules the other when it is feasible.
func (m *M) decide(t *Term) bool {
	if t.Op == OpConst {
		return t.K != 0
	}
	if m.inInit {
		panic(abortf("symbolic branch during initialisation"))
	}
	if m.guided {
		side := m.c.Eval(t, m.model) != 0
		if !side {
			t = m.c.BNot(t)
		}
		m.addPC(t)
		return side
	}
	if d, ok := m.nextDec(); ok {
		if d.K != 'b' {
			panic(abortf("replay mismatch (branch vs %c)", d.K))
		}
		if d.V != 0 {
			m.addPC(t)
		} else {
			m.addPC(m.c.BNot(t))
		}
		return d.V != 0
	}
	side := m.c.Eval(t, m.model) != 0
	take, other := t, m.c.BNot(t)
	if !side {
		take, other = other, take
	}
	// the current model satisfies pc ∧ take
	r, mod := m.feasibleOther(other)
	switch r {
	case Sat:
		m.pushAlt(Dec{'b', b2u(!side)}, mod)
	case Unknown:
		m.w.noteUnknown(m)
	}
	m.decs = append(m.decs, Dec{'b', b2u(side)})
	if r != Unsat {
		m.addPC(take)
	} else {
		m.implied(take)
	}
	return side
}

// implied records a condition that already follows from pc; it needs no new constraint.
func (m *M) implied(t *Term) { m.addPC(t) }

func (m *M) feasibleOther(t *Term) (SatResult, Model) { return m.feasible(t) }

// choose forks over 0..n-1 without constraints.
func (m *M) choose(n int) int {
	if m.guided {
		if len(m.guideC) == 0 || m.guideC[0] >= uint64(n) {
			panic(abortf("no choice to follow"))
		}
		k := m.guideC[0]
		m.guideC = m.guideC[1:]
		return int(k)
	}
	if d, ok := m.nextDec(); ok {
		if d.K != 'c' {
			panic(abortf("replay mismatch (choice vs %c)", d.K))
		}
		return int(d.V)
	}
	for i := n - 1; i > 0; i-- {
		m.pushAlt(Dec{'c', uint64(i)}, m.model)
	}
	m.decs = append(m.decs, Dec{'c', 0})
	return 0
}

// concretize forks over every feasible value of t.
func (m *M) concretize(t *Term) uint64 {
	for {
		if t.Op == OpConst {
			return t.K
		}
		if m.guided {
			v := m.c.Eval(t, m.model)
			m.addPC(m.c.Eq(t, m.c.Const(t.W, v)))
			return v
		}
		if d, ok := m.nextDec(); ok {
			e := m.c.Eq(t, m.c.Const(t.W, d.V))
			switch d.K {
			case 'v':
				m.addPC(e)
				return d.V
			case 'x':
				m.addPC(m.c.BNot(e))
				continue
			}
			panic(abortf("replay mismatch (value vs %c)", d.K))
		}
		v := m.c.Eval(t, m.model)
		e := m.c.Eq(t, m.c.Const(t.W, v))
		r, mod := m.feasible(m.c.BNot(e))
		switch r {
		case Sat:
			m.pushAlt(Dec{'x', v}, mod)
		case Unknown:
			m.w.noteUnknown(m)
		}
		m.decs = append(m.decs, Dec{'v', v})
		m.addPC(e)
		return v
	}
}

// assume restricts the path; it ends the path when the condition cannot hold.
func (m *M) assume(t *Term) {
	if t == m.c.True {
		return
	}
	if t == m.c.False {
		panic(&pathAbort{abInfeasible, "assume"})
	}
	if m.guided {
		if m.c.Eval(t, m.model) == 0 {
			panic(&pathAbort{abInfeasible, "assume"})
		}
		m.addPC(t)
		return
	}
	if m.pos < len(m.prefix) {
		// The model carried by the task satisfies all assumptions made before its last decision.
		m.addPC(t)
		return
	}
	r, mod := m.feasible(t)
	switch r {
	case Unsat:
		panic(&pathAbort{abInfeasible, "assume"})
	case Unknown:
		m.w.noteUnknown(m)
		panic(&pathAbort{abUnknown, "assume"})
	}
	m.model = mod
	m.addPC(t)
}

func (m *M) intVal(v Value, w uint8) int {
	if t, ok := v.O.(*Term); ok {
		return int(sgn(m.concretize(t), t.W))
	}
	return int(sgn(v.N, w))
}

// freshVar creates the next input variable.
func (m *M) freshVar(name string, w uint8) *Term {
	i := len(m.vars)
	m.vars = append(m.vars, VarInfo{Name: name, W: w})
	return m.c.Var(i, w)
}

// ---- panics ----

func (m *M) mkErrString(s string) Value {
	t := RT(U.prog.ImportedPackage("runtime").Type("errorString").Type())
	return Value{O: &Iface{T: t, V: S(s)}}
}

func (m *M) rtPanic(msg string) {
	panic(&goPanic{m.mkErrString(msg)})
}

func (m *M) panicStr(s string) {
	panic(&goPanic{Value{O: &Iface{T: RT(types.Typ[types.String]), V: S(s)}}})
}

func (m *M) nilDeref() { m.rtPanic("invalid memory address or nil pointer dereference") }

// ---- globals ----

func (m *M) global(g *ssa.Global) *Cell {
	c := m.globals[g]
	if c == nil {
		c = NewCell(RT(g.Type().(*types.Pointer).Elem()))
		m.globals[g] = c
	}
	return c
}

// ---- calls ----

func (m *M) template(f *Fn) []Value {
	for len(m.tmpl) <= f.id {
		m.tmpl = append(m.tmpl, make([][]Value, 64+f.id-len(m.tmpl))...)
	}
	t := m.tmpl[f.id]
	if t == nil {
		t = make([]Value, f.nregs)
		for i, v := range f.consts {
			t[f.constBase+i] = v
		}
		for i, g := range f.globs {
			t[f.globBase+i] = Value{O: m.global(g)}
		}
		m.tmpl[f.id] = t
	}
	return t
}

func (m *M) callFn(caller *Frame, f *Fn, args, free []Value) Value {
	if f == nil {
		m.nilDeref()
	}
	if f.intr == nil && !f.compiled.Load() {
		f.compile()
	}
	if f.intr != nil {
		m.fnSeen[f]++
		sv := m.cur
		m.cur = caller
		v := f.intr(m, args)
		m.cur = sv
		return v
	}
	if f.bad != "" {
		panic(abortf("cannot encode %s: %s", f.name, f.bad))
	}
	m.depth++
	if m.depth > m.depthLimit {
		panic(&pathAbort{abDepth, "call depth limit in " + f.name})
	}
	if m.fnSeen != nil {
		m.fnSeen[f]++
	}
	t := m.template(f)
	r := make([]Value, len(t))
	copy(r, t)
	copy(r, args)
	copy(r[f.nparams:], free)
	fr := &Frame{m: m, fn: f, r: r, caller: caller, prev: -1}
	sv := m.cur
	m.cur = fr
	if f.hasDefer {
		d := m.depth
		for !fr.done {
			fr.runProtected()
			m.depth = d
		}
	} else {
		fr.run()
	}
	m.cur = sv
	m.depth--
	return fr.result
}

func (fr *Frame) runProtected() {
	defer func() {
		if fr.done {
			return
		}
		x := recover()
		p, ok := x.(*goPanic)
		if !ok {
			panic(x)
		}
		fr.m.cur = fr
		fr.panicking = true
		fr.panic = p
		fr.runDefers()
		// recovered: continue with the recover block
		if fr.fn.recoverBlk < 0 {
			fr.result = fr.fn.zeroResult()
			fr.done = true
			return
		}
		fr.block = fr.fn.recoverBlk
		fr.prev = -1
	}()
	fr.run()
}

func (fr *Frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			x := recover()
			p, isp := x.(*goPanic)
			if !isp {
				panic(x)
			}
			fr.m.cur = fr
			fr.panicking = true
			fr.panic = p
		}
	}()
	if d.bi != nil {
		fr.m.builtin(fr, d.bi, d.args, d.site)
	} else {
		fr.m.callValue(fr, d.fn, d.args)
	}
	ok = true
}

func (fr *Frame) runDefers() {
	depth := fr.m.depth
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		fr.runDefer(d)
		fr.m.depth = depth
	}
	if fr.panicking {
		panic(fr.panic)
	}
}

// doRecover implements recover() called by the function running in fr.
func doRecover(fr *Frame) Value {
	c := fr.caller
	if c != nil && c.panicking && !fr.panicking {
		c.panicking = false
		p := c.panic.(*goPanic)
		c.panic = nil
		if p.v.O == nil {
			t := RT(types.NewPointer(U.prog.ImportedPackage("runtime").Type("PanicNilError").Type()))
			return Value{O: &Iface{T: t, V: Value{O: NewCell(t.Elem())}}}
		}
		return p.v
	}
	return Value{}
}

func (m *M) callValue(caller *Frame, fv Value, args []Value) Value {
	c, ok := fv.O.(*Closure)
	if !ok || c == nil {
		m.nilDeref()
	}
	if c.Native != nil {
		return c.Native(m, args)
	}
	return m.callFn(caller, c.Fn, args, c.Free)
}

func (fr *Frame) run() {
	m := fr.m
	f := fr.fn
	for {
		b := &f.blocks[fr.block]
		m.steps += int64(len(b.code)) + 1
		if m.steps > m.stepLimit {
			panic(&pathAbort{abSteps, "step limit in " + f.name})
		}
		if m.steps > m.tick {
			m.tick = m.steps + 100_000
			if m.w != nil && time.Now().UnixNano() > m.w.ex.deadline.Load()+int64(5*time.Second) {
				panic(&pathAbort{abDeadline, "deadline"})
			}
		}
		if len(b.phis) > 0 && fr.prev >= 0 {
			e := -1
			for i, p := range b.preds {
				if p == fr.prev {
					e = i
					break
				}
			}
			if len(b.phis) == 1 {
				fr.r[b.phis[0].dst] = fr.r[b.phis[0].src[e]]
			} else {
				var tmp [8]Value
				t := tmp[:0]
				for i := range b.phis {
					t = append(t, fr.r[b.phis[i].src[e]])
				}
				for i := range b.phis {
					fr.r[b.phis[i].dst] = t[i]
				}
			}
		}
		for _, in := range b.code {
			in(m, fr)
		}
		switch b.term {
		case tJump:
			fr.prev, fr.block = fr.block, b.succ0
		case tIf:
			c := fr.r[b.cond]
			var v bool
			if t, ok := c.O.(*Term); ok {
				v = m.decide(t)
			} else {
				v = c.N != 0
			}
			fr.prev = fr.block
			if v {
				fr.block = b.succ0
			} else {
				fr.block = b.succ1
			}
		case tReturn:
			switch len(b.ret) {
			case 0:
			case 1:
				fr.result = fr.r[b.ret[0]]
			default:
				a := &Agg{F: make([]Value, len(b.ret))}
				for i, x := range b.ret {
					a.F[i] = fr.r[x]
				}
				fr.result = Value{O: a}
			}
			fr.done = true
			return
		case tPanic:
			panic(&goPanic{fr.r[b.cond]})
		default:
			panic(abortf("block without terminator in %s", f.name))
		}
	}
}

func (m *M) stack() string {
	var sb strings.Builder
	n := 0
	for fr := m.cur; fr != nil && n < 25; fr = fr.caller {
		fmt.Fprintf(&sb, "  %s\n", fr.fn.name)
		n++
	}
	return sb.String()
}

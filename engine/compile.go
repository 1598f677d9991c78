package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/ssa"
)

type instrFn func(m *M, fr *Frame)

type termKind uint8

const (
	tNone termKind = iota
	tJump
	tIf
	tReturn
	tPanic
)

type phi struct {
	dst int
	src []int
}

type block struct {
	phis         []phi
	preds        []int
	code         []instrFn
	term         termKind
	cond         int
	succ0, succ1 int
	ret          []int
}

type Fn struct {
	id         int
	name       string
	ssa        *ssa.Function
	mu         sync.Mutex
	compiled   atomic.Bool
	bad        string
	intr       Intrinsic
	nregs      int
	nparams    int
	consts     []Value
	constBase  int
	globs      []*ssa.Global
	globBase   int
	blocks     []block
	hasDefer   bool
	recoverBlk int
	ninstr     int
	results    []*RType
}

// pkgPath is the import path of the function's package, or "" for synthetic functions.
func (f *Fn) pkgPath() string {
	for g := f.ssa; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path()
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
	}
	return ""
}

type Intrinsic func(m *M, args []Value) Value

var intrinsics = map[string]Intrinsic{}

var fnMu sync.Mutex

func FnOf(f *ssa.Function) *Fn {
	if v, ok := U.funcs.Load(f); ok {
		return v.(*Fn)
	}
	fnMu.Lock()
	defer fnMu.Unlock()
	if v, ok := U.funcs.Load(f); ok {
		return v.(*Fn)
	}
	U.nfn++
	fn := &Fn{id: int(U.nfn), ssa: f, name: f.String(), recoverBlk: -1}
	key := fn.name
	if o := f.Origin(); o != nil {
		key = o.String()
	}
	if in, ok := intrinsics[key]; ok {
		fn.intr = in
	}
	if f.Synthetic == "package initializer" && f.Pkg != nil && !runsInit(f.Pkg.Pkg.Path()) {
		fn.intr = func(m *M, args []Value) Value { return Value{} }
	}
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		fn.results = append(fn.results, RT(res.At(i).Type()))
	}
	U.funcs.Store(f, fn)
	return fn
}

func (f *Fn) zeroResult() Value {
	switch len(f.results) {
	case 0:
		return Value{}
	case 1:
		return f.results[0].Zero()
	}
	a := &Agg{F: make([]Value, len(f.results))}
	for i, t := range f.results {
		a.F[i] = t.Zero()
	}
	return Value{O: a}
}

type compiler struct {
	f      *Fn
	slots  map[ssa.Value]int
	cidx   map[string]int
	gidx   map[*ssa.Global]int
	consts []Value
	pend   []func()
}

func (f *Fn) compile() {
	f.mu.Lock()
	defer f.mu.Unlock()
	if f.compiled.Load() {
		return
	}
	defer f.compiled.Store(true)
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(compileErr); ok {
				f.bad = string(s)
				return
			}
			panic(r)
		}
	}()
	sf := f.ssa
	if sf.Blocks == nil && sf.Pkg != nil {
		sf.Pkg.Build()
	}
	if sf.Blocks == nil {
		if o := sf.Origin(); o != nil && o.Pkg != nil {
			o.Pkg.Build()
		}
	}
	if sf.Blocks == nil {
		f.bad = "no Go body (assembly or linkname)"
		return
	}
	c := &compiler{f: f, slots: map[ssa.Value]int{}}
	n := 0
	for _, p := range sf.Params {
		c.slots[p] = n
		n++
	}
	f.nparams = n
	for _, p := range sf.FreeVars {
		c.slots[p] = n
		n++
	}
	for _, b := range sf.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.slots[v] = n
				n++
			}
			switch in.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				f.hasDefer = true
			}
		}
	}
	// constants and globals get slots too, filled from the template
	f.constBase = n
	constSlots := map[ssa.Value]int{}
	collect := func(v ssa.Value) {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin:
			if _, ok := constSlots[v]; !ok {
				constSlots[v] = len(f.consts)
				f.consts = append(f.consts, c.constVal(v))
			}
		}
	}
	var rands []*ssa.Value
	for _, b := range sf.Blocks {
		for _, in := range b.Instrs {
			rands = in.Operands(rands[:0])
			for _, r := range rands {
				if *r != nil {
					collect(*r)
				}
			}
		}
	}
	for v, i := range constSlots {
		c.slots[v] = f.constBase + i
	}
	f.globBase = f.constBase + len(f.consts)
	for _, b := range sf.Blocks {
		for _, in := range b.Instrs {
			rands = in.Operands(rands[:0])
			for _, r := range rands {
				if g, ok := (*r).(*ssa.Global); ok {
					if _, ok := c.slots[g]; !ok {
						c.slots[g] = f.globBase + len(f.globs)
						f.globs = append(f.globs, g)
					}
				}
			}
		}
	}
	f.nregs = f.globBase + len(f.globs)
	f.blocks = make([]block, len(sf.Blocks))
	for i, b := range sf.Blocks {
		blk := &f.blocks[i]
		for _, p := range b.Preds {
			blk.preds = append(blk.preds, p.Index)
		}
		for _, in := range b.Instrs {
			f.ninstr++
			switch x := in.(type) {
			case *ssa.Phi:
				p := phi{dst: c.slot(x)}
				for _, e := range x.Edges {
					p.src = append(p.src, c.slot(e))
				}
				blk.phis = append(blk.phis, p)
			case *ssa.Jump:
				blk.term = tJump
				blk.succ0 = b.Succs[0].Index
			case *ssa.If:
				blk.term = tIf
				blk.cond = c.slot(x.Cond)
				blk.succ0, blk.succ1 = b.Succs[0].Index, b.Succs[1].Index
			case *ssa.Return:
				blk.term = tReturn
				for _, r := range x.Results {
					blk.ret = append(blk.ret, c.slot(r))
				}
			case *ssa.Panic:
				blk.term = tPanic
				blk.cond = c.slot(x.X)
			case *ssa.DebugRef:
			default:
				rands = in.Operands(rands[:0])
				for _, r := range rands {
					if g, ok := (*r).(*ssa.Global); ok && uninitialised(g) {
						msg := "variable of a package whose initialiser does not run: " + g.String()
						blk.code = append(blk.code, func(m *M, fr *Frame) { panic(abortf("%s", msg)) })
					}
				}
				blk.code = append(blk.code, c.instr(in))
			}
		}
	}
	if sf.Recover != nil {
		f.recoverBlk = sf.Recover.Index
	}
}

// uninitialised says whether g has an initialiser that the machine does not run.
func uninitialised(g *ssa.Global) bool {
	if g.Pkg == nil || runsInit(g.Pkg.Pkg.Path()) || zeroOK[g.String()] {
		return false
	}
	g.Pkg.Build()
	init := g.Pkg.Func("init")
	if init == nil {
		return false
	}
	var rands []*ssa.Value
	for _, b := range init.Blocks {
		for _, in := range b.Instrs {
			rands = in.Operands(rands[:0])
			for _, r := range rands {
				if *r == ssa.Value(g) {
					return true
				}
			}
		}
	}
	return false
}

// zeroOK lists variables whose zero value serves as well as their initial one.
var zeroOK = map[string]bool{}

type compileErr string

func (c *compiler) slot(v ssa.Value) int {
	s, ok := c.slots[v]
	if !ok {
		panic(compileErr(fmt.Sprintf("no slot for %s (%T)", v, v)))
	}
	return s
}

func (c *compiler) constVal(v ssa.Value) Value {
	switch x := v.(type) {
	case *ssa.Function:
		return Value{O: &Closure{Fn: FnOf(x)}}
	case *ssa.Builtin:
		return Value{O: x}
	case *ssa.Const:
		return constValue(x)
	}
	panic("constVal")
}

func constValue(x *ssa.Const) Value {
	t := RT(x.Type())
	if x.Value == nil {
		return t.Zero()
	}
	switch t.Kind {
	case reflect.Bool:
		return B(constant.BoolVal(x.Value))
	case reflect.String:
		if x.Value.Kind() == constant.String {
			return S(constant.StringVal(x.Value))
		}
		return S(string(rune(x.Int64())))
	case reflect.Float32:
		return Value{N: fcvtC(x.Float64(), 32)}
	case reflect.Float64:
		return Value{N: fcvtC(x.Float64(), 64)}
	case reflect.Complex64:
		z := x.Complex128()
		return Value{O: &Agg{F: []Value{{N: fcvtC(real(z), 32)}, {N: fcvtC(imag(z), 32)}}}}
	case reflect.Complex128:
		z := x.Complex128()
		return Value{O: &Agg{F: []Value{{N: fcvtC(real(z), 64)}, {N: fcvtC(imag(z), 64)}}}}
	}
	if t.W > 0 {
		if t.Signed {
			return Value{N: uint64(x.Int64()) & mask(t.W)}
		}
		return Value{N: x.Uint64() & mask(t.W)}
	}
	if t.Kind == reflect.UnsafePointer {
		return Value{}
	}
	panic(compileErr("constant of type " + t.String()))
}

func deref(t types.Type) *RType {
	return RT(t.Underlying().(*types.Pointer).Elem())
}

func (c *compiler) instr(in ssa.Instruction) instrFn {
	switch x := in.(type) {
	case *ssa.Alloc:
		d, t := c.slot(x), deref(x.Type())
		t.init()
		return func(m *M, fr *Frame) { fr.r[d] = Value{O: NewCell(t)} }
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var a ssa.Value
		if y, ok := x.(*ssa.ChangeInterface); ok {
			a = y.X
		} else {
			a = x.(*ssa.ChangeType).X
		}
		d, s := c.slot(x.(ssa.Value)), c.slot(a)
		return func(m *M, fr *Frame) { fr.r[d] = fr.r[s] }
	case *ssa.Convert:
		return c.convert(c.slot(x), c.slot(x.X), RT(x.X.Type()), RT(x.Type()))
	case *ssa.MakeInterface:
		d, s, t := c.slot(x), c.slot(x.X), RT(x.X.Type())
		return func(m *M, fr *Frame) { fr.r[d] = Value{O: &Iface{T: t, V: fr.r[s]}} }
	case *ssa.Extract:
		d, s, i := c.slot(x), c.slot(x.Tuple), x.Index
		return func(m *M, fr *Frame) { fr.r[d] = fr.r[s].O.(*Agg).F[i] }
	case *ssa.Field:
		d, s, i := c.slot(x), c.slot(x.X), x.Field
		return func(m *M, fr *Frame) { fr.r[d] = fr.r[s].O.(*Agg).F[i] }
	case *ssa.FieldAddr:
		d, s, i := c.slot(x), c.slot(x.X), x.Field
		return func(m *M, fr *Frame) {
			p := m.ptr(fr.r[s])
			mem, ok := p.V.O.(*Mem)
			if !ok {
				panic(abortf("field access of opaque memory in %s", fr.fn.name))
			}
			fr.r[d] = Value{O: &mem.C[i]}
		}
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Index:
		d, s, i := c.slot(x), c.slot(x.X), c.slot(x.Index)
		it := RT(x.Index.Type())
		xt := RT(x.X.Type())
		if xt.Kind == reflect.String {
			return func(m *M, fr *Frame) { fr.r[d] = m.strIndex(fr.r[s], fr.r[i], it) }
		}
		et := RT(x.Type())
		return func(m *M, fr *Frame) {
			a := fr.r[s].O.(*Agg).F
			fr.r[d] = m.selectFrom(len(a), func(k int) Value { return a[k] }, et, fr.r[i], it)
		}
	case *ssa.Lookup:
		d, s, i := c.slot(x), c.slot(x.X), c.slot(x.Index)
		it := RT(x.Index.Type())
		xt := RT(x.X.Type())
		if xt.Kind == reflect.String {
			return func(m *M, fr *Frame) { fr.r[d] = m.strIndex(fr.r[s], fr.r[i], it) }
		}
		et := xt.Elem()
		return func(m *M, fr *Frame) {
			mp, _ := fr.r[s].O.(*MapV)
			k := m.mapFind(mp, fr.r[i])
			v := et.Zero()
			if k >= 0 {
				if m.raceOn {
					m.raceMap(mp, false)
				}
				v = load(mp.ents[k].cell)
			} else if m.raceOn && mp != nil {
				m.raceMap(mp, false)
			}
			if x.CommaOk {
				fr.r[d] = Value{O: &Agg{F: []Value{v, B(k >= 0)}}}
			} else {
				fr.r[d] = v
			}
		}
	case *ssa.MapUpdate:
		s, k, v := c.slot(x.Map), c.slot(x.Key), c.slot(x.Value)
		return func(m *M, fr *Frame) {
			mp, _ := fr.r[s].O.(*MapV)
			if mp == nil {
				m.panicPlain("assignment to entry in nil map")
			}
			if m.raceOn {
				m.raceMap(mp, true)
			}
			m.mapSet(mp, fr.r[k], fr.r[v])
		}
	case *ssa.MakeMap:
		d, t := c.slot(x), RT(x.Type())
		return func(m *M, fr *Frame) { fr.r[d] = Value{O: NewMap(t)} }
	case *ssa.MakeSlice:
		d, t := c.slot(x), RT(x.Type()).Elem()
		l, cp := c.slot(x.Len), c.slot(x.Cap)
		lt, ct := RT(x.Len.Type()), RT(x.Cap.Type())
		return func(m *M, fr *Frame) {
			fr.r[d] = m.makeSlice(t, fr.r[l], lt, fr.r[cp], ct)
		}
	case *ssa.MakeClosure:
		d, f := c.slot(x), FnOf(x.Fn.(*ssa.Function))
		var bs []int
		for _, b := range x.Bindings {
			bs = append(bs, c.slot(b))
		}
		return func(m *M, fr *Frame) {
			free := make([]Value, len(bs))
			for i, b := range bs {
				free[i] = fr.r[b]
			}
			fr.r[d] = Value{O: &Closure{Fn: f, Free: free}}
		}
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		d, s := c.slot(x), c.slot(x.X)
		n := deref(x.Type()).n
		return func(m *M, fr *Frame) {
			sv, _ := fr.r[s].O.(*SliceV)
			if sv == nil {
				if n == 0 {
					fr.r[d] = Value{}
					return
				}
				m.rtPanic("cannot convert slice to array pointer")
			}
			if sv.Len < n {
				m.rtPanic("cannot convert slice with length x to array or pointer to array with length y")
			}
			fr.r[d] = Value{O: &Cell{V: Value{O: &Mem{C: sv.M.C[sv.Off : sv.Off+n : sv.Off+n]}}}}
		}
	case *ssa.Store:
		a, v := c.slot(x.Addr), c.slot(x.Val)
		return func(m *M, fr *Frame) {
			if sp, ok := fr.r[a].O.(*SymPtr); ok {
				i := int(m.concretize(sp.Idx))
				m.store(sp.S.M.at(sp.S.Off+i), fr.r[v])
				return
			}
			m.store(m.ptr(fr.r[a]), fr.r[v])
		}
	case *ssa.TypeAssert:
		return c.typeAssert(x)
	case *ssa.Range:
		d, s := c.slot(x), c.slot(x.X)
		if RT(x.X.Type()).Kind == reflect.String {
			return func(m *M, fr *Frame) { fr.r[d] = Value{O: &strIter{bs: strBytes(fr.r[s])}} }
		}
		inRepo := strings.Contains(c.f.name, repoPath)
		return func(m *M, fr *Frame) {
			mp, _ := fr.r[s].O.(*MapV)
			it := &mapIter{mp: mp}
			if inRepo && mp != nil && mp.n > 1 && m.mapBackward() {
				it.rev, it.pos = true, len(mp.ents)-1
			}
			fr.r[d] = Value{O: it}
		}
	case *ssa.Next:
		d, s := c.slot(x), c.slot(x.Iter)
		if x.IsString {
			return func(m *M, fr *Frame) {
				it := fr.r[s].O.(*strIter)
				if it.pos >= len(it.bs) {
					fr.r[d] = Value{O: &Agg{F: []Value{B(false), {}, {}}}}
					return
				}
				r, n := m.decodeRune(it.bs[it.pos:])
				fr.r[d] = Value{O: &Agg{F: []Value{B(true), I(it.pos), r}}}
				fr.r[s] = Value{O: &strIter{bs: it.bs, pos: it.pos + n}}
			}
		}
		tup := x.Type().(*types.Tuple)
		kz, vz := Value{}, Value{}
		if t := RT(tup.At(1).Type()); t.Kind != reflect.Invalid {
			kz = t.Zero()
		}
		if t := RT(tup.At(2).Type()); t.Kind != reflect.Invalid {
			vz = t.Zero()
		}
		return func(m *M, fr *Frame) {
			it := fr.r[s].O.(*mapIter)
			p := it.pos
			if it.rev {
				for p >= 0 && (p >= len(it.mp.ents) || it.mp.ents[p].dead) {
					p--
				}
				if p < 0 {
					fr.r[d] = Value{O: &Agg{F: []Value{B(false), kz, vz}}}
					return
				}
				e := &it.mp.ents[p]
				fr.r[d] = Value{O: &Agg{F: []Value{B(true), e.k, load(e.cell)}}}
				fr.r[s] = Value{O: &mapIter{mp: it.mp, rev: true, pos: p - 1}}
				return
			}
			for it.mp != nil && p < len(it.mp.ents) && it.mp.ents[p].dead {
				p++
			}
			if it.mp == nil || p >= len(it.mp.ents) {
				fr.r[d] = Value{O: &Agg{F: []Value{B(false), kz, vz}}}
				return
			}
			e := &it.mp.ents[p]
			fr.r[d] = Value{O: &Agg{F: []Value{B(true), e.k, load(e.cell)}}}
			fr.r[s] = Value{O: &mapIter{mp: it.mp, pos: p + 1}}
		}
	case *ssa.Call:
		return c.call(c.slot(x), &x.Call, x)
	case *ssa.Defer:
		if x.DeferStack != nil {
			panic(compileErr("defer inside range-over-func"))
		}
		get := c.callee(&x.Call, x)
		return func(m *M, fr *Frame) {
			fv, bi, args := get(m, fr)
			fr.defers = &deferred{fn: fv, bi: bi, args: args, tail: fr.defers, site: x}
		}
	case *ssa.Go:
		get := c.callee(&x.Call, x)
		return func(m *M, fr *Frame) {
			fv, bi, args := get(m, fr)
			if bi != nil {
				panic(abortf("go builtin"))
			}
			m.goStmt(fv, args)
		}
	case *ssa.RunDefers:
		return func(m *M, fr *Frame) { fr.runDefers() }
	case *ssa.MultiConvert:
		return func(m *M, fr *Frame) { panic(abortf("MultiConvert")) }
	default:
		msg := fmt.Sprintf("%T", in)
		return func(m *M, fr *Frame) { panic(abortf("unsupported instruction %s in %s", msg, fr.fn.name)) }
	}
}

type strIter struct {
	bs  []Value
	pos int
}
type mapIter struct {
	mp  *MapV
	pos int
	rev bool
}

// mapBackward says in which order the code under test iterates over maps on this path: Go leaves the
// order open, so a path that does it splits into one with every map forward and one with every map
// backward.
func (m *M) mapBackward() bool {
	if m.inInit {
		return false
	}
	r, ok := m.side["mapback"].(bool)
	if !ok {
		r = m.choose(2) == 1
		m.side["mapback"] = r
	}
	return r
}

// callee evaluates the function and arguments of a call.
func (c *compiler) callee(cc *ssa.CallCommon, site ssa.Instruction) func(m *M, fr *Frame) (Value, *ssa.Builtin, []Value) {
	var as []int
	for _, a := range cc.Args {
		as = append(as, c.slot(a))
	}
	if cc.IsInvoke() {
		r, meth := c.slot(cc.Value), cc.Method
		return func(m *M, fr *Frame) (Value, *ssa.Builtin, []Value) {
			iv, _ := fr.r[r].O.(*Iface)
			if iv == nil {
				m.nilDeref()
			}
			f := iv.T.Method(meth)
			if f == nil {
				panic(abortf("no method %s on %s", meth.Name(), iv.T))
			}
			args := make([]Value, len(as)+1)
			args[0] = iv.V
			for i, a := range as {
				args[i+1] = fr.r[a]
			}
			return Value{O: &Closure{Fn: f}}, nil, args
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return func(m *M, fr *Frame) (Value, *ssa.Builtin, []Value) {
			args := make([]Value, len(as))
			for i, a := range as {
				args[i] = fr.r[a]
			}
			return Value{}, b, args
		}
	}
	v := c.slot(cc.Value)
	return func(m *M, fr *Frame) (Value, *ssa.Builtin, []Value) {
		args := make([]Value, len(as))
		for i, a := range as {
			args[i] = fr.r[a]
		}
		return fr.r[v], nil, args
	}
}

func (c *compiler) call(d int, cc *ssa.CallCommon, site ssa.Instruction) instrFn {
	var as []int
	for _, a := range cc.Args {
		as = append(as, c.slot(a))
	}
	if f, ok := cc.Value.(*ssa.Function); ok && !cc.IsInvoke() {
		fn := FnOf(f)
		return func(m *M, fr *Frame) {
			args := make([]Value, len(as))
			for i, a := range as {
				args[i] = fr.r[a]
			}
			fr.r[d] = m.callFn(fr, fn, args, nil)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return func(m *M, fr *Frame) {
			args := make([]Value, len(as))
			for i, a := range as {
				args[i] = fr.r[a]
			}
			fr.r[d] = m.builtin(fr, b, args, site)
		}
	}
	get := c.callee(cc, site)
	return func(m *M, fr *Frame) {
		fv, _, args := get(m, fr)
		fr.r[d] = m.callValue(fr, fv, args)
	}
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) instrFn {
	d, s, t := c.slot(x), c.slot(x.X), RT(x.AssertedType)
	toIface := t.Kind == reflect.Interface
	from := RT(x.X.Type())
	return func(m *M, fr *Frame) {
		iv, _ := fr.r[s].O.(*Iface)
		ok := false
		var v Value
		if iv != nil {
			if toIface {
				if iv.T.Implements(t) {
					ok, v = true, fr.r[s]
				}
			} else if iv.T == t {
				ok, v = true, iv.V
			}
		}
		if x.CommaOk {
			if !ok {
				v = t.Zero()
			}
			fr.r[d] = Value{O: &Agg{F: []Value{v, B(ok)}}}
			return
		}
		if !ok {
			dyn := "nil"
			if iv != nil {
				dyn = iv.T.String()
			}
			m.rtPanic(fmt.Sprintf("interface conversion: %s is %s, not %s", from, dyn, t))
		}
		fr.r[d] = v
	}
}

var _ = token.ADD
var _ = strings.Join

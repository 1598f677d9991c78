package main

// Goroutines, synchronisation and happens-before race detection. The schedule is part of the path:
// every scheduling choice is a decision, bounded by a number of preemptions.

import (
	"fmt"
	"reflect"
	"strings"
)

type vclock []uint32

func (a vclock) join(b vclock) vclock {
	if len(b) > len(a) {
		a = append(a, make(vclock, len(b)-len(a))...)
	}
	for i, x := range b {
		if x > a[i] {
			a[i] = x
		}
	}
	return a
}
func (a vclock) clone() vclock { return append(vclock(nil), a...) }
func (a vclock) at(i int) uint32 {
	if i < len(a) {
		return a[i]
	}
	return 0
}

type G struct {
	id      int
	vc      vclock
	resume  chan struct{}
	exited  chan struct{}
	done    bool
	blocked func() bool
	cur     *Frame
	depth   int
}

type shadow struct {
	wG   int
	wClk uint32
	rd   map[int]uint32
	w    bool
	at   string
}

type raceState struct {
	gs       []*G
	g        *G
	fatal    any
	kill     bool
	preempts int
	maxPre   int
	shadow   map[any]*shadow
	sync     map[any]*syncObj
	races    []string
	raceSeen map[string]bool
}

type syncObj struct {
	vc, rvc vclock
	locked  bool
	readers int
	waiting int
	count   int
}

type killTok struct{}

func (m *M) schedInit() *raceState {
	if m.rs == nil {
		g := &G{id: 0, vc: vclock{1}, resume: make(chan struct{})}
		m.rs = &raceState{gs: []*G{g}, g: g, shadow: map[any]*shadow{}, sync: map[any]*syncObj{}, raceSeen: map[string]bool{}, maxPre: 2}
		if v, ok := m.side["maxpre"]; ok {
			m.rs.maxPre = v.(int)
		}
	}
	return m.rs
}

func (m *M) goStmt(fv Value, args []Value) {
	m.spawn(fv, args)
	m.schedPoint()
}

func (m *M) spawn(fv Value, args []Value) {
	if m.inInit {
		panic(abortf("goroutine started during initialisation"))
	}
	rs := m.schedInit()
	m.raceOn = true
	if m.sched == nil {
		m.sched = []int{}
	}
	g := &G{id: len(rs.gs), vc: rs.g.vc.clone(), resume: make(chan struct{}), exited: make(chan struct{})}
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id] = 1
	rs.g.vc[rs.g.id]++
	rs.gs = append(rs.gs, g)
	go func() {
		defer close(g.exited)
		<-g.resume
		if rs.kill {
			return
		}
		defer func() {
			x := recover()
			if _, ok := x.(killTok); ok {
				return
			}
			if x != nil {
				rs.fatal = x
				g.done = true
				rs.gs[0].resume <- struct{}{}
				return
			}
		}()
		m.cur, m.depth = nil, 0
		m.callValue(nil, fv, args)
		g.done = true
		n := m.pick(nil)
		m.transfer(n)
	}()
}

// pick chooses the next goroutine to run; cur is non-nil when the current one could go on.
func (m *M) pick(cur *G) *G {
	rs := m.rs
	var run []*G
	if cur != nil {
		run = append(run, cur)
	}
	for _, g := range rs.gs {
		if g == cur || g.done {
			continue
		}
		if g.blocked == nil || g.blocked() {
			run = append(run, g)
		}
	}
	if len(run) == 0 {
		panic(&pathAbort{abDeadlock, "all goroutines are blocked"})
	}
	if cur != nil {
		if len(run) == 1 || rs.preempts >= rs.maxPre {
			return cur
		}
	} else if len(run) == 1 {
		return run[0]
	}
	k := m.choose(len(run))
	m.sched = append(m.sched, k)
	if cur != nil && k > 0 {
		rs.preempts++
	}
	return run[k]
}

func (m *M) transfer(g *G) {
	m.rs.g = g
	m.cur, m.depth = g.cur, g.depth
	g.resume <- struct{}{}
}

func (m *M) switchTo(g *G) {
	rs := m.rs
	me := rs.g
	if g == me {
		return
	}
	me.cur, me.depth = m.cur, m.depth
	m.transfer(g)
	<-me.resume
	if rs.kill {
		panic(killTok{})
	}
	if me.id == 0 && rs.fatal != nil {
		panic(rs.fatal)
	}
	rs.g = me
	m.cur, m.depth = me.cur, me.depth
}

// schedPoint lets another goroutine run. Only operations of the code under test and of the harnesses
// are scheduling points; those inside the standard library are atomic.
func (m *M) schedPoint() {
	if m.rs == nil || len(m.rs.gs) == 1 {
		return
	}
	for f := m.cur; f != nil; f = f.caller {
		p := f.fn.pkgPath()
		if p == "sync" || p == "sync/atomic" || p == "internal/sync" || p == "" {
			continue
		}
		if !strings.HasPrefix(p, "verif/") && !strings.HasPrefix(p, "github.com/go-restruct/") {
			return
		}
		break
	}
	m.switchTo(m.pick(m.rs.g))
}

// wait blocks the current goroutine until cond holds.
func (m *M) wait(cond func() bool) {
	for !cond() {
		if m.rs == nil {
			panic(&pathAbort{abDeadlock, "blocked forever"})
		}
		g := m.rs.g
		g.blocked = cond
		n := m.pick(nil)
		m.switchTo(n)
		g.blocked = nil
	}
}

func (m *M) killAll() {
	rs := m.rs
	if rs == nil {
		return
	}
	rs.kill = true
	for _, g := range rs.gs[1:] {
		if g.done {
			<-g.exited
			continue
		}
		g.resume <- struct{}{}
		<-g.exited
	}
	m.rs = nil
}

func (m *M) syncOf(k any) *syncObj {
	if m.rs != nil {
		s := m.rs.sync[k]
		if s == nil {
			s = &syncObj{}
			m.rs.sync[k] = s
			if o, ok := m.side[k].(*syncObj); ok {
				*s = *o
			}
		}
		return s
	}
	s, _ := m.side[k].(*syncObj)
	if s == nil {
		s = &syncObj{}
		m.side[k] = s
	}
	return s
}

func (m *M) acquire(vc vclock) {
	if m.rs != nil {
		m.rs.g.vc = m.rs.g.vc.join(vc)
	}
}

func (m *M) release(vc vclock) vclock {
	if m.rs == nil {
		return vc
	}
	g := m.rs.g
	vc = vc.join(g.vc)
	g.vc[g.id]++
	return vc
}

func (m *M) raceReport(what string) {
	where := ""
	if m.cur != nil {
		where = m.cur.fn.name
	}
	k := what + " in " + where
	if !m.rs.raceSeen[k] {
		m.rs.raceSeen[k] = true
		m.rs.races = append(m.rs.races, k)
	}
}

func (m *M) race(c any, write bool) {
	if cc, ok := c.(*Cell); ok {
		if mem, ok := cc.V.O.(*Mem); ok {
			for i := range mem.C {
				m.race(&mem.C[i], write)
			}
			return
		}
	}
	rs := m.rs
	g := rs.g
	s := rs.shadow[c]
	if s == nil {
		s = &shadow{}
		rs.shadow[c] = s
	}
	if s.w && s.wG != g.id && s.wClk > g.vc.at(s.wG) {
		m.raceReport(fmt.Sprintf("data race with write in %s", s.at))
	}
	if write {
		for og, clk := range s.rd {
			if og != g.id && clk > g.vc.at(og) {
				m.raceReport("data race with earlier read")
			}
		}
		s.w, s.wG, s.wClk, s.rd = true, g.id, g.vc[g.id], nil
		if m.cur != nil {
			s.at = m.cur.fn.name
		}
		return
	}
	if s.rd == nil {
		s.rd = map[int]uint32{}
	}
	s.rd[g.id] = g.vc[g.id]
}

func (m *M) raceLoad(c *Cell) { m.race(c, false) }
func (m *M) raceMap(mp *MapV, write bool) {
	if mp != nil {
		m.race(mp, write)
	}
}

// leafCell finds a scalar cell inside an opaque synchronisation object.
func leafCell(c *Cell) *Cell {
	for {
		mem, ok := c.V.O.(*Mem)
		if !ok {
			return c
		}
		var next *Cell
		for i := range mem.C {
			if x, ok := mem.C[i].V.O.(*Mem); ok && len(x.C) == 0 {
				continue
			}
			next = &mem.C[i]
			break
		}
		if next == nil {
			panic(abortf("empty synchronisation object"))
		}
		c = next
	}
}

func init() {
	reg := func(name string, f Intrinsic) { intrinsics[name] = f }
	lock := func(m *M, a []Value) Value {
		c := m.ptr(a[0])
		m.schedPoint()
		s := m.syncOf(c)
		s.waiting++
		m.wait(func() bool { s := m.syncOf(c); return !s.locked && s.readers == 0 })
		s = m.syncOf(c)
		s.waiting--
		s.locked = true
		m.acquire(s.vc)
		m.acquire(s.rvc)
		return Value{}
	}
	unlock := func(m *M, a []Value) Value {
		c := m.ptr(a[0])
		s := m.syncOf(c)
		if !s.locked {
			panic(&pathAbort{abDeadlock, "unlock of unlocked mutex"})
		}
		s.locked = false
		s.vc = m.release(s.vc)
		return Value{}
	}
	try := func(m *M, a []Value) Value {
		m.schedPoint()
		s := m.syncOf(m.ptr(a[0]))
		if s.locked || s.readers > 0 {
			return B(false)
		}
		s.locked = true
		m.acquire(s.vc)
		m.acquire(s.rvc)
		return B(true)
	}
	for _, t := range []string{"(*sync.Mutex)", "(*sync.RWMutex)", "(*internal/sync.Mutex)"} {
		reg(t+".Lock", lock)
		reg(t+".Unlock", unlock)
		reg(t+".TryLock", try)
	}
	reg("(*sync.RWMutex).RLock", func(m *M, a []Value) Value {
		c := m.ptr(a[0])
		m.schedPoint()
		m.wait(func() bool { s := m.syncOf(c); return !s.locked && s.waiting == 0 })
		s := m.syncOf(c)
		s.readers++
		m.acquire(s.vc)
		return Value{}
	})
	reg("(*sync.RWMutex).RUnlock", func(m *M, a []Value) Value {
		s := m.syncOf(m.ptr(a[0]))
		if s.readers == 0 {
			panic(&pathAbort{abDeadlock, "RUnlock of unlocked RWMutex"})
		}
		s.readers--
		s.rvc = m.release(s.rvc)
		return Value{}
	})
	reg("(*sync.WaitGroup).Add", func(m *M, a []Value) Value {
		s := m.syncOf(m.ptr(a[0]))
		s.count += m.intVal(a[1], 64)
		s.vc = m.release(s.vc)
		if s.count < 0 {
			m.panicStr("sync: negative WaitGroup counter")
		}
		return Value{}
	})
	reg("(*sync.WaitGroup).Done", func(m *M, a []Value) Value {
		s := m.syncOf(m.ptr(a[0]))
		s.count--
		s.vc = m.release(s.vc)
		if s.count < 0 {
			m.panicStr("sync: negative WaitGroup counter")
		}
		return Value{}
	})
	reg("(*sync.WaitGroup).Wait", func(m *M, a []Value) Value {
		c := m.ptr(a[0])
		m.schedPoint()
		m.wait(func() bool { return m.syncOf(c).count == 0 })
		m.acquire(m.syncOf(c).vc)
		return Value{}
	})
	// sync.Pool: the most recently returned object is handed out first.
	poolList := func(m *M, c *Cell) *Cell { return leafCell(c) }
	reg("(*sync.Pool).Put", func(m *M, a []Value) Value {
		if a[1].O == nil {
			return Value{}
		}
		c := m.ptr(a[0])
		m.schedPoint()
		s := m.syncOf(c)
		s.vc = m.release(s.vc)
		on := m.raceOn
		m.raceOn = false
		l := poolList(m, c)
		var vs []Value
		if p, ok := l.V.O.([]Value); ok {
			vs = p
		}
		m.store(l, Value{O: append(append([]Value(nil), vs...), a[1])})
		m.raceOn = on
		return Value{}
	})
	reg("(*sync.Pool).Get", func(m *M, a []Value) Value {
		c := m.ptr(a[0])
		m.schedPoint()
		s := m.syncOf(c)
		m.acquire(s.vc)
		on := m.raceOn
		l := poolList(m, c)
		if p, ok := l.V.O.([]Value); ok && len(p) > 0 {
			v := p[len(p)-1]
			m.raceOn = false
			m.store(l, Value{O: append([]Value(nil), p[:len(p)-1]...)})
			m.raceOn = on
			return v
		}
		mem := c.V.O.(*Mem)
		nf := mem.C[len(mem.C)-1].V
		if nf.O == nil {
			return Value{}
		}
		return m.callValue(m.cur, nf, nil)
	})
	// sync.Map
	sm := func(m *M, a []Value) (*Cell, *MapV) {
		c := m.ptr(a[0])
		m.schedPoint()
		s := m.syncOf(c)
		m.acquire(s.vc)
		s.vc = m.release(s.vc)
		l := leafCell(c)
		mp, _ := l.V.O.(*MapV)
		return l, mp
	}
	anyMap := func() *RType { return RT(anyMapType) }
	quiet := func(m *M, f func()) {
		on := m.raceOn
		m.raceOn = false
		f()
		m.raceOn = on
	}
	reg("(*sync.Map).Load", func(m *M, a []Value) Value {
		_, mp := sm(m, a)
		if i := m.mapFind(mp, a[1]); i >= 0 {
			return Value{O: &Agg{F: []Value{load(mp.ents[i].cell), B(true)}}}
		}
		return Value{O: &Agg{F: []Value{{}, B(false)}}}
	})
	put := func(m *M, l *Cell, mp *MapV, k, v Value) {
		quiet(m, func() {
			if mp == nil {
				mp = NewMap(anyMap())
				m.store(l, Value{O: mp})
			}
			m.mapSet(mp, k, v)
		})
	}
	reg("(*sync.Map).Store", func(m *M, a []Value) Value {
		l, mp := sm(m, a)
		put(m, l, mp, a[1], a[2])
		return Value{}
	})
	reg("(*sync.Map).LoadOrStore", func(m *M, a []Value) Value {
		l, mp := sm(m, a)
		if i := m.mapFind(mp, a[1]); i >= 0 {
			return Value{O: &Agg{F: []Value{load(mp.ents[i].cell), B(true)}}}
		}
		put(m, l, mp, a[1], a[2])
		return Value{O: &Agg{F: []Value{a[2], B(false)}}}
	})
	del := func(m *M, a []Value) Value {
		_, mp := sm(m, a)
		r := Value{O: &Agg{F: []Value{{}, B(false)}}}
		if i := m.mapFind(mp, a[1]); i >= 0 {
			r = Value{O: &Agg{F: []Value{load(mp.ents[i].cell), B(true)}}}
			quiet(m, func() { m.mapDelete(mp, a[1]) })
		}
		return r
	}
	reg("(*sync.Map).LoadAndDelete", del)
	reg("(*sync.Map).Delete", func(m *M, a []Value) Value { del(m, a); return Value{} })
	reg("(*sync.Map).Range", func(m *M, a []Value) Value {
		_, mp := sm(m, a)
		if mp == nil {
			return Value{}
		}
		for i := 0; i < len(mp.ents); i++ {
			if mp.ents[i].dead {
				continue
			}
			r := m.callValue(m.cur, a[1], []Value{mp.ents[i].k, load(mp.ents[i].cell)})
			if !m.decide(m.boolTerm(r)) {
				break
			}
		}
		return Value{}
	})
	// atomics
	at := func(m *M, a []Value) *Cell {
		c := m.ptr(a[0])
		m.schedPoint()
		return c
	}
	atomic := func(m *M, c *Cell, f func() Value) Value {
		s := m.syncOf(c)
		m.acquire(s.vc)
		on := m.raceOn
		m.raceOn = false
		v := f()
		m.raceOn = on
		s.vc = m.release(s.vc)
		return v
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if t == "Int32" || t == "Uint32" {
			w = 32
		}
		reg("sync/atomic.Load"+t, func(m *M, a []Value) Value {
			c := at(m, a)
			return atomic(m, c, func() Value { return load(c) })
		})
		reg("sync/atomic.Store"+t, func(m *M, a []Value) Value {
			c := at(m, a)
			return atomic(m, c, func() Value { m.store(c, a[1]); return Value{} })
		})
		reg("sync/atomic.Swap"+t, func(m *M, a []Value) Value {
			c := at(m, a)
			return atomic(m, c, func() Value { o := load(c); m.store(c, a[1]); return o })
		})
		reg("sync/atomic.CompareAndSwap"+t, func(m *M, a []Value) Value {
			c := at(m, a)
			return atomic(m, c, func() Value {
				o := load(c)
				var eq bool
				if t == "Pointer" {
					eq = samePtr(o, a[1])
				} else {
					eq = m.decide(m.c.Eq(m.term(o, w), m.term(a[1], w)))
				}
				if eq {
					m.store(c, a[2])
				}
				return B(eq)
			})
		})
		if t != "Pointer" {
			reg("sync/atomic.Add"+t, func(m *M, a []Value) Value {
				c := at(m, a)
				return atomic(m, c, func() Value {
					n := T(m.c.Add(m.term(load(c), w), m.term(a[1], w)))
					m.store(c, n)
					return n
				})
			})
		}
	}
	// atomic.Value holds an interface value in its only field.
	av := func(m *M, a []Value) *Cell {
		c := at(m, a)
		return &c.V.O.(*Mem).C[0]
	}
	reg("(*sync/atomic.Value).Load", func(m *M, a []Value) Value {
		c := av(m, a)
		return atomic(m, c, func() Value { return load(c) })
	})
	reg("(*sync/atomic.Value).Store", func(m *M, a []Value) Value {
		c := av(m, a)
		if a[1].O == nil {
			m.panicStr("sync/atomic: store of nil value into Value")
		}
		return atomic(m, c, func() Value { m.store(c, a[1]); return Value{} })
	})
	reg("(*sync/atomic.Value).Swap", func(m *M, a []Value) Value {
		c := av(m, a)
		return atomic(m, c, func() Value { o := load(c); m.store(c, a[1]); return o })
	})
	reg("runtime.Gosched", func(m *M, a []Value) Value { m.schedPoint(); return Value{} })
	reg("time.Sleep", func(m *M, a []Value) Value { m.schedPoint(); return Value{} })
	_ = reflect.Int
}

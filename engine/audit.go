package main

import (
	"fmt"
	"os"
	"sync/atomic"
	"time"
)

// The raw audit. Exploration decides most branches and many assertions on terms the simplifier has
// already rewritten. Afterwards a few completed paths of every harness are executed again with the
// simplifier off: every operation on a symbolic operand becomes a term as it stands, branches follow the
// sampled inputs and are added to the path condition, and every assertion that is not a constant goes to
// the solver, with no truth table and no model to shortcut it. A rewrite rule that turned a falsifiable
// assertion into a true one would show here as a counterexample.

type auditStats struct {
	Paths, Assertions, Unsat, Sat, Unknown, Differ int64
	Nanos                                          int64
}

// rawConst folds an operation whose operands are all constants; everything else becomes a term.
func (c *Ctx) rawMk(op Op, w uint8, k uint64, args ...*Term) *Term {
	t := c.mk(op, w, k, args...)
	for _, a := range args {
		if a.Op != OpConst {
			return t
		}
	}
	return c.Const(w, c.Eval(t, nil))
}

func (ex *Explorer) nextAudit() (Sample, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for len(ex.auditQ) > 0 {
		s := ex.auditQ[0]
		ex.auditQ = ex.auditQ[1:]
		return s, true
	}
	return Sample{}, false
}

// prepareAudit orders the samples: one of each harness, then a second of each, and so on.
func (ex *Explorer) prepareAudit() {
	for i := 0; i < ex.maxSamp; i++ {
		for _, h := range ex.hs {
			if s := ex.samples[h.Name]; i < len(s) {
				ex.auditQ = append(ex.auditQ, s[i])
			}
		}
	}
	ex.auditEnd = time.Now().Add(ex.auditFor)
	ex.deadline.Store(ex.auditEnd.UnixNano())
}

func (w *Worker) audit() {
	ex, m := w.ex, w.m
	hs := map[string]*Harness{}
	for _, h := range ex.hs {
		hs[h.Name] = h
	}
	m.s.timeout = 3 * time.Second
	m.s.start()
	m.c.raw = true
	defer func() { m.c.raw = false }()
	for time.Now().Before(ex.auditEnd) {
		s, ok := ex.nextAudit()
		if !ok {
			return
		}
		t0 := time.Now()
		w.auditPath(hs[s.Harness], s)
		atomic.AddInt64(&ex.aud.Nanos, int64(time.Since(t0)))
	}
}

func (w *Worker) auditPath(h *Harness, s Sample) {
	ex, m := w.ex, w.m
	m.resetPath()
	m.smallLen, m.stepLimit = 16, 40_000_000
	w.task = &Task{H: h}
	m.model = append(Model{}, s.Inputs...)
	m.guided, m.guideC = true, s.choices
	defer func() { m.guided, m.guideC = false, nil }()
	end := func() (end string) {
		defer func() {
			switch x := recover().(type) {
			case nil:
			case *pathAbort:
				end = "cut: " + x.msg
				switch x.kind {
				case abStop:
					end = "stop"
				case abDeadline:
					end = "deadline"
				}
			case *goPanic:
				end = "panic"
			default:
				end = fmt.Sprintf("engine error: %v", x)
			}
		}()
		m.callFn(nil, h.fn, nil, nil)
		return "ok"
	}()
	if m.rs != nil {
		m.killAll()
	}
	defer m.undoAll()
	if end == "deadline" {
		return
	}
	same := end == s.End && len(m.obs) == len(s.Obs)
	for i := 0; same && i < len(m.obs); i++ {
		same = m.obs[i].Label+"="+m.obsEval(m.obs[i].Txt, m.model) == s.Obs[i]
	}
	if !same {
		atomic.AddInt64(&ex.aud.Differ, 1)
		if os.Getenv("VERIF_TRACE") != "" {
			fmt.Fprintln(os.Stderr, "raw path differs:", s.Harness, s.Inputs, "ended", end, "expected", s.End)
		}
		return
	}
	atomic.AddInt64(&ex.aud.Paths, 1)
}

// rawCheck decides an assertion on a guided path.
func (m *M) rawCheck(cond *Term, label, known string) {
	ex := m.w.ex
	if cond.Op == OpConst && cond.K != 0 || time.Now().After(ex.auditEnd) {
		return
	}
	atomic.AddInt64(&ex.aud.Assertions, 1)
	neg := m.c.BNot(cond)
	r, mod := m.s.Check(m.pc, neg, len(m.vars))
	if r == Sat {
		full := make(Model, max(len(m.model), len(mod)))
		copy(full, m.model)
		for _, v := range m.c.Support(append(append([]*Term(nil), m.pc...), neg)) {
			full[v] = mod.get(uint64(v))
		}
		mod = full
		for _, p := range append(append([]*Term(nil), m.pc...), neg) {
			if m.c.Eval(p, full) == 0 {
				r = Unknown
			}
		}
	}
	switch r {
	case Unsat:
		atomic.AddInt64(&ex.aud.Unsat, 1)
		return
	case Unknown:
		atomic.AddInt64(&ex.aud.Unknown, 1)
	case Sat:
		atomic.AddInt64(&ex.aud.Sat, 1)
		m.w.violation(m, label, known, mod)
	}
	m.assume(cond)
}

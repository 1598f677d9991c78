package main

import (
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Task struct {
	H      *Harness
	Prefix []Dec
	Model  Model
}

type Harness struct {
	Name                                                              string
	fn                                                                *Fn
	Paths, Done, Infeasible, Unsupported, Limited, UnknownCuts, Steps int64
	Asserts, SymAsserts                                               int64
	Covers                                                            map[string]bool
	Msgs                                                              map[string]int
	Pending                                                           int64
	seen                                                              int
}

type Candidate struct {
	Tail     uint64   // what inputs behind the given ones are made from
	Harness  string   `json:"harness"`
	Label    string   `json:"label"`
	Kind     string   `json:"kind"` // assert, known, panic, nontermination, overflow, deadlock, race
	Known    string   `json:"known,omitempty"`
	Inputs   []uint64 `json:"inputs"`
	Names    []string `json:"names"`
	Stack    string   `json:"stack,omitempty"`
	Thorough bool     `json:"thorough"`
	Sched    []int    `json:"sched"`
	Bound    int      `json:"-"`
	MapOrder bool     `json:"-"` // the path iterated over a map in the code under test
}

func cloneInts(s []int) []int {
	if s == nil {
		return nil
	}
	return append([]int{}, s...)
}

type Sample struct {
	Harness string
	Inputs  []uint64
	Names   []string
	Obs     []string
	End     string
	choices []uint64
}

// maxCuts is how many cut paths of a harness are replayed.
const maxCuts = 64

type Worker struct {
	id    int
	ex    *Explorer
	m     *M
	task  *Task
	local []Task
	rng   *rand.Rand
	dead  bool
}

type Explorer struct {
	p        *Program
	thorough bool
	seed     int64
	deadline atomic.Int64 // UnixNano
	mu       sync.Mutex
	cond     *sync.Cond
	roots    []Task
	shared   []Task
	idle     int
	n        int
	stop     bool
	cands    map[string][]*Candidate
	samples  map[string][]Sample
	cuts     map[string][]Sample // paths the encoding could not follow to their end
	hs       []*Harness
	workers  []*Worker
	initErr  error
	cross    []string // scripts for the second solver
	crossN   int
	perLabel int
	maxSamp  int
	after    time.Duration // how long to go on after the first counterexample
	dropped  int64
	auditQ   []Sample
	auditEnd time.Time
	auditFor time.Duration
	aud      auditStats
}

func (w *Worker) push(t Task) { w.local = append(w.local, t) }

func (w *Worker) noteUnknown(m *M) {
	w.ex.mu.Lock()
	w.task.H.UnknownCuts++
	w.ex.mu.Unlock()
}

// obligation samples discharged assertions for cross-checking with a second solver.
func (w *Worker) obligation(m *M, neg *Term) {
	if w.ex.crossN <= 0 || w.rng.Intn(20) != 0 {
		return
	}
	w.ex.mu.Lock()
	full := len(w.ex.cross) >= w.ex.crossN
	w.ex.mu.Unlock()
	if full {
		return
	}
	s := Script(m.pc, neg)
	m.s.start() // rendering the script took the terms over
	if len(s) > 400000 {
		return
	}
	w.ex.mu.Lock()
	w.ex.cross = append(w.ex.cross, s)
	w.ex.mu.Unlock()
}

func (w *Worker) inputs(m *M, mod Model) ([]uint64, []string) {
	in := make([]uint64, len(m.vars))
	nm := make([]string, len(m.vars))
	for i, v := range m.vars {
		nm[i] = v.Name
		if v.C {
			in[i] = v.Val
		} else {
			in[i] = mod.get(uint64(i)) & mask(v.W)
		}
	}
	return in, nm
}

func (w *Worker) candidate(m *M, kind, label, known string, mod Model) {
	in, nm := w.inputs(m, mod)
	key := w.task.H.Name + "|" + kind + "|" + label + "|" + known
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if len(ex.cands[key]) < ex.perLabel {
		if known == "" {
			// something to report: do not look for more for ever
			if d := time.Now().Add(ex.after).UnixNano(); d < ex.deadline.Load() && ex.after > 0 {
				ex.deadline.Store(d)
				ex.after = 0
			}
		}
		ex.cands[key] = append(ex.cands[key], &Candidate{Harness: w.task.H.Name, Label: label, Kind: kind, Known: known, Inputs: in, Names: nm, Stack: m.stack(), Thorough: ex.thorough, Sched: cloneInts(m.sched), MapOrder: m.side["mapback"] != nil})
	}
}

func (w *Worker) violation(m *M, label, known string, mod Model) {
	k := "assert"
	if known != "" {
		k = "known"
	}
	w.candidate(m, k, label, known, mod)
}

func (w *Worker) runTask(t *Task) {
	m := w.m
	m.resetPath()
	m.smallLen, m.stepLimit = 16, 40_000_000
	w.task = t
	m.prefix = t.Prefix
	m.model = t.Model
	h := t.H
	end := func() (end string) {
		defer func() {
			r := recover()
			stk := ""
			if r != nil && os.Getenv("VERIF_TRACE") != "" {
				if _, ok := r.(*pathAbort); !ok {
					stk = string(debug.Stack())
				}
			}
			switch x := r.(type) {
			case nil:
				return
			case *pathAbort:
				switch x.kind {
				case abInfeasible:
					end = "infeasible"
				case abUnsupported:
					end = "unsupported: " + x.msg + "\n" + m.stack()
				case abSteps:
					end = "limit"
					w.candidate(m, "nontermination", x.msg, "", m.model)
				case abDepth:
					end = "limit"
					w.candidate(m, "overflow", x.msg, "", m.model)
				case abDeadline:
					end = "deadline"
				case abUnknown:
					end = "unknown"
				case abDeadlock:
					end = "deadlock"
					w.candidate(m, "deadlock", x.msg, "", m.model)
				case abStop:
					end = "stop"
				}
			case *goPanic:
				end = "panic"
				w.candidate(m, "panic", "panic: "+m.panicText(x.v), "", m.model)
			case runtime.Error:
				end = "unsupported: engine error: " + x.Error() + "\n" + m.stack()
				if os.Getenv("VERIF_TRACE") != "" {
					fmt.Fprintln(os.Stderr, "engine error:", x, "\n", m.stack(), "\n", stk)
				}
			default:
				panic(r)
			}
		}()
		m.callFn(nil, h.fn, nil, nil)
		return "ok"
	}()
	if m.rs != nil {
		if end == "ok" {
			for _, r := range m.rs.races {
				w.candidate(m, "race", r, "", m.model)
			}
		}
		m.killAll()
	}
	m.undoAll()
	ex := w.ex
	ex.mu.Lock()
	defer ex.mu.Unlock()
	h.Paths++
	h.Steps += m.steps
	h.Asserts += int64(m.asserts)
	h.SymAsserts += int64(m.symAsserts)
	switch {
	case end == "ok" || end == "stop":
		h.Done++
		for c := range m.covers {
			h.Covers[c] = true
		}
	case end == "infeasible":
		h.Infeasible++
	case strings.HasPrefix(end, "unsupported"):
		h.Unsupported++
		h.Msgs[end]++
		if m.rs == nil {
			k := int(h.Unsupported) - 1
			if k >= maxCuts {
				k = w.rng.Intn(k + 1)
			}
			if k < maxCuts {
				in, nm := w.inputs(m, m.model)
				c := Sample{Harness: h.Name, Inputs: in, Names: nm, End: "cut"}
				if l := ex.cuts[h.Name]; k < len(l) {
					l[k] = c
				} else {
					ex.cuts[h.Name] = append(l, c)
				}
			}
		}
	case end == "limit":
		h.Limited++
	case end == "deadline":
		h.Pending++
	case end == "unknown":
		h.UnknownCuts++
	}
	if (end == "ok" || end == "stop") && len(m.vars) >= 0 {
		// reservoir sample of completed paths, for replay against the real code
		h.seen++
		s := ex.samples[h.Name]
		k := -1
		if len(s) < ex.maxSamp {
			k = len(s)
			s = append(s, Sample{})
		} else if j := w.rng.Intn(h.seen); j < ex.maxSamp {
			k = j
		}
		if k >= 0 && (len(m.rsRaces()) == 0) {
			in, nm := w.inputs(m, m.model)
			var obs []string
			for _, o := range m.obs {
				obs = append(obs, o.Label+"="+m.obsEval(o.Txt, m.model))
			}
			s[k] = Sample{Harness: h.Name, Inputs: in, Names: nm, Obs: obs, End: end}
			for _, d := range m.decs {
				if d.K == 'c' {
					s[k].choices = append(s[k].choices, d.V)
				}
			}
			ex.samples[h.Name] = s
		}
	}
}

func (m *M) rsRaces() []string { return nil }

func (w *Worker) loop() {
	ex := w.ex
	for {
		var t Task
		if n := len(w.local); n > 0 {
			t = w.local[n-1]
			w.local = w.local[:n-1]
			// donate old work to idle workers
			if n > 1 {
				ex.mu.Lock()
				if ex.idle > 0 && len(ex.shared) < ex.idle {
					k := (n - 1 + 1) / 2
					ex.shared = append(ex.shared, w.local[:k]...)
					w.local = append([]Task(nil), w.local[k:]...)
					ex.cond.Broadcast()
				}
				ex.mu.Unlock()
			}
		} else {
			ex.mu.Lock()
			for {
				if ex.stop {
					ex.mu.Unlock()
					return
				}
				if n := len(ex.shared); n > 0 {
					t = ex.shared[n-1]
					ex.shared = ex.shared[:n-1]
					break
				}
				if len(ex.roots) > 0 {
					t = ex.roots[0]
					ex.roots = ex.roots[1:]
					break
				}
				ex.idle++
				if ex.idle == ex.n {
					ex.stop = true
					ex.cond.Broadcast()
					ex.mu.Unlock()
					return
				}
				ex.cond.Wait()
				ex.idle--
			}
			ex.mu.Unlock()
		}
		if time.Now().UnixNano() > ex.deadline.Load() {
			ex.mu.Lock()
			t.H.Pending++
			for _, x := range w.local {
				x.H.Pending++
			}
			w.local = nil
			for _, x := range ex.shared {
				x.H.Pending++
			}
			ex.shared = nil
			for _, x := range ex.roots {
				x.H.Pending++
			}
			ex.roots = nil
			ex.stop = true
			ex.cond.Broadcast()
			ex.mu.Unlock()
			return
		}
		w.runTask(&t)
	}
}

func NewExplorer(p *Program, nworkers int, seed int64, thorough bool) *Explorer {
	ex := &Explorer{p: p, n: nworkers, seed: seed, thorough: thorough, cands: map[string][]*Candidate{}, samples: map[string][]Sample{}, cuts: map[string][]Sample{}, perLabel: 3, maxSamp: 12}
	ex.cond = sync.NewCond(&ex.mu)
	return ex
}

func (ex *Explorer) Run(names []string, budget time.Duration) error {
	ex.deadline.Store(time.Now().Add(budget).UnixNano())
	for _, n := range names {
		f := ex.p.h.Func(n)
		if f == nil {
			return fmt.Errorf("no harness %s", n)
		}
		h := &Harness{Name: n, fn: FnOf(f), Covers: map[string]bool{}, Msgs: map[string]int{}}
		ex.hs = append(ex.hs, h)
		ex.roots = append(ex.roots, Task{H: h, Model: Model{}})
	}
	var wg, explored sync.WaitGroup
	var once sync.Once
	explored.Add(ex.n)
	solverTO := 20 * time.Second
	if ex.thorough {
		solverTO = 60 * time.Second
	}
	for i := 0; i < ex.n; i++ {
		w := &Worker{id: i, ex: ex, rng: rand.New(rand.NewSource(ex.seed*1000 + int64(i)))}
		ex.workers = append(ex.workers, w)
		wg.Add(1)
		go func() {
			defer wg.Done()
			m := NewM()
			m.w = w
			m.s = NewSolver(m.c, solverTO)
			defer m.s.Close()
			w.m = m
			if err := m.initAll(ex.p); err != nil {
				ex.mu.Lock()
				ex.initErr = err
				ex.stop = true
				ex.cond.Broadcast()
				ex.mu.Unlock()
				explored.Done()
				return
			}
			w.loop()
			explored.Done()
			explored.Wait()
			once.Do(ex.prepareAudit)
			w.audit()
		}()
	}
	wg.Wait()
	return ex.initErr
}

// crossCheck runs sampled discharged obligations through cvc5.
func (ex *Explorer) crossCheck() (n, disagree, unknown int) {
	var wg sync.WaitGroup
	sem := make(chan struct{}, runtime.NumCPU())
	var mu sync.Mutex
	for _, s := range ex.cross {
		wg.Add(1)
		sem <- struct{}{}
		go func() {
			defer func() { <-sem; wg.Done() }()
			cmd := exec.Command("cvc5", "--lang=smt2", "--tlimit=20000", "-q")
			cmd.Stdin = strings.NewReader(s)
			out, _ := cmd.CombinedOutput()
			r := strings.TrimSpace(string(out))
			mu.Lock()
			defer mu.Unlock()
			switch r {
			case "unsat":
				n++
			case "sat":
				n++
				disagree++
				fmt.Fprintln(os.Stderr, "cvc5 disagrees on an obligation")
			default:
				unknown++
			}
		}()
	}
	wg.Wait()
	return
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

const repoDir = "/repo"

type findings struct {
	known map[string]bool // "property id" -> listed
}

// readFindings reads known-findings.txt: lines "known: property=<id> id=<finding> ...".
func readFindings(path string) findings {
	f := findings{known: map[string]bool{}}
	b, _ := os.ReadFile(path)
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		var prop, id string
		for _, w := range strings.Fields(l) {
			if x, ok := strings.CutPrefix(w, "property="); ok {
				prop = x
			}
			if x, ok := strings.CutPrefix(w, "id="); ok {
				id = x
			}
		}
		f.known[prop+" "+id] = true
	}
	return f
}

type replayer struct {
	bin, raceBin string
	schedBin     string
	once         sync.Once
	schedErr     string
	dir          string
	verif        string
}

// sched says that the case has a schedule, and prepares a binary that replays schedules: the real code
// with its synchronisation operations replaced by ones that yield as recorded.
func (r *replayer) sched(file string) bool {
	b, _ := os.ReadFile(file)
	var c caseFile
	if json.Unmarshal(b, &c) != nil || c.Sched == nil {
		return false
	}
	r.once.Do(func() {
		ov := map[string]string{}
		filepath.WalkDir(repoDir, func(p string, d os.DirEntry, err error) error {
			if err != nil || d.IsDir() || !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
				return nil
			}
			src, err := os.ReadFile(p)
			if err != nil {
				return nil
			}
			out := schedImport.ReplaceAllStringFunc(string(src), func(l string) string {
				g := schedImport.FindStringSubmatch(l)
				name, to := g[2], "vsync"
				if g[3] != "" {
					to = "vatomic"
				}
				if strings.TrimSpace(name) == "" {
					name = "sync "
					if g[3] != "" {
						name = "atomic "
					}
				}
				return g[1] + name + "\"verif/harness/" + to + "\""
			})
			if out != string(src) {
				f := filepath.Join(r.dir, fmt.Sprintf("overlay-%d.go", len(ov)))
				os.WriteFile(f, []byte(out), 0o644)
				ov[p] = f
			}
			return nil
		})
		j, _ := json.Marshal(map[string]any{"Replace": ov})
		of := filepath.Join(r.dir, "overlay.json")
		os.WriteFile(of, j, 0o644)
		bin := filepath.Join(r.dir, "replay-sched")
		cmd := exec.Command("go", "build", "-overlay", of, "-o", bin, "./cmd/replay")
		cmd.Dir = filepath.Join(r.verif, "harness")
		cmd.Env = goEnv()
		if out, err := cmd.CombinedOutput(); err != nil {
			r.schedErr = string(out)
			fmt.Fprintln(os.Stderr, "building the schedule replayer failed:", r.schedErr)
			return
		}
		r.schedBin = bin
	})
	return r.schedBin != ""
}

var schedImport = regexp.MustCompile(`(?m)^(\s*(?:import\s+)?)(\w+\s+)?"sync(/atomic)?"`)

type replayOut struct {
	code int
	out  string
	to   bool
}

func (r *replayer) run(file string, timeout time.Duration, race bool) replayOut {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	bin := r.bin
	if race {
		bin = r.raceBin
	} else if r.sched(file) {
		bin = r.schedBin
	}
	lim := "ulimit -v 6000000; "
	if race {
		lim = ""
	}
	cmd := exec.CommandContext(ctx, "bash", "-c", lim+"exec \"$0\" \"$1\"", bin, file)
	cmd.Env = append(os.Environ(), "GORACE=halt_on_error=1 exitcode=66 atexit_sleep_ms=10")
	var buf bytes.Buffer
	lw := &limitWriter{&buf, 1 << 20}
	cmd.Stdout, cmd.Stderr = lw, lw
	cmd.WaitDelay = 2 * time.Second
	err := cmd.Run()
	o := replayOut{out: buf.String()}
	if ctx.Err() != nil {
		o.to = true
		o.code = -1
		return o
	}
	if ee, ok := err.(*exec.ExitError); ok {
		o.code = ee.ExitCode()
	} else if err != nil {
		o.code = -2
	}
	return o
}

type limitWriter struct {
	b *bytes.Buffer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.b.Len() < l.n {
		l.b.Write(p[:min(len(p), l.n-l.b.Len())])
	}
	return len(p), nil
}

type caseFile struct {
	Harness  string   `json:"harness"`
	Inputs   []uint64 `json:"inputs"`
	Names    []string `json:"names,omitempty"`
	Thorough bool     `json:"thorough"`
	Property string   `json:"property,omitempty"`
	Label    string   `json:"label,omitempty"`
	Kind     string   `json:"kind,omitempty"`
	Note     string   `json:"note,omitempty"`
	Sched    []int    `json:"sched"`
	Tail     uint64   `json:"tail,omitempty"`
}

// caseSched is the schedule to replay; a race is reproduced by the race detector on free-running goroutines.
func caseSched(c *Candidate) []int {
	if c.Kind == "race" {
		return nil
	}
	return c.Sched
}

func writeCase(path string, c caseFile) {
	b, _ := json.MarshalIndent(c, "", " ")
	os.WriteFile(path, append(b, '\n'), 0o644)
}

// confirm replays a counterexample on the real code; ok says it reproduces.
func (r *replayer) confirm(c *Candidate, file string) (bool, string) {
	to := 20 * time.Second
	switch c.Kind {
	case "assert":
		o := r.run(file, to, false)
		if o.code == 3 && strings.Contains(o.out, "ASSERT-FAIL "+c.Label) {
			return true, lastLines(o.out, 6)
		}
		// another assertion failing, or a crash, on these inputs is a violation all the same
		if o.code == 3 || o.code == 2 || o.to {
			return true, lastLines(o.out, 6)
		}
		return false, o.out
	case "known":
		o := r.run(file, to, false)
		return o.code == 4 && strings.Contains(o.out, "KNOWN "+c.Known+" "), lastLines(o.out, 6)
	case "panic", "overflow":
		o := r.run(file, to, false)
		return o.code == 2 || o.code == 3 || o.to, lastLines(o.out, 12)
	case "nontermination":
		o := r.run(file, 15*time.Second, false)
		return o.to || o.code == 2 || o.code == 3, "still running after 15 s"
	case "deadlock":
		for i := 0; i < 20; i++ {
			o := r.run(file, 10*time.Second, false)
			if o.to || o.code == 2 || o.code == 3 {
				return true, lastLines(o.out, 6)
			}
		}
		return false, ""
	case "race":
		if r.raceBin == "" {
			bin := filepath.Join(r.dir, "replay-race")
			cmd := exec.Command("go", "build", "-race", "-o", bin, "./cmd/replay")
			cmd.Dir = filepath.Join(r.verif, "harness")
			cmd.Env = append(goEnv(), "CGO_ENABLED=1")
			if out, err := cmd.CombinedOutput(); err != nil {
				return false, "race build: " + string(out)
			}
			r.raceBin = bin
		}
		for i := 0; i < 25; i++ {
			o := r.run(file, 30*time.Second, true)
			if o.code == 66 || strings.Contains(o.out, "DATA RACE") {
				return true, firstLines(o.out, 30)
			}
			if o.code != 0 {
				return true, lastLines(o.out, 10)
			}
		}
		return false, ""
	}
	return false, ""
}

func lastLines(s string, n int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}
func grepLine(s, pre string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.HasPrefix(l, pre) {
			return l
		}
	}
	return ""
}

func firstLines(s string, n int) string { return lastLines(s, n) }

func goEnv() []string {
	return append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	verif := flag.String("verif", "/verif", "verification tree")
	only := flag.String("only", "", "run only these harnesses (comma separated)")
	budget := flag.Duration("budget", 0, "exploration budget")
	workers := flag.Int("j", runtime.NumCPU(), "workers")
	verbose := flag.Bool("v", false, "verbose")
	noev := flag.Bool("noev", false, "do not write evidence")
	flag.Parse()
	debug.SetGCPercent(400)
	start := time.Now()
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if seed == 0 {
		seed = 1
	}
	thorough := *tier == "thorough"
	tmp, err := os.MkdirTemp("", "verif-*")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	defer os.RemoveAll(tmp)
	code := run(*prop, *tier, *verif, *only, tmp, *budget, *workers, seed, thorough, *verbose, *noev, start)
	os.RemoveAll(tmp)
	os.Exit(code)
}

func run(prop, tier, verif, only, tmp string, budget time.Duration, workers int, seed int64, thorough, verbose, noev bool, start time.Time) int {
	fail := func(f string, a ...any) int {
		fmt.Fprintf(os.Stderr, f+"\n", a...)
		return 2
	}
	// native replay binary, built from the same sources
	rp := &replayer{bin: filepath.Join(tmp, "replay"), dir: tmp, verif: verif}
	var bout []byte
	var berr error
	var bw sync.WaitGroup
	bw.Add(1)
	go func() {
		defer bw.Done()
		cmd := exec.Command("go", "build", "-o", rp.bin, "./cmd/replay")
		cmd.Dir = filepath.Join(verif, "harness")
		cmd.Env = goEnv()
		bout, berr = cmd.CombinedOutput()
	}()
	p, err := Load(filepath.Join(verif, "harness"))
	bw.Wait()
	if berr != nil {
		return fail("building the harness failed: %v\n%s", berr, bout)
	}
	if err != nil {
		return fail("%v", err)
	}
	loadT := time.Since(start)
	var names []string
	for n := range p.h.Members {
		if p.h.Func(n) == nil || !strings.HasPrefix(n, prop+"_") {
			continue
		}
		if strings.HasSuffix(n, "_T") && !thorough {
			continue
		}
		if only != "" && !strings.Contains(","+only+",", ","+n+",") {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	if len(names) == 0 {
		return fail("no harness for %s", prop)
	}
	if budget == 0 {
		budget = 150 * time.Second
		if thorough {
			budget = 40 * time.Minute
		}
	}
	ex := NewExplorer(p, workers, seed, thorough)
	ex.after = budget / 5
	if thorough {
		ex.crossN = 300
		ex.auditFor = 90 * time.Second
		ex.maxSamp = 60
	} else {
		ex.crossN = 6
		ex.auditFor = 5 * time.Second
	}
	if n, err := strconv.Atoi(os.Getenv("VERIF_SAMPLES")); err == nil {
		ex.maxSamp = n
	}
	t0 := time.Now()
	if err := ex.Run(names, budget); err != nil {
		return fail("%v", err)
	}
	exploreT := time.Since(t0)

	// ---- candidates: replay on the real code ----
	fnd := readFindings(filepath.Join(verif, "known-findings.txt"))
	repDir := filepath.Join(verif, "replays")
	violations := 0
	var unconfirmed []string
	knownSeen := map[string]string{}
	type verdict struct {
		c    *Candidate
		file string
		ok   bool
		msg  string
	}
	var all []verdict
	for _, k := range sortedKeys(ex.cands) {
		for i, c := range ex.cands[k] {
			f := filepath.Join(tmp, fmt.Sprintf("cand-%d-%d.json", len(all), i))
			writeCase(f, caseFile{Harness: c.Harness, Inputs: c.Inputs, Names: c.Names, Thorough: c.Thorough, Property: prop, Label: c.Label, Kind: c.Kind, Sched: caseSched(c)})
			all = append(all, verdict{c: c, file: f})
		}
	}
	if len(all) > 0 {
		var wg sync.WaitGroup
		sem := make(chan struct{}, 8)
		nt := 0
		for i := range all {
			v := &all[i]
			if v.c.Kind == "race" || v.c.Kind == "deadlock" {
				continue
			}
			if v.c.Kind == "nontermination" {
				nt++
				if nt > 8 {
					v.msg = "not replayed"
					continue
				}
			}
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				n := 1
				if v.c.MapOrder {
					n = 40 // the real map order is random
				}
				for i := 0; i < n && !v.ok; i++ {
					v.ok, v.msg = rp.confirm(v.c, v.file)
				}
			}()
		}
		wg.Wait()
		// races and deadlocks: once per finding, and not for ever
		sure := map[string]bool{}
		began := time.Now()
		for i := range all {
			v := &all[i]
			if v.c.Kind != "race" && v.c.Kind != "deadlock" {
				continue
			}
			k := v.c.Harness + v.c.Kind + v.c.Label
			if sure[k] || time.Since(began) > 2*time.Minute {
				v.msg = "not replayed"
				continue
			}
			v.ok, v.msg = rp.confirm(v.c, v.file)
			sure[k] = v.ok
		}
	}
	// ---- sampled paths: the encoding must predict the real code ----
	var samples []Sample
	for _, h := range ex.hs {
		samples = append(samples, ex.samples[h.Name]...)
	}
	validated, mismatch := 0, 0
	var mism []string
	var sampleFail []verdict
	{
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan struct{}, 8)
		for i, s := range samples {
			wg.Add(1)
			sem <- struct{}{}
			go func() {
				defer func() { <-sem; wg.Done() }()
				f := filepath.Join(tmp, fmt.Sprintf("samp-%d.json", i))
				writeCase(f, caseFile{Harness: s.Harness, Inputs: s.Inputs, Names: s.Names, Thorough: thorough})
				o := rp.run(f, 30*time.Second, false)
				want := ""
				for _, x := range s.Obs {
					want += "OBS " + x + "\n"
				}
				got := ""
				for _, l := range strings.Split(o.out, "\n") {
					if strings.HasPrefix(l, "OBS ") {
						got += l + "\n"
					}
				}
				mu.Lock()
				defer mu.Unlock()
				if (o.code == 0 || o.code == 4) && got == want {
					validated++
				} else if o.code == 3 {
					// the real code breaks the assertion on this input
					sampleFail = append(sampleFail, verdict{c: &Candidate{Harness: s.Harness, Kind: "assert", Label: strings.TrimPrefix(grepLine(o.out, "ASSERT-FAIL "), "ASSERT-FAIL "), Inputs: s.Inputs, Names: s.Names, Thorough: thorough}, ok: true, msg: lastLines(o.out, 6)})
				} else {
					mismatch++
					if len(mism) < 8 {
						mism = append(mism, fmt.Sprintf("%s inputs=%v exit=%d\n--- encoding\n%s--- real\n%s%s", s.Harness, s.Inputs, o.code, want, got, lastLines(o.out, 12)))
					}
				}
			}()
		}
		wg.Wait()
	}
	// ---- cut paths: the encoding gave up on them, so their inputs, continued at will, are tried on the real code ----
	cutRuns := 0
	{
		var wg sync.WaitGroup
		var mu sync.Mutex
		sem := make(chan struct{}, 8)
		began := time.Now()
		broken := map[string]bool{}
		for _, h := range ex.hs {
			for i, s := range ex.cuts[h.Name] {
				for tail := uint64(1); tail <= 2; tail++ {
					mu.Lock()
					skip := broken[h.Name] || time.Since(began) > time.Minute
					mu.Unlock()
					if skip {
						break
					}
					wg.Add(1)
					sem <- struct{}{}
					go func() {
						defer func() { <-sem; wg.Done() }()
						f := filepath.Join(tmp, fmt.Sprintf("cut-%s-%d-%d.json", s.Harness, i, tail))
						writeCase(f, caseFile{Harness: s.Harness, Inputs: s.Inputs, Names: s.Names, Thorough: thorough, Tail: tail})
						o := rp.run(f, 20*time.Second, false)
						mu.Lock()
						defer mu.Unlock()
						cutRuns++
						if o.code == 3 {
							broken[s.Harness] = true
							sampleFail = append(sampleFail, verdict{c: &Candidate{Harness: s.Harness, Kind: "assert", Label: strings.TrimPrefix(grepLine(o.out, "ASSERT-FAIL "), "ASSERT-FAIL "), Inputs: s.Inputs, Names: s.Names, Thorough: thorough, Tail: tail}, ok: true, msg: lastLines(o.out, 6)})
						}
					}()
				}
			}
		}
		wg.Wait()
	}
	for _, v := range sampleFail {
		all = append(all, v)
	}
	reported := map[string]bool{}
	for _, v := range all {
		c := v.c
		key := c.Harness + "|" + c.Label + "|" + c.Kind + "|" + c.Known
		if !v.ok {
			unconfirmed = append(unconfirmed, fmt.Sprintf("%s %s: %s", c.Harness, c.Kind, c.Label))
			if verbose {
				fmt.Printf("UNCONFIRMED %s %s %q inputs=%v\n%s\n%s\n", c.Harness, c.Kind, c.Label, c.Inputs, v.msg, c.Stack)
			}
			continue
		}
		if c.Kind == "known" && fnd.known[prop+" "+c.Known] {
			if knownSeen[c.Known] == "" {
				knownSeen[c.Known] = fmt.Sprintf("%s in %s, e.g. %s", c.Label, c.Harness, inputText(c.Names, c.Inputs))
			}
			continue
		}
		if reported[key] {
			continue
		}
		reported[key] = true
		violations++
		os.MkdirAll(repDir, 0o755)
		rf := filepath.Join(repDir, fmt.Sprintf("%s-%d.json", prop, violations))
		writeCase(rf, caseFile{Harness: c.Harness, Inputs: c.Inputs, Names: c.Names, Thorough: c.Thorough, Property: prop, Label: c.Label, Kind: c.Kind, Note: v.msg, Sched: caseSched(c), Tail: c.Tail})
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rf)
		fmt.Printf("  harness %s: %s (%s)\n  inputs: %s\n", c.Harness, c.Label, c.Kind, inputText(c.Names, c.Inputs))
		fmt.Printf("  real code: %s\n", strings.ReplaceAll(v.msg, "\n", "\n    "))
		if verbose {
			fmt.Println(c.Stack)
		}
	}
	for _, id := range sortedKeys(knownSeen) {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, id, knownSeen[id])
	}

	crossN, crossBad, crossUnk := ex.crossCheck()

	// ---- report ----
	var st SolverStats
	fns := map[string]int64{}
	instrs := 0
	for _, w := range ex.workers {
		if w.m == nil || w.m.s == nil {
			continue
		}
		s := w.m.s.Stats
		st.Queries += s.Queries
		st.Sat += s.Sat
		st.Unsat += s.Unsat
		st.Unknown += s.Unknown
		st.Time += s.Time
		st.Restarts += s.Restarts
		st.DomainDecisions += s.DomainDecisions
		st.ModelHits += s.ModelHits
		for f, n := range w.m.fnSeen {
			if strings.Contains(f.name, repoPath) && !strings.Contains(f.name, "init") {
				if fns[f.name] == 0 {
					instrs += f.ninstr
				}
				fns[f.name] += n
			}
		}
	}
	var paths, done, infeas, unsup, limited, unk, pending, asserts, symAsserts, steps int64
	var missing []string
	msgs := map[string]int{}
	covered := 0
	perH := map[string]any{}
	for _, h := range ex.hs {
		paths += h.Paths
		done += h.Done
		infeas += h.Infeasible
		unsup += h.Unsupported
		limited += h.Limited
		unk += h.UnknownCuts
		pending += h.Pending
		asserts += h.Asserts
		symAsserts += h.SymAsserts
		steps += h.Steps
		covered += len(h.Covers)
		for k, n := range h.Msgs {
			msgs[k] += n
		}
		if h.Done == 0 {
			missing = append(missing, h.Name)
		}
		perH[h.Name] = map[string]any{"paths": h.Paths, "completed": h.Done, "pending": h.Pending, "unsupported": h.Unsupported, "covers": sortedKeys(h.Covers), "assertions": h.Asserts, "solver_assertions": h.SymAsserts}
	}
	if verbose {
		for _, h := range ex.hs {
			fmt.Printf("%-40s paths=%d done=%d infeas=%d unsup=%d limited=%d unk=%d pending=%d asserts=%d/%d steps=%d covers=%v\n", h.Name, h.Paths, h.Done, h.Infeasible, h.Unsupported, h.Limited, h.UnknownCuts, h.Pending, h.Asserts, h.SymAsserts, h.Steps, sortedKeys(h.Covers))
		}
		for _, k := range sortedKeys(msgs) {
			fmt.Printf("x%d %s\n", msgs[k], k)
		}
		for _, x := range mism {
			fmt.Println("MISMATCH", x)
		}
		fmt.Printf("raw audit: %+v\n", ex.aud)
		fmt.Printf("load %.1fs explore %.1fs total %.1fs solver: %+v\n", loadT.Seconds(), exploreT.Seconds(), time.Since(start).Seconds(), st)
	}
	var sampOut []any
	for i, s := range samples {
		if i%max(1, len(samples)/8) == 0 && len(sampOut) < 10 {
			sampOut = append(sampOut, map[string]any{"harness": s.Harness, "inputs": inputText(s.Names, s.Inputs), "observed": s.Obs})
		}
	}
	if len(sampOut) == 0 {
		sampOut = append(sampOut, "none completed")
	}
	level, note := "model_checking", ""
	cov := map[string]any{
		"states": paths, "transitions": steps, "traces_validated_against_impl": validated, "samples": sampOut,
		"explanation":     "states: explored symbolic paths of the harness plus the implementation functions it calls; transitions: SSA instructions executed symbolically. Every assertion met on a path is decided by the SMT solver (or by the term simplifier when it is constant) for all values of the symbolic inputs.",
		"exhaustive":      pending == 0 && unsup == 0 && unk == 0 && limited == 0,
		"paths_completed": done, "paths_infeasible": infeas, "paths_cut_unsupported": unsup, "paths_cut_limit": limited, "cut_paths_replayed": cutRuns, "branches_unknown": unk, "paths_pending_at_deadline": pending,
		"assertions_decided": asserts, "assertions_sent_to_solver": symAsserts,
		"solver":            map[string]any{"name": "z3 (z3-new -in)", "queries": st.Queries, "sat": st.Sat, "unsat": st.Unsat, "unknown": st.Unknown, "seconds": round(st.Time.Seconds()), "decided_by_truth_table": st.DomainDecisions, "decided_by_current_model": st.ModelHits},
		"cvc5_crosscheck":   map[string]any{"obligations": crossN, "disagreements": crossBad, "unknown": crossUnk},
		"raw_audit":         map[string]any{"paths": ex.aud.Paths, "assertions": ex.aud.Assertions, "unsat": ex.aud.Unsat, "sat": ex.aud.Sat, "unknown": ex.aud.Unknown, "paths_that_differ": ex.aud.Differ, "worker_seconds": round(time.Duration(ex.aud.Nanos).Seconds())},
		"functions_encoded": sortedKeys(fns), "functions_encoded_count": len(fns), "ssa_instructions_encoded": instrs,
		"harnesses": perH, "encoding_mismatches": mismatch,
		"counterexamples_confirmed": violations, "counterexamples_unconfirmed": unconfirmed, "cut_reasons": trimMsgs(msgs),
		"explore_seconds": round(exploreT.Seconds()), "load_seconds": round(loadT.Seconds()),
		"bounds": boundsText(verif, prop, tier),
	}
	_ = note
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"assumptions": []string{"the machine's model of reflect, fmt, sync and the Go memory model matches Go 1.27 on the calls made (checked by replaying sampled paths natively)", "z3 answers are right (sampled obligations are re-decided by cvc5)"},
		"wall_s":      round(time.Since(start).Seconds()), "violations": violations}
	if !noev {
		os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s: %d paths (%d completed, %d pending), %d assertions (%d by solver), %d queries %.1fs, %d/%d traces validated, %d violations, %.1fs\n",
		prop, tier, paths, done, pending, asserts, symAsserts, st.Queries, st.Time.Seconds(), validated, validated+mismatch, violations, time.Since(start).Seconds())
	if len(unconfirmed) > 0 {
		fmt.Printf("note: %d candidate(s) did not reproduce on the real code and were not reported\n", len(unconfirmed))
	}
	if unsup+limited+unk+pending > 0 {
		fmt.Printf("note: reduced bound: %d path(s) cut as unsupported, %d at limits, %d unknown, %d pending\n", unsup, limited, unk, pending)
	}
	if violations > 0 {
		return 1
	}
	if len(missing) == len(ex.hs) {
		return fail("no path completed in any harness: %v", msgs)
	}
	return 0
}

func trimMsgs(m map[string]int) map[string]int {
	out := map[string]int{}
	for k, n := range m {
		l := strings.SplitN(k, "\n", 2)[0]
		out[l] += n
	}
	return out
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

func boundsText(verif, prop, tier string) string {
	b, err := os.ReadFile(filepath.Join(verif, "bounds.json"))
	if err != nil {
		return ""
	}
	var m map[string]string
	json.Unmarshal(b, &m)
	return m[prop]
}

func inputText(names []string, in []uint64) string {
	var sb strings.Builder
	for i, n := range names {
		if i > 60 {
			sb.WriteString("...")
			break
		}
		fmt.Fprintf(&sb, "%s=%#x ", n, in[i])
	}
	return strings.TrimSpace(sb.String())
}

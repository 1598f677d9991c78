// Package vsched replays a schedule on real goroutines: one runs at a time, and at every
// synchronisation operation the recorded choice says which one goes on.
package vsched

import (
	"fmt"
	"os"
)

type gor struct {
	id      int
	resume  chan struct{}
	done    bool
	blocked func() bool
}

var (
	// Active says that a schedule is replayed.
	Active   bool
	choices  []int
	pos      int
	preempts int
	maxPre   int
	gs       []*gor
	cur      *gor
)

// Start makes c the schedule.
func Start(c []int, bound int) {
	Active, choices, maxPre = true, c, bound
	cur = &gor{resume: make(chan struct{})}
	gs = []*gor{cur}
}

// Bound sets the number of preemptions.
func Bound(n int) { maxPre = n }

func pick(c *gor) *gor {
	var run []*gor
	if c != nil {
		run = append(run, c)
	}
	for _, g := range gs {
		if g == c || g.done {
			continue
		}
		if g.blocked == nil || g.blocked() {
			run = append(run, g)
		}
	}
	if len(run) == 0 {
		fmt.Println("ASSERT-FAIL all goroutines are blocked")
		os.Exit(3)
	}
	if c != nil {
		if len(run) == 1 || preempts >= maxPre {
			return c
		}
	} else if len(run) == 1 {
		return run[0]
	}
	k := 0
	if pos < len(choices) {
		k = choices[pos]
	}
	pos++
	if k >= len(run) {
		fmt.Println("SCHEDULE-MISMATCH")
		os.Exit(6)
	}
	if c != nil && k > 0 {
		preempts++
	}
	return run[k]
}

func switchTo(g *gor) {
	me := cur
	if g == me {
		return
	}
	cur = g
	g.resume <- struct{}{}
	<-me.resume
}

// Point lets another goroutine run.
func Point() {
	if !Active || len(gs) == 1 {
		return
	}
	switchTo(pick(cur))
}

// Wait blocks until cond holds.
func Wait(cond func() bool) {
	for !cond() {
		if !Active {
			panic("vsched: blocked without a schedule")
		}
		g := cur
		g.blocked = cond
		n := pick(nil)
		switchTo(n)
		g.blocked = nil
	}
}

// Go starts a goroutine.
func Go(f func()) {
	g := &gor{id: len(gs), resume: make(chan struct{})}
	gs = append(gs, g)
	go func() {
		<-g.resume
		f()
		g.done = true
		n := pick(nil)
		cur = n
		n.resume <- struct{}{}
	}()
}

// Join waits for all goroutines but the first.
func Join() {
	Wait(func() bool {
		for _, g := range gs[1:] {
			if !g.done {
				return false
			}
		}
		return true
	})
}

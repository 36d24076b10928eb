package main

import (
	"fmt"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obligation is one thing to be shown about the code: the body of a function
// against its contract, for every abstract input.
type Obligation struct {
	id   string
	fam  *Family
	mode string
	desc string
	run  func(m *M)
	max  int
	top  *ssa.Function
	// an aspect of a contract that only obligations with the same one rely on
	aspect string
	// the same shown in another domain, where run is undecided
	alt func(m *M)
}

// Event is a callback made to the user.
type Event struct {
	kind string
	pt   int
	args []Value
	pos  string
}

type Result struct {
	ob     *Obligation
	st     *Stats
	dur    time.Duration
	errMsg string
}

func (p *Prog) newM(o *Obligation) *M {
	m := &M{prog: p, fam: o.fam, ob: o, zone: newZone(), skel: newSkel(), mode: o.mode,
		glob: map[*ssa.Global]*Obj{}, eqp: newEqRel(),
		extra: map[string]interface{}{}, symNils: map[int]bool{}}
	if o.fam != nil {
		m.W = o.fam.W
		m.contr = o.fam.contracts
	}
	if m.mode == "" {
		m.mode = "trie"
	}
	m.top = o.top
	return m
}

func (p *Prog) runObl(o *Obligation, wanted map[string]bool, workers, budget int, deadline time.Time) *Result {
	t := time.Now()
	st := newStats()
	if o.max > 0 {
		budget = o.max
	}
	mk := func() *M {
		m := p.newM(o)
		m.wanted = wanted
		return m
	}
	explore(mk, o.run, st, workers, budget, deadline)
	if o.alt != nil && st.undecidedOnly() {
		if st2 := newStats(); true {
			explore(mk, o.alt, st2, workers, 200000, deadline)
			if !st2.undecidedOnly() {
				st = st2
			}
		}
	}
	return &Result{ob: o, st: st, dur: time.Since(t)}
}

func (r *Result) summary() string {
	cl := map[string]int{}
	for _, f := range r.st.failed {
		cl[f.Clause]++
	}
	var ks []string
	for k, n := range cl {
		ks = append(ks, fmt.Sprintf("%s:%d", k, n))
	}
	sort.Strings(ks)
	s := fmt.Sprintf("%-44s %7d traces %7d dead %8d checks %6.2fs", r.ob.id, r.st.traces, r.st.dead, r.st.checks, r.dur.Seconds())
	if len(ks) > 0 {
		s += fmt.Sprintf("  FAILED %v", ks)
	}
	return s
}

// undecidedOnly: nothing failed, but not everything was decided
func (st *Stats) undecidedOnly() bool {
	n := 0
	for _, f := range st.failed {
		if f.Clause != "undecided" {
			return false
		}
		n++
	}
	return n > 0
}

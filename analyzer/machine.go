package main

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// M is one abstract trace: the abstract state of the analysis along one
// sequence of decisions. Where the abstract state doesn't determine an
// outcome, the analysis splits (choose); the driver visits every combination.
type M struct {
	prog    *Prog
	fam     *Family
	W       int64 // address size of the family being analysed
	choices []int
	pos     int
	push    func(prefix []int)
	steps   int

	zone  *Zone
	skel  *Skel
	nobj  int
	nsym  int
	glob  map[*ssa.Global]*Obj
	stack []*Frame
	log   []string // decisions, for reports

	top     *ssa.Function // function whose body is being verified
	entry   *ssa.Function // the function called from outside
	topRank []int         // depth variables of its node arguments
	contr   map[*ssa.Function]Contract

	ghosts []Ghost
	lins   map[string]*linFact
	eqp    *EqRel

	events  []Event
	stopped bool
	stopReq int // how many user callbacks returned false

	st   *Stats
	loc  *localStats
	ob   *Obligation
	ordZ *OrdDom
	cell *Cell

	extra map[string]interface{}

	loopHook func(m *M, f *Frame, b, prev *ssa.BasicBlock)
	diffs    []diffDef
	pows     []Aff
	nodes    []*Node
	symNils  map[int]bool
	sizeSub  map[string]Lin

	mode      string // "trie", "ord", "bits", "limb"
	extFn     func(m *M, fn *ssa.Function, args []Value) (Value, bool)
	cost      *costRec
	related   bool // a contract said how the contents of tries relate
	softs     []soft
	tainted   string // a decision was made that the domains can't tie to the inputs
	bitEnv    map[int]bool
	nbit      int
	limbs     map[string]limbVar
	limbFacts []*Limb
	failing   bool
	softFail  bool
	// s of Cnt is between these
	cntLo, cntHi uint64
	ordEndsOf    map[int]Ord
	numEndsOf    map[int][2]Struct
	words        bool // addresses are two words
	hooks        map[*ssa.Function]func(args []Value) (Value, bool)
	wanted       map[string]bool // the clauses to decide; nil: all
}

// taint records that from here on the trace may be impossible for reasons that
// the domains can't see: what fails on it is undecided rather than wrong.
func (m *M) taint(why string) {
	if m.tainted == "" {
		m.tainted = why
	}
}

// soft is a decision that the domains can't tie to the inputs although one of
// the options is real. What fails is wrong if it fails with each of them.
type soft struct {
	pos, n int
	why    string
}

// split is choose for such decisions.
func (m *M) split(n int, what, why string) int {
	m.softs = append(m.softs, soft{m.pos, n, why})
	return m.choose(n, what)
}

// pending collects the failures that depend on soft decisions.
type pending struct {
	f     Failure
	why   string
	paths map[string]float64
}

// softly is what tells the trace from others but for its soft decisions, and
// those with the share of the possibilities that they stand for.
func (m *M) softly() (key, path string, share float64) {
	var k, p strings.Builder
	share = 1
	i := 0
	for j := 0; j < m.pos; j++ {
		if i < len(m.softs) && m.softs[i].pos == j {
			share /= float64(m.softs[i].n)
			fmt.Fprintf(&p, "%d,", m.choices[j])
			i++
			continue
		}
		fmt.Fprintf(&k, "%d,", m.choices[j])
	}
	return k.String(), p.String(), share
}

type Stats struct {
	pend    map[string]*pending
	mu      sync.Mutex
	traces  int
	dead    int
	steps   int
	checks  int
	funcs   map[string]bool
	calls   map[string]bool
	contrs  map[string]bool
	splits  int
	failed  map[string]Failure
	other   map[string]int
	samples []string
	stopped bool

	nundec, ndecided int
}

// localStats are those of one worker.
type localStats struct {
	checks, steps, traces, dead int
	other                       map[string]int
	funcs, contrs               map[*ssa.Function]bool
	calls                       map[*ssa.CallCommon]bool
	prims                       map[string]bool // modelled methods
}

func newLocal() *localStats {
	return &localStats{other: map[string]int{}, funcs: map[*ssa.Function]bool{}, contrs: map[*ssa.Function]bool{}, calls: map[*ssa.CallCommon]bool{}, prims: map[string]bool{}}
}

func (st *Stats) merge(l *localStats, p *Prog) {
	st.mu.Lock()
	defer st.mu.Unlock()
	st.checks += l.checks
	st.steps += l.steps
	for c, n := range l.other {
		st.other[c] += n
	}
	for f := range l.funcs {
		st.funcs[fnName(f)] = true
	}
	for f := range l.contrs {
		st.contrs[fnName(f)] = true
	}
	for c := range l.prims {
		st.contrs[c] = true
	}
	for c := range l.calls {
		st.calls[p.pos(c.Pos())] = true
	}
}

func newStats() *Stats {
	return &Stats{funcs: map[string]bool{}, calls: map[string]bool{}, contrs: map[string]bool{}, other: map[string]int{}, failed: map[string]Failure{}}
}

// Failure is a violation found (or a point the analysis can't decide).
type Failure struct {
	Clause string // value, valid, size, fresh, panic, term, undecided, ...
	Msg    string
	Pos    string
	Func   string
	Trace  []string
	Obl    string
}

type infeasible struct{}
type failPanic struct{ f Failure }
type targetPanic struct {
	v   Value
	pos token.Pos
	fn  *ssa.Function
	exp bool // explicit panic statement
}

func (m *M) infeasible() { panic(infeasible{}) }

// choose splits the state n ways.
func (m *M) choose(n int, what string) int {
	if n <= 0 {
		m.infeasible()
	}
	if n == 1 {
		return 0
	}
	c := 0
	if m.pos < len(m.choices) {
		c = m.choices[m.pos]
	} else {
		base := append([]int(nil), m.choices...)
		for i := n - 1; i >= 1; i-- {
			p := make([]int, len(base)+1)
			copy(p, base)
			p[len(base)] = i
			m.push(p)
		}
		m.choices = append(m.choices, 0)
	}
	m.pos++
	if what != "" {
		m.log = append(m.log, fmt.Sprintf("%s=%d/%d", what, c, n))
	}
	return c
}

func (m *M) chooseBool(what string) bool { return m.choose(2, what) == 1 }

func (m *M) note(format string, a ...interface{}) {
	m.log = append(m.log, fmt.Sprintf(format, a...))
}

func (m *M) where() (string, string) {
	for i := len(m.stack) - 1; i >= 0; i-- {
		f := m.stack[i]
		if f.cur != nil && f.cur.Pos().IsValid() {
			return m.prog.pos(f.cur.Pos()), fnName(f.fn)
		}
	}
	if len(m.stack) > 0 {
		f := m.stack[len(m.stack)-1]
		return m.prog.pos(f.fn.Pos()), fnName(f.fn)
	}
	if m.top != nil {
		return m.prog.pos(m.top.Pos()), fnName(m.top)
	}
	if m.entry != nil {
		return m.prog.pos(m.entry.Pos()), fnName(m.entry)
	}
	return "-", "-"
}

func (m *M) fail(clause, format string, a ...interface{}) {
	pos, fn := m.where()
	if clause != "undecided" && !m.failing {
		// is this trace possible at all?
		m.failing = true
		n := 0
		if m.eqp != nil {
			n = m.eqp.merges
		}
		m.settle()
		if m.eqp != nil && m.eqp.merges > n {
			m.taint("values that turned out to be the same afterwards")
		}
	}
	if m.tainted != "" && clause != "undecided" {
		format = clause + "? " + format + " (after " + m.tainted + ")"
		clause = "undecided"
	}
	if len(m.softs) > 0 && clause != "undecided" {
		m.softFail = true
	}
	panic(failPanic{Failure{Clause: clause, Msg: fmt.Sprintf(format, a...), Pos: pos, Func: fn, Trace: append([]string(nil), m.log...)}})
}

func (m *M) undecided(format string, a ...interface{}) {
	m.fail("undecided", format, a...)
}

// check is one proof obligation on this trace.
func (m *M) check(ok bool, clause, format string, a ...interface{}) {
	m.loc.checks++
	if ok {
		return
	}
	if m.wanted != nil && clause != "undecided" && !m.wanted[clause] {
		// not what is to be decided here
		m.loc.other[clause]++
		return
	}
	m.fail(clause, format, a...)
}

// explore runs f for every sequence of decisions.
func explore(mk func() *M, f func(m *M), st *Stats, workers, maxTraces int, deadline time.Time) {
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	stack := [][]int{nil}
	active := 0
	stop := false
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			loc := newLocal()
			var prog *Prog
			defer func() {
				if prog != nil {
					st.merge(loc, prog)
				}
			}()
			for {
				mu.Lock()
				for len(stack) == 0 && active > 0 && !stop {
					cond.Wait()
				}
				if stop || len(stack) == 0 {
					mu.Unlock()
					cond.Broadcast()
					return
				}
				p := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				active++
				mu.Unlock()

				m := mk()
				m.choices = p
				m.st, m.loc, prog = st, loc, m.prog
				var mine [][]int
				m.push = func(q []int) { mine = append(mine, q) }
				runTrace(m, f)

				mu.Lock()
				stack = append(stack, mine...)
				active--
				st.mu.Lock()
				if st.traces+st.dead > maxTraces || st.ndecided > 20 || time.Now().After(deadline) {
					stop = true
					if st.ndecided <= 20 && (len(stack) > 0 || active > 0) {
						st.failed["budget"] = Failure{Clause: "undecided", Msg: "the number of abstract traces or the time exceeds the budget", Pos: "-", Func: "-"}
					}
				}
				st.mu.Unlock()
				cond.Broadcast()
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	// what wasn't confirmed
	n := 0
	for _, pd := range st.pend {
		f := pd.f
		f.Msg = f.Clause + "? " + f.Msg + " (after " + pd.why + ")"
		f.Clause = "undecided"
		k := f.Clause + "|" + f.Func + "|" + f.Pos + "|" + f.Msg
		if _, ok := st.failed[k]; !ok && n < 40 {
			n++
			st.failed[k] = f
		}
	}
}

func runTrace(m *M, f func(m *M)) {
	defer func() {
		r := recover()
		st := m.st
		st.mu.Lock()
		defer st.mu.Unlock()
		m.loc.steps += m.steps
		record := func(fl Failure) {
			k := fl.Clause + "|" + fl.Func + "|" + fl.Pos + "|" + fl.Msg
			if _, ok := st.failed[k]; ok {
				return
			}
			if fl.Clause == "undecided" {
				if st.nundec++; st.nundec > 40 {
					return // enough of them, but go on
				}
			} else {
				st.ndecided++
			}
			st.failed[k] = fl
		}
		// softRecord is for failures that other traces have to confirm
		softRecord := func(fl Failure) {
			key, path, share := m.softly()
			key = fl.Clause + "|" + key
			if st.pend == nil {
				st.pend = map[string]*pending{}
			}
			pd := st.pend[key]
			if pd == nil {
				if len(st.pend) > 20000 {
					fl.Msg = fl.Clause + "? " + fl.Msg + " (after " + m.softs[0].why + ")"
					fl.Clause = "undecided"
					record(fl)
					return
				}
				pd = &pending{f: fl, why: m.softs[0].why, paths: map[string]float64{}}
				st.pend[key] = pd
			}
			pd.paths[path] = share
			sum := 0.0
			for _, x := range pd.paths {
				sum += x
			}
			if sum > 1-1e-9 {
				delete(st.pend, key)
				record(pd.f)
			}
		}
		switch r := r.(type) {
		case nil:
			st.traces++
			if len(st.samples) < 2 {
				st.samples = append(st.samples, strings.Join(m.log, " "))
			}
		case infeasible:
			st.dead++
		case coveredTrace:
			st.traces++
		case failPanic:
			st.traces++
			if m.softFail {
				softRecord(r.f)
			} else {
				record(r.f)
			}
		case targetPanic:
			st.traces++
			cl := "panic"
			if m.tainted != "" {
				cl = "undecided"
			}
			fl := Failure{Clause: cl, Msg: "a panic escapes: " + vstr(r.v), Pos: m.prog.pos(r.pos), Func: fnName(r.fn), Trace: m.log}
			if cl == "panic" && len(m.softs) > 0 {
				softRecord(fl)
			} else {
				record(fl)
			}
		default:
			pos, fn := m.where()
			st.traces++
			if debugPanics {
				panic(r)
			}
			record(Failure{Clause: "undecided", Msg: fmt.Sprintf("the analyzer failed: %v", r), Pos: pos, Func: fn, Trace: m.log})
		}
	}()
	f(m)
}

var debugPanics = false

func fnName(f *ssa.Function) string {
	if f == nil {
		return "-"
	}
	return f.RelString(nil)
}

func sortedFailures(st *Stats) []Failure {
	var ks []string
	for k := range st.failed {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []Failure
	for _, k := range ks {
		r = append(r, st.failed[k])
	}
	return r
}

func (f Failure) String() string {
	s := fmt.Sprintf("[%s] %s: %s (in %s)", f.Clause, f.Pos, f.Msg, f.Func)
	if len(f.Trace) > 0 {
		s += "\n    trace: " + strings.Join(f.Trace, " ")
	}
	return s
}

package main

// The contract of the simultaneous walk of two tries.

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

type diffContract struct{}

// walker records the callbacks made and checks the protocol.
type walker struct {
	order bool // callbacks never stop
	last  int  // the ghost of the last event
}

// onEvent is called for every callback; it decides the result of the callback.
func (m *M) onEvent(kind string, pt int, args ...Value) bool {
	pos, _ := m.where()
	if m.stopped {
		m.fail("stop", "a callback is invoked after one returned false")
	}
	m.events = append(m.events, Event{kind: kind, pt: pt, args: args, pos: pos})
	if m.extra["nostop"] != nil {
		return true
	}
	if m.choose(2, kind+" returns") == 1 {
		m.stopped = true
		m.stopReq++
		return false
	}
	return true
}

// checkReturn checks the result of a walk.
func (m *M) checkReturn(v Value) {
	r := m.truth(v)
	m.check(r == (m.stopReq == 0), "stop", "the walk returns %v although %s", r,
		map[bool]string{true: "no callback returned false", false: "a callback returned false"}[m.stopReq == 0])
}

// checkOrder checks that the events at the ghosts are in lexicographical order.
func (m *M) checkOrder() {
	last := -1
	for _, e := range m.events {
		if m.ghostAt(e.pt) < 0 {
			continue
		}
		if last >= 0 && last != e.pt {
			m.check(m.lexLess(last, e.pt), "order", "entries are visited out of lexigraphical order")
		}
		last = e.pt
	}
}

var diffFields = []string{"Removed", "Added", "Modified", "Same"}

func (c *diffContract) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	if len(fn.Params) != 3 {
		return nil
	}
	ht := fn.Params[2].Type()
	handler := func(m *M, same bool) Value {
		h := m.zero(ht).(Struct)
		for _, f := range diffFields {
			f := f
			i := fieldIdx(ht, f)
			if i < 0 {
				m.undecided("the handler of a walk has no field %s", f)
			}
			if f == "Same" && !same {
				continue
			}
			h[i] = &Fn{name: f, impl: func(m *M, args []Value) Value {
				var ps []Value
				for k, a := range args {
					p := m.nodePtr(a, "the argument of "+f)
					if p.obj == nil {
						m.fail("value", "%s is called with nil", f)
					}
					_ = k
					ps = append(ps, p)
				}
				pt := m.ptOf(ps[0].(Ptr))
				if len(ps) == 2 {
					m.check(m.ptOf(ps[1].(Ptr)) == pt, "value", "two nodes with different prefixes are compared")
				}
				return m.onEvent(f, pt, ps...)
			}}
		}
		return h
	}
	setup := func(m *M) (l, r Ptr, same bool) {
		m.tableMode()
		l, r = m.anyTrie(kTable, "left"), m.anyTrie(kTable, "right")
		m.setRank(l, r)
		return l, r, m.choose(2, "Same") == 1
	}
	return []*Obligation{{id: fam.name + "/" + name + "/events", fam: fam, top: fn,
		desc: "an arbitrary key is reported exactly once in the right way, nothing is reported after a callback returned false, the result, recursion",
		run: func(m *M) {
			m.addGhostKey("g")
			l, r, same := setup(m)
			v := m.exec(fn, []Value{l, r, handler(m, same)}, nil)
			m.checkReturn(v)
			c.checkEvents(m, l, r, same)
		}}, {id: fam.name + "/" + name + "/order", fam: fam, top: fn,
		desc: "two arbitrary keys are reported in lexicographical order",
		run: func(m *M) {
			m.extra["nostop"] = true
			m.addGhostKey("g")
			m.addGhostKey("h")
			if !m.lexLess(m.ghosts[0].pt, m.ghosts[1].pt) {
				m.infeasible()
			}
			l, r, same := setup(m)
			m.exec(fn, []Value{l, r, handler(m, same)}, nil)
			m.checkOrder()
		}}}
}

func (c *diffContract) checkEvents(m *M, l, r Ptr, same bool) {
	g := m.ghosts[0].pt
	L, R := m.fact(kTable, l, 0).at, m.fact(kTable, r, 0).at
	n := 0
	for _, e := range m.events {
		if e.pt != g {
			continue
		}
		var al, ar bool
		var el, er Ptr
		switch e.kind {
		case "Removed":
			el = e.args[0].(Ptr)
		case "Added":
			er = e.args[0].(Ptr)
		case "Modified":
			el, er = e.args[0].(Ptr), e.args[1].(Ptr)
		default:
			m.undecided("%s is called by the walk itself", e.kind)
		}
		al = el.obj != nil && m.isActive(el)
		ar = er.obj != nil && m.isActive(er)
		if !al && !ar {
			m.check(L == nil && R == nil, "value", "a key that only joins is reported although there is an entry")
			continue
		}
		n++
		m.check(!al || L != nil, "value", "a key is reported as an entry of the left trie although it isn't there")
		m.check(!ar || R != nil, "value", "a key is reported as an entry of the right trie although it isn't there")
		m.check(al || L == nil, "value", "a key of both tries is reported as only in the right one")
		m.check(ar || R == nil, "value", "a key of both tries is reported as only in the left one")
		m.check(!al || m.identical(m.dataOf(el), L), "value", "a key is reported with another value")
		m.check(!ar || m.identical(m.dataOf(er), R), "value", "a key is reported with another value")
	}
	m.check(n <= 1, "value", "an entry is reported twice")
	if m.stopped || L == nil && R == nil {
		return
	}
	if n == 0 {
		m.check(!same && L != nil && R != nil && m.identical(L, R), "value", "an entry isn't reported")
	}
}

func (c *diffContract) Apply(m *M, fn *ssa.Function, args []Value) Value {
	l := m.argTrie(kTable, args[0], "the receiver of "+fn.Name())
	r := m.argTrie(kTable, args[1], "the argument of "+fn.Name())
	m.checkRank(fn, []Aff{m.rankOf(l), m.rankOf(r)})
	if l.obj == nil && r.obj == nil {
		return true
	}
	hs, ok := args[2].(Struct)
	ht := fn.Params[2].Type()
	if !ok {
		m.undecided("the handler of a walk is %s", vstr(args[2]))
	}
	get := func(n string) Value {
		i := fieldIdx(ht, n)
		if i < 0 {
			m.undecided("the handler of a walk has no field %s", n)
		}
		return hs[i]
	}
	sf, _ := get("Same").(*Fn)
	same := sf != nil
	var gs []int
	for i := range m.ghosts {
		if m.ghostAt(m.ghosts[i].pt) == i {
			gs = append(gs, i)
		}
	}
	sort.SliceStable(gs, func(a, b int) bool { return m.lexLess(m.ghosts[gs[a]].pt, m.ghosts[gs[b]].pt) })
	stopAt := 0
	if m.extra["nostop"] == nil {
		stopAt = m.choose(len(gs)+2, "stopped elsewhere")
	}
	for k := 0; k <= len(gs); k++ {
		if stopAt == k+1 {
			// the callback for another key returned false
			if m.stopped {
				m.fail("stop", "the walk goes on after a callback returned false")
			}
			m.stopped = true
			m.stopReq++
			return false
		}
		if k == len(gs) {
			break
		}
		g := m.ghosts[gs[k]].pt
		L, R := m.fact(kTable, l, gs[k]).at, m.fact(kTable, r, gs[k]).at
		node := func(d Value) Ptr {
			o := nodeOpts{active: 0, name: "n", origin: "call", at: g, bAnc: -1}
			if d != nil {
				o.active, o.data = 1, d
			}
			return m.newNode(kTable, o)
		}
		call := func(f string, as ...Value) bool { return m.truth(m.callValue(get(f), as)) }
		// could there be a joining node on the other side
		canL := l.obj != nil && m.canJoin(l, g)
		canR := r.obj != nil && m.canJoin(r, g)
		cont := true
		switch {
		case L != nil && R != nil:
			if !same && m.identical(L, R) && m.choose(2, "skip") == 1 {
				break
			}
			cont = call("Modified", node(L), node(R))
		case L != nil:
			if canR && m.choose(2, "joined") == 1 {
				cont = call("Modified", node(L), node(nil))
			} else {
				cont = call("Removed", node(L))
			}
		case R != nil:
			if canL && m.choose(2, "joined") == 1 {
				cont = call("Modified", node(nil), node(R))
			} else {
				cont = call("Added", node(R))
			}
		default:
			opts := []int{0}
			if canL {
				opts = append(opts, 1)
			}
			if canR {
				opts = append(opts, 2)
			}
			if canL && canR {
				opts = append(opts, 3)
			}
			switch opts[m.choose(len(opts), "joining")] {
			case 1:
				cont = call("Removed", node(nil))
			case 2:
				cont = call("Added", node(nil))
			case 3:
				cont = call("Modified", node(nil), node(nil))
			}
		}
		if !cont {
			return false
		}
	}
	return true
}

// canJoin: there may be a joining node at g in the trie at p.
func (m *M) canJoin(p Ptr, g int) bool {
	if !m.canLeq(m.depth(g).plus(1), K(m.W)) {
		return false
	}
	a, s, exact := m.boundOf(p)
	if exact {
		if n := m.node(p); n != nil && n.actKnown && n.active && n.placed && n.pt == g {
			return false
		}
		return m.isAnc(a, g)
	}
	if s < 0 {
		return m.isAnc(a, g)
	}
	return a != g && m.isAnc(a, g) && m.side(a, g) == s
}

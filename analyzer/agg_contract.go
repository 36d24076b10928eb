package main

// Contracts of Map and Aggregate.

import (
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// ---- Map ----

type mapContract struct{}

func (c *mapContract) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	if len(fn.Params) != 3 {
		return nil
	}
	setup := func(m *M) (Ptr, Ptr) {
		m.tableMode()
		m.extra["nostop"] = true
		me := m.anyTrie(kTable, "me")
		m.setRank(me)
		mapper := &Fn{name: "mapper", impl: func(m *M, args []Value) Value {
			v := m.newSym("mapped")
			m.onEvent("map", m.prefixPoint(args[0]), args[1], v)
			return v
		}}
		return me, m.nodePtr(m.exec(fn, []Value{me, mapper, eqUser()}, nil), "the result")
	}
	return []*Obligation{{id: fam.name + "/" + name, fam: fam, top: fn,
		desc: "an arbitrary entry is mapped exactly once, what isn't an entry never, the result has the mapped value, shape, entry count, freshness, recursion",
		run: func(m *M) {
			m.addGhostKey("g")
			me, r := setup(m)
			m.checkValid(kTable, r, "the result")
			checkMapped(m, me, r)
			m.checkSize(r, m.sizeOf(me), "Map")
			if me.obj != nil && m.ptOf(me) != m.ptOf(r) {
				m.fail("place", "the root of the result is misplaced")
			}
		}}, {id: fam.name + "/" + name + "/order", fam: fam, top: fn,
		desc: "two arbitrary entries are mapped in lexicographical order",
		run: func(m *M) {
			m.addGhostKey("g")
			m.addGhostKey("h")
			if !m.lexLess(m.ghosts[0].pt, m.ghosts[1].pt) {
				m.infeasible()
			}
			setup(m)
			m.checkOrder()
		}}}
}

func checkMapped(m *M, me, r Ptr) {
	old, new := m.fact(kTable, me, 0).at, m.fact(kTable, r, 0).at
	n := 0
	var mapped Value
	for _, e := range m.events {
		if e.kind != "map" || e.pt != m.ghosts[0].pt {
			continue
		}
		n++
		m.check(old != nil, "value", "the mapper is called for a prefix that isn't in the table")
		m.check(m.identical(e.args[0], old), "value", "the mapper is called with another value")
		mapped = e.args[1]
	}
	if old == nil {
		m.check(new == nil, "value", "the result has an entry that the table doesn't have")
		return
	}
	m.check(n == 1, "value", "the mapper is called %d times for an entry", n)
	m.check(new != nil, "value", "an entry is missing in the result")
	if !m.identical(new, mapped) {
		m.check(m.identical(new, old) && m.eqVals(old, mapped), "value", "an entry has another value than the one that the mapper returned")
	}
}

// ghostOrder is the ghosts in lexicographical order.
func (m *M) ghostOrder() []int {
	var gs []int
	for i := range m.ghosts {
		if m.ghostAt(m.ghosts[i].pt) == i {
			gs = append(gs, i)
		}
	}
	sort.SliceStable(gs, func(a, b int) bool { return m.lexLess(m.ghosts[gs[a]].pt, m.ghosts[gs[b]].pt) })
	return gs
}

func (c *mapContract) Apply(m *M, fn *ssa.Function, args []Value) Value {
	me := m.argTrie(kTable, args[0], "the receiver of "+fn.Name())
	m.checkRank(fn, []Aff{m.rankOf(me)})
	if me.obj == nil {
		return Ptr{}
	}
	if m.extra["mapSame"] != nil {
		return me
	}
	vals := map[int]Value{}
	for _, i := range m.ghostOrder() {
		old := m.fact(kTable, me, i).at
		if old == nil {
			continue
		}
		v := m.callValue(args[1], []Value{m.keyVal(m.ghosts[i].pt), old})
		if m.truth(m.callValue(args[2], []Value{old, v})) && m.choose(2, "keep") == 1 {
			v = old
		}
		vals[i] = v
	}
	sz := m.sizeOf(me)
	return m.newNode(kTable, nodeOpts{active: -1, name: fn.Name(), origin: "call", src: m.node(me), at: m.ptOf(me), size: &sz,
		derive: func(m *M, i int) Fact {
			if v, ok := vals[i]; ok {
				return atFact(v)
			}
			return Fact{}
		}})
}

// ---- Aggregate ----

type aggregateContract struct{}

// irrAttr: no entry of the trie is redundant under an entry with value u.
type irrAttr struct {
	has bool
	u   Sym
}

// irrOf is what is known about redundancy in a symbolic trie.
func (m *M) irrOf(n *Node) (irrAttr, bool) {
	n = m.rep(n)
	if a, ok := n.attrs["irr"].(irrAttr); ok {
		return a, true
	}
	if n.parent == nil {
		return irrAttr{}, false
	}
	p := m.rep(n.parent)
	a, ok := m.irrOf(p)
	if !ok {
		return a, false
	}
	if m.act(p) {
		d, ok := m.nodeData(p).(Sym)
		if !ok {
			return a, false
		}
		a = irrAttr{true, d}
	}
	return a, true
}

// irrPrune drops the trace if a trie known to be without redundancy has one.
func (m *M) irrPrune(n *Node) {
	if m.extra["irr"] == nil {
		return
	}
	a, ok := m.irrOf(n)
	if !ok {
		return
	}
	n = m.rep(n)
	if n.actKnown && n.active && a.has && n.data != nil && m.entEqVals(n.data, a.u) {
		m.infeasible()
	}
	if n.kids[0] != nil && n.kids[1] != nil && n.placed && m.mergeable(n.pt, *n.kids[0], *n.kids[1], true) {
		m.infeasible()
	}
}

// mergeable: two children are both halves of the prefix at pt, with equal
// values. Either as far as it is known, or deciding it.
func (m *M) mergeable(pt int, a, b Ptr, known bool) bool {
	for _, p := range []Ptr{a, b} {
		if p.obj == nil {
			return false
		}
		if n := m.node(p); known && n != nil && (!n.placed || !n.actKnown || n.active && n.data == nil) {
			return false
		}
		if !m.isActive(p) {
			return false
		}
		d, q := m.depth(pt).plus(1), m.depth(m.ptOf(p))
		if known && !m.entLeq(q, d) || !known && !m.leq(q, d) {
			return false
		}
	}
	if known {
		return m.entEqVals(m.dataOf(a), m.dataOf(b))
	}
	return m.eqVals(m.dataOf(a), m.dataOf(b))
}

func (m *M) checkIrr(p Ptr, u irrAttr) {
	if p.obj == nil {
		return
	}
	if n := m.node(p); n != nil {
		if a, ok := m.irrOf(n); ok {
			if !a.has && !u.has || a.has && u.has && m.eqVals(a.u, u.u) {
				return
			}
		}
		if n.kids[0] == nil && n.kids[1] == nil {
			m.fail("value", "a part of the table isn't aggregated")
		}
	}
	var kids [2]Ptr
	if n := m.node(p); n != nil {
		for c := range kids {
			kids[c] = m.child(n, c).(Ptr)
		}
	} else {
		kids = m.heapKids(p)
	}
	below := u
	if m.isActive(p) {
		d, ok := m.dataOf(p).(Sym)
		if !ok {
			m.fail("value", "an entry has no value")
		}
		if u.has {
			m.check(!m.eqVals(u.u, d), "value", "an entry has the same value as the one that contains it")
		}
		below = irrAttr{true, d}
	}
	m.check(!m.mergeable(m.ptOf(p), kids[0], kids[1], false), "value", "two halves of a prefix with equal values aren't combined")
	for _, k := range kids {
		m.checkIrr(k, below)
	}
}

func (c *aggregateContract) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	if len(fn.Params) != 3 {
		return nil
	}
	pt, ok := fn.Params[1].Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	setup := func(m *M) (me, r Ptr, u irrAttr) {
		m.tableMode()
		m.extra["irr"] = true
		m.extra["nilable"] = true
		me = m.anyTrie(kTable, "me")
		m.setRank(me)
		var up Ptr
		if m.choose(2, "umbrella") == 1 {
			u = irrAttr{true, m.newSym("u")}
			s := m.zero(pt.Elem())
			st, ok := s.(Struct)
			if !ok || len(st) != 1 {
				m.undecided("the value from above is %s", vstr(s))
			}
			st[0] = u.u
			up = Ptr{obj: m.newObj(pt.Elem(), st, "umbrella")}
		}
		r = m.nodePtr(m.exec(fn, []Value{me, up, eqUser()}, nil), "the result")
		return
	}
	return []*Obligation{{id: fam.name + "/" + name + "/match", fam: fam, top: fn,
		desc: "the longest match of an arbitrary address has an equal value afterwards, shape, freshness, comparisons, recursion",
		run: func(m *M) {
			m.extra["best"] = true
			m.addGhostLeaf("x")
			me, r, u := setup(m)
			m.checkValid(kTable, r, "the result")
			m.check(r.obj == nil || me.obj != nil && m.isAnc(m.ptOf(me), m.ptOf(r)), "place", "the root of the result is misplaced")
			a, b := m.fact(kTable, me, 0).best, m.fact(kTable, r, 0).best
			if u.has {
				if a == nil {
					a = u.u
				}
				if b == nil {
					b = u.u
				}
			}
			m.check((a == nil) == (b == nil), "value", "an address matches %s entry but %s after aggregation", map[bool]string{true: "no", false: "an"}[a == nil], map[bool]string{true: "none", false: "one"}[b == nil])
			if a != nil {
				m.check(m.eqVals(a, b), "value", "the longest match of an address has another value after aggregation")
			}
		}}, {id: fam.name + "/" + name + "/redundancy", fam: fam, top: fn,
		desc: "no entry has the value of the one that contains it, no two halves of a prefix have the same value",
		run: func(m *M) {
			_, r, u := setup(m)
			m.checkIrr(r, u)
		}}}
}

func (c *aggregateContract) Apply(m *M, fn *ssa.Function, args []Value) Value {
	me := m.argTrie(kTable, args[0], "the receiver of "+fn.Name())
	m.checkRank(fn, []Aff{m.rankOf(me)})
	var u irrAttr
	if up := m.nodePtr(args[1], "the value from above"); up.obj != nil {
		s, ok := m.load(up).(Struct)
		if !ok || len(s) != 1 {
			m.undecided("the value from above is %s", vstr(m.load(up)))
		}
		v, ok := m.force(s[0]).(Sym)
		if !ok {
			m.undecided("the value from above is %s", vstr(s[0]))
		}
		u = irrAttr{true, v}
	}
	if me.obj == nil {
		return Ptr{}
	}
	derive := func(m *M, i int) Fact {
		ref := m.fact(kTable, me, i).best
		if ref == nil && u.has {
			ref = u.u
		}
		if ref == nil {
			return Fact{}
		}
		if u.has && m.eqVals(ref, u.u) && m.choose(2, "from above") == 1 {
			return Fact{}
		}
		s := m.newSym("agg")
		m.sameClass(s, ref)
		return Fact{best: s}
	}
	if m.choose(2, fn.Name()+"=nil") == 0 {
		for i := range m.ghosts {
			ref := m.fact(kTable, me, i).best
			if ref != nil && !(u.has && m.eqVals(ref, u.u)) {
				m.infeasible()
			}
		}
		return Ptr{}
	}
	o := nodeOpts{active: -1, name: fn.Name(), origin: "call", src: m.node(me), at: -1, derive: derive}
	o.bAnc, o.bSide, _ = m.boundOf(me)
	p := m.newNode(kTable, o)
	p.obj.node.attrs = map[string]Value{"irr": u}
	return m.under(p, me)
}

package main

// Contracts of the set operations.

import (
	"golang.org/x/tools/go/ssa"
)

// anyTrie is an arbitrary valid trie: nil or a node at an arbitrary place.
func (m *M) anyTrie(kind int, name string) Ptr {
	if m.choose(2, name+"=nil") == 0 {
		return Ptr{}
	}
	return m.anyNode(kind, name)
}

func (m *M) anyNode(kind int, name string) Ptr {
	return m.newNode(kind, nodeOpts{active: -1, name: name, origin: "param", at: -1, bAnc: -1})
}

func (m *M) addGhostLeaf(name string) {
	m.ghosts = append(m.ghosts, Ghost{pt: m.placeLeaf(), leaf: true, name: name})
}

func (m *M) addGhostKey(name string) {
	m.ghosts = append(m.ghosts, Ghost{pt: m.placeAny(), name: name})
}

// rankOf is the depth of a node, for termination.
func (m *M) rankOf(p Ptr) Aff {
	if p.obj == nil {
		return K(m.W + 1)
	}
	return m.minDepth(p)
}

// checkRank requires the arguments of a recursive call to be smaller: each is
// at least as deep as one of the arguments of the function (a permutation),
// and one is deeper.
func (m *M) checkRank(fn *ssa.Function, ranks []Aff) {
	if m.top == nil || !m.prog.sameSCC(m.top, fn) {
		return
	}
	top := m.extra["rank"].([]Aff)
	if len(top) != len(ranks) {
		m.undecided("mutual recursion between %s and %s", fnName(m.top), fnName(fn))
	}
	ok := m.rankLess(top, ranks)
	m.check(ok, "term", "the arguments of the recursive call of %s don't get smaller", fn.Name())
}

func (m *M) rankLess(top, ranks []Aff) bool {
	le := func(p []int) bool {
		strict := false
		for i, k := range p {
			if !m.entLeq(top[k], ranks[i]) {
				return false
			}
			if m.entLeq(top[k].plus(1), ranks[i]) {
				strict = true
			}
		}
		return strict
	}
	switch len(ranks) {
	case 1:
		return le([]int{0})
	case 2:
		return le([]int{0, 1}) || le([]int{1, 0})
	}
	return false
}

// argTrie prepares an argument of a contract: new nodes must be valid and are
// shared from then on.
func (m *M) argTrie(kind int, v Value, what string) Ptr {
	p := m.nodePtr(v, what)
	if p.obj != nil && m.node(p) == nil {
		m.checkValid(kind, p, what)
		m.freeze(p, "in use by a trie")
	}
	return p
}

func (m *M) setFact(p Ptr, i int) bool { return p.obj != nil && m.fact(kSet, p, i).full }

// setBinop is the contract of Union, Difference and Intersect.
type setBinop struct {
	name string
	op   func(a, b bool) bool
	// where the result is
	meet  bool // at the meet of both (nil counts as absent)
	under int  // 1: at or under the first, 2: at or under both
}

func (c *setBinop) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	return []*Obligation{{id: fam.name + "/" + name, fam: fam, top: fn,
		desc: "membership of an arbitrary address in the result, shape, position and freshness of the result, recursion",
		run: func(m *M) {
			m.addGhostLeaf("x")
			a, b := m.anyTrie(kSet, "me"), m.anyTrie(kSet, "other")
			m.setRank(a, b)
			res := m.exec(fn, []Value{a, b}, nil)
			r := m.nodePtr(res, "the result")
			m.checkValid(kSet, r, "the result")
			got, want := m.setFact(r, 0), c.op(m.setFact(a, 0), m.setFact(b, 0))
			m.check(got == want, "value", "an address is %s the operands (%v, %v) but %s the result", "in/not in", m.setFact(a, 0), m.setFact(b, 0), inOut(got))
			m.checkPos(c, a, b, r)
		}}}
}

func inOut(b bool) string {
	if b {
		return "in"
	}
	return "not in"
}

func (m *M) checkPos(c *setBinop, a, b, r Ptr) {
	if c.meet {
		switch {
		case a.obj == nil && b.obj == nil:
			m.check(r.obj == nil, "value", "the result isn't empty")
		case r.obj == nil:
			m.fail("value", "the result is empty")
		case a.obj == nil:
			m.check(m.ptOf(r) == m.ptOf(b), "place", "the root of the result is misplaced")
		case b.obj == nil:
			m.check(m.ptOf(r) == m.ptOf(a), "place", "the root of the result is misplaced")
		default:
			m.check(m.ptOf(r) == m.lca(m.ptOf(a), m.ptOf(b)), "place", "the root of the result is misplaced")
		}
		return
	}
	if r.obj == nil {
		return
	}
	rp := m.ptOf(r)
	m.check(a.obj != nil && m.isAnc(m.ptOf(a), rp), "place", "the result isn't under the first operand")
	if c.under == 2 {
		m.check(b.obj != nil && m.isAnc(m.ptOf(b), rp), "place", "the result isn't under the second operand")
	}
}

func (c *setBinop) Apply(m *M, fn *ssa.Function, args []Value) Value {
	a, b := m.argTrie(kSet, args[0], "the receiver of "+fn.Name()), m.argTrie(kSet, args[1], "the argument of "+fn.Name())
	m.checkRank(fn, []Aff{m.rankOf(a), m.rankOf(b)})
	derive := func(m *M, i int) Fact {
		d := c.op(m.setFact(a, i), m.setFact(b, i))
		return Fact{full: d, touch: d}
	}
	o := nodeOpts{derive: derive, active: -1, name: fn.Name(), origin: "call", at: -1, bAnc: -1, bSide: -1}
	if c.meet {
		var exact bool
		switch {
		case a.obj == nil && b.obj == nil:
			return Ptr{}
		case a.obj == nil:
			return b
		case b.obj == nil:
			return a
		default:
			o.bAnc, o.bSide, exact = m.meetBound(a, b)
			if exact {
				o.at = o.bAnc
			}
		}
		return m.witnessIn(m.newNode(kSet, o))
	}
	if a.obj == nil || c.under == 2 && b.obj == nil {
		return Ptr{}
	}
	if m.choose(2, fn.Name()+"=nil") == 0 {
		for i := range m.ghosts {
			if derive(m, i).touch {
				m.infeasible()
			}
		}
		return Ptr{}
	}
	o.bAnc, o.bSide, _ = m.boundOf(a)
	if c.under == 2 {
		p, s, _ := m.boundOf(b)
		switch {
		case o.bAnc == p:
			if o.bSide >= 0 && s >= 0 && o.bSide != s {
				return Ptr{}
			}
			if s >= 0 {
				o.bSide = s
			}
		case m.isAnc(o.bAnc, p):
			if o.bSide >= 0 && m.side(o.bAnc, p) != o.bSide {
				return Ptr{}
			}
			o.bAnc, o.bSide = p, s
		case m.isAnc(p, o.bAnc):
			if s >= 0 && m.side(p, o.bAnc) != s {
				return Ptr{}
			}
		default:
			return Ptr{}
		}
	}
	r := m.under(m.newNode(kSet, o), a)
	if c.under == 2 {
		m.under(r, b)
	}
	return m.witnessIn(r)
}

// newGhost adds a ghost in the middle of a trace.
func (m *M) newGhost(pt int) int {
	m.ghosts = append(m.ghosts, Ghost{pt: pt, leaf: true, name: "w"})
	for _, n := range m.nodes {
		n.facts = append(n.facts, nil)
	}
	return len(m.ghosts) - 1
}

// witnessIn: a set that isn't empty has an address.
func (m *M) witnessIn(p Ptr) Ptr {
	hyp, ok := m.extra["witness"].(func(m *M, i int))
	if !ok {
		return p
	}
	a, s, _ := m.boundOf(p)
	var w int
	if s < 0 {
		w = m.placeLeafAtOrUnder(a)
	} else {
		w = m.placeLeafUnder(a, s)
	}
	i := m.newGhost(w)
	if !m.setFact(p, i) {
		m.infeasible()
	}
	hyp(m, i)
	return p
}

// setRank records the depths of the arguments of the function under analysis.
func (m *M) setRank(ps ...Ptr) {
	var r []Aff
	for _, p := range ps {
		if p.obj == nil {
			r = append(r, K(m.W+1))
		} else {
			r = append(r, m.depth(m.ptOf(p)))
		}
	}
	m.extra["rank"] = r
}

func opOr(a, b bool) bool     { return a || b }
func opAnd(a, b bool) bool    { return a && b }
func opAndNot(a, b bool) bool { return a && !b }

var setBinops = []*setBinop{
	{name: "Union", op: opOr, meet: true},
	{name: "Difference", op: opAndNot, under: 1},
	{name: "Intersect", op: opAnd, under: 2},
}

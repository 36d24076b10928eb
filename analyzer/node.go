package main

// The trie domain: symbolic nodes whose attributes are decided on demand, and
// what is known about them at the ghost positions.

import (
	"fmt"
	"go/types"
)

const (
	kSet = iota
	kTable
)

// maxUnfold bounds how deep a symbolic trie is looked into on one trace.
const maxUnfold = 3

// Ghost is an arbitrary but fixed position about which membership is tracked.
type Ghost struct {
	pt   int
	leaf bool
	name string
}

// Fact is what a trie says about a ghost position.
type Fact struct {
	// sets: every (any) address of the ghost is in the set
	full, touch bool
	// tables: the value stored exactly at the ghost (nil: none), and the
	// value of the longest entry containing the ghost (nil: none)
	at, best Value
}

func (f Fact) String() string {
	return fmt.Sprintf("{full:%v touch:%v at:%s best:%s}", f.full, f.touch, vstr(f.at), vstr(f.best))
}

// Node describes a symbolic node: an arbitrary valid trie within a bound.
type Node struct {
	obj    *Obj
	name   string
	kind   int
	placed bool
	pt     int
	bAnc   int // bound: -1 anywhere, else at or under this point
	bSide  int // -1, or strictly under it on this side

	actKnown, active bool
	data             Value
	addr             *Word
	facts            []*Fact
	derive           func(m *M, i int) Fact // what the facts are, if not arbitrary
	parent           *Node
	side             int
	kids             [2]*Ptr
	size             string
	sizeLin          *Lin
	noKid            [2]bool
	expanded         bool
	same             *Node   // merged into
	below            []*Node // nodes whose place this one is at or under
	twin             *Node   // another trie of the same contents
	fresh            bool    // known to be different from all older nodes
	origin           string
	src              *Node // what the result of a contract was made from, if one trie
	depth            int
	attrs            map[string]Value
	onActive         func(m *M, n *Node)
	onPlace          func(m *M, n *Node)
}

func (m *M) rep(n *Node) *Node {
	for n.same != nil {
		n = n.same
	}
	return n
}

// rel is the relation of ghost g to point p: 'x' disjoint, '^' g strictly
// contains p, '=' same, 'v' below (on a side).
func (m *M) rel(g, p int) (r byte, side int) {
	if g == p {
		return '=', 0
	}
	if m.isAnc(p, g) {
		return 'v', m.side(p, g)
	}
	if m.isAnc(g, p) {
		return '^', m.side(g, p)
	}
	return 'x', 0
}

type nodeOpts struct {
	derive func(m *M, i int) Fact
	active int // -1 free, 0, 1
	name   string
	origin string
	src    *Node
	data   Value
	at     int // place (-1: only bounded)
	bAnc   int
	bSide  int
	fresh  bool
	size   *Lin
}

func (m *M) nodeSize(n *Node) Lin {
	if n.sizeLin != nil {
		return *n.sizeLin
	}
	return Lin{T: map[string]int64{"size(" + n.size + ")": 1}}
}

// newNode makes an arbitrary valid symbolic node.
// maxNodes bounds the symbolic nodes of a trace. The recursive functions are
// analysed one level at a time, which takes up to ten.
const maxNodes = 18

func (m *M) newNode(kind int, o nodeOpts) Ptr {
	n := &Node{kind: kind, origin: o.origin, src: o.src, bAnc: o.bAnc, bSide: o.bSide, derive: o.derive, data: o.data, fresh: o.fresh}
	m.nodes = append(m.nodes, n)
	if len(m.nodes) > maxNodes {
		m.undecided("a walk over a trie that the analysis doesn't bound")
	}
	n.name = fmt.Sprintf("%s#%d", o.name, len(m.nodes))
	n.size = n.name
	n.sizeLin = o.size
	n.facts = make([]*Fact, len(m.ghosts))
	n.obj = m.symObj(n)
	if o.at >= 0 {
		m.setPlace(n, o.at)
	}
	if o.active >= 0 {
		m.setActive(n, o.active == 1)
	}
	return Ptr{obj: n.obj}
}

func (m *M) setPlace(n *Node, pt int) {
	n.placed, n.pt = true, pt
	m.consistent(n)
	if n.onPlace != nil {
		n.onPlace(m, n)
	}
	if n.twin != nil && !m.rep(n.twin).placed {
		m.setPlace(m.rep(n.twin), pt)
	}
}

func (m *M) setActive(n *Node, a bool) {
	n.actKnown, n.active = true, a
	m.consistent(n)
	if n.onActive != nil {
		n.onActive(m, n)
	}
	if n.twin != nil {
		t := m.rep(n.twin)
		if !t.actKnown {
			m.setActive(t, a)
		}
		if a && n.kind == kTable {
			m.sameClass(m.nodeData(n), m.nodeData(t))
		}
	}
}

// sameClass makes two values equal by the table's comparison.
func (m *M) sameClass(a, b Value) {
	x, ok := a.(Sym)
	y, ok2 := b.(Sym)
	if !ok || !ok2 {
		return
	}
	e := m.eqp
	cx, cy := e.class(x), e.class(y)
	if cx != cy {
		if e.isNe(cx, cy) {
			m.infeasible()
		}
		e.cls[cx] = cy
	}
}

// consistent prunes the trace if what is known about a node is impossible.
func (m *M) consistent(n *Node) {
	if n.actKnown && !n.active {
		if n.placed {
			m.assumeLeq(m.depth(n.pt).plus(1), K(m.W))
		}
	}
	if n.placed && n.actKnown {
		if n.parent != nil && n.kind == kSet && n.active {
			m.halves(n.parent)
		}
	}
	if !n.placed {
		return
	}
	for _, x := range m.nodes {
		x = m.rep(x)
		for _, y := range x.below {
			if y = m.rep(y); x.placed && y.placed && (x == n || y == n) && !m.isAnc(y.pt, x.pt) {
				m.infeasible()
			}
		}
	}
	for i, f := range n.facts {
		if f != nil && !m.factPossible(n, i, *f) {
			m.infeasible()
		}
		if f == nil && n.parent != nil && m.rep(n.parent).facts[i] != nil {
			m.nodeFact(n, i)
		}
	}
}

// factPossible checks a fact against the place and the activity of a node.
func (m *M) factPossible(n *Node, i int, f Fact) bool {
	g := m.ghosts[i]
	r, _ := m.rel(g.pt, n.pt)
	if n.kind == kSet {
		switch r {
		case 'x':
			return !f.full && !f.touch
		case '^':
			return !f.full && f.touch
		case '=':
			if !f.touch {
				return false
			}
			if n.actKnown {
				return f.full == n.active
			}
		case 'v':
			if n.actKnown && n.active {
				return f.full
			}
		}
		return true
	}
	if m.wantBest() {
		switch r {
		case 'x', '^':
			return f.best == nil
		case '=':
			if n.actKnown && n.active {
				if f.best == nil {
					return false
				}
				m.mergeVal(f.best, m.nodeData(n))
			} else if n.actKnown {
				return f.best == nil
			}
		case 'v':
			return !(n.actKnown && n.active && f.best == nil)
		}
		return true
	}
	switch r {
	case 'x', '^':
		return f.at == nil && f.best == nil
	case '=':
		if !n.actKnown {
			return (f.at == nil) == (f.best == nil)
		}
		if n.active {
			if f.at == nil || f.best == nil {
				return false
			}
			d := m.nodeData(n)
			m.mergeVal(f.at, d)
			m.mergeVal(f.best, d)
			return true
		}
		return f.at == nil && f.best == nil
	}
	return true
}

// wantBest: the longest matches of the ghosts are tracked rather than the
// entries at them.
func (m *M) wantBest() bool { return m.extra["best"] != nil }

// halves imposes that two halves of a prefix aren't both members.
func (m *M) halves(p *Node) {
	p = m.rep(p)
	if p.kids[0] == nil || p.kids[1] == nil {
		return
	}
	a, b := m.node(*p.kids[0]), m.node(*p.kids[1])
	if a == nil || b == nil || !a.placed || !b.placed || !a.actKnown || !b.actKnown || !a.active || !b.active || !p.placed {
		return
	}
	d := m.depth(p.pt).plus(1)
	ad, bd := m.depth(a.pt), m.depth(b.pt)
	switch {
	case m.entLeq(d.plus(1), ad), m.entLeq(d.plus(1), bd):
	case m.entEq(ad, d):
		m.assumeLeq(d.plus(1), bd)
	case m.entEq(bd, d):
		m.assumeLeq(d.plus(1), ad)
	default:
		if m.leq(ad, d) {
			m.assumeLeq(d.plus(1), bd)
		}
	}
}

// place decides where a node is.
func (m *M) place(n *Node) int {
	n = m.rep(n)
	if n.placed {
		return n.pt
	}
	if n.parent != nil {
		pp := m.place(n.parent)
		n.bAnc, n.bSide = pp, n.side
		n = m.rep(n)
		if n.placed {
			return n.pt
		}
	}
	var pt int
	switch {
	case n.bAnc < 0:
		pt = m.placeAny()
	case n.bSide < 0:
		pt = m.placeAtOrUnder(n.bAnc)
	default:
		pt = m.placeUnder(n.bAnc, n.bSide)
	}
	if !n.placed {
		m.setPlace(n, pt)
	} else if n.pt != pt {
		m.infeasible()
	}
	return n.pt
}

// act decides whether a node is active.
func (m *M) act(n *Node) bool {
	n = m.rep(n)
	if !n.actKnown {
		switch {
		case n.placed && !m.canLeq(m.depth(n.pt).plus(1), K(m.W)):
			m.setActive(n, true)
		default:
			m.setActive(n, m.choose(2, n.name+".active") == 1)
		}
	}
	return n.active
}

// nodeData is the value of a node.
func (m *M) nodeData(n *Node) Value {
	n = m.rep(n)
	if n.data == nil {
		if n.kind == kTable && m.act(n) {
			if n.data == nil {
				n.data = m.newSym("v")
			}
		} else {
			n.data = Iface{}
		}
	}
	return n.data
}

// nodeFact is what a symbolic node says about ghost i.
func (m *M) nodeFact(n *Node, i int) Fact {
	n = m.rep(n)
	if j := m.ghostAt(m.ghosts[i].pt); j != i {
		return m.nodeFact(n, j)
	}
	if n.facts[i] != nil {
		return *n.facts[i]
	}
	g := m.ghosts[i]
	var f Fact
	decided := false
	if n.derive != nil {
		f = n.derive(m, i)
		decided = true
	} else if n.parent != nil {
		pp := m.place(n.parent)
		r, side := m.rel(g.pt, pp)
		if r == 'v' && side == n.side {
			f = m.nodeFact(n.parent, i)
			par := m.rep(n.parent)
			if n.kind == kTable && m.wantBest() && f.best != nil && m.act(par) && m.owns(m.rep(par), i, f) {
				f.best = nil
			}
		} else if r == '=' || r == '^' || r == 'x' || r == 'v' {
			f = Fact{}
			if n.kind == kSet && (r == '=' || r == '^') {
				f.touch = r != 'x' && m.isAncOrSame(g.pt, pp)
			}
		}
		decided = true
	}
	n = m.rep(n)
	if n.facts[i] != nil {
		if decided {
			m.mergeFact(*n.facts[i], f, n.kind)
		}
		return *n.facts[i]
	}
	if !decided {
		f = m.anyFact(n, i)
	}
	n.facts[i] = &f
	if n.placed && !m.factPossible(n, i, f) {
		m.infeasible()
	}
	if n.kind == kTable {
		for c, k := range n.kids {
			if k != nil && k.obj == nil {
				m.nilChildFact(n, c, i, f)
			}
		}
	}
	m.factsBelow(n, i)
	return f
}

// factsBelow makes the known nodes below n agree with its fact about ghost i.
func (m *M) factsBelow(n *Node, i int) {
	for _, k := range m.rep(n).kids {
		if k == nil || k.obj == nil {
			continue
		}
		if c := m.node(*k); c != nil && (c.placed || c.actKnown) && c.facts[i] == nil {
			m.nodeFact(c, i)
		}
	}
}

func (m *M) isAncOrSame(a, b int) bool { return m.isAnc(a, b) }

// owns decides whether the entry of an active node is the longest match of a
// ghost below it.
func (m *M) owns(n *Node, i int, f Fact) bool {
	k := "own" + fmt.Sprint(i)
	if v, ok := n.attrs[k]; ok {
		return v == true
	}
	if n.attrs == nil {
		n.attrs = map[string]Value{}
	}
	own := m.choose(2, n.name+".best") == 0
	n.attrs[k] = own
	if own {
		m.mergeVal(f.best, m.nodeData(n))
	}
	return own
}

// anyFact picks a fact.
func (m *M) anyFact(n *Node, i int) Fact {
	g := m.ghosts[i]
	var f Fact
	if n.kind == kSet {
		if !g.leaf || n.placed {
			pt := m.place(n)
			switch r, _ := m.rel(g.pt, pt); r {
			case 'x':
				return f
			case '^':
				f.touch = true
				return f
			case '=':
				f.touch, f.full = true, m.act(n)
				return f
			}
			if n.actKnown && n.active {
				return Fact{full: true, touch: true}
			}
		}
		if g.leaf {
			f.full = m.choose(2, n.name+"∋"+g.name) == 1
			f.touch = f.full
			return f
		}
		switch m.choose(3, n.name+"∋"+g.name) {
		case 1:
			f.touch = true
		case 2:
			f.full, f.touch = true, true
		}
		return f
	}
	pt := m.place(n)
	switch r, _ := m.rel(g.pt, pt); r {
	case 'x', '^':
		return f
	case '=':
		if m.act(n) {
			d := m.nodeData(n)
			f.at, f.best = d, d
		}
		return f
	}
	// below
	if _, side := m.rel(g.pt, pt); n.kids[side] != nil && n.kids[side].obj == nil {
		if m.act(n) {
			f.best = m.nodeData(n)
		}
		return f
	}
	if !m.wantBest() {
		if m.choose(2, n.name+"["+g.name+"]") == 1 {
			f.at = m.newSym("v")
			f.best = f.at
		}
		return f
	}
	if m.act(n) || m.choose(2, n.name+"[..."+g.name+"]") == 1 {
		f.best = m.newSym("v")
	}
	return f
}

func (m *M) symObj(n *Node) *Obj {
	f := m.fam
	var t types.Type = f.trieNode
	if n.kind == kSet {
		t = f.setNode
	}
	s := make(Struct, t.Underlying().(*types.Struct).NumFields())
	for i := range s {
		s[i] = Top{"field"}
	}
	s[f.fPrefix] = Lazy{n, "prefix", 0}
	if n.kind == kTable {
		s[f.fData] = Lazy{n, "data", 0}
	} else {
		s[f.fData] = Iface{}
	}
	s[f.fSize] = m.linNorm(m.nodeSize(n))
	s[f.fH] = Lin{T: map[string]int64{"height(" + n.size + ")": 1}}
	s[f.fActive] = Lazy{n, "active", 0}
	s[f.fKids] = Array{Lazy{n, "child", 0}, Lazy{n, "child", 1}}
	o := m.newObj(t, s, n.name)
	o.node = n
	o.frozen = true
	o.why = "part of an existing trie"
	return o
}

func (m *M) mkPrefix(addr Value, length Value) Struct {
	p := make(Struct, 2)
	p[m.fam.pAddr] = Struct{addr}
	p[m.fam.pLen] = length
	if a, ok := length.(Aff); ok {
		p[m.fam.pLen] = fromAff(a)
	}
	return p
}

func (m *M) forceLazy(l Lazy) Value {
	n := m.rep(l.n)
	switch l.field {
	case "child":
		return m.child(n, l.idx)
	case "prefix":
		pt := m.place(n)
		n = m.rep(n)
		var w *Word
		if n.kind == kTable && m.extra["junk"] != nil {
			if n.addr == nil {
				n.addr = m.ptJunk(pt)
			}
			w = n.addr
		} else {
			w = m.ptWord(pt)
		}
		return m.mkPrefix(w, m.depth(pt))
	case "active":
		return m.act(n)
	case "data":
		return m.nodeData(n)
	}
	m.undecided("lazy field")
	return nil
}

// child unfolds a child of a symbolic node.
func (m *M) child(n *Node, c int) Value {
	n = m.rep(n)
	if n.kids[c] != nil {
		return *n.kids[c]
	}
	set := func(p Ptr) Ptr {
		n.kids[c] = &p
		if n.twin != nil {
			t := m.rep(n.twin)
			if t.kids[c] == nil {
				if p.obj == nil {
					t.kids[c] = &Ptr{}
				} else {
					q := m.newNode(t.kind, nodeOpts{active: -1, name: t.name + "." + fmt.Sprint(c), origin: "child", at: -1, bAnc: -1, bSide: -1})
					k := q.obj.node
					k.parent, k.side = t, c
					if t.placed {
						k.bAnc, k.bSide = t.pt, c
					}
					t.kids[c] = &q
					m.twins(p.obj.node, k)
				}
			}
		}
		return p
	}
	act := m.act(n)
	if n.kind == kSet && act {
		return set(Ptr{})
	}
	if n.kind == kTable && act {
		if n.placed && !m.canLeq(m.depth(n.pt).plus(1), K(m.W)) {
			return set(Ptr{})
		}
		if n.noKid[c] || m.choose(2, n.name+".kid"+fmt.Sprint(c)) == 0 {
			p := set(Ptr{})
			for i := range m.ghosts {
				if f := n.facts[i]; f != nil {
					m.nilChildFact(n, c, i, *f)
				}
			}
			return p
		}
	}
	p := m.newNode(n.kind, nodeOpts{active: -1, name: n.name + "." + fmt.Sprint(c), origin: "child", at: -1, bAnc: -1, bSide: -1})
	k := p.obj.node
	k.parent, k.side = n, c
	if n.placed {
		k.bAnc, k.bSide = n.pt, c
	}
	k.depth = n.depth + 1
	if k.depth > maxUnfold {
		m.undecided("a trie is unfolded more than %d levels deep (a loop over nodes)", maxUnfold)
	}
	set(p)
	m.nodeAttrs(n, k)
	return p
}

// nilChildFact: child c of n is absent, so n's fact f about ghost i can't come
// from there.
func (m *M) nilChildFact(n *Node, c, i int, f Fact) {
	pt := m.place(n)
	r, side := m.rel(m.ghosts[i].pt, pt)
	if r != 'v' || side != c {
		return
	}
	if m.wantBest() {
		if f.best != nil {
			m.mergeVal(f.best, m.nodeData(n))
		}
		return
	}
	if f.at != nil {
		m.infeasible()
	}
}

func (m *M) nodeAttrs(n, k *Node) {
	if h, ok := m.extra["childHook"].(func(m *M, n, k *Node)); ok {
		h(m, n, k)
	}
}

func sameVal(a, b Value) bool {
	x, ok := a.(Sym)
	y, ok2 := b.(Sym)
	return ok && ok2 && x.id == y.id
}

// node returns the symbolic description of a pointer, nil for a heap node.
func (m *M) node(p Ptr) *Node {
	if p.obj == nil || p.obj.node == nil {
		return nil
	}
	return m.rep(p.obj.node)
}

func (m *M) nodePtr(v Value, what string) Ptr {
	p, ok := m.force(v).(Ptr)
	if !ok {
		m.undecided("%s isn't a pointer: %s", what, vstr(v))
	}
	return p
}

// heap node access

type hnode struct {
	addr   *Word
	length Aff
	active bool
	data   Value
	kids   [2]Ptr
	size   Value
	pt     int
}

func (m *M) heapStruct(p Ptr) Struct {
	s, ok := p.obj.val.(Struct)
	if !ok || p.path != "" || len(s) <= m.fam.fKids {
		m.undecided("not a trie node: %s", vstr(p))
	}
	return s
}

func (m *M) heapKids(p Ptr) [2]Ptr {
	s := m.heapStruct(p)
	kids, ok := s[m.fam.fKids].(Array)
	if !ok || len(kids) != 2 {
		m.undecided("children of a node: %s", vstr(s[m.fam.fKids]))
	}
	var r [2]Ptr
	for i := range kids {
		kids[i] = m.force(kids[i])
		kp, ok := kids[i].(Ptr)
		if !ok {
			m.undecided("a child of a node: %s", vstr(kids[i]))
		}
		r[i] = kp
	}
	return r
}

func (m *M) heapActive(p Ptr) bool {
	s := m.heapStruct(p)
	s[m.fam.fActive] = m.force(s[m.fam.fActive])
	b, ok := s[m.fam.fActive].(bool)
	if !ok {
		m.undecided("isActive of a node: %s", vstr(s[m.fam.fActive]))
	}
	return b
}

func (m *M) heapPrefix(p Ptr) (*Word, Aff) {
	s := m.heapStruct(p)
	s[m.fam.fPrefix] = m.force(s[m.fam.fPrefix])
	pf, ok := s[m.fam.fPrefix].(Struct)
	if !ok {
		m.undecided("prefix of a node: %s", vstr(s[m.fam.fPrefix]))
	}
	return m.prefixParts(pf)
}

func (m *M) heapData(p Ptr) Value {
	s := m.heapStruct(p)
	s[m.fam.fData] = m.force(s[m.fam.fData])
	return s[m.fam.fData]
}

func (m *M) heapSize(p Ptr) Value { return m.force(m.heapStruct(p)[m.fam.fSize]) }

func (m *M) prefixParts(pf Struct) (*Word, Aff) {
	f := m.fam
	l, ok := toAff(m.force(pf[f.pLen]))
	if !ok {
		m.undecided("the length of a prefix is %s", vstr(pf[f.pLen]))
	}
	var av Value = pf[f.pAddr]
	if s, ok := av.(Struct); ok && len(s) == 1 {
		av = s[0]
	}
	w := m.asWord(av, m.W)
	if w == nil {
		m.undecided("the address of a prefix is %s", vstr(pf[f.pAddr]))
	}
	return w, l
}

// prefixPoint is the point named by a prefix.
func (m *M) prefixPoint(pf Value) int {
	s, ok := m.force(pf).(Struct)
	if !ok {
		m.undecided("a prefix is %s", vstr(pf))
	}
	w, l := m.prefixParts(s)
	return m.point(w, l)
}

func (m *M) point(w *Word, l Aff) int {
	m.check(m.leq(K(0), l) && m.leq(l, K(m.W)), "length", "a prefix has a length outside of 0..%d", m.W)
	p, ok := m.wordPoint(w, l)
	if !ok {
		m.undecided("the position of a prefix can't be expressed: %s length %s", w, vstr(l))
	}
	return p
}

// ptOf is the position of a non-nil trie pointer.
func (m *M) ptOf(p Ptr) int {
	if n := m.node(p); n != nil {
		return m.place(n)
	}
	w, l := m.heapPrefix(p)
	return m.point(w, l)
}

// boundOf is the known position of a trie: at or under a point (side -1), or
// strictly under it on a side. anc is -1 if nothing is known.
func (m *M) boundOf(p Ptr) (anc, side int, exact bool) {
	if n := m.node(p); n != nil {
		if n.placed {
			return n.pt, -1, true
		}
		if n.parent != nil && m.rep(n.parent).placed {
			return m.rep(n.parent).pt, n.side, false
		}
		if n.bAnc >= 0 {
			return n.bAnc, n.bSide, false
		}
		return m.place(n), -1, true
	}
	return m.ptOf(p), -1, true
}

// minDepth is a lower bound of the depth of a trie.
func (m *M) minDepth(p Ptr) Aff {
	if p.obj == nil {
		return K(m.W + 1)
	}
	a, s, _ := m.boundOf(p)
	if a < 0 {
		return K(0)
	}
	if s >= 0 {
		return m.depth(a).plus(1)
	}
	return m.depth(a)
}

// meetBound bounds the meet of two tries.
func (m *M) meetBound(p, q Ptr) (anc, side int, exact bool) {
	a1, s1, e1 := m.boundOf(p)
	a2, s2, e2 := m.boundOf(q)
	return m.meetBounds(a1, s1, e1, a2, s2, e2)
}

func (m *M) meetBounds(a1, s1 int, e1 bool, a2, s2 int, e2 bool) (anc, side int, exact bool) {
	c := m.lca(a1, a2)
	if e1 && e2 {
		return c, -1, true
	}
	switch {
	case a1 == a2:
		if s1 == s2 {
			return a1, s1, false
		}
		if s1 >= 0 && s2 >= 0 {
			return c, -1, true
		}
		// one is exactly there or unknown
		if e1 || e2 {
			return c, -1, true
		}
		return c, -1, false
	case c == a1:
		if e1 {
			return c, -1, true
		}
		t := m.side(a1, a2)
		if s1 == t {
			return a1, t, false
		}
		return c, -1, s1 >= 0
	case c == a2:
		if e2 {
			return c, -1, true
		}
		t := m.side(a2, a1)
		if s2 == t {
			return a2, t, false
		}
		return c, -1, s2 >= 0
	}
	return c, -1, true
}

func (m *M) isActive(p Ptr) bool {
	if n := m.node(p); n != nil {
		return m.act(n)
	}
	return m.heapActive(p)
}

func (m *M) dataOf(p Ptr) Value {
	if n := m.node(p); n != nil {
		return m.nodeData(n)
	}
	return m.heapData(p)
}

// fact evaluates what the trie at p says about ghost i.
func (m *M) fact(kind int, p Ptr, i int) Fact {
	if p.obj == nil {
		return Fact{}
	}
	g := m.ghosts[i]
	if n := m.node(p); n != nil {
		return m.nodeFact(n, i)
	}
	pt := m.ptOf(p)
	r, side := m.rel(g.pt, pt)
	var f Fact
	if kind == kSet {
		switch r {
		case '^':
			f.touch = true
		case '=':
			f.full, f.touch = m.heapActive(p), true
		case 'v':
			if m.heapActive(p) {
				return Fact{full: true, touch: true}
			}
			return m.fact(kind, m.heapKids(p)[side], i)
		}
		return f
	}
	switch r {
	case '=':
		if m.heapActive(p) {
			f.at = m.heapData(p)
			f.best = f.at
		}
	case 'v':
		f = m.fact(kind, m.heapKids(p)[side], i)
		if f.best == nil && m.wantBest() && m.heapActive(p) {
			f.best = m.heapData(p)
		}
	}
	return f
}

// sizeOf is the number of entries of the trie at p.
func (m *M) sizeOf(p Ptr) Lin {
	if p.obj == nil {
		return Lin{}
	}
	if n := m.node(p); n != nil {
		return m.nodeSize(n)
	}
	l, ok := m.asLin(m.heapSize(p))
	if !ok {
		m.fail("size", "the entry count of a new node is %s", vstr(m.heapSize(p)))
	}
	return l
}

// linRen applies the known equalities between sizes.
func (m *M) linRen(l Lin) Lin {
	for {
		again := false
		for k, v := range l.T {
			if sub, ok := m.sizeSub[k]; ok {
				r := linAdd(l, Lin{T: map[string]int64{k: v}}, -1)
				l = linAdd(r, sub, v)
				again = true
				break
			}
		}
		if !again {
			return l
		}
	}
}

// assumeLinEq records an equality of sizes.
func (m *M) assumeLinEq(a, b Lin) {
	d := m.linRen(linAdd(a, b, -1))
	if len(d.T) == 0 {
		if d.C != 0 {
			m.infeasible()
		}
		return
	}
	// every size is at least 1
	lo, neg, pos := d.C, false, false
	hi := d.C
	for _, v := range d.T {
		if v > 0 {
			lo += v
			pos = true
		} else {
			hi += v
			neg = true
		}
	}
	if !neg && lo > 0 || !pos && hi < 0 {
		m.infeasible()
	}
	var best string
	sums := false
	for k, v := range d.T {
		if v != 1 && v != -1 {
			continue
		}
		// preferably one that is a sum of others: it's at least 1 as well
		sum := d.C*v <= 0
		for j, w := range d.T {
			sum = sum && (j == k || w*v < 0)
		}
		if sum && !sums || sum == sums && k > best {
			best, sums = k, sum
		}
	}
	if best == "" {
		return
	}
	v := d.T[best]
	r := linAdd(Lin{}, linAdd(d, Lin{T: map[string]int64{best: v}}, -1), -v)
	if m.sizeSub == nil {
		m.sizeSub = map[string]Lin{}
	}
	m.sizeSub[best] = r
}

// settleSizes relates the sizes of the nodes that were looked into to the sizes
// of their children.
func (m *M) settleSizes() {
	for i := 0; i < len(m.nodes); i++ {
		n := m.rep(m.nodes[i])
		if n.expanded || n.kids[0] == nil && n.kids[1] == nil && !(n.actKnown && n.active && n.kind == kSet) {
			continue
		}
		n.expanded = true
		l := Lin{}
		if m.act(n) {
			l.C = 1
		}
		for c := range n.kids {
			k, _ := m.child(n, c).(Ptr)
			l = linAdd(l, m.sizeOf(k), 1)
		}
		m.assumeLinEq(m.nodeSize(m.rep(n)), l)
	}
}

// checkValid checks the invariants of the new nodes reachable from p.
func (m *M) checkValid(kind int, p Ptr, what string) {
	if p.obj == nil || m.node(p) != nil {
		return
	}
	addr, length := m.heapPrefix(p)
	active := m.heapActive(p)
	kids := m.heapKids(p)
	m.check(m.leq(K(0), length) && m.leq(length, K(m.W)), "length", "%s: a node has a length outside of 0..%d", what, m.W)
	pt := m.point(addr, length)
	if kind == kSet {
		// no host bits
		m.check(m.wEq(addr, m.ptWord(pt)), "canon", "%s: a node has host bits set: %s", what, addr)
	}
	for c, k := range kids {
		if k.obj == nil {
			continue
		}
		m.check(m.onSide(k, pt, c), "place", "%s: child %d of a node doesn't belong there", what, c)
	}
	if active {
		if kind == kSet {
			m.check(kids[0].obj == nil && kids[1].obj == nil, "canon", "%s: a member prefix has further prefixes below it", what)
		}
	} else {
		m.check(kids[0].obj != nil && kids[1].obj != nil, "canon", "%s: a joining node has less than two children", what)
		if d, ok := m.heapData(p).(Iface); kind == kTable && (!ok || d.typ != nil) {
			m.undecided("%s: a node without an entry keeps a value", what)
		}
		if kind == kSet && m.isActive(kids[0]) && m.isActive(kids[1]) {
			d := length.plus(1)
			both := m.leq(m.depth(m.ptOf(kids[0])), d) && m.leq(m.depth(m.ptOf(kids[1])), d)
			m.check(!both, "canon", "%s: the two halves of a prefix are kept apart instead of being combined", what)
		}
	}
	want := linAdd(m.sizeOf(kids[0]), m.sizeOf(kids[1]), 1)
	if active {
		want.C++
	}
	got, ok := m.asLin(m.heapSize(p))
	if ok && !linEq(m.linRen(got), m.linRen(want)) {
		m.settleSizes()
	}
	m.check(ok && linEq(m.linRen(got), m.linRen(want)), "size", "%s: the entry count of a node is %s, not %s", what, vstr(m.heapSize(p)), want)
	for _, k := range kids {
		m.checkValid(kind, k, what)
	}
}

// onSide: the trie at k is strictly under pt on side c.
func (m *M) onSide(k Ptr, pt, c int) bool {
	a, s, exact := m.boundOf(k)
	if !exact {
		if a == pt && s >= 0 {
			return s == c
		}
		if a != pt && m.isAnc(pt, a) {
			return m.side(pt, a) == c
		}
		if !m.isAnc(a, pt) {
			return false
		}
	}
	r, side := m.rel(m.ptOf(k), pt)
	return r == 'v' && side == c
}

// freeze marks everything reachable from p as shared.
func (m *M) freeze(p Ptr, why string) {
	if p.obj == nil || p.obj.frozen {
		return
	}
	p.obj.frozen = true
	p.obj.why = why
	if s, ok := p.obj.val.(Struct); ok && m.fam != nil && len(s) > m.fam.fKids {
		if kids, ok := s[m.fam.fKids].(Array); ok {
			for _, k := range kids {
				if kp, ok := k.(Ptr); ok {
					m.freeze(kp, why)
				}
			}
		}
	}
}

// ptrEq decides pointer equality.
func (m *M) ptrEq(a, b Ptr) Value {
	if a.obj == nil || b.obj == nil {
		return a.obj == nil && b.obj == nil
	}
	na, nb := m.node(a), m.node(b)
	if a.obj == b.obj || na != nil && na == nb {
		return a.path == b.path
	}
	if na == nil && nb == nil {
		return false
	}
	if na == nil || nb == nil {
		// A new node and a symbolic one: the same only if the symbolic one was
		// returned by a call that the new node was handed to.
		h, s := a, nb
		if na != nil {
			h, s = b, na
		}
		if !h.obj.frozen || s.origin != "call" || h.path != "" || s.fresh {
			return false
		}
		if !m.chooseBool("alias") {
			return false
		}
		m.mergeHeap(h, s)
		return true
	}
	if na.kind != nb.kind || na.placed && nb.placed && na.pt != nb.pt || na.actKnown && nb.actKnown && na.active != nb.active {
		return false
	}
	if na.fresh || nb.fresh {
		return false
	}
	for i := range na.facts {
		if x, y := na.facts[i], nb.facts[i]; x != nil && y != nil && na.kind == kSet && *x != *y {
			return false
		}
	}
	if m.apart(a, b) || m.apart(b, a) {
		return false
	}
	if !m.chooseBool("alias") {
		return false
	}
	m.merge(na, nb)
	return true
}

// apart: the bounds of a and b exclude each other.
func (m *M) apart(a, b Ptr) bool {
	na := m.node(a)
	if !na.placed && na.parent == nil && na.bAnc < 0 {
		return false
	}
	nb := m.node(b)
	if !nb.placed && nb.parent == nil && nb.bAnc < 0 {
		return false
	}
	a1, s1, e1 := m.boundOf(a)
	a2, s2, e2 := m.boundOf(b)
	_ = e2
	if a1 == a2 {
		return s1 >= 0 && s2 >= 0 && s1 != s2 || e1 && s2 >= 0
	}
	c := m.lca(a1, a2)
	if c != a1 && c != a2 {
		return true
	}
	if c == a1 {
		if e1 {
			return true // b is strictly below a
		}
		return s1 >= 0 && m.side(a1, a2) != s1
	}
	return false
}

// under records that the trie r, if it isn't empty, is at or under the place of
// the root of p.
func (m *M) under(r, p Ptr) Ptr {
	if n, q := m.node(r), m.node(p); r.obj != nil && n != nil && q != nil {
		n.below = append(n.below, q)
	}
	return r
}

// merge makes a and b the same node.
func (m *M) merge(a, b *Node) {
	a, b = m.rep(a), m.rep(b)
	if a == b {
		return
	}
	if a.kind != b.kind || a.placed && b.placed && a.pt != b.pt || a.actKnown && b.actKnown && a.active != b.active {
		m.infeasible()
	}
	for i := range a.facts {
		m.mergeFact(m.nodeFact(a, i), m.nodeFact(b, i), a.kind)
	}
	a, b = m.rep(a), m.rep(b)
	if a == b {
		return
	}
	// what holds for the parents is known below them
	irrA, okA := m.irrOf(a)
	irrB, okB := m.irrOf(b)
	if !a.placed && b.placed || a.parent == nil && a.bAnc < 0 && !a.placed {
		a, b = b, a
	} else if !a.placed && !b.placed && (b.parent != nil || b.bAnc >= 0) {
		// the tighter bound
		p, s, _ := m.boundOf(Ptr{obj: a.obj})
		q, t, _ := m.boundOf(Ptr{obj: b.obj})
		if p == q && s < 0 && t >= 0 || p != q && m.isAnc(p, q) {
			a, b = b, a
		}
	}
	b.same = a
	a.below = append(a.below, b.below...)
	if irr := irrA; okA || okB {
		if !okA || okB && irrB.has {
			irr = irrB
		}
		if a.attrs == nil {
			a.attrs = map[string]Value{}
		}
		a.attrs["irr"] = irr
	}
	if b.placed && !a.placed {
		m.setPlace(a, b.pt)
	}
	if b.actKnown && !a.actKnown {
		m.setActive(a, b.active)
	}
	if a.kind == kTable {
		switch {
		case a.data != nil && b.data != nil:
			m.mergeVal(a.data, b.data)
		case b.data != nil:
			a.data = b.data
		}
	}
	for c := range a.kids {
		if b.kids[c] == nil {
			continue
		}
		if a.kids[c] == nil {
			a.kids[c] = b.kids[c]
			continue
		}
		x, y := *a.kids[c], *b.kids[c]
		if (x.obj == nil) != (y.obj == nil) {
			m.infeasible()
		}
		if x.obj != nil {
			m.merge(x.obj.node, y.obj.node)
		}
	}
	for k, v := range b.attrs {
		if k == "irr" {
			continue
		}
		if a.attrs == nil {
			a.attrs = map[string]Value{}
		}
		if w, ok := a.attrs[k]; ok && w != v {
			if _, isb := v.(bool); isb {
				m.infeasible()
			}
		}
		a.attrs[k] = v
	}
	m.assumeLinEq(m.nodeSize(a), m.nodeSize(b))
}

func (m *M) mergeFact(a, b Fact, kind int) {
	if kind == kSet {
		if a.full != b.full || a.touch != b.touch {
			m.infeasible()
		}
		return
	}
	if m.wantBest() {
		a.at, b.at = a.best, b.best
	}
	if (a.at == nil) != (b.at == nil) {
		m.infeasible()
	}
	if a.at != nil {
		m.mergeVal(a.at, b.at)
	}
}

// mergeHeap identifies a symbolic node with a heap node.
func (m *M) mergeHeap(h Ptr, s *Node) {
	if m.ptOf(h) != m.place(s) || m.isActive(h) != m.act(s) {
		m.infeasible()
	}
	for i := range s.facts {
		m.mergeFact(m.fact(s.kind, h, i), m.nodeFact(s, i), s.kind)
	}
}

// settle evaluates what is still open about the nodes that were looked at.
func (m *M) settle() {
	for i := 0; i < len(m.nodes); i++ {
		n := m.rep(m.nodes[i])
		if !n.placed && !n.actKnown {
			continue
		}
		for g := range m.ghosts {
			m.nodeFact(n, g)
		}
		m.consistent(m.rep(n))
		m.irrPrune(m.rep(n))
	}
}

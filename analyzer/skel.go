package main

// The skeleton: which of the named bit strings (addresses and prefixes) are
// prefixes of one another, where they branch off, and on which side. It is a
// binary tree closed under "longest common prefix"; the depths of its points
// are variables of the zone.

import "fmt"

type point struct {
	parent int
	dir    int // side of the parent
	kids   [2]int
	zv     int
}

type tailFact struct {
	pt   int
	from Aff
	bit  int
}

type Skel struct {
	pts   []point
	root  int
	mixed []mixedFact
	tails []tailFact
}

// mixedFact: the bits of a point between two depths aren't all the given one.
type mixedFact struct {
	pt       int
	from, to Aff
	bit      int
}

func newSkel() *Skel { return &Skel{root: -1} }

func K(c int64) Aff { return Aff{C: c} }

func (a Aff) plus(c int64) Aff { a.C += c; return a }

func (m *M) depth(p int) Aff { return Aff{V: m.skel.pts[p].zv} }

// difference constraint a <= b as x_i - x_j <= c.
func leqParams(a, b Aff) (i, j int, c int64, ok bool) {
	if a.V == 0 {
		a.Neg = b.Neg
	}
	if b.V == 0 {
		b.Neg = a.Neg
	}
	if a.Neg != b.Neg {
		return 0, 0, 0, false
	}
	if a.Neg {
		return b.V, a.V, b.C - a.C, true
	}
	return a.V, b.V, b.C - a.C, true
}

func (m *M) assumeLeq(a, b Aff) {
	i, j, c, ok := leqParams(a, b)
	if !ok {
		return
	}
	if !m.zone.add(i, j, c) {
		m.infeasible()
	}
}

func (m *M) entLeq(a, b Aff) bool {
	i, j, c, ok := leqParams(a, b)
	return ok && m.zone.le(i, j, c)
}

func (m *M) canLeq(a, b Aff) bool {
	i, j, c, ok := leqParams(a, b)
	return !ok || m.zone.can(i, j, c)
}

// leq decides a <= b, splitting if necessary.
func (m *M) leq(a, b Aff) bool {
	if m.entLeq(a, b) {
		return true
	}
	if !m.canLeq(a, b) {
		return false
	}
	if m.choose(2, "") == 0 {
		m.assumeLeq(a, b)
		return true
	}
	m.assumeLeq(b.plus(1), a)
	return false
}

func (m *M) lt(a, b Aff) bool { return m.leq(a.plus(1), b) }

func (m *M) entEq(a, b Aff) bool { return m.entLeq(a, b) && m.entLeq(b, a) }

func (m *M) affEq(a, b Aff) bool {
	if !m.leq(a, b) {
		return false
	}
	return m.leq(b, a)
}

// newPoint adds a point below parent on side dir (which must be free).
func (m *M) newPoint(parent, dir int) int {
	s := m.skel
	zv := m.zone.newVar()
	id := len(s.pts)
	s.pts = append(s.pts, point{parent: parent, dir: dir, kids: [2]int{-1, -1}, zv: zv})
	m.assumeLeq(K(0), Aff{V: zv})
	m.assumeLeq(Aff{V: zv}, K(m.W))
	if parent >= 0 {
		if s.pts[parent].kids[dir] >= 0 {
			panic("newPoint: slot taken")
		}
		s.pts[parent].kids[dir] = id
		m.assumeLeq(m.depth(parent).plus(1), Aff{V: zv})
	} else {
		s.root = id
	}
	m.tailCheck(id)
	return id
}

// tailCheck re-checks facts about all-zero or all-one tails on the path to
// each such address after the skeleton changed.
func (m *M) tailCheck(_ int) {
	for i := range m.skel.tails {
		m.tailCheck1(m.skel.tails[i])
	}
}

func (m *M) tailCheck1(t tailFact) {
	s := m.skel
	for c := t.pt; s.pts[c].parent >= 0; c = s.pts[c].parent {
		if s.pts[c].dir == t.bit {
			continue
		}
		// The bit at the depth of the parent is not t.bit.
		m.assumeLeq(m.depth(s.pts[c].parent).plus(1), t.from)
	}
}

func (m *M) addTail(p int, from Aff, bit int) {
	t := tailFact{p, from, bit}
	for _, x := range m.skel.mixed {
		if x.bit == bit && (m.isAnc(x.pt, p) || m.isAnc(p, x.pt)) && m.entLeq(from, x.from) && m.entLeq(x.to, m.depth(p)) {
			m.infeasible()
		}
	}
	m.skel.tails = append(m.skel.tails, t)
	m.tailCheck1(t)
}

// splitEdge inserts a new point on the edge above q (above the root if q is
// the root) and returns it.
func (m *M) splitEdge(q int) int {
	s := m.skel
	par := s.pts[q].parent
	zv := m.zone.newVar()
	id := len(s.pts)
	dir := s.pts[q].dir
	s.pts = append(s.pts, point{parent: par, dir: dir, kids: [2]int{-1, -1}, zv: zv})
	m.assumeLeq(K(0), Aff{V: zv})
	m.assumeLeq(Aff{V: zv}.plus(1), m.depth(q))
	if par >= 0 {
		s.pts[par].kids[dir] = id
		m.assumeLeq(m.depth(par).plus(1), Aff{V: zv})
	} else {
		s.root = id
	}
	side := m.choose(2, "side")
	s.pts[id].kids[side] = q
	s.pts[q].parent = id
	s.pts[q].dir = side
	m.tailCheck(id)
	return id
}

func (m *M) edgeRoom(q int) bool {
	par := m.skel.pts[q].parent
	if par < 0 {
		return m.canLeq(K(1), m.depth(q))
	}
	return m.canLeq(m.depth(par).plus(2), m.depth(q))
}

func (m *M) isLeaf(p int) bool { return m.entLeq(K(m.W), m.depth(p)) }

// placeUnder places an arbitrary bit string that extends p on side dir.
func (m *M) placeUnder(p, dir int) int {
	q := m.skel.pts[p].kids[dir]
	if q < 0 {
		return m.newPoint(p, dir)
	}
	return m.placeAt(q)
}

// placeAt places an arbitrary bit string that leaves the parent of q on the
// side of q (anywhere if q is the root).
func (m *M) placeAt(q int) int {
	opts := []int{0}
	if m.canLeq(m.depth(q), K(m.W-1)) {
		opts = append(opts, 1, 2)
	}
	if m.edgeRoom(q) {
		opts = append(opts, 3, 4)
	}
	switch opts[m.choose(len(opts), "place")] {
	case 0:
		return q
	case 1:
		return m.placeUnder(q, 0)
	case 2:
		return m.placeUnder(q, 1)
	case 3:
		return m.splitEdge(q)
	default:
		b := m.splitEdge(q)
		side := 0
		if m.skel.pts[b].kids[0] >= 0 {
			side = 1
		}
		return m.newPoint(b, side)
	}
}

// placeAny places an arbitrary bit string.
func (m *M) placeAny() int {
	if m.skel.root < 0 {
		return m.newPoint(-1, 0)
	}
	return m.placeAt(m.skel.root)
}

// placeAtOrUnder places an arbitrary bit string that p is a prefix of.
func (m *M) placeAtOrUnder(p int) int {
	switch m.choose(3, "at/under") {
	case 0:
		return p
	case 1:
		return m.placeUnder(p, 0)
	}
	return m.placeUnder(p, 1)
}

func (m *M) setLeaf(p int) int {
	m.assumeLeq(K(m.W), m.depth(p))
	return p
}

// placeLeaf places an arbitrary address.
func (m *M) placeLeaf() int {
	if m.skel.root < 0 {
		return m.setLeaf(m.newPoint(-1, 0))
	}
	return m.placeLeafAt(m.skel.root)
}

// placeLeafAt is placeAt for an address: there is nothing below it.
func (m *M) placeLeafAt(q int) int {
	opts := []int{}
	if m.canLeq(K(m.W), m.depth(q)) {
		opts = append(opts, 0)
	}
	if m.canLeq(m.depth(q), K(m.W-1)) {
		opts = append(opts, 1, 2)
	}
	if m.edgeRoom(q) {
		opts = append(opts, 4)
	}
	switch opts[m.choose(len(opts), "leaf")] {
	case 0:
		return m.setLeaf(q)
	case 1:
		return m.placeLeafUnder(q, 0)
	case 2:
		return m.placeLeafUnder(q, 1)
	default:
		b := m.splitEdge(q)
		side := 0
		if m.skel.pts[b].kids[0] >= 0 {
			side = 1
		}
		return m.setLeaf(m.newPoint(b, side))
	}
}

func (m *M) placeLeafUnder(p, dir int) int {
	q := m.skel.pts[p].kids[dir]
	if q < 0 {
		return m.setLeaf(m.newPoint(p, dir))
	}
	return m.placeLeafAt(q)
}

// placeLeafAtOrUnder places an address that p is a prefix of.
func (m *M) placeLeafAtOrUnder(p int) int {
	if m.canLeq(K(m.W), m.depth(p)) {
		if m.leq(K(m.W), m.depth(p)) {
			return p
		}
	}
	return m.placeLeafUnder(p, m.choose(2, "leafdir"))
}

// exactBelow returns the point exactly one bit below p on side dir.
func (m *M) exactBelow(p, dir int) int {
	q := m.skel.pts[p].kids[dir]
	d := m.depth(p).plus(1)
	if q < 0 {
		q = m.newPoint(p, dir)
		m.assumeLeq(m.depth(q), d)
		return q
	}
	if m.leq(m.depth(q), d) {
		return q
	}
	r := m.splitEdge(q)
	m.assumeLeq(m.depth(r), d)
	return r
}

// ancestorAt returns the prefix of p of length d (0 <= d <= depth(p) must be
// established by the caller).
func (m *M) ancestorAt(p int, d Aff) int {
	s := m.skel
	c := p
	if !m.leq(d, m.depth(p)) {
		m.undecided("more bits are used than the prefix determines")
	}
	for {
		if m.affEq(m.depth(c), d) {
			return c
		}
		// depth(c) > d here
		par := s.pts[c].parent
		if par < 0 || m.lt(m.depth(par), d) {
			r := m.splitEdge(c)
			m.assumeLeq(m.depth(r), d)
			m.assumeLeq(d, m.depth(r))
			return r
		}
		c = par
	}
}

func (m *M) isAnc(p, q int) bool { // p is a prefix of q, or q itself
	for ; q >= 0; q = m.skel.pts[q].parent {
		if p == q {
			return true
		}
	}
	return false
}

func (m *M) lca(p, q int) int {
	for c := p; c >= 0; c = m.skel.pts[c].parent {
		if m.isAnc(c, q) {
			return c
		}
	}
	panic("lca: not one tree")
}

// side returns the side of p on which its extension q lies.
func (m *M) side(p, q int) int {
	for c := q; c >= 0; c = m.skel.pts[c].parent {
		if m.skel.pts[c].parent == p {
			return m.skel.pts[c].dir
		}
	}
	panic(fmt.Sprintf("side: %d is not below %d", q, p))
}

// lexLess: p comes before q in lexicographical order (containing first).
func (m *M) lexLess(p, q int) bool {
	if p == q {
		return false
	}
	c := m.lca(p, q)
	if c == p {
		return true
	}
	if c == q {
		return false
	}
	return m.side(c, p) < m.side(c, q)
}

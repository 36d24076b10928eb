package main

// Words: addresses and masks as sequences of bit segments whose boundaries are
// affine in the zone's depths.

import (
	"fmt"
	"strings"
)

const (
	sZero = 'Z'
	sOne  = 'O'
	sSrc  = 'S' // the bits of a point of the skeleton
	sNot  = 'N' // their complement
	sUnk  = 'U' // unknown bits
	sShf  = 'H' // the bits of a point, moved: at position d is the one of d-off
	sNShf = 'G' // their complement
)

type Seg struct {
	k   byte
	pt  int
	end Aff // exclusive; the start is the end of the previous segment
	off Aff
}

func flipSeg(s Seg) Seg {
	switch s.k {
	case sZero:
		s.k = sOne
	case sOne:
		s.k = sZero
	case sSrc:
		s.k = sNot
	case sNot:
		s.k = sSrc
	case sShf:
		s.k = sNShf
	case sNShf:
		s.k = sShf
	}
	return s
}

type Word struct {
	segs  []Seg
	base  int64
	width int64
}

func (w *Word) String() string {
	var b strings.Builder
	b.WriteString("w<")
	for _, s := range w.segs {
		b.WriteByte(s.k)
		if s.k == sSrc || s.k == sNot {
			fmt.Fprint(&b, s.pt)
		}
		b.WriteString(":" + vstr(s.end) + " ")
	}
	return b.String() + ">"
}

func (w *Word) lo() Aff { return K(w.base) }
func (w *Word) hi() Aff { return K(w.base + w.width) }

// leafWord is the address named by point p, zero bits after its depth.
func (m *M) ptWord(p int) *Word {
	w := &Word{base: 0, width: m.W}
	w.segs = append(w.segs, Seg{k: sSrc, pt: p, end: m.depth(p)}, Seg{k: sZero, end: K(m.W)})
	return m.norm(w)
}

func (m *M) ptOnes(p int) *Word {
	w := &Word{base: 0, width: m.W}
	w.segs = append(w.segs, Seg{k: sSrc, pt: p, end: m.depth(p)}, Seg{k: sOne, end: K(m.W)})
	return m.norm(w)
}

// ptJunk has unknown bits after the depth of p.
func (m *M) ptJunk(p int) *Word {
	w := &Word{base: 0, width: m.W}
	w.segs = append(w.segs, Seg{k: sSrc, pt: p, end: m.depth(p)}, Seg{k: sUnk, end: K(m.W)})
	return m.norm(w)
}

func (m *M) constWord(v uint64, base, width int64) *Word {
	w := &Word{base: base, width: width}
	for i := int64(0); i < width; i++ {
		k := byte(sZero)
		if v>>(uint(width-1-i))&1 == 1 {
			k = sOne
		}
		w.segs = append(w.segs, Seg{k: k, end: K(base + i + 1)})
	}
	return m.norm(w)
}

func constWord128(hi, lo uint64) *Word {
	w := &Word{width: 128}
	for i := int64(0); i < 128; i++ {
		k := byte(sZero)
		v, s := hi, uint(63-i)
		if i >= 64 {
			v, s = lo, uint(127-i)
		}
		if v>>s&1 == 1 {
			k = sOne
		}
		if n := len(w.segs); n > 0 && w.segs[n-1].k == k {
			w.segs[n-1].end = K(i + 1)
		} else {
			w.segs = append(w.segs, Seg{k: k, end: K(i + 1)})
		}
	}
	return w
}

func (m *M) norm(w *Word) *Word {
	r := &Word{base: w.base, width: w.width}
	start := w.lo()
	for _, s := range w.segs {
		if m.entLeq(s.end, start) {
			continue
		}
		if n := len(r.segs); n > 0 && r.segs[n-1].k == s.k && (s.k == sZero || s.k == sOne || s.k == sUnk || r.segs[n-1].pt == s.pt && r.segs[n-1].off == s.off) {
			r.segs[n-1].end = s.end
		} else {
			r.segs = append(r.segs, s)
		}
		start = s.end
	}
	return r
}

// combine walks the aligned segments of two words.
func (m *M) combine(a, b *Word, f func(x, y Seg, lo, hi Aff) []Seg) *Word {
	if a.base != b.base || a.width != b.width {
		m.undecided("operation on words of different position")
	}
	r := &Word{base: a.base, width: a.width}
	i, j := 0, 0
	lo := a.lo()
	for i < len(a.segs) && j < len(b.segs) {
		x, y := a.segs[i], b.segs[j]
		var hi Aff
		switch {
		case x.end == y.end || m.entEq(x.end, y.end):
			hi = x.end
			i++
			j++
		case m.leq(x.end, y.end):
			hi = x.end
			i++
			if m.entLeq(y.end, x.end) {
				j++
			}
		default:
			hi = y.end
			j++
		}
		if m.entLeq(hi, lo) {
			continue
		}
		r.segs = append(r.segs, f(x, y, lo, hi)...)
		lo = hi
	}
	return m.norm(r)
}

// agree reports whether points p and q name the same bits up to hi.
func (m *M) agree(p, q int, hi Aff) bool {
	c := m.lca(p, q)
	if c == p || c == q {
		return true
	}
	return m.leq(hi, m.depth(c))
}

func (m *M) wAnd(a, b *Word) *Word {
	return m.combine(a, b, func(x, y Seg, lo, hi Aff) []Seg {
		if x.k == sZero || y.k == sZero {
			return []Seg{{k: sZero, end: hi}}
		}
		x.end, y.end = hi, hi
		if x.k == sOne {
			return []Seg{y}
		}
		if y.k == sOne {
			return []Seg{x}
		}
		if x.k == y.k && (x.k == sSrc || x.k == sNot) && m.agree(x.pt, y.pt, hi) {
			return []Seg{x}
		}
		if (x.k == sSrc && y.k == sNot || x.k == sNot && y.k == sSrc) && m.agree(x.pt, y.pt, hi) {
			return []Seg{{k: sZero, end: hi}}
		}
		return []Seg{{k: sUnk, end: hi}}
	})
}

func (m *M) wNot(a *Word) *Word {
	r := &Word{base: a.base, width: a.width}
	for _, s := range a.segs {
		r.segs = append(r.segs, flipSeg(s))
	}
	return r
}

func (m *M) wOr(a, b *Word) *Word { return m.wNot(m.wAnd(m.wNot(a), m.wNot(b))) }

func (m *M) wXor(a, b *Word) *Word {
	return m.combine(a, b, func(x, y Seg, lo, hi Aff) []Seg {
		x.end, y.end = hi, hi
		switch {
		case x.k == sZero:
			return []Seg{y}
		case y.k == sZero:
			return []Seg{x}
		case x.k == sOne:
			return []Seg{flipSeg(y)}
		case y.k == sOne:
			return []Seg{flipSeg(x)}
		case (x.k == sSrc || x.k == sNot) && (y.k == sSrc || y.k == sNot):
			z, o := byte(sZero), byte(sOne)
			if x.k != y.k {
				z, o = o, z
			}
			c := m.lca(x.pt, y.pt)
			if c == x.pt || c == y.pt {
				return []Seg{{k: z, end: hi}}
			}
			md := m.depth(c)
			if m.leq(hi, md) {
				return []Seg{{k: z, end: hi}}
			}
			if m.lt(md, lo) {
				return []Seg{{k: sUnk, end: hi}}
			}
			return []Seg{{k: z, end: md}, {k: o, end: md.plus(1)}, {k: sUnk, end: hi}}
		}
		return []Seg{{k: sUnk, end: hi}}
	})
}

func (m *M) wAndNot(a, b *Word) *Word { return m.wAnd(a, m.wNot(b)) }

func affSum(a, b Aff, sb int64) (Aff, bool) {
	if sb < 0 {
		b.C = -b.C
		if b.V != 0 {
			b.Neg = !b.Neg
		}
	}
	switch {
	case b.V == 0:
		a.C += b.C
		return a, true
	case a.V == 0:
		b.C += a.C
		return b, true
	case a.V == b.V && a.Neg != b.Neg:
		return Aff{C: a.C + b.C}, true
	}
	return Aff{}, false
}

// shift moves the bits of w by s positions to the right (towards the end) or
// left.
func (m *M) wShift(w *Word, s Aff, right bool) *Word {
	if m.entEq(s, K(0)) {
		return w
	}
	if m.leq(K(w.width), s) {
		return &Word{base: w.base, width: w.width, segs: []Seg{{k: sZero, end: w.hi()}}}
	}
	if !m.entLeq(K(1), s) && m.affEq(s, K(0)) {
		return w
	}
	// at[d] moves to d+s (d-s)
	off := s
	if !right {
		off = Aff{V: s.V, Neg: s.V != 0 && !s.Neg, C: -s.C}
	}
	r := &Word{base: w.base, width: w.width}
	prev := w.lo()
	add := func(g Seg, e Aff) {
		g.end = e
		r.segs = append(r.segs, g)
		prev = e
	}
	if right {
		z := m.moved(w.lo(), off, w.lo().plus(1), w.hi().plus(-1))
		add(Seg{k: sZero}, z)
	}
	for _, g := range w.segs {
		if right {
			// does it reach the end?
			lim, ok := affSum(w.hi(), s, -1)
			if !ok {
				lim = mustSum(m, w.hi(), s, -1)
			}
			end := m.leq(lim, g.end)
			m.moveSeg(&g, off)
			if end {
				add(g, w.hi())
				break
			}
			add(g, m.moved(g.end, off, prev, w.hi().plus(-1)))
			continue
		}
		if m.leq(g.end, mustSum(m, w.lo(), s, 1)) {
			continue // all of it is gone
		}
		e := m.moved(g.end, off, prev, g.end.plus(-1))
		m.moveSeg(&g, off)
		add(g, e)
	}
	if !right {
		r.segs = append(r.segs, Seg{k: sZero, end: w.hi()})
	}
	return m.norm(r)
}

// moved is a+off, which is between lo and hi: a new variable where that isn't
// affine.
func (m *M) moved(a, off, lo, hi Aff) Aff {
	if r, ok := affSum(a, off, 1); ok {
		return r
	}
	v := Aff{V: m.zone.newVar()}
	m.assumeLeq(lo, v)
	m.assumeLeq(v, hi)
	return v
}

// moveSeg: the bits are no longer at their own positions.
func (m *M) moveSeg(g *Seg, off Aff) {
	switch g.k {
	case sSrc:
		g.k, g.off = sShf, off
	case sNot:
		g.k, g.off = sNShf, off
	case sShf, sNShf:
		o, ok := affSum(g.off, off, 1)
		if !ok {
			g.k, g.pt, g.off = sUnk, 0, Aff{}
			return
		}
		g.off = o
		if o == K(0) {
			g.off = Aff{}
			if g.k == sShf {
				g.k = sSrc
			} else {
				g.k = sNot
			}
		}
	}
}

func mustSum(m *M, a, b Aff, sb int64) Aff {
	r, ok := affSum(a, b, sb)
	if ok {
		return r
	}
	// use a fresh variable when the sum isn't affine in one variable
	m.undecided("a shift whose result isn't affine")
	return Aff{}
}

// bitAt is the bit of point p at depth d.
func (m *M) bitAt(p int, d Aff) int {
	a := m.ancestorAt(p, d)
	if a == p {
		m.undecided("a bit beyond the end of a prefix")
	}
	return m.side(a, p)
}

// segIs decides whether the segment [lo,hi) consists of the given bit only.
// It returns 1 yes, 0 no, and splits if necessary.
func (m *M) segIs(s Seg, lo, hi Aff, bit int) bool {
	if m.leq(hi, lo) {
		return true
	}
	switch s.k {
	case sZero:
		return bit == 0
	case sOne:
		return bit == 1
	case sSrc, sNot:
		b := bit
		if s.k == sNot {
			b = 1 - b
		}
		if m.entLeq(hi, lo.plus(1)) {
			return m.bitAt(s.pt, lo) == b
		}
		// an existing branching on the way may decide
		if d := m.pathHas(s.pt, lo, hi, 1-b); d {
			return false
		}
		// known runs of equal bits
		for _, t := range m.skel.tails {
			if t.bit == b && (m.isAnc(s.pt, t.pt) || m.isAnc(t.pt, s.pt)) && m.entLeq(t.from, lo) && m.entLeq(hi, m.depth(t.pt)) {
				return true
			}
		}
		for _, t := range m.skel.mixed {
			if t.pt == s.pt && t.bit == b && m.entLeq(lo, t.from) && m.entLeq(t.to, hi) {
				return false
			}
		}
		yes := m.choose(2, "seg") == 0
		switch {
		case !yes:
			m.skel.mixed = append(m.skel.mixed, mixedFact{s.pt, lo, hi, b})
		case m.entEq(hi, m.depth(s.pt)):
			m.addTail(s.pt, lo, b)
		}
		return yes
	case sShf, sNShf:
		l, ok1 := affSum(lo, s.off, -1)
		h, ok2 := affSum(hi, s.off, -1)
		if !ok2 && m.entLeq(hi, lo.plus(1)) {
			h, ok2 = l.plus(1), ok1
		}
		if ok1 && ok2 {
			k := byte(sSrc)
			if s.k == sNShf {
				k = sNot
			}
			return m.segIs(Seg{k: k, pt: s.pt, end: h}, l, h, bit)
		}
		return m.split(2, "seg?", "bits that were moved") == 0
	}
	return m.choose(2, "seg?") == 0
}

// pathHas reports whether the known path to p surely has the bit in [lo,hi).
func (m *M) pathHas(p int, lo, hi Aff, bit int) bool {
	s := m.skel
	for c := p; s.pts[c].parent >= 0; c = s.pts[c].parent {
		par := s.pts[c].parent
		if s.pts[c].dir == bit && m.entLeq(lo, m.depth(par)) && m.entLeq(m.depth(par).plus(1), hi) {
			return true
		}
	}
	return false
}

// wEq decides equality of two words.
func (m *M) wEq(a, b *Word) bool {
	if a == b {
		return true
	}
	eq := true
	undec, moved := false, false
	type dec struct {
		s      Seg
		lo, hi Aff
		bit    int
	}
	var later []dec
	m.combine(a, b, func(x, y Seg, lo, hi Aff) []Seg {
		if !eq {
			return nil
		}
		zo := func(s Seg) (int, bool) {
			if s.k == sZero {
				return 0, true
			}
			if s.k == sOne {
				return 1, true
			}
			return 0, false
		}
		xb, xk := zo(x)
		yb, yk := zo(y)
		switch {
		case xk && yk:
			if xb != yb && m.lt(lo, hi) {
				eq = false
			}
		case xk:
			later = append(later, dec{y, lo, hi, xb})
		case yk:
			later = append(later, dec{x, lo, hi, yb})
		case x.k == y.k && (x.k == sSrc || x.k == sNot):
			if !m.agree(x.pt, y.pt, hi) {
				// they may still agree on [lo,hi) if they differ earlier
				c := m.depth(m.lca(x.pt, y.pt))
				if m.leq(lo, c) {
					eq = false
				} else {
					undec = true
				}
			}
		default:
			undec = true
			moved = moved || x.k != sUnk && y.k != sUnk
		}
		return nil
	})
	if !eq {
		return false
	}
	for _, d := range later {
		if !m.segIs(d.s, d.lo, d.hi, d.bit) {
			return false
		}
	}
	if undec {
		if moved {
			return m.split(2, "weq", "a comparison of moved bits") == 0
		}
		return m.choose(2, "weq") == 0
	}
	return true
}

// wCmp compares two words as numbers.
func (m *M) wCmp(a, b *Word) int {
	res := 0
	done := false
	m.combine(a, b, func(x, y Seg, lo, hi Aff) []Seg {
		if done {
			return nil
		}
		set := func(r int) { res, done = r, true }
		val := func(s Seg) int {
			switch s.k {
			case sZero:
				return 0
			case sOne:
				return 1
			}
			return -1
		}
		xv, yv := val(x), val(y)
		switch {
		case xv >= 0 && yv >= 0:
			if xv != yv && m.lt(lo, hi) {
				set(xv - yv)
			}
		case x.k == sSrc && y.k == sSrc:
			if m.agree(x.pt, y.pt, hi) {
				return nil
			}
			c := m.lca(x.pt, y.pt)
			if m.leq(lo, m.depth(c)) {
				set(m.side(c, x.pt) - m.side(c, y.pt))
				return nil
			}
			set(m.choose(3, "wcmp") - 1)
			if res == 0 {
				done = false
			}
		case xv >= 0 || yv >= 0:
			// against a constant run
			s, bit, sg := x, yv, 1
			if xv >= 0 {
				s, bit, sg = y, xv, -1
			}
			if m.segIs(s, lo, hi, bit) {
				return nil
			}
			if bit == 0 {
				set(sg) // the other one has a one bit somewhere
			} else {
				set(-sg)
			}
		default:
			if x.k != sUnk && y.k != sUnk {
				m.taint("a comparison of moved bits")
			}
			r := m.choose(3, "wcmp") - 1
			if r != 0 {
				set(r)
			}
		}
		return nil
	})
	return res
}

func (m *M) leadingZeros(w *Word) Value {
	lo := w.lo()
	for _, s := range w.segs {
		if s.k == sZero {
			lo = s.end
			continue
		}
		if !m.lt(lo, s.end) {
			continue
		}
		if s.k == sOne {
			return Aff{V: lo.V, Neg: lo.Neg, C: lo.C - w.base}
		}
		// Somewhere from here on.
		v := Aff{V: m.zone.newVar()}
		m.assumeLeq(lo.plus(-w.base), v)
		m.assumeLeq(v, K(w.width))
		return v
	}
	return K(w.width)
}

// wAdd adds words that have no one bits in common.
func (m *M) wAdd(a, b *Word) (*Word, bool) {
	if !isZeroWord(m.wAnd(a, b)) {
		return nil, false
	}
	return m.wOr(a, b), true
}

// wSub subtracts a word whose one bits are among those of the other.
func (m *M) wSub(a, b *Word) (*Word, bool) {
	if !isZeroWord(m.wAndNot(b, a)) {
		return nil, false
	}
	return m.wXor(a, b), true
}

func isZeroWord(w *Word) bool {
	for _, s := range w.segs {
		if s.k != sZero {
			return false
		}
	}
	return true
}

// fixBits decides the single bits of a word that aren't constant.
func (m *M) fixBits(w *Word) *Word {
	r := &Word{base: w.base, width: w.width}
	lo := w.lo()
	for _, s := range w.segs {
		if s.k != sZero && s.k != sOne && s.k != sUnk && m.entLeq(s.end, lo.plus(1)) {
			k := byte(sZero)
			if m.segIs(s, lo, s.end, 1) {
				k = sOne
			}
			s = Seg{k: k, end: s.end}
		}
		r.segs = append(r.segs, s)
		lo = s.end
	}
	return m.norm(r)
}

// wAddConst adds a small constant.
func (m *M) wAddConst(w *Word, c int64) *Word {
	switch c {
	case 0:
		return w
	case 1, -1:
		// ... 1 0 0 0 -> ... 0 1 1 1, or the other way round
		skip, stop, dir := byte(sZero), byte(sOne), 1
		if c == 1 {
			skip, stop, dir = sOne, sZero, 0
		}
		start := func(i int) Aff {
			if i == 0 {
				return w.lo()
			}
			return w.segs[i-1].end
		}
		i := len(w.segs) - 1
		for i >= 0 && (w.segs[i].k == skip || w.segs[i].k == stop && !m.lt(start(i), w.segs[i].end)) {
			i--
		}
		if i < 0 { // wraps around
			return &Word{base: w.base, width: w.width, segs: []Seg{{k: stop, end: w.hi()}}}
		}
		r := &Word{base: w.base, width: w.width}
		r.segs = append(r.segs, w.segs[:i]...)
		last := w.segs[i]
		if last.k == stop {
			r.segs = append(r.segs, Seg{k: stop, end: last.end.plus(-1)}, Seg{k: skip, end: last.end}, Seg{k: stop, end: w.hi()})
			return m.norm(r)
		}
		if last.k == sSrc && m.entLeq(m.depth(last.pt), last.end) && m.entLeq(last.end, m.depth(last.pt)) {
			// a point on that side of a known parent, exactly one below
			p := m.skel.pts[last.pt]
			if p.parent >= 0 && p.dir == dir && m.entLeq(m.depth(last.pt), m.depth(p.parent).plus(1)) {
				r.segs = append(r.segs, Seg{k: sSrc, pt: p.parent, end: m.depth(p.parent)}, Seg{k: skip, end: last.end}, Seg{k: stop, end: w.hi()})
				return m.norm(r)
			}
		}
	}
	m.undecided("addition of %d to %s", c, w)
	return nil
}

// wordPoint returns the point named by the first n bits of w.
func (m *M) wordPoint(w *Word, n Aff) (int, bool) {
	lo := K(0)
	cur := -1
	if m.entLeq(n, K(0)) && !(len(w.segs) > 0 && w.segs[0].k == sSrc) {
		if r := m.skel.root; r >= 0 {
			return m.ancestorAt(r, K(0)), true
		}
		r := m.placeAny()
		m.assumeLeq(m.depth(r), K(0))
		return r, true
	}
	for _, s := range w.segs {
		if cur >= 0 && m.leq(n, lo) {
			break
		}
		if cur < 0 && s.k == sSrc {
			if m.leq(n, s.end) {
				return m.ancestorAt(s.pt, n), true
			}
			cur = m.ancestorAt(s.pt, s.end)
			lo = s.end
			continue
		}
		if m.entLeq(s.end, lo) {
			continue
		}
		hi := s.end
		if m.leq(n, hi) {
			hi = n
		}
		if s.k != sZero && s.k != sOne {
			return 0, false
		}
		bit := 0
		if s.k == sOne {
			bit = 1
		}
		if cur < 0 {
			var ok bool
			if cur, ok = m.rootRun(bit, hi, hi); !ok {
				return 0, false
			}
			lo = hi
			continue
		}
		// a run of equal bits below cur
		if m.entLeq(hi, lo.plus(1)) {
			cur = m.exactBelow(cur, bit)
		} else {
			cur = m.runBelow(cur, bit, hi)
		}
		lo = hi
	}
	if cur < 0 {
		return 0, false
	}
	return cur, true
}

// runBelow returns the point at depth hi below cur along bit.
func (m *M) runBelow(cur, bit int, hi Aff) int {
	from := m.depth(cur)
	q := m.skel.pts[cur].kids[bit]
	if q < 0 {
		r := m.newPoint(cur, bit)
		m.assumeLeq(m.depth(r), hi)
		m.assumeLeq(hi, m.depth(r))
		m.addTail(r, from, bit)
		return r
	}
	// Place it like any other point, then restrict.
	r := m.placeUnder(cur, bit)
	m.assumeLeq(m.depth(r), hi)
	m.assumeLeq(hi, m.depth(r))
	m.addTail(r, from, bit)
	return r
}

// rootRun returns the point named by n equal bits from the start.
func (m *M) rootRun(bit int, n, hi Aff) (int, bool) {
	if !m.entLeq(n, hi) {
		return 0, false
	}
	r := m.placeAny()
	m.assumeLeq(m.depth(r), n)
	m.assumeLeq(n, m.depth(r))
	m.addTail(r, K(0), bit)
	return r, true
}

// wordLin is the numeric value of a word made of runs of known bits.
func (m *M) wordLin(w *Word) (Lin, bool) {
	var r Lin
	lo := w.lo()
	for _, s := range w.segs {
		switch s.k {
		case sZero:
		case sOne:
			a, ok1 := affSum(w.hi(), lo, -1)
			b, ok2 := affSum(w.hi(), s.end, -1)
			if !ok1 || !ok2 {
				return Lin{}, false
			}
			if m.entLeq(s.end, lo.plus(1)) {
				r = linAdd(r, m.pow2(b), 1)
			} else {
				r = linAdd(linAdd(r, m.pow2(a), 1), m.pow2(b), -1)
			}
		default:
			return Lin{}, false
		}
		lo = s.end
	}
	return r, true
}

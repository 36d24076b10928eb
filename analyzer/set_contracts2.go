package main

// Contracts of the remaining functions over sets.

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// kindOf tells whether a trie is used as a set or as a table.
func (m *M) kindOf(ps ...Ptr) int {
	for _, p := range ps {
		if n := m.node(p); n != nil {
			return n.kind
		}
	}
	if k, ok := m.extra["kind"].(int); ok {
		return k
	}
	return kSet
}

// ---- Equal ----

type equalContract struct{ kind int }

func eqTrue() *Fn {
	return &Fn{name: "always equal", impl: func(m *M, args []Value) Value { return true }}
}

// eqUser is the comparison of a table.
func eqUser() *Fn {
	return &Fn{name: "comparison", impl: func(m *M, args []Value) Value {
		return m.eqVals(args[0], args[1])
	}}
}

func (c *equalContract) args(m *M, fn *ssa.Function, a, b Ptr) []Value {
	args := []Value{a, b}
	if len(fn.Params) == 3 {
		if m.extra["kind"].(int) == kSet {
			args = append(args, eqTrue())
		} else {
			args = append(args, eqUser())
		}
	}
	return args
}

func (c *equalContract) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	var obs []*Obligation
	for _, kind := range []int{kSet, kTable} {
		kind := kind
		kn := []string{"set", "table"}[kind]
		if kind == kTable && !strings.HasPrefix(name, "trieNode") {
			continue
		}
		if kind == kSet && strings.HasPrefix(name, "trieNode") {
			kn = "set"
		}
		obs = append(obs, &Obligation{id: fam.name + "/" + name + "/" + kn + "/true", fam: fam, top: fn,
			desc: "if the result is true then both agree about an arbitrary key",
			run: func(m *M) {
				m.extra["kind"] = kind
				if kind == kSet {
					m.addGhostLeaf("x")
				} else {
					m.addGhostKey("k")
				}
				a, b := m.anyTrie(kind, "me"), m.anyTrie(kind, "other")
				m.setRank(a, b)
				if !m.truth(m.exec(fn, c.args(m, fn, a, b), nil)) {
					return
				}
				x, y := m.fact(kind, a, 0), m.fact(kind, b, 0)
				if kind == kSet {
					m.check(x.full == y.full, "value", "true although an address is only in one of the sets")
					return
				}
				m.check((x.at == nil) == (y.at == nil), "value", "true although a prefix is only in one of the tables")
				m.check(x.at == nil || m.eqVals(x.at, y.at), "value", "true although the values of a prefix aren't equal")
			}})
		obs = append(obs, &Obligation{id: fam.name + "/" + name + "/" + kn + "/false", fam: fam, top: fn,
			desc: "if both have the same contents then the result is true",
			run: func(m *M) {
				m.extra["kind"] = kind
				a := m.anyTrie(kind, "me")
				b := a
				if a.obj != nil && m.choose(2, "same object") == 1 {
					b = m.anyNode(kind, "other")
					m.twins(a.obj.node, b.obj.node)
				}
				m.setRank(a, b)
				r := m.truth(m.exec(fn, c.args(m, fn, a, b), nil))
				m.check(r, "value", "false although both have the same contents")
			}})
	}
	return obs
}

// twins: two tries of the same contents (so, by their canonical form, of the
// same shape).
func (m *M) twins(a, b *Node) {
	a.twin, b.twin = b, a
	// the same contents take the same shape
	b.size, b.sizeLin = a.size, a.sizeLin
	if sa, ok := a.obj.val.(Struct); ok {
		if sb, ok := b.obj.val.(Struct); ok {
			sb[m.fam.fSize], sb[m.fam.fH] = sa[m.fam.fSize], sa[m.fam.fH]
		}
	}
	switch {
	case a.placed && !b.placed:
		m.setPlace(b, a.pt)
	case b.placed && !a.placed:
		m.setPlace(a, b.pt)
	}
	switch {
	case a.actKnown && !b.actKnown:
		m.setActive(b, a.active)
	case b.actKnown && !a.actKnown:
		m.setActive(a, b.active)
	}
}

func (c *equalContract) Apply(m *M, fn *ssa.Function, args []Value) Value {
	a0, b0 := m.nodePtr(args[0], "the receiver of Equal"), m.nodePtr(args[1], "the argument of Equal")
	kind := m.kindOf(a0, b0)
	a, b := m.argTrie(kind, a0, "the receiver of Equal"), m.argTrie(kind, b0, "the argument of Equal")
	m.checkRank(fn, []Aff{m.rankOf(a), m.rankOf(b)})
	if a.obj == nil || b.obj == nil {
		if kind == kSet && a.obj != b.obj {
			if a.obj != nil {
				m.witnessIn(a)
			} else {
				m.witnessIn(b)
			}
		}
		return a.obj == nil && b.obj == nil
	}
	na, nb := m.node(a), m.node(b)
	if a.obj == b.obj || na != nil && (na == nb || nb != nil && na.twin != nil && m.rep(na.twin) == nb) {
		return true
	}
	m.related = true
	if m.choose(2, "Equal") == 0 {
		if hyp, ok := m.extra["witness"].(func(m *M, i int)); ok && kind == kSet {
			i := m.newGhost(m.placeLeaf())
			if m.setFact(a, i) == m.setFact(b, i) {
				m.infeasible()
			}
			hyp(m, i)
		}
		return false
	}
	for i := range m.ghosts {
		x, y := m.fact(kind, a, i), m.fact(kind, b, i)
		if kind == kSet {
			if x.full != y.full || x.touch != y.touch {
				m.infeasible()
			}
			continue
		}
		if (x.at == nil) != (y.at == nil) {
			m.infeasible()
		}
		if x.at != nil && len(args) == 3 {
			if !m.truth(m.callValue(args[2], []Value{x.at, y.at})) {
				m.infeasible()
			}
		}
	}
	return true
}

// ---- NumAddresses ----

type countContract struct{}

func (m *M) addrsOf(p Ptr) Lin {
	if p.obj == nil {
		return Lin{}
	}
	n := m.node(p)
	if n == nil {
		if m.heapActive(p) {
			_, l := m.heapPrefix(p)
			d, ok := affSum(K(m.W), l, -1)
			if !ok {
				m.undecided("length")
			}
			return m.pow2(d)
		}
		k := m.heapKids(p)
		return linAdd(m.addrsOf(k[0]), m.addrsOf(k[1]), 1)
	}
	if n.actKnown {
		if n.active {
			d, _ := affSum(K(m.W), m.depth(m.place(n)), -1)
			return m.pow2(d)
		}
		var r Lin
		for c := range n.kids {
			r = linAdd(r, m.addrsOf(m.child(n, c).(Ptr)), 1)
		}
		return r
	}
	return Lin{T: map[string]int64{"addrs(" + n.name + ")": 1}}
}

// expandAddrs replaces the counts of nodes that are known by now.
func (m *M) expandAddrs(l Lin) Lin {
	r := Lin{C: l.C, T: map[string]int64{}}
	for k, v := range l.T {
		var sub *Lin
		if strings.HasPrefix(k, "addrs(") {
			for _, n := range m.nodes {
				if "addrs("+n.name+")" == k {
					s := m.addrsOf(Ptr{obj: m.rep(n).obj})
					sub = &s
				}
			}
		}
		if sub == nil {
			r = linAdd(r, Lin{T: map[string]int64{k: v}}, 1)
		} else {
			r = linAdd(r, *sub, v)
		}
	}
	return m.linPow(r)
}

// linPow merges the powers of two whose exponents became equal and evaluates
// those that became constant.
func (m *M) linPow(l Lin) Lin {
	r := Lin{C: l.C, T: map[string]int64{}}
	for k, v := range l.T {
		if strings.HasPrefix(k, "2^") {
			i := 0
			for _, ch := range k[2:] {
				i = i*10 + int(ch-'0')
			}
			a := m.pows[i]
			if c, ok := m.constOf(a); ok && c >= 0 && c < 62 {
				r.C += v << uint(c)
				continue
			}
			k = m.powKey(a)
		}
		r.T[k] += v
		if r.T[k] == 0 {
			delete(r.T, k)
		}
	}
	return r
}

func (m *M) constOf(a Aff) (int64, bool) {
	if a.V == 0 {
		return a.C, true
	}
	lo, hi := -m.zone.d[0][a.V], m.zone.d[a.V][0]
	if lo != hi {
		return 0, false
	}
	if a.Neg {
		return a.C - lo, true
	}
	return a.C + lo, true
}

// asLin is a count as a linear quantity.
func (m *M) asLin(v Value) (Lin, bool) {
	switch v := v.(type) {
	case Const:
		return Lin{C: v.V}, true
	case Lin:
		return v, true
	case *Word:
		return m.wordLin(v)
	case Aff:
		if c, ok := m.constOf(v); ok {
			return Lin{C: c}, true
		}
	}
	return Lin{}, false
}

func (c *countContract) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	return []*Obligation{{id: fam.name + "/" + name, fam: fam, top: fn,
		desc: "the result is the sum of 2^(address size - length) over the member prefixes",
		run: func(m *M) {
			a := m.anyTrie(kSet, "me")
			m.setRank(a)
			v := m.exec(fn, []Value{a}, nil)
			m.checkCount(v, m.addrsOf(a), "the number of addresses")
		}}}
}

// checkCount compares a computed count with the right one.
func (m *M) checkCount(v Value, want Lin, what string) {
	if t, ok := v.(Top); ok {
		m.undecided("%s can't be expressed (%s)", what, t.why)
	}
	l, ok := m.asLin(v)
	if !ok {
		m.undecided("%s is %s", what, vstr(v))
	}
	g, w := m.linRen(m.expandAddrs(l)), m.linRen(m.expandAddrs(want))
	m.check(linEq(g, w), "value", "%s is %s instead of %s", what, g, w)
}

func (c *countContract) Apply(m *M, fn *ssa.Function, args []Value) Value {
	a := m.argTrie(kSet, args[0], "the receiver of "+fn.Name())
	m.checkRank(fn, []Aff{m.rankOf(a)})
	if a.obj == nil {
		return Const{0}
	}
	if n := m.node(a); n != nil && !n.actKnown {
		return Lin{T: map[string]int64{"addrs(" + n.name + ")": 1}}
	}
	return m.linNorm(m.addrsOf(a))
}

// ---- IsEmpty ----

type emptyContract struct{}

func (c *emptyContract) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	return []*Obligation{{id: fam.name + "/" + name, fam: fam, top: fn,
		desc: "true exactly for the empty trie",
		run: func(m *M) {
			a := m.anyTrie(kSet, "me")
			m.setRank(a)
			r := m.truth(m.exec(fn, []Value{a}, nil))
			m.check(r == (a.obj == nil), "value", "%v although the set is %s", r, map[bool]string{true: "empty", false: "not empty"}[a.obj == nil])
		}}}
}

func (c *emptyContract) Apply(m *M, fn *ssa.Function, args []Value) Value {
	a := m.argTrie(kSet, args[0], "the receiver of "+fn.Name())
	m.checkRank(fn, []Aff{m.rankOf(a)})
	return a.obj == nil
}

// ---- setNodeFromRange ----

type rangeContract struct{}

func (m *M) rangeVal(f, l *Word) Struct { return Struct{Struct{f}, Struct{l}} }

func (c *rangeContract) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	return []*Obligation{{id: fam.name + "/" + name, fam: fam, top: fn,
		desc: "an arbitrary address is in the result exactly if it is between first and last, shape of the result, recursion",
		run: func(m *M) {
			m.addGhostLeaf("x")
			f, l := m.placeLeaf(), m.placeLeaf()
			if m.lexLess(l, f) {
				m.infeasible()
			}
			m.extra["rank"] = []Aff{m.depth(m.lca(f, l))}
			r := m.nodePtr(m.exec(fn, []Value{m.rangeVal(m.ptWord(f), m.ptWord(l))}, nil), "the result")
			m.checkValid(kSet, r, "the result")
			x := m.ghosts[0].pt
			want := !m.lexLess(x, f) && !m.lexLess(l, x)
			got := m.setFact(r, 0)
			m.check(got == want, "value", "an address %s the range is %s the result", map[bool]string{true: "in", false: "outside"}[want], inOut(got))
			m.check(r.obj != nil && m.ptOf(r) == m.lca(f, l), "place", "the root of the result is misplaced")
		}}}
}

func (m *M) leafOf(v Value, what string) int {
	for {
		s, ok := v.(Struct)
		if !ok || len(s) != 1 {
			break
		}
		v = s[0]
	}
	w := m.asWord(v, m.W)
	if w == nil {
		m.undecided("%s is %s", what, vstr(v))
	}
	p, ok := m.wordPoint(w, K(m.W))
	if !ok {
		m.undecided("%s can't be expressed: %s", what, w)
	}
	return p
}

func (c *rangeContract) Apply(m *M, fn *ssa.Function, args []Value) Value {
	rg, ok := args[0].(Struct)
	if !ok || len(rg) != 2 {
		m.undecided("a range is %s", vstr(args[0]))
	}
	f, l := m.leafOf(rg[0], "the first address"), m.leafOf(rg[1], "the last address")
	m.check(!m.lexLess(l, f), "value", "%s is called for a range whose first address is after its last", fn.Name())
	top := m.lca(f, l)
	m.checkRank(fn, []Aff{m.depth(top)})
	derive := func(m *M, i int) Fact {
		x := m.ghosts[i].pt
		in := !m.lexLess(x, f) && !m.lexLess(l, x)
		return Fact{full: in, touch: in}
	}
	return m.newNode(kSet, nodeOpts{derive: derive, active: -1, name: fn.Name(), origin: "call", at: top, bAnc: -1, bSide: -1})
}

// ---- finding a prefix ----

// findContract is the search for a prefix that holds another one of a given
// length, in a set without a reserved one.
type findContract struct{ reserved bool }

func (c *findContract) args(me, res Ptr, length Value) []Value {
	if c.reserved {
		return []Value{me, res, length}
	}
	return []Value{me, length}
}

// addGhostBlock adds an arbitrary prefix and the one it is a half of, and
// returns the index of the former and of the latter (-1 if the prefix is all
// there is).
func (m *M) addGhostBlock(name string) (g, up int) {
	up = -1
	if m.choose(2, name+" is everything") == 0 {
		m.addGhostKey(name)
		m.assumeLeq(m.depth(m.ghosts[len(m.ghosts)-1].pt), K(0))
	} else {
		m.addGhostKey("the prefix that " + name + " is a half of")
		up = len(m.ghosts) - 1
		q := m.ghosts[up].pt
		q = m.newPoint(q, m.choose(2, "side"))
		m.assumeLeq(m.depth(q), m.depth(m.ghosts[up].pt).plus(1))
		m.ghosts = append(m.ghosts, Ghost{pt: q, name: name})
	}
	g = len(m.ghosts) - 1
	m.extra["block"] = [2]int{g, up}
	return g, up
}

// free says whether a prefix is available: in the set and nothing of it in
// the reserved one.
func (m *M) free(a, res Ptr, i int) bool {
	return m.fact(kSet, a, i).full && !m.fact(kSet, res, i).touch
}

// freeBlock is the ghost that is an available block of its own, not a part of a
// larger one, if it is.
func (m *M) freeBlock(a, res Ptr) (g int, ok bool) {
	b, ok := m.extra["block"].([2]int)
	if !ok || !m.free(a, res, b[0]) || b[1] >= 0 && m.free(a, res, b[1]) {
		return 0, false
	}
	return b[0], true
}

func (c *findContract) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	arg := func(m *M) (a, res Ptr) {
		a = m.anyTrie(kSet, "me")
		if c.reserved {
			res = m.anyTrie(kSet, "reserved")
			m.setRank(a, res)
		} else {
			m.setRank(a)
		}
		return a, res
	}
	run := func(m *M, length Value) (a, res Ptr, v Value) {
		a, res = arg(m)
		return a, res, m.exec(fn, c.args(a, res, length), nil)
	}
	anyLength := func(m *M) Aff {
		lv := Aff{V: m.zone.newVar()}
		m.assumeLeq(K(0), lv)
		m.assumeLeq(lv, K(m.W))
		return lv
	}
	return []*Obligation{{id: fam.name + "/" + name + "/found", fam: fam, top: fn,
		desc: "an arbitrary address of the prefix found is in the set and isn't reserved, and the prefix is long enough",
		run: func(m *M) {
			m.addGhostLeaf("x")
			lv := anyLength(m)
			a, res, v := run(m, lv)
			t := v.(Tuple)
			if isErr(t[1]) {
				return
			}
			w, l := m.prefixParts(m.force(t[0]).(Struct))
			q := m.point(w, l)
			m.check(m.leq(l, lv), "value", "the prefix found is smaller than requested")
			if m.isAnc(q, m.ghosts[0].pt) {
				m.check(m.setFact(a, 0), "value", "an address of the prefix found isn't in the set")
				m.check(!m.setFact(res, 0), "value", "an address of the prefix found is reserved")
			}
		}}, {id: fam.name + "/" + name + "/notfound", fam: fam, top: fn,
		desc: "if an arbitrary prefix of the requested length is available then there is no error",
		run: func(m *M) {
			m.addGhostKey("g")
			g := m.ghosts[0].pt
			a, res, v := run(m, fromAff(m.depth(g)))
			t := v.(Tuple)
			if !isErr(t[1]) {
				return
			}
			m.check(!m.free(a, res, 0), "value", "an error although a prefix of the requested length is available")
		}}, {id: fam.name + "/" + name + "/whole", fam: fam, top: fn, aspect: "best",
		desc: "no prefix above the one found is available",
		run: func(m *M) {
			m.addGhostKey("h")
			a, res, v := run(m, anyLength(m))
			t := v.(Tuple)
			if isErr(t[1]) {
				return
			}
			w, l := m.prefixParts(m.force(t[0]).(Struct))
			h := m.ghosts[0].pt
			if q := m.point(w, l); m.isAnc(h, q) && m.lt(m.depth(h), l) {
				m.check(!m.free(a, res, 0), "best", "the prefix found is a part of an available one")
			}
		}}, {id: fam.name + "/" + name + "/best", fam: fam, top: fn, aspect: "best",
		desc: "an arbitrary available block that is large enough isn't smaller than the prefix found",
		run: func(m *M) {
			g, _ := m.addGhostBlock("g")
			lv := anyLength(m)
			d := m.depth(m.ghosts[g].pt)
			m.assumeLeq(d, lv)
			a, res := arg(m)
			if _, ok := m.freeBlock(a, res); !ok {
				m.infeasible()
			}
			t := m.exec(fn, c.args(a, res, lv), nil).(Tuple)
			m.check(!isErr(t[1]), "best", "an error although there is an available block that is large enough")
			_, l := m.prefixParts(m.force(t[0]).(Struct))
			m.check(m.leq(d, l), "best", "the prefix found is larger than an available block that is large enough")
		}}}
}

func (c *findContract) Apply(m *M, fn *ssa.Function, args []Value) Value {
	a := m.argTrie(kSet, args[0], "the receiver of "+fn.Name())
	var res Ptr
	lv := args[1]
	if c.reserved {
		res = m.argTrie(kSet, args[1], "the argument of "+fn.Name())
		lv = args[2]
		m.checkRank(fn, []Aff{m.rankOf(a), m.rankOf(res)})
	} else {
		m.checkRank(fn, []Aff{m.rankOf(a)})
	}
	l, ok := toAff(lv)
	if !ok {
		m.undecided("the requested length is %s", vstr(lv))
	}
	if a.obj == nil || m.choose(2, fn.Name()+"=err") == 0 {
		// there is none
		for i, g := range m.ghosts {
			if !g.leaf && m.free(a, res, i) && m.leq(m.depth(g.pt), l) {
				m.infeasible()
			}
		}
		return Tuple{m.zero(m.fam.named("Prefix")), m.newErr()}
	}
	anc, side, _ := m.boundOf(a)
	var q int
	if side < 0 {
		q = m.placeAtOrUnder(anc)
	} else {
		q = m.placeUnder(anc, side)
	}
	m.assumeLeq(m.depth(q), l)
	for i, g := range m.ghosts {
		if m.isAnc(q, g.pt) {
			if !m.free(a, res, i) {
				m.infeasible()
			}
		} else if m.ob.aspect == "best" && m.isAnc(g.pt, q) && m.free(a, res, i) {
			m.infeasible()
		}
	}
	if g, ok := m.freeBlock(a, res); ok {
		if d := m.depth(m.ghosts[g].pt); m.leq(d, l) {
			m.assumeLeq(d, m.depth(q))
		}
	}
	return Tuple{m.mkPrefix(m.ptWord(q), m.depth(q)), Iface{}}
}

package main

// Addresses of two words, each of which is a number of which only the order is
// known: what is used where the code takes addresses apart.

type num struct{ h, l Aff }

func (m *M) newNum() (num, Struct) {
	h, l := m.newOrd(), m.newOrd()
	return num{ordAff(h), ordAff(l)}, Struct{h, l}
}

func (m *M) numEq(a, b num) bool { return m.affEq(a.h, b.h) && m.affEq(a.l, b.l) }

func (m *M) numLess(a, b num) bool {
	if m.lt(a.h, b.h) {
		return true
	}
	return m.leq(a.h, b.h) && m.lt(a.l, b.l)
}

func (m *M) numLeq(a, b num) bool { return !m.numLess(b, a) }

// numNext is the number after a, if there is one.
func (m *M) numNext(a num) (num, bool) {
	max := Aff{V: m.ordZ.max}
	if m.lt(a.l, max) {
		return num{a.h, a.l.plus(1)}, true
	}
	if m.lt(a.h, max) {
		return num{a.h.plus(1), K(0)}, true
	}
	return num{}, false
}

func (m *M) numOf(v Value, what string) num {
	s, ok := m.force(v).(Struct)
	for ok && len(s) == 1 {
		s, ok = m.force(s[0]).(Struct)
	}
	if !ok || len(s) != 2 {
		m.undecided("%s is %s", what, vstr(v))
	}
	return num{m.ordOf(s[0], what), m.ordOf(s[1], what)}
}

func (m *M) numEnds(v Value, what string) [2]num {
	s, ok := m.force(v).(Struct)
	if !ok || len(s) != 2 {
		m.undecided("%s is %s", what, vstr(v))
	}
	return [2]num{m.numOf(s[0], what), m.numOf(s[1], what)}
}

// numRange is an arbitrary range that exists.
func (m *M) numRange() ([2]num, Struct) {
	f, fv := m.newNum()
	l, lv := m.newNum()
	if !m.numLeq(f, l) {
		m.infeasible()
	}
	return [2]num{f, l}, Struct{Struct{fv}, Struct{lv}}
}

func (m *M) numSlice(v Value, gap int) [][2]num {
	s, ok := v.(Slice)
	if !ok {
		m.undecided("the result is %s", vstr(v))
	}
	var r [][2]num
	for i := 0; i < s.ln; i++ {
		q := m.numEnds(m.load(Ptr{s.obj, string([]byte{byte(s.off + i)})}), "a range")
		m.check(m.numLeq(q[0], q[1]), "value", "a range of the result begins after its end")
		if i > 0 {
			n, ok := m.numNext(r[i-1][1])
			if gap == 2 {
				m.check(ok && m.numLess(n, q[0]), "value", "the ranges of the result aren't in order or not apart")
			}
		}
		r = append(r, q)
	}
	return r
}

func (m *M) numIn(x num, rs ...[2]num) bool {
	for _, r := range rs {
		if m.numLeq(r[0], x) && m.numLeq(x, r[1]) {
			return true
		}
	}
	return false
}

// words makes o use addresses of two words.
func words(run func(m *M)) func(m *M) {
	return func(m *M) {
		m.words = true
		m.ordInit()
		run(m)
	}
}

func (fam *Family) wordAlternatives() map[string]func(m *M) {
	if fam.W != 128 {
		return nil
	}
	r := map[string]func(m *M){}
	r["RangeFromAddresses"] = words(func(m *M) {
		fn := m.need("", "RangeFromAddresses", 2)
		f, fv := m.newNum()
		l, lv := m.newNum()
		r, ok := m.run(fn, Struct{fv}, Struct{lv}).(Tuple)
		if !ok || len(r) != 2 {
			m.undecided("the result is %s", vstr(r))
		}
		empty := m.numLess(l, f)
		m.check(m.truth(r[1]) == empty, "value", "empty is reported wrongly")
		if empty {
			return
		}
		m.check(m.numEq(m.numOf(m.run(m.need("Range", "First", 1), r[0]), "First"), f), "value", "First isn't the first address given")
		m.check(m.numEq(m.numOf(m.run(m.need("Range", "Last", 1), r[0]), "Last"), l), "value", "Last isn't the last address given")
	})
	r["Range.Minus"] = words(func(m *M) {
		a, av := m.numRange()
		b, bv := m.numRange()
		rs := m.numSlice(m.run(m.need("Range", "Minus", 2), av, bv), 2)
		x, _ := m.newNum()
		want := m.numIn(x, a) && !m.numIn(x, b)
		m.check(m.numIn(x, rs...) == want, "value", "an address that %s in the difference is %s the result", map[bool]string{true: "is", false: "isn't"}[want], inOut(!want))
	})
	r["Range.Plus"] = words(func(m *M) {
		a, av := m.numRange()
		b, bv := m.numRange()
		rs := m.numSlice(m.run(m.need("Range", "Plus", 2), av, bv), 2)
		m.check(len(rs) == 1 || len(rs) == 2, "value", "%d ranges", len(rs))
		x, _ := m.newNum()
		want := m.numIn(x, a) || m.numIn(x, b)
		m.check(m.numIn(x, rs...) == want, "value", "an address that %s in the sum is %s the result", map[bool]string{true: "is", false: "isn't"}[want], inOut(!want))
	})
	for i, n := range []string{"First", "Last"} {
		r["Range."+n] = words(func(m *M) {
			q, v := m.numRange()
			m.check(m.numEq(m.numOf(m.run(m.need("Range", n, 1), v), n), q[i]), "value", "%s is wrong", n)
		})
	}
	r["Set.WalkRanges"] = words(setWalkRanges2)
	return r
}

// numPrefixes is ordPrefixes for addresses of two words.
func (m *M) numPrefixes() {
	ends := func(v Value) (Value, Value, bool) {
		s, ok := m.force(v).(Struct)
		if !ok || len(s) != 2 {
			return nil, nil, false
		}
		a, ok := s[m.fam.pAddr].(Struct)
		if !ok || len(a) != 1 {
			return nil, nil, false
		}
		w, ok := a[0].(Struct)
		if !ok || len(w) != 2 {
			return nil, nil, false
		}
		h, ok := w[0].(Ord)
		if !ok || h.C != 0 {
			return nil, nil, false
		}
		l, ok := m.numEndsOf[h.V]
		if !ok || !identicalOrd(w[1], l[0][1]) {
			return nil, nil, false
		}
		return l[0], l[1], ok
	}
	for name, g := range map[string]func(f, l Value, p Struct) Value{
		"Range":            func(f, l Value, p Struct) Value { return Struct{Struct{f}, Struct{l}} },
		"Network":          func(f, l Value, p Struct) Value { return p },
		"Broadcast":        func(f, l Value, p Struct) Value { return m.mkPrefix(l, Const{m.W}) },
		"prefixUpperLimit": func(f, l Value, p Struct) Value { return m.mkPrefix(l, Const{m.W}) },
	} {
		g := g
		fn := m.fam.fn("Prefix." + name)
		if fn == nil || len(fn.Params) != 1 {
			continue
		}
		m.hook(fn, func(args []Value) (Value, bool) {
			f, l, ok := ends(args[0])
			if !ok {
				return nil, false
			}
			m.loc.contrs[fn] = true
			return clone(g(f, l, m.force(args[0]).(Struct))), true
		})
	}
}

func identicalOrd(a, b Value) bool {
	x, ok := a.(Ord)
	y, ok2 := b.(Ord)
	return ok && ok2 && x == y
}

func (m *M) numPrefix() (q [2]num, p Value) {
	q, v := m.numRange()
	if m.numEndsOf == nil {
		m.numEndsOf = map[int][2]Struct{}
	}
	f, l := v[0].(Struct)[0].(Struct), v[1].(Struct)[0].(Struct)
	m.numEndsOf[f[0].(Ord).V] = [2]Struct{f, l}
	return q, m.mkPrefix(clone(f), &OrdLen{one: func() bool { return m.numEq(q[0], q[1]) }, all: func() bool {
		max := Aff{V: m.ordZ.max}
		return m.numEq(q[0], num{K(0), K(0)}) && m.numEq(q[1], num{max, max})
	}})
}

func setWalkRanges2(m *M) {
	fn := m.need("Set", "WalkRanges", 2)
	root := m.walkTrie()
	m.numPrefixes()
	var want, got [][2]num
	have := false
	var cur [2]num
	walked := false
	agree := func() {
		for i := range got {
			if i < len(want) {
				m.check(m.numEq(got[i][0], want[i][0]) && m.numEq(got[i][1], want[i][1]), "value", "range %d that is visited isn't a maximal range of the set", i+1)
			}
		}
	}
	m.onWalk(root, func(visit func(p Value) bool, state func() []Value) bool {
		walked = true
		if root.obj == nil {
			return true
		}
		max := Aff{V: m.ordZ.max}
		var seen []walkState
		for k := 0; ; k++ {
			if k > 0 && m.choose(2, "more") == 0 {
				return true
			}
			q, p := m.numPrefix()
			if have {
				if !m.numLess(cur[1], q[0]) {
					m.infeasible()
				}
				n, ok := m.numNext(cur[1])
				if ok && m.numEq(n, q[0]) {
					cur[1] = q[1]
				} else {
					want = append(want, cur)
					cur = q
				}
			} else {
				have, cur = true, q
			}
			if !visit(p) {
				return false
			}
			if m.stopped {
				// nothing may happen any more
				if k > 3 {
					return true
				}
				continue
			}
			agree()
			refs := []Aff{K(0), cur[0].h, cur[0].l, cur[1].h, cur[1].l, max}
			sig, ok := m.signature(state(), func(v Value) (string, bool) {
				switch v.(type) {
				case Const:
					return vstr(v), true
				case Ord:
					a := ordAff(v.(Ord))
					for i, g := range refs {
						for c := int64(-1); c <= 1; c++ {
							if m.entEq(a, g.plus(c)) {
								return string(rune('a'+i)) + vstr(Const{c}), true
							}
						}
					}
				}
				return vstr(v), false
			})
			if ok && len(got) == len(want) {
				// what was visited has been compared
				got, want = nil, nil
				m.forget(refs)
				st := walkState{sig, m.zoneView(refs)}
				for _, s := range seen {
					if s.sig == st.sig && looser(s.view, st.view) {
						m.covered()
					}
				}
				seen = append(seen, st)
			}
			if k > 4 {
				m.undecided("the state of the callback isn't of a form that recurs")
			}
		}
	})
	res := m.run(fn, m.setVal(root), m.walkStop(func(v Value) {
		got = append(got, m.numEnds(v, "a range"))
	}))
	if !walked && root.obj != nil {
		m.undecided("the prefixes of the set aren't walked")
	}
	m.checkReturn(res)
	if have {
		want = append(want, cur)
	}
	agree()
	m.check(len(got) <= len(want), "value", "more ranges are visited than the set has")
	m.check(m.stopped || len(got) == len(want), "value", "a range of the set isn't visited")
}

// forget loosens what is known: only the numbers as are used from here on, of
// which small differences matter.
func (m *M) forget(as []Aff) {
	z := m.zone
	keep := make([]bool, len(z.d))
	for v := range z.d {
		for _, a := range as {
			for c := int64(-1); c <= 1; c++ {
				keep[v] = keep[v] || m.entEq(Aff{V: v}, a.plus(c))
			}
		}
	}
	for i := range z.d {
		for j := range z.d {
			if i == j {
				continue
			}
			if c := z.d[i][j]; !keep[i] || !keep[j] || c > 2 {
				z.d[i][j] = inf
			} else if i == 0 && c < 0 && j != m.ordZ.max {
				z.d[i][j] = 0
			} else if c < -2 && c > -(1<<10) {
				z.d[i][j] = -2
			}
		}
	}
}

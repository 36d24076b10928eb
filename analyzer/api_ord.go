package main

// Ranges, with addresses taken as numbers of which only the order is known.

func (m *M) ordAddr(o Ord) Struct { return Struct{o} }

func (m *M) ordRange(f, l Ord) Struct { return Struct{Struct{f}, Struct{l}} }

// anyRange is an arbitrary range that exists.
func (m *M) anyRange() (f, l Ord) {
	f, l = m.newOrd(), m.newOrd()
	m.assumeLeq(ordAff(f), ordAff(l))
	return
}

func (m *M) ordOf(v Value, what string) Aff {
	a, ok := m.toOrd(m.force(v))
	if !ok {
		m.undecided("%s is %s", what, vstr(v))
	}
	return a
}

func (m *M) ordEnds(v Value, what string) (f, l Aff) {
	s, ok := m.force(v).(Struct)
	if !ok || len(s) != 2 {
		m.undecided("%s is %s", what, vstr(v))
	}
	return m.ordOf(s[0], what), m.ordOf(s[1], what)
}

func (m *M) between(x, f, l Aff) bool { return m.leq(f, x) && m.leq(x, l) }

func (m *M) rangeSlice(v Value) [][2]Aff {
	s, ok := v.(Slice)
	if !ok {
		m.undecided("the result is %s", vstr(v))
	}
	var r [][2]Aff
	for i := 0; i < s.ln; i++ {
		f, l := m.ordEnds(m.load(Ptr{s.obj, string([]byte{byte(s.off + i)})}), "a range")
		r = append(r, [2]Aff{f, l})
	}
	return r
}

// wellFormed checks that ranges aren't empty and in order.
func (m *M) wellFormed(rs [][2]Aff, gap int64) {
	for i, r := range rs {
		m.check(m.leq(r[0], r[1]), "value", "a range of the result begins after its end")
		m.check(m.leq(K(0), r[0]) && m.leq(r[1], Aff{V: m.ordZ.max}), "value", "a range of the result exceeds the addresses")
		if i > 0 {
			m.check(m.leq(rs[i-1][1].plus(gap), r[0]), "value", "the ranges of the result aren't in order or not apart")
		}
	}
}

func (m *M) inRanges(x Aff, rs [][2]Aff) bool {
	in := false
	for _, r := range rs {
		if m.between(x, r[0], r[1]) {
			in = true
		}
	}
	return in
}

func (fam *Family) ordObligations() []*Obligation {
	var obs []*Obligation
	alt := fam.wordAlternatives()
	add := func(name, desc string, run func(m *M)) {
		obs = append(obs, &Obligation{id: fam.name + "/ord/" + name, fam: fam, mode: "ord", desc: desc, run: run, alt: alt[name]})
	}
	add("RangeFromAddresses", "empty exactly if first is after last; otherwise First and Last return what was given", func(m *M) {
		fn := m.need("", "RangeFromAddresses", 2)
		f, l := m.newOrd(), m.newOrd()
		r, ok := m.run(fn, m.ordAddr(f), m.ordAddr(l)).(Tuple)
		if !ok || len(r) != 2 {
			m.undecided("the result is %s", vstr(r))
		}
		empty := m.lt(ordAff(l), ordAff(f))
		m.check(m.truth(r[1]) == empty, "value", "empty is reported wrongly")
		if empty {
			return
		}
		gf := m.ordOf(m.run(m.need("Range", "First", 1), r[0]), "First")
		gl := m.ordOf(m.run(m.need("Range", "Last", 1), r[0]), "Last")
		m.check(m.affEq(gf, ordAff(f)), "value", "First isn't the first address given")
		m.check(m.affEq(gl, ordAff(l)), "value", "Last isn't the last address given")
	})
	add("Range.Minus", "an arbitrary address is in the result exactly if it's only in the first range; ranges not empty and in order", func(m *M) {
		fn := m.need("Range", "Minus", 2)
		af, al := m.anyRange()
		bf, bl := m.anyRange()
		rs := m.rangeSlice(m.run(fn, m.ordRange(af, al), m.ordRange(bf, bl)))
		m.wellFormed(rs, 2)
		x := ordAff(m.newOrd())
		want := m.between(x, ordAff(af), ordAff(al)) && !m.between(x, ordAff(bf), ordAff(bl))
		m.check(m.inRanges(x, rs) == want, "value", "an address that %s in the difference is %s the result", map[bool]string{true: "is", false: "isn't"}[want], inOut(!want))
	})
	add("Range.Plus", "an arbitrary address is in the result exactly if it's in one of the ranges; ranges in order with an address missing between them", func(m *M) {
		fn := m.need("Range", "Plus", 2)
		af, al := m.anyRange()
		bf, bl := m.anyRange()
		rs := m.rangeSlice(m.run(fn, m.ordRange(af, al), m.ordRange(bf, bl)))
		m.wellFormed(rs, 2)
		m.check(len(rs) == 1 || len(rs) == 2, "value", "%d ranges", len(rs))
		x := ordAff(m.newOrd())
		want := m.between(x, ordAff(af), ordAff(al)) || m.between(x, ordAff(bf), ordAff(bl))
		m.check(m.inRanges(x, rs) == want, "value", "an address that %s in the sum is %s the result", map[bool]string{true: "is", false: "isn't"}[want], inOut(!want))
	})
	for _, n := range []string{"First", "Last"} {
		add("Range."+n, "the "+n+" address", func(m *M) {
			f, l := m.anyRange()
			v := m.ordOf(m.run(m.need("Range", n, 1), m.ordRange(f, l)), n)
			w := f
			if n == "Last" {
				w = l
			}
			m.check(m.affEq(v, ordAff(w)), "value", "%s is wrong", n)
		})
	}
	return obs
}

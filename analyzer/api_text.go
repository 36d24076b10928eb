package main

import "fmt"

// Text forms.

func (fam *Family) textObligations() []*Obligation {
	var obs []*Obligation
	W := fam.W
	add := func(name, desc string, run func(m *M)) {
		obs = append(obs, &Obligation{id: fam.name + "/text/" + name, fam: fam, mode: "bits", desc: desc, run: run})
	}
	// an arbitrary address; for IPv6 those that stand for IPv4 addresses apart
	addr := func(m *M, mapped bool) *Bits {
		if mapped {
			return m.mappedBits(m.newBits(32))
		}
		x := m.newBits(int(W))
		if W == 128 && m.mapped(m.argBytes(x)) {
			m.infeasible()
		}
		return x
	}
	str := func(m *M, typ string, v Value) Str {
		s, ok := m.run(m.need(typ, "String", 1), v).(Str)
		if !ok {
			m.undecided("the text is %s", vstr(s))
		}
		if s.t == nil && !s.known {
			m.undecided("the text isn't known")
		}
		if s.t != nil {
			for _, t := range s.t.toks {
				if t.unk != nil {
					m.undecided("the text isn't known")
				}
			}
		}
		return s
	}
	for _, mapped := range []bool{false, true} {
		if mapped && W == 32 {
			continue
		}
		mapped := mapped
		sfx := map[bool]string{true: "/mapped"}[mapped]
		add("Address"+sfx, "the text of an arbitrary address is parsed to the same address", func(m *M) {
			x := addr(m, mapped)
			s := str(m, "Address", m.bitsAddr(x))
			r, bad := m.outcome(m.run(m.need("", "AddressFromString", 1), s))
			m.check(!bad, "value", "the text of an address is rejected")
			if !bad {
				m.sameBits(m.bitsOf(r, "the address"), x, "the address")
			}
		})
		add("Prefix"+sfx, "the text of an arbitrary prefix is parsed to the same prefix", func(m *M) {
			x := addr(m, mapped)
			l := int64(m.choose(int(W)+1, "length"))
			s := str(m, "Prefix", m.bitsPrefix(x, l))
			r, bad := m.outcome(m.run(m.need("", "PrefixFromString", 1), s))
			m.check(!bad, "value", "the text of a prefix is rejected")
			if !bad {
				m.samePrefix(r, x, l, "the prefix")
			}
		})
	}
	add("Mask", "the text of each mask, parsed as an address, has the same bits", func(m *M) {
		x, _ := m.anyMask()
		s := str(m, "Mask", m.bitsAddr(x))
		r, bad := m.outcome(m.run(m.need("", "AddressFromString", 1), s))
		m.check(!bad, "value", "the text of a mask is rejected")
		if !bad {
			m.sameBits(m.bitsOf(r, "the bits of the mask"), x, "the bits of the mask")
		}
	})
	// An arbitrary text. Whether the colon notation of an IPv4-mapped address
	// is IPv4 too is left open.
	reject := func(m *M, u *unkText, own bool) (must, mustNot bool) {
		x := u.bits
		if own {
			return false, true
		}
		if W == 32 && x != nil && len(x.b) == 128 && m.mapped(m.argBytes(x)) {
			return false, false
		}
		return true, false
	}
	add("AddressFromString", "an error exactly if the text isn't an address of this family; otherwise that address", func(m *M) {
		s := unknownText()
		r, bad := m.outcome(m.run(m.need("", "AddressFromString", 1), s))
		u := s.t.toks[0].unk
		cl := m.classOf(u)
		must, mustNot := reject(m, u, cl == map[int64]int{32: txV4, 128: txColon}[W])
		if cl == txV4Prefix || cl == txColonPrefix {
			must = true
		}
		m.check(bad || !must, "value", "a text that isn't an address of this family is accepted")
		m.check(!bad || !mustNot, "value", "the text of an address is rejected")
		if !bad {
			m.sameBits(m.bitsOf(r, "the address"), &Bits{b: u.bits.b[:W]}, "the address")
		}
	})
	add("PrefixFromString", "an error exactly if the text isn't a prefix of this family; otherwise that prefix", func(m *M) {
		s := unknownText()
		r, bad := m.outcome(m.run(m.need("", "PrefixFromString", 1), s))
		u := s.t.toks[0].unk
		cl := m.classOf(u)
		own := cl == map[int64]int{32: txV4Prefix, 128: txColonPrefix}[W]
		must, mustNot := !own, own
		m.check(bad || !must, "value", "a text that isn't a prefix of this family is accepted")
		m.check(!bad || !mustNot, "value", "the text of a prefix is rejected")
		if !bad {
			m.samePrefix(r, u.bits, u.length, "the prefix")
		}
	})
	add("Range.String", "the texts of the first and the last address of an arbitrary range", func(m *M) {
		f, l := addr(m, false), addr(m, false)
		a, b := m.bitsAddr(f), m.bitsAddr(l)
		got := str(m, "Range", Struct{a, b})
		m.sameText(got, "[", str(m, "Address", a), ",", str(m, "Address", b), "]")
	})
	add("Set.String", "the texts of the prefixes that a walk visits, in order (by induction over the prefixes)", func(m *M) {
		root := m.walkTrie()
		want := []interface{}{"["}
		walks, asked := 0, 0
		if W > 32 {
			m.hook(m.need("Prefix", "String", 1), func(args []Value) (Value, bool) {
				asked++
				return m.textOfPrefix(m.bitsPrefixOf(args[0], "the prefix")), true
			})
		}
		m.onWalk(root, func(visit func(p Value) bool, state func() []Value) bool {
			walks++
			if root.obj == nil {
				return true
			}
			step := func(first bool) bool {
				x := m.newBits(int(W))
				l := int64(m.choose(int(W)+1, "length"))
				for i := int64(0); i < W-l; i++ {
					x.b[i] = bitConst(false)
				}
				p := m.bitsPrefix(x, l)
				if !first {
					want = append(want, ", ")
				}
				if W == 32 {
					want = append(want, str(m, "Prefix", p))
				} else {
					// the text of a prefix has obligations of its own
					want = append(want, m.textOfPrefix(x, l))
				}
				n := asked
				ok := visit(p)
				if W > 32 && asked == n {
					m.undecided("the texts of the prefixes aren't used")
				}
				return ok
			}
			m.check(step(true), "value", "the walk over the prefixes is ended early")
			if m.choose(2, "more") == 0 {
				return true
			}
			// after any number of prefixes: the text so far is a
			so := m.someText(want)
			m.mapTexts(state(), so)
			want = []interface{}{so}
			sig := func() string {
				s, ok := m.signature(state(), func(v Value) (string, bool) {
					switch v := v.(type) {
					case Const:
						return vstr(v), true
					case Str:
						return "text", v.known || v.t != nil
					}
					return vstr(v), false
				})
				if !ok {
					m.undecided("the state of the callback isn't of a form that recurs: %s", s)
				}
				return s
			}
			before := sig()
			m.check(step(false), "value", "the walk over the prefixes is ended early")
			if after := sig(); before != after {
				m.undecided("the state of the callback isn't of a form that recurs: %s, %s", before, after)
			}
			return true
		})
		got, ok := m.run(m.need("Set", "String", 1), m.setVal(root)).(Str)
		if !ok || walks != 1 {
			m.undecided("the prefixes of the set aren't walked")
		}
		m.sameText(got, append(want, "]")...)
	})
	return obs
}

// someText is an arbitrary text, for a text that is a part of all later ones.
type someText struct {
	is   Str
	toks []tok
}

func (m *M) someText(parts []interface{}) *someText {
	return &someText{is: strOf(m.textParts(parts)), toks: unknownText().t.toks}
}

func (m *M) textParts(parts []interface{}) []tok {
	var r []tok
	for _, p := range parts {
		switch p := p.(type) {
		case string:
			r = append(r, tok{lit: p})
		case Str:
			r = append(r, p.toks()...)
		case *someText:
			r = append(r, p.toks...)
		}
	}
	return r
}

// mapTexts replaces a text that a state contains by an arbitrary one.
func (m *M) mapTexts(vs []Value, s *someText) {
	want := strOf(m.textParts([]interface{}{s.is}))
	b := m.builders()
	for p, t := range b {
		if sameToks(strOf(t).toks(), want.toks()) {
			b[p] = append([]tok(nil), s.toks...)
		}
	}
	m.mapState(vs, func(v Value) Value {
		if t, ok := v.(Str); ok && sameToks(t.toks(), want.toks()) {
			return Str{t: &Text{s.toks}}
		}
		return v
	})
}

func sameToks(a, b []tok) bool {
	if len(a) != len(b) {
		return false
	}
	same := func(x, y *Bits) bool {
		if x == nil || y == nil {
			return x == y
		}
		if len(x.b) != len(y.b) {
			return false
		}
		for i := range x.b {
			if !bitSame(x.b[i], y.b[i]) {
				return false
			}
		}
		return true
	}
	for i := range a {
		if a[i].lit != b[i].lit || a[i].unk != b[i].unk || !same(a[i].dec, b[i].dec) || !same(a[i].ip6, b[i].ip6) {
			return false
		}
	}
	return true
}

// textOfPrefix is the text of a prefix, whatever that is.
func (m *M) textOfPrefix(x *Bits, l int64) Str {
	for _, u := range m.prefixTexts() {
		if u.length == l && sameToks([]tok{{ip6: u.bits}}, []tok{{ip6: x}}) {
			return Str{t: &Text{[]tok{{unk: u}}}}
		}
	}
	s := unknownText()
	u := s.t.toks[0].unk
	u.class, u.bits, u.length = txColonPrefix, x, l
	m.extra["prefix texts"] = append(m.prefixTexts(), u)
	return s
}

func (m *M) prefixTexts() []*unkText {
	r, _ := m.extra["prefix texts"].([]*unkText)
	return r
}

// sameText checks that a text consists of parts.
func (m *M) sameText(got Str, parts ...interface{}) {
	toks := m.textParts(parts)
	want := strOf(toks).toks()
	if sameToks(got.toks(), want) {
		m.check(true, "value", "")
		return
	}
	if a, b := got.toks(), want; len(a) == len(b) {
		// the texts of other prefixes?
		for i := range a {
			u, v := a[i].unk, b[i].unk
			if u == nil || v == nil || u == v || u.class != txColonPrefix || v.class != txColonPrefix {
				continue
			}
			m.check(u.length == v.length, "value", "the text of another prefix")
			m.sameBits(u.bits, v.bits, "the prefix")
			a[i].unk = v
		}
		if sameToks(a, b) {
			return
		}
	}
	known := map[*unkText]bool{}
	for _, u := range m.prefixTexts() {
		known[u] = true
	}
	for _, t := range want {
		known[t.unk] = true
	}
	for _, t := range got.toks() {
		if t.unk != nil && !known[t.unk] {
			m.undecided("the text isn't known")
		}
	}
	m.check(false, "value", "the text is %s instead of %s", toksString(got.toks()), toksString(want))
}

func toksString(ts []tok) string {
	s := ""
	for _, t := range ts {
		switch {
		case t.dec != nil:
			s += "<number>"
		case t.ip6 != nil:
			s += "<address>"
		case t.unk != nil && t.unk.class == txColonPrefix:
			s += "<prefix>"
		case t.unk != nil:
			s += "<text so far>"
		}
		s += t.lit
	}
	return fmt.Sprintf("%q", s)
}

package main

// Numbers of prefixes and addresses.

import (
	"go/token"
	"math/big"
)

// prefixCount is the number of prefixes of length n in one of length l; ok is
// false if it can't be represented or n isn't a length.
func (m *M) prefixCount(l, n int64) (c uint64, ok bool) {
	switch {
	case n > m.W:
		return 0, false
	case n < l:
		return 0, true
	case n-l > 63:
		return 0, false
	}
	return 1 << uint(n-l), true
}

// anyLength is a length of 0..W (as a constant) or something greater.
func (m *M) anyLength() (int64, Value) {
	n := int64(m.choose(int(m.W)+2, "requested length"))
	if n <= m.W {
		return n, Const{n}
	}
	a := Aff{V: m.zone.newVar()}
	m.assumeLeq(K(m.W+1), a)
	m.assumeLeq(a, K(1<<32-1))
	return n, a
}

// isCount checks a count.
func (m *M) isCount(v Value, want uint64, what string) {
	switch x := m.force(v).(type) {
	case Const:
		m.check(uint64(x.V) == want, "value", "%s is %d instead of %d", what, uint64(x.V), want)
		return
	case Cnt:
		m.check(m.truth(m.equal(x, Const{int64(want)}, nil)), "value", "%s isn't %d", what, want)
		return
	}
	m.undecided("%s is %s", what, vstr(v))
}

func (fam *Family) countObligations() []*Obligation {
	var obs []*Obligation
	add := func(name, desc string, run func(m *M)) {
		obs = append(obs, &Obligation{id: fam.name + "/count/" + name, fam: fam, mode: "bits", desc: desc, run: run})
	}
	anyPrefix := func(m *M) (Struct, int64) {
		l := int64(m.choose(int(m.W)+1, "length"))
		return m.bitsPrefix(m.newBits(int(m.W)), l), l
	}
	add("Prefix.NumPrefixes", "for every length and every requested length: 2^(requested-own), 0 if it's shorter, an error if it isn't a length or the count is too large", func(m *M) {
		fn := m.need("Prefix", "NumPrefixes", 2)
		p, l := anyPrefix(m)
		n, nv := m.anyLength()
		t, ok := m.run(fn, p, nv).(Tuple)
		if !ok || len(t) != 2 {
			m.undecided("the result is %s", vstr(t))
		}
		want, fits := m.prefixCount(l, n)
		m.check(isErr(t[1]) == !fits, "value", "%s for the prefixes of length %d in one of length %d", errOrNot(!fits), n, l)
		if fits {
			m.isCount(t[0], want, "the number of prefixes")
		}
	})
	if fam.has("Prefix", "NumAddresses") {
		add("Prefix.NumAddresses", "for every length: the number of addresses", func(m *M) {
			fn := m.need("Prefix", "NumAddresses", 1)
			p, l := anyPrefix(m)
			want, _ := m.prefixCount(l, m.W)
			m.isCount(m.run(fn, p), want, "the number of addresses")
		})
	}
	if fam.has("Set", "NumPrefixes") {
		add("Set.NumPrefixes", "the sum over the prefixes of an arbitrary set (by induction over the prefixes visited), an error if it's too large or the length isn't one", setNumPrefixes)
	}
	if fam.has("Range", "NumPrefixes") {
		obs = append(obs, &Obligation{id: fam.name + "/count/Range.NumPrefixes", fam: fam, desc: "the number of prefixes of the set of the addresses of the range", run: func(m *M) {
			m.rangeCount("NumPrefixes", 2)
		}})
	}
	if fam.has("Range", "NumAddresses") {
		obs = append(obs, &Obligation{id: fam.name + "/count/Range.NumAddresses", fam: fam, desc: "the number of addresses of the set of the addresses of the range", run: func(m *M) {
			m.rangeCount("NumAddresses", 1)
		}})
	}
	return obs
}

func errOrNot(err bool) string {
	if err {
		return "no error"
	}
	return "an error"
}

// walkTrie is the trie of a set that is walked (never looked into).
func (m *M) walkTrie() Ptr {
	if m.choose(2, "empty") == 1 {
		return Ptr{}
	}
	return m.newNode(kSet, nodeOpts{active: -1, name: "me", origin: "param", at: -1, bAnc: -1})
}

func setNumPrefixes(m *M) {
	fn := m.need("Set", "NumPrefixes", 2)
	root := m.walkTrie()
	n, nv := m.anyLength()
	// what the result should be: sum, unless bad
	var sum Value = Const{0}
	bad := false
	visited := 0
	kraft := new(big.Rat)
	var interesting []int64
	for _, l := range []int64{1, 2, n - 64, n - 63, n - 62, n - 1, n, n + 1, m.W} {
		if l >= 1 && l <= m.W {
			dup := false
			for _, x := range interesting {
				dup = dup || x == l
			}
			if !dup {
				interesting = append(interesting, l)
			}
		}
	}
	m.onWalk(root, func(visit func(p Value) bool, state func() []Value) bool {
		if root.obj == nil {
			return true
		}
		num := func(v Value) (string, bool) {
			if c, ok := v.(Cnt); ok {
				if d, ok := m.cntBinop(token.SUB, c, sum); ok {
					return "sum+" + vstr(d), true
				}
			}
			switch v.(type) {
			case Const, Cnt, Aff:
				return vstr(v), true
			}
			return vstr(v), false
		}
		// one prefix of any length, further ones of lengths that matter
		step := func(l int64) bool {
			visited++
			c, fits := m.prefixCount(l, n)
			if !fits {
				bad = true
			}
			if !bad {
				switch s := sum.(type) {
				case Const:
					if uint64(s.V)+c < uint64(s.V) {
						bad = true
					} else {
						sum = Const{int64(uint64(s.V) + c)}
					}
				case Cnt:
					a, b, _ := m.cntLin(s)
					b.Add(b, bigU(c))
					b.Sub(b, two64)
					if m.cntNeg(a, b) {
						sum = Cnt{k: s.k + c}
					} else {
						bad = true
					}
				}
			}
			x := m.newBits(int(m.W))
			for i := int64(0); i < m.W-l; i++ {
				x.b[i] = bitConst(false)
			}
			return visit(m.bitsPrefix(x, l))
		}
		ways := 2
		if n > m.W || m.W == 0 {
			ways = 1
		}
		if m.choose(ways, "symbolic sum") == 1 {
			// after any number of prefixes: the sum so far is s
			if n < 2 {
				m.infeasible()
			}
			first := n - 1
			if n == 2 {
				first = n // the count shall not be equal to the length
			}
			if !step(first) || bad {
				return false
			}
			m.cntLo, m.cntHi = 0, ^uint64(0)
			m.mapState(state(), func(v Value) Value {
				if _, ok := v.(Const); ok && m.truth(m.equal(v, sum, nil)) {
					return Cnt{}
				}
				return v
			})
			sum = Cnt{}
			before, ok := m.signature(state(), num)
			l := 1 + int64(m.choose(int(m.W), "length"))
			if n < 64 {
				c, _ := m.prefixCount(l, n)
				if c >= 1<<uint(n) {
					m.infeasible()
				}
				m.cntHi = 1<<uint(n) - c
			}
			if !step(l) {
				return false
			}
			if bad {
				return true
			}
			if after, ok2 := m.signature(state(), num); !ok || !ok2 || before != after {
				m.undecided("the state of the callback isn't of a form that recurs: %s, %s", before, after)
			}
			return true
		}
		members := 1 + m.choose(3, "members")
		for k := 0; k < members; k++ {
			var l int64
			if members == 1 {
				l = int64(m.choose(int(m.W)+1, "length"))
			} else {
				l = interesting[m.choose(len(interesting), "length")]
			}
			// they must fit
			kraft.Add(kraft, new(big.Rat).SetFrac(big.NewInt(1), new(big.Int).Lsh(big.NewInt(1), uint(l))))
			if c := kraft.Cmp(big.NewRat(1, 1)); c > 0 || c == 0 && k > 0 {
				m.infeasible()
			}
			if !step(l) {
				return false
			}
		}
		return true
	})
	t, ok := m.run(fn, m.setVal(root), nv).(Tuple)
	if !ok || len(t) != 2 {
		m.undecided("the result is %s", vstr(t))
	}
	if root.obj == nil {
		if !isErr(t[1]) {
			m.isCount(t[0], 0, "the number of prefixes of an empty set")
		}
		return
	}
	if visited == 0 {
		m.undecided("the prefixes of the set aren't walked")
	}
	m.check(isErr(t[1]) == bad, "value", "%s although the number of prefixes %s", errOrNot(bad), map[bool]string{true: "is an error", false: "can be represented"}[bad])
	if bad {
		return
	}
	switch t[0].(type) {
	case Const, Cnt:
	default:
		m.undecided("the number of prefixes is %s", vstr(t[0]))
	}
	m.check(m.truth(m.equal(t[0], sum, nil)), "value", "the number of prefixes is %s instead of %s", vstr(t[0]), vstr(sum))
}

// rangeCount: an operation of a range gives what that of its set gives.
func (m *M) rangeCount(name string, params int) {
	fn := m.need("Range", name, params)
	m.addGhostLeaf("x")
	arg := m.anySetI("Range")
	calls := 0
	var cnt, err Value = Lin{T: map[string]int64{"count": 1}}, nil
	fails := m.choose(2, "error") == 1
	err = Iface{}
	if fails {
		err = m.newErr()
	}
	length := Value(Const{m.W})
	if params == 2 {
		a := Aff{V: m.zone.newVar()}
		m.assumeLeq(K(0), a)
		m.assumeLeq(a, K(1<<32-1))
		length = a
	}
	hook := func(n string, res func() Value) {
		h := m.fam.fn(n)
		if h == nil {
			return
		}
		m.hook(h, func(args []Value) (Value, bool) {
			calls++
			r := m.setTrie(args[0], "the set")
			m.check(m.setFact(r, 0) == arg.fact(0).full, "value", "the set doesn't have the addresses of the range")
			if len(args) == 2 {
				m.check(m.truth(m.equal(args[1], length, nil)), "value", "the prefixes of another length are counted")
			}
			return res(), true
		})
	}
	hook("Set.NumPrefixes", func() Value { return Tuple{cnt, err} })
	hook("Set.NumAddresses", func() Value {
		if params == 2 {
			m.undecided("addresses are counted")
		}
		return cnt
	})
	res := m.run(fn, append([]Value{arg.v.(Iface).v}, length)[:params]...)
	if calls == 0 {
		m.undecided("the set isn't used")
	}
	got := res
	if params == 2 {
		t := res.(Tuple)
		got = t[0]
		m.check(isErr(t[1]) == fails, "value", "the error isn't passed on")
		if fails {
			return
		}
	} else if fails {
		m.infeasible()
	}
	l, ok := toLin(got)
	if !ok {
		m.undecided("the count is %s", vstr(got))
	}
	m.check(linEq(l, cnt.(Lin)), "value", "the count isn't that of the set")
}

package main

// Walks over the prefixes, ranges and addresses of a set.

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

func (fam *Family) walkObligations() []*Obligation {
	var obs []*Obligation
	add := func(id, mode, desc string, run func(m *M)) {
		obs = append(obs, &Obligation{id: fam.name + "/" + id, fam: fam, mode: mode, desc: desc, run: run})
	}
	// the walk over the members of a trie
	for _, n := range walkNames {
		n := n
		if fam.fn(n) == nil {
			continue
		}
		id := "walk/" + n
		if n == "Set.WalkPrefixes" {
			id = "api/" + n
		}
		for _, order := range []bool{false, true} {
			order := order
			sfx := ""
			if order {
				sfx = "/order"
			}
			add(id+sfx, "", "an arbitrary member is visited exactly once with its prefix, without host bits, in order; the walk stops when told to", func(m *M) {
				m.extra["kind"] = kTable
				m.addGhostKey("g")
				if order {
					m.extra["nostop"] = true
					m.addGhostKey("h")
					if !m.lexLess(m.ghosts[0].pt, m.ghosts[1].pt) {
						m.infeasible()
					}
				}
				fn := m.fam.fn(n)
				if len(fn.Params) != 2 {
					m.undecided("%s has %d parameters", n, len(fn.Params))
				}
				root := m.anyTrie(kTable, "me")
				var recv Value = root
				if n == "Set.WalkPrefixes" {
					recv = m.setVal(root)
				}
				res := m.run(fn, recv, &Fn{name: "visit", impl: func(m *M, args []Value) Value {
					pt := m.prefixPoint(args[0])
					w, _ := m.prefixParts(m.force(args[0]).(Struct))
					m.check(m.wEq(w, m.ptWord(pt)), "value", "a prefix that is visited has host bits")
					return m.onEvent("visit", pt)
				}})
				if order {
					m.checkOrder()
					return
				}
				m.checkReturn(res)
				at := m.fact(kTable, root, 0).at
				k := 0
				for _, e := range m.events {
					if e.pt == m.ghosts[0].pt {
						k++
					}
				}
				m.check(k <= 1, "value", "a prefix is visited twice")
				m.check(k == 0 || at != nil, "value", "a prefix is visited that isn't a member")
				m.check(k == 1 || at == nil || m.stopped, "value", "a member isn't visited")
			})
		}
	}
	if fam.has("Set", "WalkRanges") {
		add("ord/Set.WalkRanges", "ord", "the ranges visited are the maximal ones of an arbitrary set, in order (by induction over the prefixes); the walk stops when told to", setWalkRanges)
		obs[len(obs)-1].alt = fam.wordAlternatives()["Set.WalkRanges"]
	}
	if fam.has("Set", "WalkAddresses") {
		add("ord/Set.WalkAddresses", "ord", "the addresses visited are those of an arbitrary set, in order (by induction over the prefixes and over the addresses of a prefix); the walk ends, and stops when told to", setWalkAddresses)
		obs[len(obs)-1].alt = setWalkAddressesBits
	}
	return obs
}

// ordPrefixes makes the methods of prefixes that are only known by their first
// and last address give those.
func (m *M) ordPrefixes() {
	m.ordInit()
	ends := func(v Value) (Ord, Ord, bool) {
		s, ok := m.force(v).(Struct)
		if !ok || len(s) != 2 {
			return Ord{}, Ord{}, false
		}
		a, ok := s[m.fam.pAddr].(Struct)
		if !ok || len(a) != 1 {
			return Ord{}, Ord{}, false
		}
		f, ok := a[0].(Ord)
		if !ok || f.C != 0 {
			return Ord{}, Ord{}, false
		}
		l, ok := m.ordEndsOf[f.V]
		return f, l, ok
	}
	mk := func(addr Ord, length Value) Value { return m.mkPrefix(addr, length) }
	for name, g := range map[string]func(f, l Ord, p Struct) Value{
		"Range":            func(f, l Ord, p Struct) Value { return m.ordRange(f, l) },
		"Network":          func(f, l Ord, p Struct) Value { return p },
		"Broadcast":        func(f, l Ord, p Struct) Value { return mk(l, Const{m.W}) },
		"prefixUpperLimit": func(f, l Ord, p Struct) Value { return mk(l, Const{m.W}) },
	} {
		name, g := name, g
		fn := m.fam.fn("Prefix." + name)
		if fn == nil || len(fn.Params) != 1 {
			continue
		}
		m.hook(fn, func(args []Value) (Value, bool) {
			f, l, ok := ends(args[0])
			if !ok {
				return nil, false
			}
			m.loc.contrs[fn] = true
			return g(f, l, m.force(args[0]).(Struct)), true
		})
	}
}

// ordPrefix is a prefix of which the first and the last address are known.
func (m *M) ordPrefix() (f, l Ord, p Value) {
	f, l = m.anyRange()
	if m.ordEndsOf == nil {
		m.ordEndsOf = map[int]Ord{}
	}
	m.ordEndsOf[f.V] = l
	return f, l, m.mkPrefix(f, &OrdLen{one: func() bool { return m.affEq(ordAff(f), ordAff(l)) }, all: func() bool {
		return m.affEq(ordAff(f), K(0)) && m.affEq(ordAff(l), Aff{V: m.ordZ.max})
	}})
}

// walkStop is a callback of the user for walks: it records and may stop.
func (m *M) walkStop(rec func(v Value)) *Fn {
	return &Fn{name: "visit", impl: func(m *M, args []Value) Value {
		if m.stopped {
			m.fail("stop", "a callback is invoked after one returned false")
		}
		rec(args[0])
		if m.choose(2, "visit returns") == 1 {
			m.stopped = true
			m.stopReq++
			return false
		}
		return true
	}}
}

// zoneView are the bounds between some numbers.
func (m *M) zoneView(as []Aff) []int64 {
	var r []int64
	for _, a := range as {
		for _, b := range as {
			r = append(r, m.zone.d[a.V][b.V]+a.C-b.C)
		}
	}
	return r
}

func looser(a, b []int64) bool {
	for i := range a {
		if a[i] < b[i] && !(a[i] >= inf/2) {
			return false
		}
	}
	return true
}

type walkState struct {
	sig  string
	view []int64
}

func setWalkRanges(m *M) {
	fn := m.need("Set", "WalkRanges", 2)
	root := m.walkTrie()
	m.ordPrefixes()
	var want, got [][2]Aff
	have := false
	var rf, rl Aff
	walked := false
	agree := func() {
		for i := range got {
			if i < len(want) {
				m.check(m.affEq(got[i][0], want[i][0]) && m.affEq(got[i][1], want[i][1]), "value", "range %d that is visited isn't a maximal range of the set", i+1)
			}
		}
	}
	m.onWalk(root, func(visit func(p Value) bool, state func() []Value) bool {
		walked = true
		if root.obj == nil {
			return true
		}
		max := Aff{V: m.ordZ.max}
		var seen []walkState
		for k := 0; ; k++ {
			if k > 0 && m.choose(2, "more") == 0 {
				return true
			}
			f, l, p := m.ordPrefix()
			if have {
				m.assumeLeq(rl.plus(1), ordAff(f))
				if m.affEq(rl.plus(1), ordAff(f)) {
					rl = ordAff(l)
				} else {
					want = append(want, [2]Aff{rf, rl})
					rf, rl = ordAff(f), ordAff(l)
				}
			} else {
				have, rf, rl = true, ordAff(f), ordAff(l)
			}
			if !visit(p) {
				return false
			}
			if m.stopped {
				// nothing may happen any more
				if k > 3 {
					return true
				}
				continue
			}
			agree()
			sig, ok := m.signature(state(), func(v Value) (string, bool) {
				switch v.(type) {
				case Const:
					return vstr(v), true
				case Ord:
					a := ordAff(v.(Ord))
					for i, g := range []Aff{rf, rl, max} {
						for c := int64(-1); c <= 1; c++ {
							if m.entEq(a, g.plus(c)) {
								return [...]string{"first", "last", "max"}[i] + vstr(Const{c}), true
							}
						}
					}
				}
				return vstr(v), false
			})
			if ok && len(got) == len(want) {
				st := walkState{sig, m.zoneView([]Aff{K(0), rf, rl, max})}
				for _, s := range seen {
					if s.sig == st.sig && looser(s.view, st.view) {
						m.covered()
					}
				}
				seen = append(seen, st)
			}
			if k > 4 {
				m.undecided("the state of the callback isn't of a form that recurs")
			}
		}
	})
	res := m.run(fn, m.setVal(root), m.walkStop(func(v Value) {
		f, l := m.ordEnds(v, "a range")
		got = append(got, [2]Aff{f, l})
	}))
	if !walked && root.obj != nil {
		m.undecided("the prefixes of the set aren't walked")
	}
	m.checkReturn(res)
	if have {
		want = append(want, [2]Aff{rf, rl})
	}
	agree()
	m.check(len(got) <= len(want), "value", "more ranges are visited than the set has")
	m.check(m.stopped || len(got) == len(want), "value", "a range of the set isn't visited")
}

func setWalkAddresses(m *M) {
	fn := m.need("Set", "WalkAddresses", 2)
	root := m.walkTrie()
	m.ordPrefixes()
	walked := false
	// within the current prefix: the next address to be visited, if any
	var next, last Aff
	pending := false
	depth := 0
	type key struct {
		fr  *Frame
		blk *ssa.BasicBlock
	}
	seen := map[key][]walkState{}
	num := func(v Value) (string, bool) {
		switch x := v.(type) {
		case Const:
			return vstr(v), true
		case Ord:
			a := ordAff(x)
			w := ""
			if x.wide {
				w = "w"
			}
			refs := []Aff{last, {V: m.ordZ.max}}
			names := []string{"last", "max"}
			if pending {
				refs = append([]Aff{next}, refs...)
				names = append([]string{"next"}, names...)
			}
			for i, g := range refs {
				for c := int64(-1); c <= 1; c++ {
					if m.entEq(a, g.plus(c)) {
						return w + names[i] + vstr(Const{c}), true
					}
				}
			}
			for c := int64(0); c <= 1; c++ {
				if m.entEq(a, K(c)) {
					return w + vstr(Const{c}), true
				}
			}
		}
		return vstr(v), false
	}
	m.loopHook = func(m *M, f *Frame, b, prev *ssa.BasicBlock) {
		if depth == 0 || prev == nil || !isLoopHead(b) {
			return
		}
		// the state of the innermost loop that visits: the variables of this
		// frame that are live here
		vals := liveAt(f, b, prev, m)
		sig, ok := m.signature(vals, num)
		if !ok {
			return
		}
		refs := []Aff{K(0), last, {V: m.ordZ.max}}
		if pending {
			refs = append(refs, next)
			sig += "+"
		}
		if m.stopped {
			sig += "stopped"
		}
		st := walkState{sig, m.zoneView(refs)}
		k := key{f, b}
		for _, s := range seen[k] {
			if s.sig == st.sig && looser(s.view, st.view) {
				if f.visits[b] > 1 && len(seen[k]) > 0 && m.extra["progress"] == nil {
					m.fail("term", "a loop comes back to the same state without having visited an address")
				}
				m.covered()
			}
		}
		m.extra["progress"] = nil
		seen[k] = append(seen[k], st)
	}
	m.onWalk(root, func(visit func(p Value) bool, state func() []Value) bool {
		walked = true
		if root.obj == nil {
			return true
		}
		before, ok := m.signature(state(), num)
		f, l, p := m.ordPrefix()
		next, last, pending = ordAff(f), ordAff(l), true
		depth++
		r := visit(p)
		depth--
		if !r {
			return false
		}
		if m.stopped {
			// nothing may happen any more
			_, l2, p2 := m.ordPrefix()
			_ = l2
			depth++
			visit(p2)
			depth--
			return true
		}
		m.check(!pending, "value", "an address of the set isn't visited")
		after, ok2 := m.signature(state(), num)
		if !ok || !ok2 || before != after {
			m.undecided("the callback has a state: %s, %s", before, after)
		}
		return true
	})
	res := m.run(fn, m.setVal(root), m.walkStop(func(v Value) {
		a := m.ordOf(v, "an address")
		m.check(pending, "value", "an address is visited although all of the prefix were")
		m.check(m.affEq(a, next), "value", "an address is visited out of order, twice, or not in the set")
		m.extra["progress"] = true
		if m.affEq(next, last) {
			pending = false
		} else {
			// rename it, so that states can recur
			n := m.newOrd()
			m.assumeLeq(next.plus(1), ordAff(n))
			m.assumeLeq(ordAff(n), next.plus(1))
			next = ordAff(n)
		}
	}))
	if !walked && root.obj != nil {
		m.undecided("the prefixes of the set aren't walked")
	}
	m.checkReturn(res)
}

// setWalkAddressesBits looks at the first addresses of a prefix of arbitrary
// bits, of each length, where the loop over the addresses is of a form for which
// there is no induction. It finds failures; it doesn't prove anything for the
// prefixes of more addresses.
func setWalkAddressesBits(m *M) {
	m.mode = "bits"
	fn := m.need("Set", "WalkAddresses", 2)
	root := m.walkTrie()
	l := m.W - int64(m.choose(int(m.W)+1, "length"))
	x := m.newBits(int(m.W))
	for i := int64(0); i < m.W-l; i++ {
		x.b[i] = bitConst(false)
	}
	first := bitsConst(x.simp(), int(m.W))
	k, all := int64(0), int64(4)
	if m.W-l < 2 {
		all = int64(1) << uint(m.W-l)
	}
	walked := false
	m.onWalk(root, func(visit func(p Value) bool, state func() []Value) bool {
		walked = true
		return root.obj == nil || visit(m.bitsPrefix(first, l))
	})
	res := m.run(fn, m.setVal(root), &Fn{name: "visit", impl: func(m *M, args []Value) Value {
		if m.stopped {
			m.fail("stop", "a callback is invoked after one returned false")
		}
		m.check(k < all, "value", "more addresses are visited than the prefix has")
		m.sameBits(m.bitsOf(args[0], "an address"), bitsConst(first.binop(m, token.ADD, Const{k}), int(m.W)), "an address visited")
		k++
		if m.choose(2, "visit returns") == 1 {
			m.stopped = true
			m.stopReq++
			return false
		}
		if k == all && m.W-l > 2 {
			m.undecided("only the first addresses of a prefix are looked at")
		}
		return true
	}})
	if !walked && root.obj != nil {
		m.undecided("the prefixes of the set aren't walked")
	}
	m.check(root.obj == nil || m.stopped || k == all, "value", "not all addresses of the prefix are visited")
	m.checkReturn(res)
}

func isLoopHead(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

// liveAt are the values that the code from b on may use: the phis of b as they
// will be, and what was computed before the loop.
func liveAt(f *Frame, b, prev *ssa.BasicBlock, m *M) []Value {
	var vals []Value
	k := -1
	for j, p := range b.Preds {
		if p == prev {
			k = j
		}
	}
	phi := map[ssa.Value]bool{}
	for _, in := range b.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			vals = append(vals, m.val(f, p.Edges[k]))
			phi[p] = true
		}
	}
	used := map[ssa.Value]bool{}
	for _, blk := range b.Parent().Blocks {
		if !reaches(b, blk) {
			continue
		}
		for _, in := range blk.Instrs {
			p, isPhi := in.(*ssa.Phi)
			for i, op := range in.Operands(nil) {
				if isPhi && !reaches(b, p.Block().Preds[i]) {
					continue
				}
				if *op == nil || used[*op] || phi[*op] {
					continue
				}
				used[*op] = true
				def, ok := (*op).(ssa.Instruction)
				if ok && !(def.Block() != b && def.Block().Dominates(b)) {
					continue // computed again before it's used
				}
				if v, ok := f.env[*op]; ok {
					vals = append(vals, v)
				}
			}
		}
	}
	return vals
}

func reaches(a, b *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	todo := []*ssa.BasicBlock{a}
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		if seen[x] {
			continue
		}
		seen[x] = true
		if x == b {
			return true
		}
		todo = append(todo, x.Succs...)
	}
	return false
}

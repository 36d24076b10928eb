package main

// The operations of Set and Set_.

import "fmt"

// setRead is an operation that doesn't modify the set.
type setRead struct {
	name string
	// arg: "" none, "SetI", "same" (of the type of the receiver)
	arg    string
	ghosts int
	// hyp: assume that an operand is in a relation to the other
	check func(m *M, root Ptr, arg *setArg, res Value) (bool, string)
}

// setResult checks a returned set against what it should contain.
func (m *M) setResult(res Value, want func(i int) bool) (bool, string) {
	r := m.setTrie(res, "the result")
	for i := range m.ghosts {
		if got := m.setFact(r, i); got != want(i) {
			return false, fmt.Sprintf("an address that should be %s the result is %s it", inOut(want(i)), inOut(got))
		}
	}
	return true, ""
}

func binRead(name string, op func(a, b bool) bool) setRead {
	return setRead{name: name, arg: "SetI", ghosts: 1, check: func(m *M, root Ptr, arg *setArg, res Value) (bool, string) {
		return m.setResult(res, func(i int) bool { return op(m.setFact(root, i), arg.fact(i).full) })
	}}
}

var setReads = []setRead{
	binRead("Union", opOr),
	binRead("Intersection", opAnd),
	binRead("Difference", opAndNot),
	{name: "Contains/true", arg: "SetI", ghosts: 1, check: func(m *M, root Ptr, arg *setArg, res Value) (bool, string) {
		for i := 0; i < len(m.ghosts) && m.truth(res); i++ {
			if arg.fact(i).full && !m.setFact(root, i) {
				return false, "true although an address isn't contained"
			}
		}
		return true, ""
	}},
	{name: "Contains/false", arg: "SetI", check: func(m *M, root Ptr, arg *setArg, res Value) (bool, string) {
		// with the hypothesis that every address is contained
		if !m.truth(res) {
			return false, "false although every address is contained"
		}
		return true, ""
	}},
	{name: "Equal/true", arg: "same", ghosts: 1, check: func(m *M, root Ptr, arg *setArg, res Value) (bool, string) {
		for i := 0; i < len(m.ghosts) && m.truth(res); i++ {
			if arg.fact(i).full != m.setFact(root, i) {
				return false, "true although an address is only in one of the sets"
			}
		}
		return true, ""
	}},
	{name: "Equal/false", arg: "same", check: func(m *M, root Ptr, arg *setArg, res Value) (bool, string) {
		if !m.truth(res) {
			return false, "false although the sets have the same addresses"
		}
		return true, ""
	}},
	{name: "IsEmpty", check: func(m *M, root Ptr, arg *setArg, res Value) (bool, string) {
		if r := m.truth(res); r != (root.obj == nil) {
			return false, fmt.Sprintf("%v although the set is %s", r, map[bool]string{true: "empty", false: "not empty"}[root.obj == nil])
		}
		return true, ""
	}},
	{name: "NumAddresses", check: func(m *M, root Ptr, arg *setArg, res Value) (bool, string) {
		m.checkCount(res, m.addrsOf(root), "the number of addresses")
		return true, ""
	}},
	{name: "Set", ghosts: 1, check: func(m *M, root Ptr, arg *setArg, res Value) (bool, string) {
		return m.setResult(res, func(i int) bool { return m.setFact(root, i) })
	}},
}

func baseName(n string) string {
	for i := range n {
		if n[i] == '/' {
			return n[:i]
		}
	}
	return n
}

func (f *Family) setObligations() []*Obligation {
	var obs []*Obligation
	add := func(id, desc string, run func(m *M)) {
		obs = append(obs, &Obligation{id: f.name + "/api/" + id, fam: f, desc: desc, run: run})
	}
	for _, rd := range setReads {
		rd := rd
		meth := baseName(rd.name)
		for _, recv := range []string{"Set", "Set_"} {
			recv := recv
			if !f.has(recv, meth) || meth == "Set" && recv == "Set" {
				continue
			}
			kinds := []string{""}
			switch rd.arg {
			case "SetI":
				kinds = append([]string{"nil"}, setArgKinds...)
			case "same":
				kinds = []string{recv}
			}
			params := 1
			if rd.arg != "" {
				params = 2
			}
			var nonNil []string
			for _, k := range kinds {
				if k != "nil" {
					nonNil = append(nonNil, k)
				}
			}
			one := func(m *M, kinds []string, mode string) {
				fn := m.need(recv, meth, params)
				ghosts := rd.ghosts
				if ghosts > 0 && (mode == "volatile" || mode == "shared") {
					// states that each agree with the result for one address
					// don't explain it
					ghosts++
				}
				for i := 0; i < ghosts; i++ {
					m.addGhostLeaf(fmt.Sprint("x", i))
				}
				var root Ptr
				var v Value
				var cell, other *Cell
				if mode != "zero" && mode != "volatile" {
					root = m.anyTrie(kSet, "me")
				}
				switch {
				case recv == "Set":
					v = m.setVal(root)
				case mode == "zero":
					v = m.zeroOf("Set_")
				default:
					v, cell = m.newSet_(root, mode == "volatile")
				}
				args := []Value{v}
				var arg *setArg
				if rd.arg != "" {
					kind := kinds[m.choose(len(kinds), "kind of argument")]
					var a setArg
					switch {
					case mode == "shared":
						a, other = m.sharedSet()
					case mode == "self":
						a = setArg{m.iface("Set_", v), func(i int) Fact { return m.fact(kSet, root, i) }, kind, m.someLeaf(root)}
					case rd.name == "Equal/false":
						a = m.sameSet(kind, root)
					default:
						a = m.anySetI(kind)
					}
					arg = &a
					if rd.arg == "same" {
						// not an interface
						args = append(args, a.v.(Iface).v)
					} else {
						args = append(args, a.v)
					}
				}
				if rd.name == "Contains/false" || rd.name == "Equal/false" {
					m.extra["witness"] = func(m *M, i int) {
						a, b := m.setFact(root, i), arg.fact(i).full
						if b && !a || rd.name == "Equal/false" && a && !b {
							m.infeasible()
						}
					}
					m.assumeWitness(*arg)
				}
				res := m.run(fn, args...)
				if cell != nil && len(cell.stores) > 0 {
					m.fail("value", "an operation that only reads modifies the set")
				}
				if mode == "shared" {
					m.check(len(other.stores) == 0, "value", "an operation modifies its argument")
					m.tornArg(other, func(s *setArg) bool {
						ok, _ := rd.check(m, root, s, res)
						return ok
					})
					return
				}
				if mode == "volatile" {
					if len(cell.loads) <= 1 {
						return
					}
					msg := ""
					for _, r := range cell.loads {
						ok, s := rd.check(m, r, arg, res)
						if ok {
							return
						}
						msg = s
					}
					m.fail("torn", "the set is read more than once, the result agrees with none of the states: %s", msg)
				}
				if arg != nil && meth != "Contains" && meth != "Equal" || meth == "Set" {
					m.checkValid(kSet, m.setTrie(res, "the result"), "the result")
				}
				ok, msg := rd.check(m, root, arg, res)
				m.check(ok, "value", "%s", msg)
			}
			add(recv+"."+rd.name, "the result for an arbitrary address, for every kind of argument", func(m *M) { one(m, nonNil, "") })
			if rd.arg == "SetI" {
				add(recv+"."+rd.name+"/nil", "nil as the argument is the empty set", func(m *M) { one(m, []string{"nil"}, "") })
			}
			if rd.arg == "SetI" && rd.name != "Contains/false" || rd.name == "Equal/true" && recv == "Set_" {
				add(recv+"."+rd.name+"/shared/volatile", "a set as the argument that others modify is read once, atomically", func(m *M) { one(m, []string{"Set_"}, "shared") })
			}
			if recv == "Set_" && rd.arg != "" {
				add(recv+"."+rd.name+"/self", "the set itself as the argument", func(m *M) { one(m, []string{"Set_"}, "self") })
			}
			if recv == "Set_" {
				add(recv+"."+rd.name+"/zero", "an uninitialized set reads as an empty one", func(m *M) { one(m, kinds, "zero") })
				if rd.name != "Contains/false" && rd.name != "Equal/false" {
					add(recv+"."+rd.name+"/volatile", "the set is read once, atomically", func(m *M) { one(m, nonNil, "volatile") })
				}
			}
		}
	}
	for _, w := range []struct {
		name string
		op   func(a, b bool) bool
	}{{"Insert", opOr}, {"Remove", opAndNot}} {
		w := w
		kinds := append([]string{}, setArgKinds...)
		one := func(m *M, kinds []string, mode string) {
			fn := m.need("Set_", w.name, 2)
			m.addGhostLeaf("x")
			if mode == "shared" {
				m.addGhostLeaf("y")
			}
			if mode == "zero" {
				a := m.anySetI(kinds[m.choose(len(kinds), "kind of argument")])
				_, tp := m.trial(func() Value { return m.run(fn, m.zeroOf("Set_"), a.v) })
				m.check(tp != nil, "value", "an uninitialized set is modified without a panic")
				return
			}
			var root Ptr
			if mode != "volatile" {
				root = m.anyTrie(kSet, "me")
			}
			v, cell := m.newSet_(root, mode == "volatile")
			var a setArg
			switch mode {
			case "shared":
				var other *Cell
				a, other = m.sharedSet()
				_, tp := m.trial(func() Value { return m.run(fn, v, a.v) })
				m.check(len(other.stores) == 0, "value", "an operation modifies its argument")
				m.check(tp == nil, "panic", "a modification panics without a concurrent one")
				m.tornArg(other, func(s *setArg) bool {
					for i := range m.ghosts {
						if m.setFact(cell.cur, i) != w.op(m.setFact(root, i), s.fact(i).full) {
							return false
						}
					}
					return true
				})
				return
			case "self":
				a = setArg{m.iface("Set_", v), func(i int) Fact { return m.fact(kSet, root, i) }, "itself", nil}
			default:
				a = m.anySetI(kinds[m.choose(len(kinds), "kind of argument")])
			}
			if mode != "volatile" {
				m.run(fn, v, a.v)
				m.checkValid(kSet, cell.cur, "the result")
				want := w.op(m.setFact(root, 0), a.fact(0).full)
				m.check(m.setFact(cell.cur, 0) == want, "value", "an address that should be %s the set is %s it afterwards", inOut(want), inOut(!want))
				return
			}
			_, tp := m.trial(func() Value { return m.run(fn, v, a.v) })
			m.checkAtomic(cell, tp, func(old, new Ptr) bool {
				return m.setFact(new, 0) == w.op(m.setFact(old, 0), a.fact(0).full)
			})
		}
		add("Set_."+w.name, "membership of an arbitrary address afterwards, for every kind of argument", func(m *M) { one(m, kinds, "") })
		add("Set_."+w.name+"/nil", "nil as the argument is the empty set", func(m *M) { one(m, []string{"nil"}, "") })
		add("Set_."+w.name+"/self", "the set itself as the argument", func(m *M) { one(m, nil, "self") })
		add("Set_."+w.name+"/shared/volatile", "a set as the argument that others modify is read once, atomically", func(m *M) { one(m, nil, "shared") })
		add("Set_."+w.name+"/zero", "modification of an uninitialized set panics", func(m *M) { one(m, append([]string{"nil"}, kinds...), "zero") })
		add("Set_."+w.name+"/volatile", "the modification is one atomic step from what it replaces or panics", func(m *M) { one(m, kinds, "volatile") })
	}
	add("Set.Set_", "a mutable clone has the same addresses and is separate", func(m *M) {
		fn := m.need("Set", "Set_", 1)
		m.addGhostLeaf("x")
		root := m.anyTrie(kSet, "me")
		var objs [2]*Obj
		for i := range objs {
			v := m.run(fn, m.setVal(root))
			p := m.unwrap(v, m.typ("Set_"), m.typ("Set"), "the clone")
			m.check(p.obj != nil, "value", "the clone isn't initialized")
			objs[i] = p.obj
			r := m.setTrie(m.load(p), "the contents of the clone")
			m.check(m.setFact(r, 0) == m.setFact(root, 0), "value", "the clone has other addresses")
		}
		m.check(objs[0] != objs[1], "value", "two clones share their contents")
		m.check(!objs[0].frozen, "value", "the clone shares its contents with something else")
	})
	add("NewSet_", "a new mutable set is initialized, empty and separate", func(m *M) {
		fn := m.need("", "NewSet_", 0)
		var objs [2]*Obj
		for i := range objs {
			p := m.unwrap(m.run(fn), m.typ("Set_"), m.typ("Set"), "the set")
			m.check(p.obj != nil, "value", "the set isn't initialized")
			objs[i] = p.obj
			r := m.setTrie(m.load(p), "the contents of the set")
			m.check(r.obj == nil, "value", "the set isn't empty")
		}
		m.check(objs[0] != objs[1], "value", "two new sets share their contents")
	})
	add("Set.Build", "the builder gets a separate mutable clone; its contents are the result if it returns true, the original otherwise", func(m *M) {
		fn := m.need("Set", "Build", 2)
		m.addGhostLeaf("x")
		root, built := m.anyTrie(kSet, "me"), m.anyTrie(kSet, "built")
		calls := 0
		ret := m.choose(2, "builder returns") == 1
		res := m.run(fn, m.setVal(root), &Fn{name: "builder", impl: func(m *M, args []Value) Value {
			calls++
			p := m.unwrap(args[0], m.typ("Set_"), m.typ("Set"), "the builder's argument")
			m.check(p.obj != nil, "value", "the builder gets an uninitialized set")
			r := m.setTrie(m.load(p), "the contents of the clone")
			m.check(m.setFact(r, 0) == m.setFact(root, 0), "value", "the clone has other addresses")
			m.store(Ptr{obj: p.obj, path: p.path}, m.setVal(built))
			return ret
		}})
		m.check(calls == 1, "value", "the builder is called %d times", calls)
		r, want := m.setTrie(res, "the result"), root
		if ret {
			want = built
		}
		m.check(m.setFact(r, 0) == m.setFact(want, 0), "value", "the result isn't what the builder left (it returned %v)", ret)
	})
	for _, k := range []string{"Address", "Prefix", "Range"} {
		k := k
		add(k+".Set", "membership of an arbitrary address", func(m *M) {
			fn := m.need(k, "Set", 1)
			m.addGhostLeaf("x")
			a := m.anySetI(k)
			r := m.setTrie(m.run(fn, a.v.(Iface).v), "the result")
			m.checkValid(kSet, r, "the result")
			m.check(m.setFact(r, 0) == a.fact(0).full, "value", "an address that should be %s the set is %s it", inOut(a.fact(0).full), inOut(!a.fact(0).full))
		})
		if k == "Address" || !f.has(k, "Contains") {
			continue
		}
		add(k+".Contains/true", "true only if an arbitrary address of the argument is contained", func(m *M) {
			fn := m.need(k, "Contains", 2)
			m.addGhostLeaf("x")
			a, b := m.anySetI(k), m.anySetI(setArgKinds[m.choose(len(setArgKinds), "kind of argument")])
			r := m.truth(m.run(fn, a.v.(Iface).v, b.v))
			m.check(!(r && b.fact(0).full && !a.fact(0).full), "value", "true although an address isn't contained")
		})
		add(k+".Contains/false", "true if every address of the argument is contained", func(m *M) {
			fn := m.need(k, "Contains", 2)
			a, b := m.anySetI(k), m.anySetI(setArgKinds[m.choose(len(setArgKinds), "kind of argument")])
			m.extra["witness"] = func(m *M, i int) {
				if b.fact(i).full && !a.fact(i).full {
					m.infeasible()
				}
			}
			m.assumeWitness(b)
			m.check(m.truth(m.run(fn, a.v.(Iface).v, b.v)), "value", "false although every address is contained")
		})
		add(k+".Contains/shared/volatile", "a set as the argument that others modify is read once, atomically", func(m *M) {
			fn := m.need(k, "Contains", 2)
			m.addGhostLeaf("x")
			m.addGhostLeaf("y")
			a := m.anySetI(k)
			b, c := m.sharedSet()
			r := m.truth(m.run(fn, a.v.(Iface).v, b.v))
			m.tornArg(c, func(s *setArg) bool {
				for i := range m.ghosts {
					if r && s.fact(i).full && !a.fact(i).full {
						return false
					}
				}
				return true
			})
		})
		add(k+".Contains/nil", "nil as the argument is the empty set", func(m *M) {
			fn := m.need(k, "Contains", 2)
			m.check(m.truth(m.run(fn, m.anySetI(k).v.(Iface).v, Iface{})), "value", "false although the argument is the empty set")
		})
	}
	find := func(nilRes bool, found bool) func(m *M) {
		return func(m *M) {
			fn := m.need("Set", "FindAvailablePrefix", 3)
			kinds := []string{"Set", "Set_", "Address", "Prefix", "other"}
			if found {
				kinds = append(kinds, "Range")
				m.addGhostLeaf("x")
			} else {
				m.addGhostKey("g")
			}
			if nilRes {
				kinds = []string{"nil"}
			}
			root := m.anyTrie(kSet, "me")
			res := m.anySetI(kinds[m.choose(len(kinds), "kind of reserved set")])
			var lv Aff
			if found {
				lv = Aff{V: m.zone.newVar()}
				m.assumeLeq(K(0), lv)
				m.assumeLeq(lv, K(1<<32-1))
			} else {
				lv = m.depth(m.ghosts[0].pt)
			}
			t := m.run(fn, m.setVal(root), res.v, fromAff(lv)).(Tuple)
			if !found {
				if isErr(t[1]) {
					m.check(!(m.fact(kSet, root, 0).full && !res.fact(0).touch), "value", "an error although a prefix of the requested length is available")
				}
				return
			}
			if isErr(t[1]) {
				return
			}
			w, l := m.prefixParts(m.force(t[0]).(Struct))
			m.check(m.affEq(l, lv), "value", "the prefix found doesn't have the requested length")
			q := m.point(w, l)
			m.check(m.wEq(w, m.ptWord(q)), "value", "the prefix found has host bits")
			if m.isAnc(q, m.ghosts[0].pt) {
				m.check(m.setFact(root, 0), "value", "an address of the prefix found isn't in the set")
				m.check(!res.fact(0).full, "value", "an address of the prefix found is reserved")
			}
		}
	}
	add("Set.FindAvailablePrefix/shared/volatile", "a set as the argument that others modify is read once, atomically", func(m *M) {
		fn := m.need("Set", "FindAvailablePrefix", 3)
		m.addGhostLeaf("x")
		m.addGhostLeaf("y")
		b, c := m.sharedSet()
		lv := Aff{V: m.zone.newVar()}
		m.assumeLeq(K(0), lv)
		m.assumeLeq(lv, K(m.W))
		t := m.run(fn, m.setVal(m.anyTrie(kSet, "me")), b.v, fromAff(lv)).(Tuple)
		if isErr(t[1]) {
			return
		}
		q := m.point(m.prefixParts(m.force(t[0]).(Struct)))
		m.tornArg(c, func(s *setArg) bool {
			for i, x := range m.ghosts {
				if m.isAnc(q, x.pt) && s.fact(i).full {
					return false
				}
			}
			return true
		})
	})
	add("Set.FindAvailablePrefix/found", "the prefix found has the requested length, and an arbitrary address of it is in the set and isn't reserved", find(false, true))
	add("Set.FindAvailablePrefix/notfound", "if an arbitrary prefix of the requested length is available then there is no error", find(false, false))
	add("Set.FindAvailablePrefix/best", "no available block that is large enough is smaller than the one the prefix found is taken from", func(m *M) {
		fn := m.need("Set", "FindAvailablePrefix", 3)
		g, up := m.addGhostBlock("g")
		m.addGhostKey("h")
		d, h := m.depth(m.ghosts[g].pt), len(m.ghosts)-1
		lv := Aff{V: m.zone.newVar()}
		m.assumeLeq(d, lv)
		m.assumeLeq(lv, K(m.W))
		root := m.anyTrie(kSet, "me")
		res := m.anySetI([]string{"Set", "Set_", "Address", "Prefix", "other", "nil"}[m.choose(6, "kind of reserved set")])
		free := func(i int) bool { return m.fact(kSet, root, i).full && !res.fact(i).touch }
		if !free(g) || up >= 0 && free(up) || !free(h) {
			m.infeasible()
		}
		t := m.run(fn, m.setVal(root), res.v, fromAff(lv)).(Tuple)
		m.check(!isErr(t[1]), "best", "an error although there is an available block that is large enough")
		w, l := m.prefixParts(m.force(t[0]).(Struct))
		if top := m.ghosts[h].pt; m.isAnc(top, m.point(w, l)) {
			m.check(m.leq(d, m.depth(top)), "best", "the prefix found is taken from a block that is larger than another one that is large enough")
		}
	})
	obs[len(obs)-1].aspect = "best"
	add("Set.FindAvailablePrefix/nil/found", "nil as the reserved set is the empty set", find(true, true))
	add("Set.FindAvailablePrefix/nil/notfound", "nil as the reserved set is the empty set", find(true, false))
	return obs
}

// tornArg checks that the result of an operation whose argument others modify
// agrees with a state that the argument had.
func (m *M) tornArg(c *Cell, agrees func(s *setArg) bool) {
	if len(c.loads) <= 1 {
		m.check(true, "torn", "")
		return
	}
	for _, r := range c.loads {
		if agrees(&setArg{fact: func(i int) Fact { return m.fact(kSet, r, i) }}) {
			return
		}
	}
	m.fail("torn", "the argument is read more than once, the result agrees with none of its states")
}

// checkAtomic checks a modification under concurrent ones.
func (m *M) checkAtomic(c *Cell, tp *targetPanic, step func(old, new Ptr) bool) {
	m.check(len(c.stores) <= 1, "atomic", "a modification consists of several steps")
	for _, s := range c.stores {
		if !s.cas {
			m.fail("atomic", "the contents are replaced without checking that they are still the ones that the new contents were made from (%s)", s.pos)
		}
		m.check(tp == nil, "atomic", "a modification panics although it took effect")
		m.check(step(s.old, s.new), "atomic", "the new contents weren't made from the ones that they replace")
	}
	if len(c.stores) > 0 {
		return
	}
	if tp != nil {
		m.check(c.failed, "panic", "a modification panics without a concurrent one: %s", vstr(tp.v))
		return
	}
	for _, r := range c.loads {
		if step(r, r) {
			return
		}
	}
	if c.failed {
		m.fail("atomic", "a modification is lost because of a concurrent one, without a panic")
	}
	m.fail("atomic", "a modification has no effect")
}

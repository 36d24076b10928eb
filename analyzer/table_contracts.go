package main

// Contracts of the functions over tables.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (m *M) tableMode() {
	m.extra["kind"] = kTable
	m.extra["junk"] = true
}

// ghostAt is the ghost at a position, or -1.
func (m *M) ghostAt(pt int) int {
	for i, g := range m.ghosts {
		if g.pt == pt {
			return i
		}
	}
	return -1
}

// entryAt is the value stored exactly at a position of a trie (nil: none).
func (m *M) entryAt(p Ptr, pt int) Value {
	if p.obj == nil {
		return nil
	}
	if i := m.ghostAt(pt); i >= 0 {
		return m.fact(kTable, p, i).at
	}
	if m.choose(2, "entry") == 0 {
		return nil
	}
	return m.newSym("old")
}

func atFact(v Value) Fact { return Fact{at: v, best: v} }

// meetPt bounds the meet of a trie and a position.
func (m *M) meetPt(p Ptr, pt int) (anc, side int, exact bool) {
	if p.obj == nil {
		return pt, -1, true
	}
	a, s, e := m.boundOf(p)
	return m.meetBounds(a, s, e, pt, -1, true)
}

// fieldIdx finds a field by name.
func fieldIdx(t types.Type, name string) int {
	if s, ok := t.Underlying().(*types.Struct); ok {
		for i := 0; i < s.NumFields(); i++ {
			if s.Field(i).Name() == name {
				return i
			}
		}
	}
	return -1
}

func (m *M) keyVal(pt int) Struct { return m.mkPrefix(m.ptJunk(pt), m.depth(pt)) }

// heapNode makes a new node as the code does it.
func (m *M) heapNode(pt int, data Value) Ptr {
	s := m.zero(m.fam.trieNode).(Struct)
	s[m.fam.fPrefix] = m.keyVal(pt)
	s[m.fam.fData] = data
	return Ptr{obj: m.newObj(m.fam.trieNode, s, "node")}
}

// sameEntry checks that two tries agree about a ghost.
func (m *M) sameEntry(clause string, r, a Ptr, i int, what string) {
	x, y := m.fact(kTable, r, i).at, m.fact(kTable, a, i).at
	switch {
	case x == nil && y != nil:
		m.fail(clause, "%s: an entry of another prefix disappears", what)
	case x != nil && y == nil:
		m.fail(clause, "%s: an entry appears at another prefix", what)
	case x != nil:
		m.check(m.identical(x, y), clause, "%s: the value of another prefix changes", what)
	}
}

func (m *M) checkSize(r Ptr, want Lin, what string) {
	got := m.sizeOf(r)
	if !linEq(m.linRen(got), m.linRen(want)) {
		m.settleSizes()
	}
	m.check(linEq(m.linRen(got), m.linRen(want)), "size", "%s: the entry count is %s instead of %s", what, m.linRen(got), m.linRen(want))
}

// checkMeet checks the position of the root of a result.
func (m *M) checkMeet(r, a Ptr, p int) {
	if a.obj == nil {
		m.check(m.ptOf(r) == p, "place", "the root of the result is misplaced")
		return
	}
	m.check(m.ptOf(r) == m.lca(m.ptOf(a), p), "place", "the root of the result is misplaced")
}

func isFn(sig *types.Signature, params, results int) bool {
	return sig.Params().Len() == params && sig.Results().Len() == results
}

// ---- insert ----

type insertContract struct{}

type insertArgs struct {
	insert, update, flatten bool
	eq                      Value
}

func (c *insertContract) opts(m *M, t types.Type, o insertArgs) Value {
	s := m.zero(t).(Struct)
	set := func(n string, v Value) {
		i := fieldIdx(t, n)
		if i < 0 {
			m.undecided("the options of insert have no field %s", n)
		}
		s[i] = v
	}
	set("insert", o.insert)
	set("update", o.update)
	set("flatten", o.flatten)
	if o.eq != nil {
		set("eq", o.eq)
	}
	return s
}

func (c *insertContract) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	if len(fn.Params) != 3 {
		return nil
	}
	return []*Obligation{{id: fam.name + "/" + name, fam: fam, top: fn,
		desc: "an error exactly if the options rule the operation out, otherwise the value at the key, everything else unchanged, entry count, shape, freshness, recursion",
		run: func(m *M) {
			m.tableMode()
			m.addGhostKey("p")
			p := m.ghosts[0].pt
			m.addGhostKey("g")
			me := m.anyTrie(kTable, "me")
			v := m.newSym("new")
			mode := m.choose(3, "mode")
			o := insertArgs{insert: mode != 1, update: mode != 0}
			if o.update {
				o.eq = eqUser()
			}
			m.setRank(me)
			t := m.exec(fn, []Value{me, m.heapNode(p, v), c.opts(m, fn.Params[2].Type(), o)}, nil).(Tuple)
			old := m.fact(kTable, me, 0).at
			c.check(m, me, t[0], t[1], p, old, v, o)
		}}}
}

func (c *insertContract) check(m *M, me Ptr, head, err Value, p int, old, v Value, o insertArgs) {
	exists := old != nil
	want := exists && !o.update || !exists && !o.insert
	got := isErr(err)
	if want != got {
		if got {
			m.fail("value", "insert fails although the prefix is %s the table (insert %v, update %v)", inOut(exists), o.insert, o.update)
		}
		m.fail("value", "insert succeeds although the prefix is %s the table (insert %v, update %v)", inOut(exists), o.insert, o.update)
	}
	if got {
		return
	}
	r := m.nodePtr(head, "the result")
	m.check(r.obj != nil, "value", "the result of an insertion is empty")
	m.checkValid(kTable, r, "the result")
	m.checkValueAt(r, 0, old, v)
	if m.ghosts[1].pt != p {
		m.sameEntry("value", r, me, 1, "insert")
	}
	want2 := m.sizeOf(me)
	if !exists {
		want2.C++
	}
	m.checkSize(r, want2, "insert")
	m.checkMeet(r, me, p)
}

// checkValueAt: ghost i has the new value, or the old one if they are equal.
func (m *M) checkValueAt(r Ptr, i int, old, v Value) {
	x := m.fact(kTable, r, i).at
	m.check(x != nil, "value", "there is no entry after it was inserted")
	if m.identical(x, v) {
		return
	}
	m.check(old != nil && m.identical(x, old) && m.eqVals(old, v), "value", "the entry has another value than the one inserted")
}

func (c *insertContract) Apply(m *M, fn *ssa.Function, args []Value) Value {
	me := m.argTrie(kTable, args[0], "the receiver of "+fn.Name())
	m.checkRank(fn, []Aff{m.rankOf(me)})
	node := m.nodePtr(args[1], "the new node")
	if node.obj == nil || m.node(node) != nil || node.obj.frozen {
		m.fail("fresh", "%s is called with a node that is in use already", fn.Name())
	}
	kids := m.heapKids(node)
	m.check(kids[0].obj == nil && kids[1].obj == nil, "valid", "%s is called with a node that has children", fn.Name())
	os, ok := args[2].(Struct)
	t := fn.Params[2].Type()
	if !ok {
		m.undecided("options: %s", vstr(args[2]))
	}
	get := func(n string) Value {
		i := fieldIdx(t, n)
		if i < 0 {
			m.undecided("the options of insert have no field %s", n)
		}
		return os[i]
	}
	o := insertArgs{insert: m.truth(get("insert")), update: m.truth(get("update")), flatten: m.truth(get("flatten")), eq: get("eq")}
	if o.flatten {
		m.undecided("insertion into a set")
	}
	w, l := m.heapPrefix(node)
	p := m.point(w, l)
	v := m.heapData(node)
	old := m.entryAt(me, p)
	if old != nil && !o.update || old == nil && !o.insert {
		return Tuple{Top{"the result of a failed insertion"}, m.newErr()}
	}
	val := v
	ns := m.heapStruct(node)
	if old != nil {
		eq, isf := o.eq.(*Fn)
		if !isf || eq == nil {
			m.fail("panic", "%s may update but has no comparison", fn.Name())
		}
		if m.truth(m.callValue(eq, []Value{old, v})) && m.choose(2, "keep") == 1 {
			val = old
		}
		ns[m.fam.fData] = val
	}
	for _, i := range []int{m.fam.fSize, m.fam.fH, m.fam.fActive, m.fam.fKids} {
		ns[i] = Top{"a node that was inserted"}
	}
	node.obj.frozen = true
	node.obj.why = "inserted into a trie"
	sz := m.sizeOf(me)
	if old == nil {
		sz = linAdd(sz, Lin{C: 1}, 1)
	}
	return Tuple{m.changed(fn, me, p, val, sz), Iface{}}
}

// changed is a trie like me with another value (or none) at p.
func (m *M) changed(fn *ssa.Function, me Ptr, p int, val Value, size Lin) Ptr {
	no := nodeOpts{active: -1, name: fn.Name(), origin: "call", at: -1, size: &size}
	no.derive = func(m *M, i int) Fact {
		if m.wantBest() {
			m.undecided("longest matches after a change")
		}
		if m.ghosts[i].pt == p {
			return atFact(val)
		}
		return m.fact(kTable, me, i)
	}
	if val != nil {
		var exact bool
		no.bAnc, no.bSide, exact = m.meetPt(me, p)
		if exact {
			no.at = no.bAnc
		}
	} else {
		no.bAnc, no.bSide, _ = m.boundOf(me)
		return m.under(m.newNode(kTable, no), me)
	}
	return m.newNode(kTable, no)
}

// ---- delete ----

type deleteContract struct{}

func (c *deleteContract) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	if len(fn.Params) < 2 {
		return nil
	}
	return []*Obligation{{id: fam.name + "/" + name, fam: fam, top: fn,
		desc: "an error exactly if there is no such entry, otherwise only that entry is gone, entry count, shape, freshness, recursion",
		run: func(m *M) {
			m.tableMode()
			m.addGhostKey("p")
			p := m.ghosts[0].pt
			m.addGhostKey("g")
			me := m.anyTrie(kTable, "me")
			m.setRank(me)
			args := []Value{me, m.keyVal(p)}
			for _, q := range fn.Params[2:] {
				args = append(args, m.zero(q.Type()))
			}
			t := m.exec(fn, args, nil).(Tuple)
			exists := m.fact(kTable, me, 0).at != nil
			r := m.nodePtr(t[0], "the result")
			if isErr(t[1]) {
				m.check(!exists, "value", "deletion fails although there is such an entry")
				if !m.ptrEq(r, me).(bool) {
					m.undecided("a failed deletion returns another trie")
				}
				return
			}
			m.check(exists, "value", "deletion succeeds although there is no such entry")
			m.checkValid(kTable, r, "the result")
			m.check(m.fact(kTable, r, 0).at == nil, "value", "there still is an entry after it was deleted")
			if m.ghosts[1].pt != p {
				m.sameEntry("value", r, me, 1, "deletion")
			}
			m.checkSize(r, linAdd(m.sizeOf(me), Lin{C: 1}, -1), "deletion")
			m.check(r.obj == nil || m.isAnc(m.ptOf(me), m.ptOf(r)), "place", "the root of the result is misplaced")
		}}}
}

func (c *deleteContract) Apply(m *M, fn *ssa.Function, args []Value) Value {
	me := m.argTrie(kTable, args[0], "the receiver of "+fn.Name())
	m.checkRank(fn, []Aff{m.rankOf(me)})
	p := m.prefixPoint(args[1])
	for _, a := range args[2:] {
		if s, ok := a.(Struct); ok {
			for _, f := range s {
				if b, ok := f.(bool); ok && b {
					m.undecided("deletion from a set")
				}
			}
		}
	}
	if m.entryAt(me, p) == nil {
		return Tuple{me, m.newErr()}
	}
	sz := linAdd(m.sizeOf(me), Lin{C: 1}, -1)
	if m.choose(2, fn.Name()+"=nil") == 0 {
		for i, g := range m.ghosts {
			if g.pt != p && m.fact(kTable, me, i).at != nil {
				m.infeasible()
			}
		}
		m.assumeLinEq(m.sizeOf(me), Lin{C: 1})
		return Tuple{Ptr{}, Iface{}}
	}
	return Tuple{m.changed(fn, me, p, nil, sz), Iface{}}
}

// ---- longest match ----

type matchContract struct{}

func (c *matchContract) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	if len(fn.Params) != 2 {
		return nil
	}
	return []*Obligation{{id: fam.name + "/" + name, fam: fam, top: fn,
		desc: "the result is an entry that contains the key and no arbitrary entry that contains it is longer, recursion",
		run: func(m *M) {
			m.tableMode()
			m.addGhostKey("p")
			p := m.ghosts[0].pt
			m.addGhostKey("g")
			g := m.ghosts[1].pt
			me := m.anyTrie(kTable, "me")
			m.setRank(me)
			r := m.nodePtr(m.exec(fn, []Value{me, m.keyVal(p)}, nil), "the result")
			at := m.fact(kTable, me, 1).at
			if r.obj == nil {
				m.check(!(at != nil && m.isAnc(g, p)), "value", "nothing is found although an entry contains the key")
				return
			}
			q := m.ptOf(r)
			m.check(m.isAnc(q, p), "value", "the entry found doesn't contain the key")
			m.check(m.isActive(r), "value", "what is found isn't an entry")
			if q == g {
				m.check(at != nil, "value", "what is found isn't an entry of the table")
				m.check(m.identical(at, m.dataOf(r)), "value", "the value of what is found isn't that of the entry")
			}
			if at != nil && m.isAnc(g, p) {
				m.check(m.isAnc(g, q), "value", "an entry is found although a longer one contains the key")
			}
		}}}
}

func (c *matchContract) Apply(m *M, fn *ssa.Function, args []Value) Value {
	me := m.argTrie(kTable, args[0], "the receiver of "+fn.Name())
	m.checkRank(fn, []Aff{m.rankOf(me)})
	p := m.prefixPoint(args[1])
	if me.obj == nil || m.choose(2, fn.Name()) == 0 {
		for i, g := range m.ghosts {
			if m.isAnc(g.pt, p) && m.fact(kTable, me, i).at != nil {
				m.infeasible()
			}
		}
		return Ptr{}
	}
	anc, side, _ := m.boundOf(me)
	if !m.isAnc(anc, p) || side >= 0 && (anc == p || m.side(anc, p) != side) {
		m.infeasible()
	}
	lo := m.depth(anc)
	if side >= 0 {
		lo = lo.plus(1)
	}
	d := Aff{V: m.zone.newVar()}
	m.assumeLeq(lo, d)
	m.assumeLeq(d, m.depth(p))
	q := m.ancestorAt(p, d)
	data := Value(m.newSym("found"))
	for i, g := range m.ghosts {
		if !m.isAnc(g.pt, p) {
			continue
		}
		at := m.fact(kTable, me, i).at
		if g.pt == q {
			if at == nil {
				m.infeasible()
			}
			data = at
		} else if at != nil && !m.isAnc(g.pt, q) {
			m.infeasible()
		}
	}
	return m.newNode(kTable, nodeOpts{active: 1, name: "match", origin: "call", at: q, bAnc: -1, data: data})
}

// ---- GetOrInsert ----

type getOrInsertContract struct{}

func (c *getOrInsertContract) verify(fam *Family, fn *ssa.Function, name string) []*Obligation {
	if len(fn.Params) != 3 {
		return nil
	}
	return []*Obligation{{id: fam.name + "/" + name, fam: fam, top: fn,
		desc: "the existing entry or a new one with the given value, everything else unchanged, entry count, shape, freshness, recursion",
		run: func(m *M) {
			m.tableMode()
			m.addGhostKey("p")
			p := m.ghosts[0].pt
			m.addGhostKey("g")
			me := m.anyTrie(kTable, "me")
			v := m.newSym("new")
			m.setRank(me)
			t := m.exec(fn, []Value{me, m.keyVal(p), v}, nil).(Tuple)
			old := m.fact(kTable, me, 0).at
			r := m.nodePtr(t[0], "the result")
			res := m.nodePtr(t[1], "the entry")
			m.check(r.obj != nil && res.obj != nil, "value", "there is no result")
			m.checkValid(kTable, r, "the result")
			want := Value(v)
			if old != nil {
				want = old
			}
			m.check(m.identical(m.dataOf(res), want), "value", "the value returned isn't the one of the entry")
			x := m.fact(kTable, r, 0).at
			m.check(x != nil && m.identical(x, want), "value", "the entry has another value afterwards")
			if m.ghosts[1].pt != p {
				m.sameEntry("value", r, me, 1, "GetOrInsert")
			}
			sz := m.sizeOf(me)
			if old == nil {
				sz = linAdd(sz, Lin{C: 1}, 1)
			}
			m.checkSize(r, sz, "GetOrInsert")
			m.checkMeet(r, me, p)
		}}}
}

func (c *getOrInsertContract) Apply(m *M, fn *ssa.Function, args []Value) Value {
	me := m.argTrie(kTable, args[0], "the receiver of "+fn.Name())
	m.checkRank(fn, []Aff{m.rankOf(me)})
	p := m.prefixPoint(args[1])
	old := m.entryAt(me, p)
	val, sz := args[2], m.sizeOf(me)
	if old != nil {
		val = old
	} else {
		sz = linAdd(sz, Lin{C: 1}, 1)
	}
	head := m.changed(fn, me, p, val, sz)
	res := m.newNode(kTable, nodeOpts{active: 1, name: "entry", origin: "call", at: p, bAnc: -1, data: val})
	return Tuple{head, res}
}

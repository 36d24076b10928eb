package main

// The operations of Table and Table_.

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// tableShape is how tables are represented.
type tableShape struct {
	outer, outer_ *types.Named // Table, Table_
	inner, inner_ types.Type   // the types they wrap
	trie, eq      int          // fields of inner
}

func (m *M) tableShape() tableShape {
	var s tableShape
	s.outer, s.outer_ = m.typ("Table"), m.typ("Table_")
	only := func(t types.Type, what string) types.Type {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || st.NumFields() != 1 {
			m.undecided("%s isn't a struct of one field", what)
		}
		return st.Field(0).Type()
	}
	s.inner = only(s.outer, "Table")
	s.inner_ = only(s.outer_, "Table_")
	p, ok := only(s.inner_, s.inner_.String()).Underlying().(*types.Pointer)
	if !ok || !types.Identical(p.Elem(), s.inner) {
		m.undecided("Table_ doesn't refer to a table")
	}
	s.trie = ptrField(s.inner, m.fam.trieNode)
	s.eq = -1
	st, ok := s.inner.Underlying().(*types.Struct)
	if ok {
		for i := 0; i < st.NumFields(); i++ {
			if _, ok := st.Field(i).Type().Underlying().(*types.Signature); ok {
				s.eq = i
			}
		}
	}
	if s.trie < 0 || s.eq < 0 {
		m.undecided("a table isn't represented by a trie and a comparison")
	}
	return s
}

// tableVal is a value of type Table.
func (m *M) tableVal(root Ptr, eq Value) Struct {
	s := m.tableShape()
	in := m.zero(s.inner).(Struct)
	in[s.trie], in[s.eq] = root, eq
	return Struct{in}
}

func (m *M) tableParts(v Value, what string) (Ptr, Value) {
	s := m.tableShape()
	o, ok := m.force(v).(Struct)
	if ok && len(o) == 1 {
		o, ok = m.force(o[0]).(Struct)
	}
	if !ok || len(o) <= s.eq || len(o) <= s.trie {
		m.undecided("%s is %s", what, vstr(v))
	}
	return m.nodePtr(o[s.trie], what), m.force(o[s.eq])
}

func (m *M) newTable_(root Ptr, eq Value, volatile bool) (Struct, *Cell) {
	s := m.tableShape()
	in := m.zero(s.inner).(Struct)
	in[s.trie], in[s.eq] = root, eq
	o := m.newObj(s.inner, in, "Table_")
	o.cell = &Cell{field: s.trie, cur: root, volatile: volatile,
		mk: func(m *M) Ptr { return m.anyTrie(kTable, "root") }}
	return Struct{Struct{Ptr{obj: o}}}, o.cell
}

// tableCell is the object that a Table_ refers to.
func (m *M) tableCell(v Value, what string) Ptr {
	o, ok := m.force(v).(Struct)
	if ok && len(o) == 1 {
		o, ok = m.force(o[0]).(Struct)
	}
	if !ok || len(o) != 1 {
		m.undecided("%s is %s", what, vstr(v))
	}
	p, ok := m.force(o[0]).(Ptr)
	if !ok {
		m.undecided("%s is %s", what, vstr(v))
	}
	return p
}

func (m *M) tableIn(v Value, what string) (Ptr, Value) {
	p := m.tableCell(v, what)
	m.check(p.obj != nil, "value", "%s isn't initialized", what)
	return m.tableParts(Struct{m.load(p)}, what)
}

// anyPrefixI is an argument of interface type PrefixI that means the key at pt.
var prefixKinds = []string{"Prefix", "Address", "other"}

func (m *M) anyPrefixI(kind string, pt int) Value {
	switch kind {
	case "nil":
		m.assumeLeq(m.depth(pt), K(0))
		return Iface{}
	case "Prefix":
		return m.iface("Prefix", m.keyVal(pt))
	case "Address":
		m.assumeLeq(K(m.W), m.depth(pt))
		return m.iface("Address", m.addrVal(m.ptWord(pt)))
	}
	return &AnyIface{name: "a PrefixI", invoke: func(m *M, meth *types.Func, args []Value) Value {
		if meth.Name() == "Prefix" {
			return m.keyVal(pt)
		}
		m.undecided("method %s", meth.Name())
		return nil
	}}
}

// entryIs: the value at ghost i of trie r is v (nil: no entry).
func (m *M) entryIs(r Ptr, i int, v Value) bool {
	x := m.fact(kTable, r, i).at
	if x == nil || v == nil {
		return x == nil && v == nil
	}
	return m.identical(x, v)
}

func (m *M) stored(r Ptr, i int, old, v Value) bool {
	x := m.fact(kTable, r, i).at
	if x == nil {
		return false
	}
	return m.identical(x, v) || old != nil && m.identical(x, old) && m.entEqVals(old, v)
}

func (m *M) sizeIs(r Ptr, l Lin) bool {
	if !linEq(m.linRen(m.sizeOf(r)), m.linRen(l)) {
		m.settleSizes()
	}
	return linEq(m.linRen(m.sizeOf(r)), m.linRen(l))
}

// tableOp is an operation on the entry of one prefix. The prefix is ghost 0,
// ghost 1 is an arbitrary one. spec relates the state before, the state after
// and the result.
type tableOp struct {
	name  string
	value bool // takes a value
	write bool
	spec  func(m *M, old, new Ptr, v, res Value) (ok bool, clause, msg string)
}

// mapSpec: after the operation the entry is stored(want) or gone, everything
// else is the same.
func mapSpec(m *M, old, new Ptr, p Value, change int) (bool, string, string) {
	before := m.fact(kTable, old, 0).at
	if p != nil {
		if !m.stored(new, 0, before, p) {
			return false, "value", "the entry doesn't have the value that it should have"
		}
	} else if !m.entryIs(new, 0, nil) {
		return false, "value", "there is an entry where there shouldn't be one"
	}
	if m.ghosts[1].pt != m.ghosts[0].pt && !m.entryIs(new, 1, m.fact(kTable, old, 1).at) {
		return false, "value", "the entry of another prefix changes"
	}
	if !m.sizeIs(new, linAdd(m.sizeOf(old), Lin{C: int64(change)}, 1)) {
		return false, "size", "the number of entries isn't right"
	}
	return true, "", ""
}

func (m *M) resOK(res Value, want bool, what string) (bool, string, string) {
	if m.truth(res) != want {
		return false, "value", fmt.Sprintf("%s returns %v", what, !want)
	}
	return true, "", ""
}

var tableOps = []tableOp{
	{"Insert", true, true, func(m *M, old, new Ptr, v, res Value) (bool, string, string) {
		before := m.fact(kTable, old, 0).at
		if ok, c, s := m.resOK(res, before == nil, "Insert"); !ok {
			return ok, c, s
		}
		if before != nil {
			return mapSpec(m, old, new, before, 0)
		}
		return mapSpec(m, old, new, v, 1)
	}},
	{"Update", true, true, func(m *M, old, new Ptr, v, res Value) (bool, string, string) {
		before := m.fact(kTable, old, 0).at
		if ok, c, s := m.resOK(res, before != nil, "Update"); !ok {
			return ok, c, s
		}
		if before == nil {
			return mapSpec(m, old, new, nil, 0)
		}
		return mapSpec(m, old, new, v, 0)
	}},
	{"InsertOrUpdate", true, true, func(m *M, old, new Ptr, v, res Value) (bool, string, string) {
		if m.fact(kTable, old, 0).at == nil {
			return mapSpec(m, old, new, v, 1)
		}
		return mapSpec(m, old, new, v, 0)
	}},
	{"GetOrInsert", true, true, func(m *M, old, new Ptr, v, res Value) (bool, string, string) {
		before, d := m.fact(kTable, old, 0).at, 0
		if before == nil {
			before, d = v, 1
		}
		if !m.identical(res, before) {
			return false, "value", "the value returned isn't the one of the entry"
		}
		return mapSpec(m, old, new, before, d)
	}},
	{"Remove", false, true, func(m *M, old, new Ptr, v, res Value) (bool, string, string) {
		before := m.fact(kTable, old, 0).at
		if ok, c, s := m.resOK(res, before != nil, "Remove"); !ok {
			return ok, c, s
		}
		d := 0
		if before != nil {
			d = -1
		}
		return mapSpec(m, old, new, nil, d)
	}},
	{"Get", false, false, func(m *M, old, new Ptr, v, res Value) (bool, string, string) {
		at, t := m.fact(kTable, old, 0).at, res.(Tuple)
		if ok, c, s := m.resOK(t[1], at != nil, "Get"); !ok {
			return ok, c, s
		}
		if at != nil && !m.identical(t[0], at) {
			return false, "value", "Get returns another value than the one of the entry"
		}
		return true, "", ""
	}},
	{"LongestMatch", false, false, func(m *M, old, new Ptr, v, res Value) (bool, string, string) {
		t := res.(Tuple)
		p, g := m.ghosts[0].pt, m.ghosts[1].pt
		at := m.fact(kTable, old, 1).at
		if !m.truth(t[1]) {
			if at != nil && m.isAnc(g, p) {
				return false, "value", "nothing is found although an entry contains the prefix"
			}
			return true, "", ""
		}
		if old.obj == nil {
			return false, "value", "something is found in an empty table"
		}
		w, l := m.prefixParts(m.force(t[2]).(Struct))
		q := m.point(w, l)
		if !m.isAnc(q, p) {
			return false, "value", "the entry found doesn't contain the prefix"
		}
		if q == g {
			if at == nil {
				return false, "value", "what is found isn't an entry"
			}
			if !m.identical(at, t[0]) {
				return false, "value", "the value found isn't that of the entry"
			}
		}
		if at != nil && m.isAnc(g, p) && !m.isAnc(g, q) {
			return false, "value", "an entry is found although a longer one contains the prefix"
		}
		return true, "", ""
	}},
	{"NumEntries", false, false, func(m *M, old, new Ptr, v, res Value) (bool, string, string) {
		l, ok := m.asLin(res)
		if !ok {
			m.undecided("NumEntries returns %s", vstr(res))
		}
		want := m.sizeOf(old)
		if !linEq(m.linRen(l), m.linRen(want)) {
			m.settleSizes()
		}
		if !linEq(m.linRen(l), m.linRen(want)) {
			return false, "size", fmt.Sprintf("NumEntries returns %s instead of %s", m.linRen(l), m.linRen(want))
		}
		return true, "", ""
	}},
}

func (m *M) tableGhosts() {
	m.tableMode()
	m.extra["nilable"] = true
	m.addGhostKey("p")
	m.addGhostKey("g")
}

// keepEq checks that a derived table has the comparison of the original.
func (m *M) keepEq(got, want Value, what string) {
	g, ok1 := got.(*Fn)
	w, ok2 := want.(*Fn)
	if !ok1 || !ok2 {
		m.undecided("%s: the comparison is %s", what, vstr(got))
	}
	if g == w {
		return
	}
	if g == nil || w == nil || g.fn != nil && g.impl == nil && len(g.binds) == 0 {
		m.fail("cmp", "%s doesn't have the comparison of the original", what)
	}
	// it may be wrapped
	a, b := m.newSym("a"), m.newSym("b")
	var calls [][]Value
	var res []bool
	m.extra["eqlog"] = func(x, y Value, r bool) {
		calls = append(calls, []Value{x, y})
		res = append(res, r)
	}
	r := m.truth(m.callValue(g, []Value{a, b}))
	delete(m.extra, "eqlog")
	m.check(len(calls) == 1 && m.identical(calls[0][0], a) && m.identical(calls[0][1], b) && res[0] == r, "cmp",
		"%s doesn't have the comparison of the original", what)
}

// eqLogged is an arbitrary comparison made by the user.
func eqLogged() *Fn {
	return &Fn{name: "comparison", impl: func(m *M, args []Value) Value {
		r := m.eqVals(args[0], args[1])
		if f, ok := m.extra["eqlog"].(func(x, y Value, r bool)); ok {
			f(args[0], args[1], r)
		}
		return r
	}}
}

// checkRawEq checks that a comparison is ==.
func (m *M) checkRawEq(eq Value, what string) {
	f, ok := eq.(*Fn)
	if !ok || f == nil {
		m.fail("cmppanic", "%s has no comparison", what)
	}
	a, b := m.newSym("a"), m.newSym("b")
	var last *bool
	m.extra["raweq"] = func(x, y Sym) Value {
		same := m.identical(x, a) && m.identical(y, b) || m.identical(x, b) && m.identical(y, a)
		m.check(same, "cmp", "%s compares other values than the ones given", what)
		r := m.choose(2, "==") == 1
		last = &r
		return r
	}
	r := m.truth(m.callValue(f, []Value{a, b}))
	delete(m.extra, "raweq")
	m.check(last != nil && *last == r, "cmp", "the comparison of %s isn't ==", what)
}

func (f *Family) tableObligations() []*Obligation {
	var obs []*Obligation
	add := func(id, desc string, run func(m *M)) {
		obs = append(obs, &Obligation{id: f.name + "/api/" + id, fam: f, desc: desc, run: run})
	}
	for _, op := range tableOps {
		op := op
		for _, recv := range []string{"Table", "Table_"} {
			recv := recv
			if !f.has(recv, op.name) {
				continue
			}
			key := op.name != "NumEntries"
			params := 1
			if key {
				params++
			}
			if op.value {
				params++
			}
			one := func(m *M, kinds []string, mode string) {
				m.tableGhosts()
				fn := m.need(recv, op.name, params)
				var root Ptr
				eq := eqLogged()
				if mode != "zero" && mode != "volatile" {
					root = m.anyTrie(kTable, "me")
				}
				var v Value
				var cell *Cell
				switch {
				case mode == "zero":
					v = m.zeroOf(recv)
				case recv == "Table":
					v = m.tableVal(root, eq)
				default:
					v, cell = m.newTable_(root, eq, mode == "volatile")
				}
				args := []Value{v}
				if key {
					args = append(args, m.anyPrefixI(kinds[m.choose(len(kinds), "kind of prefix")], m.ghosts[0].pt))
				}
				var val Value
				if op.value {
					val = m.newSym("new")
					args = append(args, val)
				}
				if op.write && mode == "zero" {
					_, tp := m.trial(func() Value { return m.run(fn, args...) })
					m.check(tp != nil, "value", "an uninitialized table is modified without a panic")
					return
				}
				if op.write && mode == "volatile" {
					var res Value
					_, tp := m.trial(func() Value { res = m.run(fn, args...); return nil })
					m.checkAtomic(cell, tp, func(old, new Ptr) bool {
						if res == nil && len(cell.stores) == 0 && op.name != "InsertOrUpdate" {
							return false
						}
						ok, _, _ := op.spec(m, old, new, val, res)
						return ok
					})
					return
				}
				res := m.run(fn, args...)
				switch {
				case mode == "volatile":
					if len(cell.stores) > 0 {
						m.fail("value", "an operation that only reads modifies the table")
					}
					if len(cell.loads) <= 1 {
						return
					}
					msg := ""
					for _, r := range cell.loads {
						ok, _, s := op.spec(m, r, r, val, res)
						if ok {
							return
						}
						msg = s
					}
					m.fail("torn", "the table is read more than once, the result agrees with none of the states: %s", msg)
				case op.write:
					m.checkValid(kTable, cell.cur, "the result")
					ok, cl, s := op.spec(m, root, cell.cur, val, res)
					m.check(ok, orValue(cl), "%s", s)
				default:
					if cell != nil && len(cell.stores) > 0 {
						m.fail("value", "an operation that only reads modifies the table")
					}
					ok, cl, s := op.spec(m, root, root, val, res)
					m.check(ok, orValue(cl), "%s", s)
				}
			}
			id := recv + "." + op.name
			add(id, "the state and the result afterwards, for an arbitrary prefix and every kind of argument", func(m *M) { one(m, prefixKinds, "") })
			if key {
				add(id+"/nil", "nil as the prefix is the one of length 0", func(m *M) { one(m, []string{"nil"}, "") })
			}
			all := append([]string{"nil"}, prefixKinds...)
			add(id+"/zero", "an uninitialized table reads as an empty one and refuses modification", func(m *M) { one(m, all, "zero") })
			if recv == "Table_" {
				add(id+"/volatile", "one atomic step (or read), or a panic", func(m *M) { one(m, prefixKinds, "volatile") })
			}
		}
	}

	// clones
	add("Table.Table_", "a mutable clone has the same entries and comparison and is separate", func(m *M) {
		m.tableGhosts()
		fn := m.need("Table", "Table_", 1)
		root, eq := m.anyTrie(kTable, "me"), eqLogged()
		var objs [2]*Obj
		for i := range objs {
			v := m.run(fn, m.tableVal(root, eq))
			p := m.tableCell(v, "the clone")
			m.check(p.obj != nil, "value", "the clone isn't initialized")
			objs[i] = p.obj
			r, e := m.tableIn(v, "the clone")
			m.check(m.entryIs(r, 0, m.fact(kTable, root, 0).at) && m.sizeIs(r, m.sizeOf(root)), "value", "the clone has other entries")
			m.keepEq(e, eq, "the clone")
		}
		m.check(objs[0] != objs[1], "value", "two clones share their contents")
		m.check(!objs[0].frozen, "value", "the clone shares its contents with something else")
	})
	add("Table.Table_/zero", "a clone of an uninitialized table is empty and compares with ==", func(m *M) {
		m.tableGhosts()
		fn := m.need("Table", "Table_", 1)
		v := m.run(fn, m.zeroOf("Table"))
		r, e := m.tableIn(v, "the clone")
		m.check(r.obj == nil, "value", "the clone isn't empty")
		m.checkRawEq(e, "the clone")
	})
	for _, mode := range []string{"", "/zero", "/volatile"} {
		mode := mode
		add("Table_.Table"+mode, "the snapshot has the entries of one state and the comparison", func(m *M) {
			m.tableGhosts()
			fn := m.need("Table_", "Table", 1)
			if mode == "/zero" {
				r, _ := m.tableParts(m.run(fn, m.zeroOf("Table_")), "the snapshot")
				m.check(r.obj == nil, "value", "the snapshot isn't empty")
				return
			}
			var root Ptr
			eq := eqLogged()
			if mode == "" {
				root = m.anyTrie(kTable, "me")
			}
			v, cell := m.newTable_(root, eq, mode != "")
			r, e := m.tableParts(m.run(fn, v), "the snapshot")
			m.check(len(cell.stores) == 0, "value", "an operation that only reads modifies the table")
			m.keepEq(e, eq, "the snapshot")
			if mode == "" {
				cell.loads = []Ptr{root}
			}
			for _, s := range cell.loads {
				if m.entryIs(r, 0, m.fact(kTable, s, 0).at) && m.sizeIs(r, m.sizeOf(s)) {
					return
				}
			}
			m.fail(map[bool]string{true: "value", false: "torn"}[mode == ""], "the snapshot has other entries")
		})
	}
	if f.has("", "NewTable_") {
		add("NewTable_", "a new table is initialized, empty, separate and compares with ==", func(m *M) {
			m.tableGhosts()
			fn := m.need("", "NewTable_", 0)
			var objs [2]*Obj
			for i := range objs {
				v := m.run(fn)
				r, e := m.tableIn(v, "the table")
				objs[i] = m.tableCell(v, "the table").obj
				m.check(r.obj == nil, "value", "the table isn't empty")
				m.checkRawEq(e, "the table")
			}
			m.check(objs[0] != objs[1], "value", "two new tables share their contents")
		})
	}
	if f.has("", "NewTableCustomCompare_") {
		add("NewTableCustomCompare_", "a new table is initialized, empty, separate and compares with the given function", func(m *M) {
			m.tableGhosts()
			fn := m.need("", "NewTableCustomCompare_", 1)
			var objs [2]*Obj
			eq := eqLogged()
			for i := range objs {
				v := m.run(fn, eq)
				r, e := m.tableIn(v, "the table")
				objs[i] = m.tableCell(v, "the table").obj
				m.check(r.obj == nil, "value", "the table isn't empty")
				m.keepEq(e, eq, "the table")
			}
			m.check(objs[0] != objs[1], "value", "two new tables share their contents")
		})
	}
	add("Table.Build", "the builder gets a separate mutable clone; its contents are the result if it returns true, the original otherwise", func(m *M) {
		m.tableGhosts()
		fn := m.need("Table", "Build", 2)
		root, built, eq := m.anyTrie(kTable, "me"), m.anyTrie(kTable, "built"), eqLogged()
		calls := 0
		ret := m.choose(2, "builder returns") == 1
		res := m.run(fn, m.tableVal(root, eq), &Fn{name: "builder", impl: func(m *M, args []Value) Value {
			calls++
			p := m.tableCell(args[0], "the builder's argument")
			m.check(p.obj != nil, "value", "the builder gets an uninitialized table")
			r, e := m.tableIn(args[0], "the builder's argument")
			m.check(m.entryIs(r, 0, m.fact(kTable, root, 0).at), "value", "the clone has other entries")
			m.keepEq(e, eq, "the clone")
			s := clone(m.load(p)).(Struct)
			s[m.tableShape().trie] = built
			m.store(p, s)
			return ret
		}})
		m.check(calls == 1, "value", "the builder is called %d times", calls)
		r, e := m.tableParts(res, "the result")
		want := root
		if ret {
			want = built
		}
		m.check(m.entryIs(r, 0, m.fact(kTable, want, 0).at) && m.sizeIs(r, m.sizeOf(want)), "value", "the result isn't what the builder left (it returned %v)", ret)
		m.keepEq(e, eq, "the result")
	})

	// whole tables
	obs = append(obs, f.tableWalks()...)
	return obs
}

func orValue(c string) string {
	if c == "" {
		return "value"
	}
	return c
}

// tableWalks are the operations that visit every entry.
func (f *Family) tableWalks() []*Obligation {
	var obs []*Obligation
	add := func(id, desc string, run func(m *M)) {
		obs = append(obs, &Obligation{id: f.name + "/api/" + id, fam: f, desc: desc, run: run})
	}
	cb := func(kind string) *Fn {
		return &Fn{name: kind, impl: func(m *M, args []Value) Value {
			return m.onEvent(kind, m.prefixPoint(args[0]), args[1:]...)
		}}
	}
	begin := func(m *M, order bool) {
		m.tableMode()
		m.extra["nilable"] = true
		m.addGhostKey("g")
		if order {
			m.extra["nostop"] = true
			m.addGhostKey("h")
			if !m.lexLess(m.ghosts[0].pt, m.ghosts[1].pt) {
				m.infeasible()
			}
		}
	}
	receiver := func(m *M, zero bool) (Ptr, *Fn, Value) {
		if zero {
			return Ptr{}, nil, m.zeroOf("Table")
		}
		root, eq := m.anyTrie(kTable, "me"), eqLogged()
		return root, eq, m.tableVal(root, eq)
	}
	for _, zero := range []bool{false, true} {
		zero := zero
		z := ""
		if zero {
			z = "/zero"
		}
		for _, order := range []bool{false, true} {
			order := order
			if order && zero {
				continue
			}
			sfx := z
			if order {
				sfx = "/order"
			}
			add("Table.Walk"+sfx, "an arbitrary entry is visited exactly once with its value, in order, the walk stops when told to", func(m *M) {
				begin(m, order)
				fn := m.need("Table", "Walk", 2)
				root, _, v := receiver(m, zero)
				res := m.run(fn, v, cb("visit"))
				if order {
					m.checkOrder()
					return
				}
				m.checkReturn(res)
				m.checkVisits(root)
			})
			add("Table.Diff"+sfx, "an arbitrary prefix is reported exactly once and rightly, to the callbacks given, in order, the walk stops when told to", func(m *M) {
				begin(m, order)
				fn := m.need("Table", "Diff", 6)
				root, _, v := receiver(m, zero)
				var oroot Ptr
				ov := m.zeroOf("Table")
				if !zero || m.choose(2, "other") == 1 {
					oroot = m.anyTrie(kTable, "other")
					ov = m.tableVal(oroot, &Fn{name: "other comparison", impl: func(m *M, args []Value) Value {
						m.check(false, "cmp", "values are compared with the comparison of the other table instead of the one that Diff is called on")
						return m.eqVals(args[0], args[1])
					}})
				}
				args := []Value{v, ov}
				given := map[string]bool{}
				for _, k := range []string{"changed", "left", "right", "unchanged"} {
					if m.choose(2, k) == 1 {
						args = append(args, cb(k))
						given[k] = true
					} else {
						args = append(args, (*Fn)(nil))
					}
				}
				res := m.run(fn, args...)
				if order {
					m.checkOrder()
					return
				}
				m.checkReturn(res)
				m.checkDiff(root, oroot, given)
			})
		}
		add("Table.Map"+z, "an arbitrary entry is mapped exactly once, nothing else is, the result has the mapped value and the comparison", func(m *M) {
			begin(m, false)
			m.extra["nostop"] = true
			fn := m.need("Table", "Map", 2)
			root, eq, v := receiver(m, zero)
			mapper := &Fn{name: "mapper", impl: func(m *M, args []Value) Value {
				v := m.newSym("mapped")
				m.onEvent("map", m.prefixPoint(args[0]), args[1], v)
				return v
			}}
			r, e := m.tableParts(m.run(fn, v, mapper), "the result")
			checkMapped(m, root, r)
			m.check(m.sizeIs(r, m.sizeOf(root)), "size", "the number of entries changes")
			if !zero {
				m.keepEq(e, eq, "the result")
			}
		})
		add("Table.Aggregate"+z, "the longest match of an arbitrary address has an equal value afterwards, the comparison is kept", func(m *M) {
			m.tableMode()
			m.extra["nilable"] = true
			m.extra["best"] = true
			m.addGhostLeaf("x")
			fn := m.need("Table", "Aggregate", 1)
			root, eq, v := receiver(m, zero)
			r, e := m.tableParts(m.run(fn, v), "the result")
			if !zero {
				m.keepEq(e, eq, "the result")
			}
			a, b := m.fact(kTable, root, 0).best, m.fact(kTable, r, 0).best
			m.check((a == nil) == (b == nil), "value", "an address matches before or after aggregation only")
			if a != nil {
				m.check(m.eqVals(a, b), "value", "the longest match of an address has another value after aggregation")
			}
		})
		if zero {
			continue
		}
		add("Table.Aggregate/redundancy", "no entry has the value of the one that contains it, no two halves of a prefix have the same value", func(m *M) {
			m.tableMode()
			m.extra["nilable"] = true
			m.extra["irr"] = true
			fn := m.need("Table", "Aggregate", 1)
			_, _, v := receiver(m, false)
			r, _ := m.tableParts(m.run(fn, v), "the result")
			m.checkIrr(r, irrAttr{})
		})
	}
	return obs
}

// checkVisits: the entry at ghost 0 was visited exactly once.
func (m *M) checkVisits(root Ptr) {
	at := m.fact(kTable, root, 0).at
	n := 0
	for _, e := range m.events {
		if e.pt != m.ghosts[0].pt {
			continue
		}
		n++
		m.check(at != nil, "value", "a prefix is visited that isn't in the table")
		m.check(m.identical(e.args[0], at), "value", "an entry is visited with another value")
	}
	m.check(n <= 1, "value", "an entry is visited twice")
	if !m.stopped {
		m.check(n == 1 || at == nil, "value", "an entry isn't visited")
	}
}

// checkDiff: the prefix at ghost 0 was reported exactly once and rightly.
func (m *M) checkDiff(l, r Ptr, given map[string]bool) {
	L, R := m.fact(kTable, l, 0).at, m.fact(kTable, r, 0).at
	n := 0
	want := ""
	switch {
	case L == nil && R == nil:
	case R == nil:
		want = "left"
	case L == nil:
		want = "right"
	case m.eqVals(L, R):
		want = "unchanged"
	default:
		want = "changed"
	}
	for _, e := range m.events {
		if e.pt != m.ghosts[0].pt {
			continue
		}
		n++
		m.check(e.kind == want, "value", "a prefix is reported as %s instead of %s", e.kind, orNothing(want))
		switch e.kind {
		case "left":
			m.check(m.identical(e.args[0], L), "value", "a prefix is reported with another value")
		case "right":
			m.check(m.identical(e.args[0], R), "value", "a prefix is reported with another value")
		case "changed":
			m.check(m.identical(e.args[0], L) && m.identical(e.args[1], R), "value", "a prefix is reported with other values")
		case "unchanged":
			m.check(m.identical(e.args[0], L) || m.identical(e.args[0], R), "value", "a prefix is reported with another value")
		}
	}
	m.check(n <= 1, "value", "a prefix is reported twice")
	if !m.stopped && want != "" && given[want] {
		m.check(n == 1, "value", "a prefix that should be reported as %s isn't reported", want)
	}
}

func orNothing(s string) string {
	if s == "" {
		return "nothing"
	}
	return s
}

var _ *ssa.Function

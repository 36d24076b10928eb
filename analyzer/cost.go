package main

// How much work is done: which recursive functions are called on tries that
// aren't empty, and how many nodes are made.

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

type costCall struct {
	name    string // of the contract
	trivial bool   // constant: an empty trie, nothing in common, the same trie
	leaf    bool   // an operand is a single prefix
}

type costRec struct {
	calls  []costCall
	allocs int
}

// how far calls go
var costClass = map[string]string{
	"trieNode.insert":       "path",
	"trieNode.del":          "path",
	"trieNode.Match":        "path",
	"trieNode.GetOrInsert":  "path",
	"setNode.Union":         "binary",
	"setNode.Difference":    "binary",
	"trieNode.Equal":        "all",
	"setNode.Equal":         "all",
	"trieNode.NumAddresses": "all",
	"setNode.NumAddresses":  "all",
	"trieNode.diff":         "all",
	"trieNode.Map":          "all",
	"trieNode.aggregate":    "all",
}

func (f *Family) isTriePtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	return ok && (types.Identical(p.Elem(), f.trieNode) || types.Identical(p.Elem(), f.setNode))
}

// costNote records a call.
func (m *M) costNote(fn *ssa.Function, args []Value) {
	contracted := m.contr[fn] != nil
	if !m.prog.inRepo(fn) || !contracted && !m.prog.recursive(fn) {
		return
	}
	var ops []Ptr
	for i, p := range fn.Params {
		if i < len(args) && m.fam.isTriePtr(p.Type()) {
			q, ok := m.force(args[i]).(Ptr)
			if !ok {
				m.undecided("the cost of a call of %s", fn.Name())
			}
			ops = append(ops, q)
		}
	}
	if !contracted {
		some := false
		for _, p := range ops {
			some = some || p.obj != nil
		}
		if !some {
			return
		}
		// one activation that recurses twice walks all of a trie
		for i := len(m.stack) - 1; i >= 0; i-- {
			f := m.stack[i]
			if origin(f.fn) == fn || m.prog.sameSCC(origin(f.fn), fn) {
				if f.rec++; f.rec > 1 {
					m.fail("cost", "%s walks all of a trie", fn.Name())
				}
				return
			}
		}
		return
	}
	c := costCall{name: m.fam.contractNames[fn]}
	switch {
	case len(ops) == 0:
	case costClass[c.name] == "path":
		c.trivial = ops[0].obj == nil
	case c.name == "trieNode.diff":
		c.trivial = ops[0].obj == nil && ops[1].obj == nil
		if ops[0].obj == ops[1].obj && len(args) > 2 {
			if h, ok := args[2].(Struct); ok {
				if i := fieldIdx(fn.Params[2].Type(), "Same"); i >= 0 {
					if s, ok := h[i].(*Fn); ok && s == nil {
						c.trivial = true
					}
				}
			}
		}
	case len(ops) == 2:
		a, b := ops[0], ops[1]
		c.trivial = a.obj == nil || b.obj == nil || a.obj == b.obj || m.costApart(a, b)
		c.trivial = c.trivial || m.costInside(a, b) || c.name == "setNode.Union" && m.costInside(b, a)
		c.leaf = !c.trivial && (m.costLeaf(a) || m.costLeaf(b))
	default:
		for _, p := range ops {
			c.trivial = c.trivial || p.obj == nil
		}
	}
	m.cost.calls = append(m.cost.calls, c)
}

// costLeaf: a single prefix.
func (m *M) costLeaf(p Ptr) bool {
	if n := m.node(p); n != nil {
		return n.kind == kSet && n.actKnown && n.active
	}
	k := m.heapKids(p)
	return k[0].obj == nil && k[1].obj == nil
}

// costBound: something is known about where a trie is.
func (m *M) costBound(p Ptr) bool {
	n := m.node(p)
	return n == nil || n.placed || n.parent != nil && m.rep(n.parent).placed || n.bAnc >= 0
}

// costApart: the prefixes of two tries have nothing in common.
func (m *M) costApart(a, b Ptr) bool {
	if !m.costBound(a) || !m.costBound(b) {
		return false
	}
	p, s, e := m.boundOf(a)
	q, t, d := m.boundOf(b)
	if p == q {
		return !e && !d && s >= 0 && t >= 0 && s != t
	}
	c := m.lca(p, q)
	switch c {
	case p:
		return !e && s >= 0 && m.side(p, q) != s
	case q:
		return !d && t >= 0 && m.side(q, p) != t
	}
	return true
}

// costInside: b is a single prefix that contains all of a.
func (m *M) costInside(a, b Ptr) bool {
	if !m.costLeaf(b) || !m.costBound(a) || !m.costBound(b) {
		return false
	}
	q, _, exact := m.boundOf(b)
	p, _, _ := m.boundOf(a)
	return exact && m.isAnc(q, p)
}

// maxCostNodes bounds the nodes that are made for one level of a trie.
const maxCostNodes = 8

// costIs checks what was recorded: at most n calls that go down one path, and
// nothing that goes further.
func (m *M) costIs(n int, what string) {
	k := 0
	for _, c := range m.cost.calls {
		if c.trivial {
			continue
		}
		switch cl := costClass[c.name]; {
		case cl == "path", cl == "binary" && c.leaf:
			k++
		case cl == "all", cl == "binary":
			m.check(n < 0, "cost", "%s calls %s, which visits more than one path of the trie", what, c.name)
		default:
			m.undecided("%s calls %s", what, c.name)
		}
	}
	m.check(k <= n, "cost", "%s goes down a trie %d times instead of %d", what, k, n)
	m.check(m.cost.allocs <= maxCostNodes, "cost", "%s makes %d nodes", what, m.cost.allocs)
}

func (f *Family) costObligations() []*Obligation {
	var obs []*Obligation
	add := func(id, desc string, run func(m *M)) {
		obs = append(obs, &Obligation{id: f.name + "/cost/" + id, fam: f, desc: desc, run: run})
	}
	// one level of the functions that change or look up one prefix
	var fns []*ssa.Function
	for fn := range f.contractNames {
		fns = append(fns, fn)
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		fn, name := fn, f.contractNames[fn]
		level := func(suffix, desc string, run func(m *M) []Value, after func(m *M, r Value)) {
			obs = append(obs, &Obligation{id: f.name + "/cost/" + name + suffix, fam: f, top: fn, desc: desc, run: func(m *M) {
				args := run(m)
				var ops []Ptr
				for i, p := range fn.Params {
					if q, ok := args[i].(Ptr); ok && f.isTriePtr(p.Type()) && (i == 0 || costClass[name] != "path") {
						ops = append(ops, q)
					}
				}
				m.setRank(ops...)
				m.cost = &costRec{}
				r := m.exec(fn, args, nil)
				after(m, r)
			}})
		}
		one := func(m *M, r Value) { m.costIs(1, fn.Name()) }
		none := func(m *M, r Value) { m.costIs(0, fn.Name()) }
		const down = "each level of a trie is left for at most one child, everything else is shared"
		table := func(m *M) (Ptr, int) {
			m.tableMode()
			m.addGhostKey("p")
			return m.anyTrie(kTable, "me"), m.ghosts[0].pt
		}
		switch name {
		case "trieNode.insert":
			if len(fn.Params) == 3 {
				level("", down, func(m *M) []Value {
					me, p := table(m)
					mode := m.choose(3, "mode")
					o := insertArgs{insert: mode != 1, update: mode != 0}
					if o.update {
						o.eq = eqUser()
					}
					return []Value{me, m.heapNode(p, m.newSym("new")), (&insertContract{}).opts(m, fn.Params[2].Type(), o)}
				}, one)
			}
		case "trieNode.del":
			if len(fn.Params) >= 2 {
				level("", down, func(m *M) []Value {
					me, p := table(m)
					args := []Value{me, m.keyVal(p)}
					for _, q := range fn.Params[2:] {
						args = append(args, m.zero(q.Type()))
					}
					return args
				}, one)
			}
		case "trieNode.GetOrInsert":
			if len(fn.Params) == 3 {
				level("", down, func(m *M) []Value {
					me, p := table(m)
					return []Value{me, m.keyVal(p), m.newSym("new")}
				}, one)
			}
		case "trieNode.Match":
			if len(fn.Params) == 2 {
				level("", down, func(m *M) []Value {
					me, p := table(m)
					return []Value{me, m.keyVal(p)}
				}, one)
			}
		case "setNode.Union", "setNode.Difference":
			if len(fn.Params) != 2 {
				continue
			}
			leaf := func(m *M) Ptr {
				return m.newNode(kSet, nodeOpts{active: 1, name: "prefix", origin: "param", at: m.placeAny(), bAnc: -1})
			}
			level("/prefix", "with a single prefix: "+down, func(m *M) []Value {
				a, b := m.anyTrie(kSet, "me"), leaf(m)
				if name == "setNode.Union" && m.choose(2, "order") == 1 {
					a, b = b, a
				}
				return []Value{a, b}
			}, one)
			level("/inside", "a set inside a single prefix isn't walked", func(m *M) []Value {
				b := leaf(m)
				a := m.newNode(kSet, nodeOpts{active: -1, name: "me", origin: "param", at: -1, bAnc: m.ptOf(b), bSide: -1})
				if name == "setNode.Union" && m.choose(2, "order") == 1 {
					a, b = b, a
				}
				return []Value{a, b}
			}, none)
			level("/apart", "sets that are apart aren't walked", func(m *M) []Value {
				c := m.placeAny()
				m.assumeLeq(m.depth(c).plus(1), K(m.W))
				s := m.choose(2, "side")
				side := func(i int, name string) Ptr {
					return m.newNode(kSet, nodeOpts{active: -1, name: name, origin: "param", at: -1, bAnc: c, bSide: i})
				}
				return []Value{side(s, "me"), side(1-s, "other")}
			}, none)
		case "trieNode.diff":
			if len(fn.Params) != 3 {
				continue
			}
			level("/shared", "a trie isn't walked to compare it with itself if equal entries aren't asked for", func(m *M) []Value {
				m.tableMode()
				l := m.anyTrie(kTable, "me")
				h, ok := m.zero(fn.Params[2].Type()).(Struct)
				if !ok {
					m.undecided("the handler of a walk")
				}
				for _, k := range diffFields {
					if i := fieldIdx(fn.Params[2].Type(), k); i >= 0 && k != "Same" {
						h[i] = &Fn{name: k, impl: func(m *M, args []Value) Value { return m.choose(2, "stop") == 0 }}
					}
				}
				return []Value{l, l, h}
			}, none)
		case "trieNode.Map":
			if len(fn.Params) != 3 {
				continue
			}
			level("/same", "nothing is made if the mapper changes nothing", func(m *M) []Value {
				m.tableMode()
				me := m.anyTrie(kTable, "me")
				m.extra["mapSame"] = true
				m.extra["mapMe"] = me
				return []Value{me, sameMapper(), eqUser()}
			}, func(m *M, r Value) { m.mapIs(r, m.extra["mapMe"].(Ptr)) })
		}
	}

	constant := func(id, desc string, run func(m *M)) {
		add(id, desc, func(m *M) {
			run(m)
			m.costIs(0, id)
		})
	}
	start := func(m *M) { m.cost = &costRec{} }
	const snap = "neither a trie is walked nor nodes are made, whatever the size"
	for _, c := range [][2]string{{"Set", "Set_"}, {"Set_", "Set"}, {"Table", "Table_"}, {"Table_", "Table"}} {
		c := c
		if !f.has(c[0], c[1]) {
			continue
		}
		constant(c[0]+"."+c[1], snap, func(m *M) {
			fn := m.need(c[0], c[1], 1)
			var v Value
			switch c[0] {
			case "Set":
				v = m.setVal(m.anyTrie(kSet, "me"))
			case "Set_":
				v, _ = m.newSet_(m.anyTrie(kSet, "me"), false)
			case "Table":
				m.tableMode()
				v = m.tableVal(m.anyTrie(kTable, "me"), eqUser())
			default:
				m.tableMode()
				v, _ = m.newTable_(m.anyTrie(kTable, "me"), eqUser(), false)
			}
			start(m)
			m.run(fn, v)
			m.check(m.cost.allocs == 0, "cost", "nodes are made to convert a collection")
		})
	}
	for _, k := range []string{"Address", "Prefix"} {
		k := k
		if f.has(k, "Set") {
			constant(k+".Set", snap, func(m *M) {
				fn := m.need(k, "Set", 1)
				v := m.anySetI(k).v.(Iface).v
				start(m)
				m.run(fn, v)
			})
		}
		for _, op := range []string{"Insert", "Remove"} {
			op := op
			if !f.has("Set_", op) {
				continue
			}
			add("Set_."+op+"/"+k, "a bounded number of walks down one path", func(m *M) {
				fn := m.need("Set_", op, 2)
				v, _ := m.newSet_(m.anyTrie(kSet, "me"), false)
				a := m.anySetI(k).v
				start(m)
				m.run(fn, v, a)
				m.costIs(4, "Set_."+op)
			})
		}
	}
	for _, op := range tableOps {
		op := op
		if op.name == "NumEntries" {
			continue
		}
		for _, recv := range []string{"Table", "Table_"} {
			recv := recv
			if !f.has(recv, op.name) {
				continue
			}
			add(recv+"."+op.name, "a bounded number of walks down one path", func(m *M) {
				params := 2
				if op.value {
					params = 3
				}
				fn := m.need(recv, op.name, params)
				m.tableMode()
				m.addGhostKey("p")
				root := m.anyTrie(kTable, "me")
				var v Value = m.tableVal(root, eqUser())
				if recv == "Table_" {
					v, _ = m.newTable_(root, eqUser(), false)
				}
				args := []Value{v, m.anyPrefixI("Prefix", m.ghosts[0].pt)}
				if op.value {
					args = append(args, m.newSym("new"))
				}
				start(m)
				m.run(fn, args...)
				m.costIs(4, recv+"."+op.name)
			})
		}
	}
	if f.has("Table", "Diff") {
		constant("Table.Diff", "a table isn't walked to compare it with itself if equal entries aren't asked for", func(m *M) {
			m.tableMode()
			fn := m.need("Table", "Diff", 6)
			root := m.anyTrie(kTable, "me")
			args := []Value{m.tableVal(root, eqUser()), m.tableVal(root, eqUser())}
			for i := 0; i < 3; i++ {
				if m.choose(2, "callback") == 1 {
					args = append(args, &Fn{name: fmt.Sprint("callback ", i), impl: func(m *M, args []Value) Value { return true }})
				} else {
					args = append(args, (*Fn)(nil))
				}
			}
			args = append(args, (*Fn)(nil))
			start(m)
			m.run(fn, args...)
		})
	}
	if f.has("Table", "Map") {
		add("Table.Map", "the result is the same trie if the mapper changes nothing", func(m *M) {
			m.tableMode()
			fn := m.need("Table", "Map", 2)
			root := m.anyTrie(kTable, "me")
			m.extra["mapSame"] = true
			start(m)
			r, _ := m.tableParts(m.run(fn, m.tableVal(root, eqUser()), sameMapper()), "the result")
			m.mapIs(r, root)
		})
	}
	return obs
}

// sameMapper returns values that are equal to the ones that it gets.
func sameMapper() *Fn {
	return &Fn{name: "mapper", impl: func(m *M, args []Value) Value {
		v := m.newSym("same")
		m.sameClass(v, args[1])
		return v
	}}
}

func (m *M) mapIs(r Value, me Ptr) {
	p := m.nodePtr(r, "the result")
	same := p.obj == me.obj
	if n, k := m.node(p), m.node(me); n != nil && k != nil {
		same = same || m.rep(n) == m.rep(k)
	}
	m.check(same && m.cost.allocs == 0, "cost", "a trie is made although the mapper changes nothing")
}

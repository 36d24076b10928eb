package main

// The public interface: values of its types and how operations are checked.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var _ = token.NoPos

// typeField is the index of the only field of a type that is a pointer to elem.
func ptrField(t types.Type, elem types.Type) int {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1
	}
	for i := 0; i < s.NumFields(); i++ {
		if p, ok := s.Field(i).Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), elem) {
			return i
		}
	}
	return -1
}

// typ finds a named type of the family or gives up.
func (m *M) typ(name string) *types.Named {
	t := m.fam.named(name)
	if t == nil {
		m.undecided("there is no type %s", name)
	}
	return t
}

// wrap makes a struct value of type name where the field of type *elem is p.
func (m *M) wrap(t *types.Named, elem types.Type, p Ptr) Struct {
	i := ptrField(t, elem)
	if i < 0 {
		m.undecided("%s isn't represented by a pointer", t.Obj().Name())
	}
	s := m.zero(t).(Struct)
	s[i] = p
	return s
}

func (m *M) unwrap(v Value, t *types.Named, elem types.Type, what string) Ptr {
	i := ptrField(t, elem)
	s, ok := m.force(v).(Struct)
	if i < 0 || !ok || i >= len(s) {
		m.undecided("%s is %s", what, vstr(v))
	}
	return m.nodePtr(s[i], what)
}

func (m *M) setVal(p Ptr) Struct { return m.wrap(m.typ("Set"), m.fam.setNode, p) }

func (m *M) setTrie(v Value, what string) Ptr {
	return m.unwrap(v, m.typ("Set"), m.fam.setNode, what)
}

// newSet_ is an initialized mutable set.
func (m *M) newSet_(root Ptr, volatile bool) (Struct, *Cell) {
	st := m.typ("Set")
	o := m.newObj(st, m.setVal(root), "Set_")
	o.cell = &Cell{field: ptrField(st, m.fam.setNode), cur: root, volatile: volatile,
		mk: func(m *M) Ptr { return m.anyTrie(kSet, "root") }}
	return m.wrap(m.typ("Set_"), st, Ptr{obj: o}), o.cell
}

func (m *M) zeroOf(name string) Value { return m.zero(m.typ(name)) }

func (m *M) iface(name string, v Value) Value { return Iface{m.typ(name), v} }

// addrVal and rangeVal2 are values of the public types.
func (m *M) addrVal(w *Word) Struct { return Struct{w} }

// setArg is an argument of interface type SetI and what it means.
type setArg struct {
	v    Value
	fact func(i int) Fact
	desc string
	// some places a leaf that is in the set, if there is one
	some func() int
}

var setArgKinds = []string{"Set", "Set_", "Address", "Prefix", "Range", "other"}

// sameSet is a set with the same addresses as a trie (which has the same shape
// then, by its canonical form).
func (m *M) sameSet(kind string, root Ptr) setArg {
	p := root
	if root.obj != nil && m.choose(2, "same object") == 1 {
		p = m.anyNode(kSet, "other")
		m.twins(root.obj.node, p.obj.node)
	}
	fact := func(i int) Fact { return m.fact(kSet, p, i) }
	if kind == "Set" {
		return setArg{m.iface("Set", m.setVal(p)), fact, kind, m.someLeaf(p)}
	}
	if root.obj == nil && m.choose(2, "initialized") == 0 {
		return setArg{m.iface("Set_", m.zeroOf("Set_")), fact, kind, nil}
	}
	v, _ := m.newSet_(p, false)
	return setArg{m.iface("Set_", v), fact, kind, m.someLeaf(p)}
}

func (m *M) leafFact(in bool) Fact { return Fact{full: in, touch: in} }

// anySetI is an arbitrary argument of interface type SetI.
func (m *M) anySetI(kind string) setArg {
	switch kind {
	case "nil":
		return setArg{Iface{}, func(int) Fact { return Fact{} }, kind, nil}
	case "Set":
		p := m.anyTrie(kSet, "other")
		return setArg{m.iface("Set", m.setVal(p)), func(i int) Fact { return m.fact(kSet, p, i) }, kind, m.someLeaf(p)}
	case "Set_":
		if m.choose(2, "initialized") == 0 {
			return setArg{m.iface("Set_", m.zeroOf("Set_")), func(int) Fact { return Fact{} }, "zero Set_", nil}
		}
		p := m.anyTrie(kSet, "other")
		v, _ := m.newSet_(p, false)
		return setArg{m.iface("Set_", v), func(i int) Fact { return m.fact(kSet, p, i) }, kind, m.someLeaf(p)}
	case "Address":
		a := m.placeLeaf()
		return setArg{m.iface("Address", m.addrVal(m.ptWord(a))), func(i int) Fact { return m.ptFact(a, i) }, kind, func() int { return a }}
	case "Prefix":
		p := m.placeAny()
		return setArg{m.iface("Prefix", m.keyVal(p)), func(i int) Fact { return m.ptFact(p, i) }, kind, func() int { return m.placeLeafAtOrUnder(p) }}
	case "Range":
		f, l := m.placeLeaf(), m.placeLeaf()
		if m.lexLess(l, f) {
			m.infeasible()
		}
		return setArg{m.iface("Range", m.rangeVal(m.ptWord(f), m.ptWord(l))), func(i int) Fact {
			x := m.ghosts[i].pt
			if m.ghosts[i].leaf {
				return m.leafFact(!m.lexLess(x, f) && !m.lexLess(l, x))
			}
			m.undecided("a range and a prefix")
			return Fact{}
		}, kind, func() int { return f }}
	default:
		p := m.anyTrie(kSet, "other")
		return setArg{&AnyIface{name: "a SetI", invoke: func(m *M, meth *types.Func, args []Value) Value {
			if meth.Name() == "Set" {
				return m.setVal(p)
			}
			m.undecided("method %s", meth.Name())
			return nil
		}}, func(i int) Fact { return m.fact(kSet, p, i) }, kind, m.someLeaf(p)}
	}
}

// sharedSet is a mutable set that others may modify at any time.
func (m *M) sharedSet() (setArg, *Cell) {
	v, c := m.newSet_(Ptr{}, true)
	return setArg{m.iface("Set_", v), nil, "a shared Set_", nil}, c
}

// someLeaf places a leaf at or under the root of a trie.
func (m *M) someLeaf(p Ptr) func() int {
	if p.obj == nil {
		return nil
	}
	return func() int {
		a, s, _ := m.boundOf(p)
		if s < 0 {
			return m.placeLeafAtOrUnder(a)
		}
		return m.placeLeafUnder(a, s)
	}
}

// assumeWitness: if arg isn't empty then it has an address, which is subject to
// the hypothesis.
func (m *M) assumeWitness(arg setArg) {
	if arg.some == nil {
		return
	}
	i := m.newGhost(arg.some())
	if !arg.fact(i).full {
		m.infeasible()
	}
	m.extra["witness"].(func(m *M, i int))(m, i)
}

// ptFact is what the set of the addresses under p says about ghost i.
func (m *M) ptFact(p, i int) Fact {
	switch r, _ := m.rel(m.ghosts[i].pt, p); r {
	case 'x':
		return Fact{}
	case '^':
		return Fact{touch: true}
	}
	return Fact{full: true, touch: true}
}

// trial runs f and reports a panic of the program under analysis.
func (m *M) trial(f func() Value) (v Value, tp *targetPanic) {
	depth := len(m.stack)
	defer func() {
		if r := recover(); r != nil {
			t, ok := r.(targetPanic)
			if !ok {
				panic(r)
			}
			m.stack = m.stack[:depth]
			v, tp = nil, &t
		}
	}()
	return f(), nil
}

// method is a method of the public interface.
func (f *Family) method(typ, name string) *ssa.Function { return f.fn(typ + "." + name) }

// need gives up if a function doesn't exist (with the expected parameters).
func (m *M) need(typ, name string, params int) *ssa.Function {
	n := name
	if typ != "" {
		n = typ + "." + name
	}
	fn := m.fam.fn(n)
	if fn == nil {
		m.undecided("there is no %s", n)
	}
	if len(fn.Params) != params {
		m.undecided("%s has %d parameters", n, len(fn.Params))
	}
	m.top = fn
	return fn
}

func (f *Family) has(typ, name string) bool {
	if typ == "" {
		return f.fn(name) != nil
	}
	return f.fn(typ+"."+name) != nil
}

// run calls a function of the public interface from outside.
func (m *M) run(fn *ssa.Function, args ...Value) Value {
	m.top = nil
	m.entry = fn
	return m.call(fn, args, nil)
}

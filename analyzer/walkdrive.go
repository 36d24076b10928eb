package main

// Walks with callbacks that have a state: the callback is analysed for the
// first prefixes of an arbitrary set and then for any further one, until the
// state is one that was there before, up to the names of what was visited.

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// walkNames are the functions that visit the prefixes of a set in order, as
// shown by the obligations api/Set.WalkPrefixes and walk/*.
var walkNames = []string{"Set.WalkPrefixes", "setNode.Walk", "trieNode.Walk"}

// onWalk has drive called instead of the walk over the set whose trie is root.
func (m *M) onWalk(root Ptr, drive func(visit func(p Value) bool, state func() []Value) bool) {
	for _, n := range walkNames {
		fn := m.fam.fn(n)
		if fn == nil || len(fn.Params) != 2 {
			continue
		}
		n := n
		m.hook(fn, func(args []Value) (Value, bool) {
			var p Ptr
			if n == "Set.WalkPrefixes" {
				p = m.setTrie(args[0], "the set walked")
			} else {
				p = m.nodePtr(args[0], "the set walked")
			}
			if p.obj != root.obj {
				m.undecided("another set is walked")
			}
			cb, ok := args[1].(*Fn)
			if !ok {
				m.undecided("the callback of a walk is %s", vstr(args[1]))
			}
			m.loc.contrs[fn] = true
			return drive(func(p Value) bool {
				as := []Value{p}
				if n != "Set.WalkPrefixes" {
					as = append(as, Iface{})
				}
				return m.truth(m.callValue(cb, as))
			}, func() []Value { return []Value{cb} }), true
		})
	}
}

// hook has f called instead of fn.
func (m *M) hook(fn *ssa.Function, f func(args []Value) (Value, bool)) {
	if m.hooks == nil {
		m.hooks = map[*ssa.Function]func([]Value) (Value, bool){}
	}
	m.hooks[fn] = f
}

// signature describes a state: what can be reached from values, with the
// numbers described by num. ok is false if there is something in it that can't
// be described.
func (m *M) signature(vs []Value, num func(v Value) (string, bool)) (string, bool) {
	s, ok, whole := m.signature1(vs, num, false)
	if whole {
		s, ok, _ = m.signature1(vs, num, true)
	}
	return s, ok
}

// signature1 looks only at what pointers into objects point to, if not whole. It
// reports whether that doesn't do because there are several ways to an object.
func (m *M) signature1(vs []Value, num func(v Value) (string, bool), whole bool) (string, bool, bool) {
	var b strings.Builder
	ok := true
	conflict := false
	ids := map[*Obj]int{}
	paths := map[*Obj]string{}
	reach := func(o *Obj, path string) {
		if p, seen := paths[o]; seen && p != path {
			conflict = true
		}
		paths[o] = path
	}
	var dump func(v Value)
	dump = func(v Value) {
		switch v := v.(type) {
		case Ptr:
			if v.obj == nil {
				b.WriteString("nil")
				return
			}
			if v.obj.node != nil || v.obj.cell != nil {
				fmt.Fprintf(&b, "node%d", v.obj.id)
				return
			}
			reach(v.obj, v.path)
			if i, seen := ids[v.obj]; seen {
				fmt.Fprintf(&b, "&%d%x", i, v.path)
				return
			}
			ids[v.obj] = len(ids)
			fmt.Fprintf(&b, "&%d%x=", ids[v.obj], v.path)
			if whole || v.path == "" {
				dump(v.obj.val)
			} else {
				dump(m.load(v))
			}
		case *Fn:
			if v == nil {
				b.WriteString("nilfunc")
				return
			}
			if v.fn == nil {
				b.WriteString(v.name)
				return
			}
			b.WriteString(fnName(v.fn) + "(")
			for _, x := range v.binds {
				dump(x)
				b.WriteString(",")
			}
			b.WriteString(")")
		case Slice:
			fmt.Fprintf(&b, "[%d:", v.ln)
			if v.obj != nil {
				reach(v.obj, "slice")
			}
			for i := 0; i < v.ln; i++ {
				dump(m.load(Ptr{v.obj, string([]byte{byte(v.off + i)})}))
				b.WriteString(",")
			}
			b.WriteString("]")
		case Struct:
			b.WriteString("{")
			for _, x := range v {
				dump(m.force(x))
				b.WriteString(",")
			}
			b.WriteString("}")
		case Array:
			b.WriteString("[")
			for _, x := range v {
				dump(m.force(x))
				b.WriteString(",")
			}
			b.WriteString("]")
		case Iface:
			if v.typ == nil {
				b.WriteString("nil")
			} else if _, err := v.v.(ErrVal); err {
				b.WriteString("err")
			} else {
				b.WriteString(v.typ.String())
				dump(v.v)
			}
		case bool:
			fmt.Fprint(&b, v)
		default:
			s, known := num(v)
			if !known {
				ok = false
			}
			b.WriteString(s)
		}
	}
	for _, v := range vs {
		dump(v)
		b.WriteString(";")
	}
	return b.String(), ok, conflict
}

// mapState replaces the numbers of a state.
func (m *M) mapState(vs []Value, f func(v Value) Value) {
	seen := map[*Obj]bool{}
	var visit func(v Value) Value
	visit = func(v Value) Value {
		switch v := v.(type) {
		case Ptr:
			if v.obj != nil && v.obj.node == nil && v.obj.cell == nil && !seen[v.obj] {
				seen[v.obj] = true
				v.obj.val = visit(v.obj.val)
			}
		case *Fn:
			if v != nil {
				for _, x := range v.binds {
					visit(x)
				}
			}
		case Slice:
			if v.obj != nil && !seen[v.obj] {
				seen[v.obj] = true
				v.obj.val = visit(v.obj.val)
			}
		case Struct:
			for i := range v {
				v[i] = visit(v[i])
			}
		case Array:
			for i := range v {
				v[i] = visit(v[i])
			}
		case Const, Str:
			return f(v)
		}
		return v
	}
	for _, v := range vs {
		visit(v)
	}
}

// covered ends a trace whose continuations others include.
func (m *M) covered() { panic(coveredTrace{}) }

type coveredTrace struct{}

package main

// Abstract values of the interpreter.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is an abstract value. The concrete Go types are:
//
//	bool            a decided boolean (undecided ones are split on when they arise)
//	Const           an integer constant
//	Aff             ±v+c for a variable v of the zone (lengths, depths)
//	Lin             a linear combination of named non-negative quantities
//	*Word           an address or a mask: a sequence of bit segments
//	Ord             v+c for a variable of the zone of addresses taken as numbers
//	Struct, Array   aggregates
//	Ptr             a pointer (obj==nil: the nil pointer)
//	*Fn             a function value (nil: the nil function)
//	Iface           an interface value (dynamic type and value)
//	Sym             an opaque user value
//	Slice           a slice
//	Str             a string
//	Tuple           several results
//	Lazy            a field of an unfolded node that nobody has looked at yet
//	Top             a value that the domains cannot express
type Value interface{}

type Const struct{ V int64 } // for uint64 the bit pattern
type Aff struct {
	V   int // zone variable; 0 means none
	Neg bool
	C   int64
}

type Ord struct {
	V    int
	C    int64
	wide bool // held in an integer that is larger than an address
}

// Lin is a linear combination.
type Lin struct {
	T map[string]int64
	C int64
}

func (l Lin) String() string {
	var ks []string
	for k := range l.T {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "%+d*%s ", l.T[k], k)
	}
	fmt.Fprintf(&b, "%+d", l.C)
	return b.String()
}

func linAdd(a, b Lin, s int64) Lin {
	r := Lin{T: map[string]int64{}, C: a.C + s*b.C}
	for k, v := range a.T {
		r.T[k] = v
	}
	for k, v := range b.T {
		r.T[k] += s * v
		if r.T[k] == 0 {
			delete(r.T, k)
		}
	}
	return r
}

func linEq(a, b Lin) bool {
	d := linAdd(a, b, -1)
	return d.C == 0 && len(d.T) == 0
}

type Struct []Value
type Array []Value

// Obj is a memory object.
type Obj struct {
	id     int
	typ    types.Type
	val    Value
	node   *Node  // the ghost description of an unfolded symbolic node
	frozen bool   // published or reachable from something published
	why    string // why it is frozen
	cell   *Cell  // a shared mutable cell (the root of a Set_ or a Table_)
	label  string
	gen    int
}

type Ptr struct {
	obj  *Obj
	path string // sequence of bytes, each an index
}

type Fn struct {
	fn    *ssa.Function
	binds []Value
	name  string
	impl  func(m *M, args []Value) Value
}

type Iface struct {
	typ types.Type // nil: nil interface
	v   Value
}

// Sym is an opaque value.
type Sym struct {
	id   int
	name string
}

type Slice struct {
	obj           *Obj
	off, ln, cap_ int
}

type Str struct {
	s     string
	known bool
	t     *Text // what is known about it otherwise
}

type Tuple []Value

type Lazy struct {
	n     *Node
	field string
	idx   int
}

type Top struct{ why string }

func clone(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = clone(v[i])
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i := range v {
			r[i] = clone(v[i])
		}
		return r
	}
	return v
}

func vstr(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case bool:
		return fmt.Sprint(v)
	case Const:
		return fmt.Sprint(v.V)
	case Aff:
		s := "+"
		if v.Neg {
			s = "-"
		}
		return fmt.Sprintf("%sv%d%+d", s, v.V, v.C)
	case Ord:
		return fmt.Sprintf("o%d%+d", v.V, v.C)
	case Lin:
		return v.String()
	case *Word:
		return v.String()
	case Struct:
		var s []string
		for _, x := range v {
			s = append(s, vstr(x))
		}
		return "{" + strings.Join(s, ",") + "}"
	case Array:
		var s []string
		for _, x := range v {
			s = append(s, vstr(x))
		}
		return "[" + strings.Join(s, ",") + "]"
	case Tuple:
		var s []string
		for _, x := range v {
			s = append(s, vstr(x))
		}
		return "(" + strings.Join(s, ",") + ")"
	case Ptr:
		if v.obj == nil {
			return "nil"
		}
		return fmt.Sprintf("&%s#%d%v", v.obj.label, v.obj.id, []byte(v.path))
	case *Fn:
		if v == nil {
			return "nilfunc"
		}
		if v.fn != nil {
			return v.fn.Name()
		}
		return v.name
	case Iface:
		if v.typ == nil {
			return "nil"
		}
		return "iface(" + vstr(v.v) + ")"
	case Sym:
		return v.name
	case Slice:
		return fmt.Sprintf("slice(len %d)", v.ln)
	case Str:
		return fmt.Sprintf("%q", v.s)
	case Lazy:
		return "lazy." + v.field
	case Top:
		return "?" + v.why
	}
	return fmt.Sprintf("%T", v)
}

package main

// Addresses as numbers: v+c for variables of a zone, with the symbolic
// greatest address.

import (
	"go/token"
)

type OrdDom struct {
	max int // variable of the greatest address
}

func (m *M) ordInit() {
	if m.ordZ == nil {
		z := m.zone.newVar()
		m.ordZ = &OrdDom{max: z}
		// there are at least a few addresses
		m.assumeLeq(K(1<<20), Aff{V: z})
	}
}

func (m *M) newOrd() Ord {
	m.ordInit()
	v := m.zone.newVar()
	m.assumeLeq(K(0), Aff{V: v})
	m.assumeLeq(Aff{V: v}, Aff{V: m.ordZ.max})
	return Ord{V: v}
}

func ordAff(o Ord) Aff { return Aff{V: o.V, C: o.C} }

// toOrd is a value as a number; the greatest address is the symbolic one.
func (m *M) toOrd(v Value) (Aff, bool) {
	m.ordInit()
	max := Aff{V: m.ordZ.max}
	switch v := v.(type) {
	case Ord:
		return ordAff(v), true
	case Const:
		if m.words {
			if v.V < 0 && v.V > -(1<<20) {
				return max.plus(v.V + 1), true
			}
			if v.V < 0 || v.V > 1<<20 {
				return Aff{}, false
			}
			return K(v.V), true
		}
		if m.W == 32 {
			if v.V > 1<<31 && v.V < 1<<32 {
				return max.plus(v.V - (1<<32 - 1)), true
			}
			if v.V < -(1<<20) || v.V > 1<<20 {
				return Aff{}, false
			}
		}
		return K(v.V), true
	case Struct:
		if m.words {
			return Aff{}, false
		}
		if len(v) == 2 {
			h, ok := v[0].(Const)
			l, ok2 := v[1].(Const)
			if ok && ok2 && h.V == 0 && l.V >= 0 && l.V < 1<<20 {
				return K(l.V), true
			}
			if ok && ok2 && h.V == -1 && l.V < 0 && l.V > -(1<<20) {
				return max.plus(l.V + 1), true
			}
		}
		if len(v) == 1 {
			return m.toOrd(v[0])
		}
	}
	return Aff{}, false
}

// ordAdd adds a small constant, with wrap-around unless the number is held in
// a wider integer.
func (m *M) ordAdd(a Aff, c int64, wide, signed bool) Value {
	m.ordInit()
	r := a.plus(c)
	max := Aff{V: m.ordZ.max}
	if c > 0 && !wide && !m.leq(r, max) {
		if m.entEq(a, max) {
			return Ord{C: c - 1}
		}
		m.undecided("wrap-around")
	}
	if c < 0 && !(wide && signed) && !m.leq(K(0), r) {
		if m.entEq(a, K(0)) && !wide {
			return Ord{V: m.ordZ.max, C: c + 1}
		}
		m.undecided("wrap-around")
	}
	return Ord{V: r.V, C: r.C, wide: wide}
}

// ordConvert changes the size of the integer.
func (m *M) ordConvert(v Ord, bits int64, signed bool) Value {
	if m.W != 32 {
		m.undecided("conversion of an address")
	}
	if bits > 32 {
		if !signed && v.wide && !m.leq(K(0), ordAff(v)) {
			m.undecided("conversion of a negative number")
		}
		v.wide = true
		return v
	}
	if bits == 32 && !signed {
		if v.wide && !(m.leq(K(0), ordAff(v)) && m.leq(ordAff(v), Aff{V: m.ordZ.max})) {
			m.undecided("truncation of an address")
		}
		v.wide = false
		return v
	}
	m.undecided("truncation of an address")
	return nil
}

func (m *M) ordBinop(op token.Token, x, y Value, signed bool) (Value, bool) {
	if d, ok := x.(OrdDiff); ok {
		if c, ok := y.(Const); ok {
			if v, ok := m.ordDiffCmp(op, d, c.V); ok {
				return v, true
			}
		}
		return Top{"difference"}, true
	}
	if d, ok := y.(OrdDiff); ok {
		if c, ok := x.(Const); ok {
			rev := map[token.Token]token.Token{token.LSS: token.GTR, token.LEQ: token.GEQ, token.GTR: token.LSS, token.GEQ: token.LEQ, token.EQL: token.EQL}
			if v, ok := m.ordDiffCmp(rev[op], d, c.V); ok {
				return v, true
			}
		}
		return Top{"difference"}, true
	}
	vx, ox := x.(Ord)
	vy, oy := y.(Ord)
	if !ox && !oy {
		return nil, false
	}
	a, ok1 := m.toOrd(x)
	b, ok2 := m.toOrd(y)
	if !ok1 || !ok2 {
		return nil, false
	}
	wide := vx.wide || vy.wide
	switch op {
	case token.EQL:
		return m.affEq(a, b), true
	case token.LSS:
		return m.lt(a, b), true
	case token.LEQ:
		return m.leq(a, b), true
	case token.GTR:
		return m.lt(b, a), true
	case token.GEQ:
		return m.leq(b, a), true
	case token.ADD:
		if c, ok := y.(Const); ok {
			return m.ordAdd(a, c.V, wide, signed), true
		}
		if c, ok := x.(Const); ok {
			return m.ordAdd(b, c.V, wide, signed), true
		}
	case token.SUB:
		if c, ok := y.(Const); ok {
			return m.ordAdd(a, -c.V, wide, signed), true
		}
		if wide && signed || !signed && m.leq(b, a) {
			return OrdDiff{a, b, wide}, true
		}
		return Top{"difference"}, true
	}
	return nil, false
}

// OrdDiff is the difference of two addresses, the first of which isn't less.
type OrdDiff struct {
	a, b Aff
	wide bool
}

// ordDiffCmp compares a difference with a small constant.
func (m *M) ordDiffCmp(op token.Token, d OrdDiff, c int64) (Value, bool) {
	switch op {
	case token.GTR: // d > c
		return m.ordDiffLeast(d, c+1)
	case token.GEQ:
		return m.ordDiffLeast(d, c)
	case token.LSS:
		v, ok := m.ordDiffLeast(d, c)
		return v != true, ok
	case token.LEQ:
		v, ok := m.ordDiffLeast(d, c+1)
		return v != true, ok
	case token.EQL, token.NEQ:
		v, ok := m.ordDiffLeast(d, c)
		if !ok {
			return nil, false
		}
		if v == true {
			if v, ok = m.ordDiffLeast(d, c+1); !ok {
				return nil, false
			}
			v = v != true
		}
		return (v == true) == (op == token.EQL), true
	}
	return nil, false
}

// ordDiffLeast: a-b >= c
func (m *M) ordDiffLeast(d OrdDiff, c int64) (Value, bool) {
	if c > 2 {
		return nil, false
	}
	return m.leq(d.b.plus(c), d.a), true
}

// ordMethod models the methods of uint128 in the order domain.
func (m *M) ordMethod(name string, args []Value) (Value, bool) {
	if m.words {
		return nil, false
	}
	a, ok := m.toOrd(args[0])
	if !ok {
		return nil, false
	}
	switch name {
	case "compare":
		b, ok := m.toOrd(args[1])
		if !ok {
			return nil, false
		}
		if m.lt(a, b) {
			return Const{-1}, true
		}
		if m.leq(a, b) {
			return Const{0}, true
		}
		return Const{1}, true
	case "addUint64":
		if c, ok := args[1].(Const); ok {
			return m.ordAdd(a, c.V, false, false), true
		}
	case "subtractUint64":
		if c, ok := args[1].(Const); ok {
			return m.ordAdd(a, -c.V, false, false), true
		}
	}
	return nil, false
}

// ordAdd64 is bits.Add64 or bits.Sub64 of a word and a small constant.
func (m *M) ordAdd64(name string, args []Value) (Value, bool) {
	if !m.words || len(args) != 3 {
		return nil, false
	}
	if _, ok := args[0].(Ord); !ok && name == "Add64" {
		args = []Value{args[1], args[0], args[2]}
	}
	x, ok := args[0].(Ord)
	y, ok1 := args[1].(Const)
	c, ok2 := args[2].(Const)
	if !ok || !ok1 || !ok2 || y.V < 0 || y.V > 1 || c.V < 0 || c.V > 1 {
		return nil, false
	}
	d, a, max := y.V+c.V, ordAff(x), Aff{V: m.ordZ.max}
	if d == 0 {
		return Tuple{x, Const{0}}, true
	}
	if d == 2 {
		return nil, false
	}
	wrap := false
	if name == "Add64" {
		wrap = !m.leq(a.plus(1), max)
	} else {
		wrap, d = !m.leq(K(1), a), -1
	}
	carry := Const{}
	if wrap {
		carry.V = 1
	}
	return Tuple{m.ordAdd(a, d, false, false), carry}, true
}

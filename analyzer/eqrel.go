package main

// Opaque user values: identity and the table's comparison.

type EqRel struct {
	merges int             // values found to be the same
	id     map[int]int     // identity classes (union-find)
	cls    map[int]int     // equality classes (union-find, over identity classes)
	ne     map[[2]int]bool // classes known to be unequal
	calls  []eqCall
	legit  map[int]bool // values that were stored or supplied
}

type eqCall struct{ a, b Value }

func newEqRel() *EqRel {
	return &EqRel{id: map[int]int{}, cls: map[int]int{}, ne: map[[2]int]bool{}, legit: map[int]bool{}}
}

func (e *EqRel) find(mp map[int]int, x int) int {
	for {
		p, ok := mp[x]
		if !ok {
			return x
		}
		x = p
	}
}

func (e *EqRel) class(s Sym) int { return e.find(e.cls, e.find(e.id, s.id)) }

func (e *EqRel) isNe(a, b int) bool {
	for k := range e.ne {
		x, y := e.find(e.cls, k[0]), e.find(e.cls, k[1])
		if x == a && y == b || x == b && y == a {
			return true
		}
	}
	return false
}

// eqVals decides whether the table's comparison holds between two values.
func (m *M) eqVals(a, b Value) bool {
	x, ok := a.(Sym)
	y, ok2 := b.(Sym)
	if !ok || !ok2 {
		m.fail("cmp", "the comparison is applied to something that isn't the value of an entry (%s, %s)", vstr(a), vstr(b))
	}
	e := m.eqp
	cx, cy := e.class(x), e.class(y)
	if cx == cy {
		return true
	}
	if e.isNe(cx, cy) {
		return false
	}
	if m.choose(2, "eq("+x.name+","+y.name+")") == 0 {
		e.ne[[2]int{cx, cy}] = true
		return false
	}
	e.cls[cx] = cy
	return true
}

// entEqVals reports whether two values are known to be equal.
func (m *M) entEqVals(a, b Value) bool {
	x, ok := a.(Sym)
	y, ok2 := b.(Sym)
	return ok && ok2 && m.eqp.class(x) == m.eqp.class(y)
}

// mergeVal makes two values identical.
func (m *M) mergeVal(a, b Value) {
	x, ok := a.(Sym)
	y, ok2 := b.(Sym)
	if !ok || !ok2 {
		if ok != ok2 {
			m.infeasible()
		}
		return
	}
	e := m.eqp
	ix, iy := e.find(e.id, x.id), e.find(e.id, y.id)
	if ix == iy {
		return
	}
	cx, cy := e.class(x), e.class(y)
	if cx != cy {
		if e.isNe(cx, cy) {
			m.infeasible()
		}
		e.cls[cx] = cy
	}
	e.id[ix] = iy
	e.merges++
}

// identical reports whether two values are surely the same value.
func (m *M) identical(a, b Value) bool {
	x, ok := a.(Sym)
	y, ok2 := b.(Sym)
	if ok && ok2 {
		return m.eqp.find(m.eqp.id, x.id) == m.eqp.find(m.eqp.id, y.id)
	}
	if ok != ok2 {
		return false
	}
	i, ok := a.(Iface)
	j, ok2 := b.(Iface)
	return ok && ok2 && i.typ == nil && j.typ == nil
}

// symRawEq is a == b of two interface values.
func (m *M) symRawEq(a, b Sym) Value {
	if f, ok := m.extra["raweq"].(func(x, y Sym) Value); ok {
		return f(a, b)
	}
	m.fail("cmppanic", "two values are compared with ==, which panics for values that can't be compared so")
	return nil
}

func (m *M) symMayBeNil(s Sym) bool {
	if v, ok := m.symNils[s.id]; ok {
		return v
	}
	return m.extra["nilable"] != nil
}

// symNil decides whether an opaque value is the nil interface.
func (m *M) symNil(s Sym) Value {
	id := m.eqp.find(m.eqp.id, s.id)
	if v, ok := m.symNils[id]; ok {
		return v
	}
	r := m.choose(2, s.name+"==nil") == 1
	m.symNils[id] = r
	return r
}

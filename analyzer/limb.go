package main

// Limbs: unsigned machine words as linear expressions over bounded inputs.
// Sums split on whether they wrap around.

import (
	"go/token"
	"math/big"
	"sort"
	"strings"
)

type Limb struct {
	t    map[string]*big.Int
	c    *big.Int
	bits int64
}

type limbVar struct{ lo, hi *big.Int }

func newLimb(bits int64) *Limb { return &Limb{t: map[string]*big.Int{}, c: new(big.Int), bits: bits} }

func (l *Limb) String() string {
	var ks []string
	for k := range l.t {
		ks = append(ks, l.t[k].String()+"*"+k)
	}
	sort.Strings(ks)
	return strings.Join(append(ks, l.c.String()), "+")
}

func pow2big(n int64) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func (m *M) limbInput(name string, bits int64) *Limb {
	if m.limbs == nil {
		m.limbs = map[string]limbVar{}
	}
	m.limbs[name] = limbVar{new(big.Int), new(big.Int).Sub(pow2big(bits), big.NewInt(1))}
	l := newLimb(bits)
	l.t[name] = big.NewInt(1)
	return l
}

func (m *M) limbOf(v Value, bits int64) (*Limb, bool) {
	switch v := v.(type) {
	case *Limb:
		return v, true
	case Const:
		l := newLimb(bits)
		l.c.SetUint64(uint64(v.V))
		if bits < 64 {
			l.c.And(l.c, new(big.Int).Sub(pow2big(bits), big.NewInt(1)))
		}
		return l, true
	}
	return nil, false
}

func limbLin(a, b *Limb, s int64) *Limb {
	r := newLimb(a.bits)
	r.c.Add(a.c, new(big.Int).Mul(big.NewInt(s), b.c))
	for k, v := range a.t {
		r.t[k] = new(big.Int).Set(v)
	}
	for k, v := range b.t {
		x := r.t[k]
		if x == nil {
			x = new(big.Int)
		}
		x = new(big.Int).Add(x, new(big.Int).Mul(big.NewInt(s), v))
		if x.Sign() == 0 {
			delete(r.t, k)
		} else {
			r.t[k] = x
		}
	}
	return r
}

// bounds uses the ranges of the inputs and the facts assumed so far.
func (m *M) limbBounds(l *Limb) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.c), new(big.Int).Set(l.c)
	for k, v := range l.t {
		r := m.limbs[k]
		a, b := new(big.Int).Mul(v, r.lo), new(big.Int).Mul(v, r.hi)
		if v.Sign() < 0 {
			a, b = b, a
		}
		lo.Add(lo, a)
		hi.Add(hi, b)
	}
	// facts e >= 0: l = e + rest and l = -e + rest
	for _, e := range m.limbFacts {
		d := limbLin(l, e, -1)
		if len(d.t) == 0 && d.c.Cmp(lo) > 0 { // l = e + c >= c
			lo = d.c
		}
		s := limbLin(l, e, 1)
		if len(s.t) == 0 && s.c.Cmp(hi) < 0 { // l = c - e <= c
			hi = s.c
		}
	}
	return
}

// limbNonneg decides l >= 0.
func (m *M) limbNonneg(l *Limb) bool {
	lo, hi := m.limbBounds(l)
	if lo.Sign() >= 0 {
		return true
	}
	if hi.Sign() < 0 {
		return false
	}
	if m.choose(2, "") == 0 {
		m.limbFacts = append(m.limbFacts, l)
		return true
	}
	n := newLimb(l.bits)
	n.c = big.NewInt(-1)
	n = limbLin(n, l, -1) // -1 - l >= 0
	m.limbFacts = append(m.limbFacts, n)
	return false
}

// wrap brings a linear expression back into range.
func (m *M) limbWrap(l *Limb) Value {
	mod := newLimb(l.bits)
	mod.c = pow2big(l.bits)
	for i := 0; i < 3; i++ {
		if !m.limbNonneg(l) {
			l = limbLin(l, mod, 1)
			continue
		}
		// l - 2^bits >= 0 ?
		if m.limbNonneg(limbLin(l, mod, -1)) {
			l = limbLin(l, mod, -1)
			continue
		}
		break
	}
	return l
}

func (m *M) limbBinop(op token.Token, x, y Value, bits int64, signed bool) (Value, bool) {
	_, ox := x.(*Limb)
	_, oy := y.(*Limb)
	if !ox && !oy {
		return nil, false
	}
	if l, ok := x.(*Limb); ok {
		bits = l.bits
	}
	for _, v := range []Value{x, y} {
		if c, ok := v.(Const); ok && signed && c.V < 0 {
			return nil, false
		}
	}
	a, ok1 := m.limbOf(x, bits)
	b, ok2 := m.limbOf(y, bits)
	if !ok1 || !ok2 {
		return nil, false
	}
	if signed && (op == token.ADD || op == token.SUB) {
		s := int64(1)
		if op == token.SUB {
			s = -1
		}
		// not negative and not too large
		r, max := limbLin(a, b, s), newLimb(bits)
		max.c = pow2big(bits - 1)
		if !m.limbNonneg(r) || m.limbNonneg(limbLin(r, max, -1)) {
			return nil, false
		}
		return r, true
	}
	switch op {
	case token.ADD:
		return m.limbWrap(limbLin(a, b, 1)), true
	case token.SUB:
		return m.limbWrap(limbLin(a, b, -1)), true
	case token.EQL:
		d := limbLin(a, b, -1)
		if !m.limbNonneg(d) {
			return false, true
		}
		return m.limbNonneg(limbLin(b, a, -1)), true
	case token.GEQ:
		return m.limbNonneg(limbLin(a, b, -1)), true
	case token.LEQ:
		return m.limbNonneg(limbLin(b, a, -1)), true
	case token.LSS:
		return !m.limbNonneg(limbLin(a, b, -1)), true
	case token.GTR:
		return !m.limbNonneg(limbLin(b, a, -1)), true
	}
	return nil, false
}

func (m *M) limbBits(name string, args []Value) (Value, bool) {
	switch name {
	case "Add64", "Add32", "Sub64", "Sub32", "Add", "Sub":
		bits := int64(64)
		if strings.HasSuffix(name, "32") {
			bits = 32
		}
		a, ok1 := m.limbOf(args[0], bits)
		b, ok2 := m.limbOf(args[1], bits)
		c, ok3 := m.limbOf(args[2], bits)
		if !ok1 || !ok2 || !ok3 {
			return nil, false
		}
		s := int64(1)
		if strings.HasPrefix(name, "Sub") {
			s = -1
		}
		r := limbLin(limbLin(a, b, s), c, s)
		mod := newLimb(bits)
		mod.c = pow2big(bits)
		if s > 0 {
			if m.limbNonneg(limbLin(r, mod, -1)) {
				return Tuple{limbLin(r, mod, -1), Const{1}}, true
			}
			return Tuple{r, Const{0}}, true
		}
		if m.limbNonneg(r) {
			return Tuple{r, Const{0}}, true
		}
		return Tuple{limbLin(r, mod, 1), Const{1}}, true
	}
	return nil, false
}

// limb128 is high*2^64 + low.
func (m *M) limb128(h, l *Limb) *Limb {
	r := newLimb(128)
	k := pow2big(64)
	r.c.Mul(h.c, k)
	for n, v := range h.t {
		r.t[n] = new(big.Int).Mul(v, k)
	}
	return limbLin(r, l, 1)
}

// limbSubst replaces what is known to be zero.
func (m *M) limbSubst(d *Limb) *Limb {
	for _, e := range m.limbFacts {
		for _, f := range m.limbFacts {
			if s := limbLin(e, f, 1); len(s.t) != 0 || s.c.Sign() != 0 || len(e.t) == 0 {
				continue
			}
			// e = 0
			for k, v := range e.t {
				if x := d.t[k]; x != nil && v.IsInt64() && (v.Int64() == 1 || v.Int64() == -1) {
					q := new(big.Int).Mul(x, v)
					t := newLimb(d.bits)
					t = limbLin(t, e, 1)
					for n := range t.t {
						t.t[n].Mul(t.t[n], q)
					}
					t.c.Mul(t.c, q)
					d = limbLin(d, t, -1)
				}
				break
			}
		}
	}
	return d
}

// limbRange checks that a word is in range.
func (m *M) limbRange(l *Limb) {
	mod := newLimb(l.bits)
	mod.c = new(big.Int).Sub(pow2big(64), big.NewInt(1))
	if !m.limbNonneg(l) || !m.limbNonneg(limbLin(mod, l, -1)) {
		m.undecided("a word may be out of range")
	}
}

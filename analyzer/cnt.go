package main

// Cnt is s+k or -s+k, modulo 2^64, for an unknown number s in an interval.

import (
	"fmt"
	"go/token"
	"math"
	"math/big"
)

type Cnt struct {
	neg bool
	k   uint64
}

func (c Cnt) String() string {
	if c.neg {
		return fmt.Sprintf("-s%+d", c.k)
	}
	return fmt.Sprintf("s%+d", c.k)
}

var two64 = new(big.Int).Lsh(big.NewInt(1), 64)

func bigU(u uint64) *big.Int { return new(big.Int).SetUint64(u) }

// cntAtLeast decides s >= t, splitting the interval if necessary.
func (m *M) cntAtLeast(t *big.Int) bool {
	if t.Cmp(bigU(m.cntLo)) <= 0 {
		return true
	}
	if t.Cmp(bigU(m.cntHi)) > 0 {
		return false
	}
	if m.choose(2, "s>="+t.String()) == 1 {
		m.cntLo = t.Uint64()
		return true
	}
	m.cntHi = t.Uint64() - 1
	return false
}

// cntLin is the exact value as a*s+b.
func (m *M) cntLin(v Value) (a int64, b *big.Int, ok bool) {
	switch v := v.(type) {
	case Const:
		return 0, bigU(uint64(v.V)), true
	case Cnt:
		b = bigU(v.k)
		if v.neg {
			if m.cntAtLeast(new(big.Int).Add(b, big.NewInt(1))) {
				b.Add(b, two64)
			}
			return -1, b, true
		}
		if v.k != 0 && m.cntAtLeast(new(big.Int).Sub(two64, b)) {
			b.Sub(b, two64)
		}
		return 1, b, true
	}
	return 0, nil, false
}

// cntNeg decides a*s+b < 0.
func (m *M) cntNeg(a int64, b *big.Int) bool {
	switch {
	case a == 0:
		return b.Sign() < 0
	case a > 0:
		// s < -b/a, that is not s >= ceil(-b/a)
		t := new(big.Int).Neg(b)
		t.Add(t, big.NewInt(a-1))
		return !m.cntAtLeast(t.Div(t, big.NewInt(a)))
	}
	// s > b/-a
	t := new(big.Int).Div(b, big.NewInt(-a))
	return m.cntAtLeast(t.Add(t, big.NewInt(1)))
}

func (m *M) cntLess(x, y Value) bool {
	a1, b1, ok1 := m.cntLin(x)
	a2, b2, ok2 := m.cntLin(y)
	if !ok1 || !ok2 {
		m.undecided("comparison of %s with %s", vstr(x), vstr(y))
	}
	return m.cntNeg(a1-a2, new(big.Int).Sub(b1, b2))
}

func (m *M) cntBinop(op token.Token, x, y Value) (Value, bool) {
	cx, okx := x.(Cnt)
	cy, oky := y.(Cnt)
	if !okx && !oky {
		return nil, false
	}
	switch op {
	case token.LSS:
		return m.cntLess(x, y), true
	case token.GTR:
		return m.cntLess(y, x), true
	case token.LEQ:
		return !m.cntLess(y, x), true
	case token.GEQ:
		return !m.cntLess(x, y), true
	case token.EQL:
		return !m.cntLess(x, y) && !m.cntLess(y, x), true
	case token.ADD:
		if c, ok := y.(Const); ok {
			cx.k += uint64(c.V)
			return cx, true
		}
		if c, ok := x.(Const); ok {
			cy.k += uint64(c.V)
			return cy, true
		}
		if okx && oky && cx.neg != cy.neg {
			return Const{int64(cx.k + cy.k)}, true
		}
	case token.SUB:
		if c, ok := y.(Const); ok {
			cx.k -= uint64(c.V)
			return cx, true
		}
		if c, ok := x.(Const); ok {
			return Cnt{!cy.neg, uint64(c.V) - cy.k}, true
		}
		if okx && oky && cx.neg == cy.neg {
			return Const{int64(cx.k - cy.k)}, true
		}
	case token.XOR:
		if c, ok := y.(Const); ok && c.V == -1 {
			return Cnt{!cx.neg, math.MaxUint64 - cx.k}, true
		}
	}
	return nil, false
}

// cntAdd64 is bits.Add64.
func (m *M) cntAdd64(args []Value) (Value, bool) {
	x, y := m.force(args[0]), m.force(args[1])
	c, ok := m.force(args[2]).(Const)
	if _, sym := x.(Cnt); !sym {
		if _, sym = y.(Cnt); !sym {
			return nil, false
		}
	}
	if !ok {
		return nil, false
	}
	a1, b1, ok1 := m.cntLin(x)
	a2, b2, ok2 := m.cntLin(y)
	s, ok3 := m.cntBinop(token.ADD, x, y)
	if !ok1 || !ok2 || !ok3 {
		return nil, false
	}
	if sc, isConst := s.(Const); isConst {
		s = Const{sc.V + c.V}
	} else {
		s, _ = m.cntBinop(token.ADD, s, c)
	}
	b := new(big.Int).Add(b1, b2)
	b.Add(b, bigU(uint64(c.V)))
	b.Sub(b, two64)
	if m.cntNeg(a1+a2, b) {
		return Tuple{s, Const{0}}, true
	}
	return Tuple{s, Const{1}}, true
}

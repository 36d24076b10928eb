package main

import "go/token"

// OrdLen is the length of a prefix of which the first and the last address are
// known: whether it is the greatest or the least depends on them; what else it
// may be isn't known.
type OrdLen struct {
	one, all func() bool // one address, all of them
	v        Value
}

func (l *OrdLen) force(m *M) Value {
	if l.v == nil {
		switch {
		case l.one():
			l.v = Const{m.W}
		case l.all():
			l.v = Const{0}
		default:
			l.v = &OrdLen{v: Top{"length"}}
		}
	}
	if _, ok := l.v.(Top); ok {
		return l
	}
	return l.v
}

// innerLen compares a length that is neither the least nor the greatest.
func (m *M) innerLen(op token.Token, x, y Value) (Value, bool) {
	_, ox := x.(*OrdLen)
	_, oy := y.(*OrdLen)
	if !ox && !oy {
		return nil, false
	}
	if oy {
		flip := map[token.Token]token.Token{token.EQL: token.EQL, token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		f, ok := flip[op]
		if !ok {
			return Top{"length"}, true
		}
		x, y, op = y, x, f
	}
	c, ok := y.(Const)
	if !ok {
		return Top{"length"}, true
	}
	// 0 < x < W
	switch {
	case op == token.EQL && (c.V <= 0 || c.V >= m.W):
		return false, true
	case (op == token.LSS || op == token.LEQ) && c.V >= m.W, (op == token.GTR || op == token.GEQ) && c.V <= 0:
		return true, true
	case (op == token.LSS || op == token.LEQ) && c.V <= 0, (op == token.GTR || op == token.GEQ) && c.V >= m.W:
		return false, true
	case op == token.GEQ && c.V == 1, op == token.LEQ && c.V == m.W-1:
		return true, true
	case op == token.LSS && c.V == 1, op == token.GTR && c.V == m.W-1:
		return false, true
	}
	return Top{"length"}, true
}

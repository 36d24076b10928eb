package main

// Texts taken apart by position: s[:i], s[i+1:] and strings.Cut with the
// position of a character.

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cutParts are the parts of a text before and after the first (or last) c.
type cutParts struct {
	found       bool
	left, right Str
}

// rightParts are samples of what may follow the slash without making a prefix
// of a text.
var rightParts = []string{"", "+24", "-1", "24/5", "300", "4294967320", "18446744073709551640", "0x18", "24 "}

func (u *unkText) clone() *unkText {
	return &unkText{class: u.class, bits: u.bits, length: u.length, has: map[string]bool{}, index: map[string]Value{}}
}

func unkStr(u *unkText) Str { return Str{t: &Text{[]tok{{unk: u}}}} }

func (m *M) newUnk(class int) *unkText {
	u := &unkText{class: class, has: map[string]bool{}, index: map[string]Value{}}
	switch class {
	case txV4:
		u.bits = m.newBits(32)
	case txColon:
		u.bits = m.newBits(128)
	}
	return u
}

// cut takes a text apart; ok is false if it isn't known how.
func (m *M) cut(s Str, c byte, last bool) (cutParts, bool) {
	toks := s.toks()
	if len(toks) == 1 && toks[0].unk != nil {
		return m.cutUnk(toks[0].unk, c, last)
	}
	at, off := -1, 0
	for i, t := range toks {
		if t.unk != nil || t.ip6 != nil && c == ':' || (t.dec != nil || t.ip6 != nil) && strings.IndexByte("0123456789abcdef", c) >= 0 {
			return cutParts{}, false
		}
		if t.lit == "" || at >= 0 && !last {
			continue
		}
		j := strings.IndexByte(t.lit, c)
		if last {
			j = strings.LastIndexByte(t.lit, c)
		}
		if j >= 0 {
			at, off = i, j
		}
	}
	if at < 0 {
		return cutParts{false, s, Str{"", true, nil}}, true
	}
	l := append(append([]tok(nil), toks[:at]...), tok{lit: toks[at].lit[:off]})
	r := append([]tok{{lit: toks[at].lit[off+1:]}}, toks[at+1:]...)
	return cutParts{true, strOf(l), strOf(r)}, true
}

func (m *M) cutUnk(u *unkText, c byte, last bool) (cutParts, bool) {
	k := fmt.Sprintf("cut%c%v", c, last)
	if p, ok := u.index[k].(cutParts); ok {
		return p, true
	}
	if !m.unkHas(u, c) {
		return cutParts{false, unkStr(u), Str{"", true, nil}}, true
	}
	var p cutParts
	switch {
	case c != '/':
		return p, false
	case u.class == txV4Prefix, u.class == txColonPrefix:
		l := u.clone()
		l.class, l.length = txV4, 0
		if u.class == txColonPrefix {
			l.class = txColon
		}
		p = cutParts{true, unkStr(l), Str{strconv.FormatInt(u.length, 10), true, nil}}
		u.index[fmt.Sprintf("cut%c%v", c, !last)] = p
	case u.index["Count/"] != nil || last || u.index[fmt.Sprintf("cut%c%v", c, !last)] != nil:
		return p, false
	default:
		// an address and something that isn't a length, or the reverse
		switch w := m.choose(3, "before"); w {
		case 0:
			l := m.newUnk(txOther)
			l.has["/"] = false
			p = cutParts{true, unkStr(l), Str{"24", true, nil}}
		default:
			bad := rightParts
			l := m.newUnk(txV4)
			if w == 2 {
				l = m.newUnk(txColon)
			} else {
				bad = append([]string{"33", "128"}, bad...)
			}
			p = cutParts{true, unkStr(l), Str{bad[m.choose(len(bad), "after")], true, nil}}
		}
		for _, ch := range []byte(":.") {
			k := string([]byte{ch})
			h := m.textHas(p.left.toks(), ch) || m.textHas(p.right.toks(), ch)
			if v, ok := u.has[k]; ok && v != h {
				m.infeasible()
			}
			u.has[k] = h
		}
	}
	u.index[k] = p
	return p, true
}

// positionOf is what a length or position in a text is: just before the first
// or last c (after is false) or just after it.
func (m *M) positionOf(index map[string]Value, v Value) (c byte, last, after, ok bool) {
	a, isAff := v.(Aff)
	if !isAff {
		return
	}
	for k, x := range index {
		b, isAff := x.(Aff)
		if !isAff || b.V == 0 || b.V != a.V || a.Neg != b.Neg {
			continue
		}
		name := strings.TrimSuffix(k, k[len(k)-1:])
		if name != "Index" && name != "LastIndex" || a.C != b.C && a.C != b.C+1 {
			continue
		}
		return k[len(k)-1], name == "LastIndex", a.C == b.C+1, true
	}
	return
}

// textIndex are the positions in a text that were asked for.
func (m *M) textIndex(t *Text) map[string]Value {
	all, ok := m.extra["textIndex"].(map[*Text]map[string]Value)
	if !ok {
		all = map[*Text]map[string]Value{}
		m.extra["textIndex"] = all
	}
	if all[t] == nil {
		all[t] = map[string]Value{}
	}
	return all[t]
}

// textSlice is a part of a text.
func (m *M) textSlice(x Str, lo, hi Value) (Value, bool) {
	if x.known {
		l, h := 0, len(x.s)
		if lo != nil {
			l = m.index(lo)
		}
		if hi != nil {
			h = m.index(hi)
		}
		if l < 0 || h < l || h > len(x.s) {
			m.outOfRange()
		}
		return Str{x.s[l:h], true, nil}, true
	}
	if lo == Value(Const{0}) {
		lo = nil
	}
	if lo == nil && hi == nil {
		return x, true
	}
	toks := x.toks()
	if lo != nil && hi != nil || x.t == nil {
		return nil, false
	}
	index := m.textIndex(x.t)
	if len(toks) == 1 && toks[0].unk != nil {
		index = toks[0].unk.index
	}
	pos := lo
	if pos == nil {
		pos = hi
	}
	c, last, after, ok := m.positionOf(index, pos)
	if !ok || after == (lo == nil) {
		return nil, false
	}
	p, ok := m.cut(x, c, last)
	if !ok || !p.found {
		return nil, false
	}
	if lo == nil {
		return p.left, true
	}
	return p.right, true
}

// parseNumber is what strconv.Atoi, ParseInt and ParseUint make of a text.
func (m *M) parseNumber(fn *ssa.Function, name string, args []Value) (Value, bool) {
	s, ok := m.force(args[0]).(Str)
	if !ok {
		return nil, false
	}
	bad := Tuple{Const{0}, m.newErr()}
	base, bits := 10, 0
	if name != "Atoi" {
		b, ok1 := m.force(args[1]).(Const)
		w, ok2 := m.force(args[2]).(Const)
		if !ok1 || !ok2 {
			return nil, false
		}
		base, bits = int(b.V), int(w.V)
	}
	if s.known {
		var v int64
		var err error
		if name == "ParseUint" {
			var n uint64
			n, err = strconv.ParseUint(s.s, base, bits)
			v = int64(n)
		} else {
			v, err = strconv.ParseInt(s.s, base, bits)
		}
		if err != nil {
			bad[0] = Const{v}
			return bad, true
		}
		return Tuple{Const{v}, Iface{}}, true
	}
	toks := s.toks()
	if len(toks) == 1 && toks[0].unk != nil && m.classOf(toks[0].unk) != txOther {
		return bad, true // an address or a prefix
	}
	m.taint("a number in a text")
	if m.choose(2, "number") == 0 {
		return bad, true
	}
	return Tuple{Top{"a number in a text"}, Iface{}}, true
}

// textCut models strings.Cut, Split and SplitN.
func (m *M) textCut(s Str, name string, args []Value) (Value, bool) {
	if name != "Cut" && name != "Split" && name != "SplitN" {
		return nil, false
	}
	c, ok := oneChar(args[1])
	if !ok {
		return nil, false
	}
	if name == "SplitN" && m.force(args[2]) != Value(Const{2}) {
		return nil, false
	}
	p, ok := m.cut(s, c, false)
	if !ok {
		m.taint("a part of a text")
		if name != "Cut" {
			return nil, false
		}
		return Tuple{unknownText(), unknownText(), m.choose(2, "found") == 1}, true
	}
	if name == "Cut" {
		return Tuple{p.left, p.right, p.found}, true
	}
	parts := []Value{p.left}
	for p.found {
		if name == "Split" {
			if q, ok := m.cut(p.right, c, false); !ok {
				return nil, false
			} else if q.found {
				parts, p = append(parts, q.left), q
				continue
			}
		}
		parts = append(parts, p.right)
		break
	}
	n := len(parts)
	return Slice{m.newObj(types.NewArray(types.Typ[types.String], int64(n)), Array(parts), "strings."+name), 0, n, n}, true
}

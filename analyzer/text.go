package main

// Texts: sequences of literals, decimal numbers, IPv6 addresses and unknown
// parts, and what package net, fmt, strconv and strings make of them.

import (
	"fmt"
	"go/types"
	"net"
	"net/netip"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Text struct{ toks []tok }

// tok is one of these.
type tok struct {
	lit string
	dec *Bits // a number in decimal notation
	ip6 *Bits // the text of an IPv6 address that isn't IPv4-mapped
	unk *unkText
}

// unkText is a text about which only what was asked is known.
type unkText struct {
	class  int // -1: not yet decided
	bits   *Bits
	length int64
	has    map[string]bool
	index  map[string]Value
}

// The classes of texts.
const (
	txOther    = iota // neither an address nor a prefix
	txV4              // an address in dotted-quad notation
	txColon           // an address in colon notation
	txV4Prefix        // the same with a length
	txColonPrefix
	txN
)

func strOf(toks []tok) Str {
	var r []tok
	for _, t := range toks {
		if t.lit == "" && t.dec == nil && t.ip6 == nil && t.unk == nil {
			continue
		}
		if n := len(r); n > 0 && t.lit != "" && r[n-1].lit != "" {
			r[n-1].lit += t.lit
			continue
		}
		r = append(r, t)
	}
	switch {
	case len(r) == 0:
		return Str{"", true, nil}
	case len(r) == 1 && r[0].lit != "":
		return Str{r[0].lit, true, nil}
	}
	return Str{t: &Text{r}}
}

func unknownText() Str {
	return Str{t: &Text{[]tok{{unk: &unkText{class: -1, has: map[string]bool{}, index: map[string]Value{}}}}}}
}

// toks are the parts of a text.
func (s Str) toks() []tok {
	switch {
	case s.known:
		return []tok{{lit: s.s}}
	case s.t != nil:
		return s.t.toks
	}
	return unknownText().t.toks
}

func lit(s string) []tok { return []tok{{lit: s}} }

// classOf decides what an unknown text is.
func (m *M) classOf(u *unkText) int {
	if u.class < 0 {
		u.class = m.choose(txN, "text")
		switch u.class {
		case txV4, txV4Prefix:
			u.bits = m.newBits(32)
		case txColon, txColonPrefix:
			u.bits = m.newBits(128)
		}
		switch u.class {
		case txV4Prefix:
			u.length = int64(m.choose(33, "length"))
		case txColonPrefix:
			u.length = int64(m.choose(129, "length"))
		}
	}
	return u.class
}

// tokHas reports whether a part has some character (a set of which is given).
func (m *M) tokHas(t tok, c byte) bool {
	switch {
	case t.dec != nil:
		if c >= '0' && c <= '9' {
			m.taint("digits of a number")
			return m.choose(2, "digit") == 0
		}
		return false
	case t.ip6 != nil:
		switch {
		case c == ':':
			return true
		case c >= '0' && c <= '9', c >= 'a' && c <= 'f':
			m.taint("digits of an address")
			return m.choose(2, "digit") == 0
		}
		return false
	case t.unk != nil:
		return m.unkHas(t.unk, c)
	}
	return strings.IndexByte(t.lit, c) >= 0
}

func (m *M) unkHas(u *unkText, c byte) bool {
	k := string([]byte{c})
	if v, ok := u.has[k]; ok {
		return v
	}
	free := func() bool { return m.choose(2, "has "+k) == 1 }
	var r bool
	cl := m.classOf(u)
	switch {
	case cl == txOther:
		r = free()
	case c == ':':
		r = cl == txColon || cl == txColonPrefix
	case c == '.':
		r = cl == txV4 || cl == txV4Prefix || free()
	case c == '/':
		r = cl == txV4Prefix || cl == txColonPrefix
	case c >= '0' && c <= '9', c >= 'a' && c <= 'f', c >= 'A' && c <= 'F':
		m.taint("digits of a text")
		r = free()
	}
	u.has[k] = r
	return r
}

// textHas reports whether a text has a character.
func (m *M) textHas(toks []tok, c byte) bool {
	for _, t := range toks {
		if m.tokHas(t, c) {
			return true
		}
	}
	return false
}

// oneChar is the character that a value of type string, byte or rune is.
func oneChar(v Value) (byte, bool) {
	switch v := v.(type) {
	case Str:
		if v.known && len(v.s) == 1 {
			return v.s[0], true
		}
	case Const:
		if v.V > 0 && v.V < 128 {
			return byte(v.V), true
		}
	}
	return 0, false
}

func (m *M) stringsFn(name string, args []Value) (Value, bool) {
	for i := range args {
		args[i] = m.force(args[i])
	}
	if strings.HasPrefix(name, "Builder.") {
		return m.builderFn(name[len("Builder."):], args)
	}
	if name == "Join" {
		s, ok := args[0].(Slice)
		sep, ok2 := args[1].(Str)
		if !ok || !ok2 {
			return nil, false
		}
		var r []tok
		for i := 0; i < s.ln; i++ {
			e, ok := m.byteAt(s, i).(Str)
			if !ok {
				return nil, false
			}
			if i > 0 {
				r = append(r, sep.toks()...)
			}
			r = append(r, e.toks()...)
		}
		return strOf(r), true
	}
	if len(args) < 1 {
		return nil, false
	}
	s, ok := args[0].(Str)
	if !ok {
		return nil, false
	}
	if s.known && len(args) == 2 { // all is known
		if b, ok := args[1].(Str); ok && b.known {
			switch name {
			case "Contains":
				return strings.Contains(s.s, b.s), true
			case "HasPrefix":
				return strings.HasPrefix(s.s, b.s), true
			case "HasSuffix":
				return strings.HasSuffix(s.s, b.s), true
			case "Index":
				return Const{int64(strings.Index(s.s, b.s))}, true
			case "TrimPrefix":
				return Str{strings.TrimPrefix(s.s, b.s), true, nil}, true
			case "TrimSuffix":
				return Str{strings.TrimSuffix(s.s, b.s), true, nil}, true
			}
		}
	}
	if v, ok := m.textCut(s, name, args); ok {
		return v, true
	}
	toks := s.toks()
	switch name {
	case "Contains", "ContainsRune", "ContainsAny":
		if c, ok := oneChar(args[1]); ok {
			return m.textHas(toks, c), true
		}
		if b, ok := args[1].(Str); ok && b.known && name == "ContainsAny" {
			for i := 0; i < len(b.s); i++ {
				if m.textHas(toks, b.s[i]) {
					return true, true
				}
			}
			return false, true
		}
		if s.known && len(s.s) < 2 && name == "Contains" {
			// no address or prefix is as short as that
			if b, ok := args[1].(Str); ok && !b.known {
				t := b.toks()
				if len(t) > 1 || t[0].unk == nil || m.classOf(t[0].unk) != txOther {
					return false, true
				}
			}
		}
		m.taint("a search in a text")
		return m.choose(2, "contains") == 1, true
	case "Index", "IndexByte", "IndexRune", "IndexAny", "LastIndex", "LastIndexByte", "LastIndexAny", "Count":
		c, ok := oneChar(args[1])
		if !ok {
			return Top{"strings." + name}, true
		}
		has := m.textHas(toks, c)
		if !has {
			if name == "Count" {
				return Const{0}, true
			}
			return Const{-1}, true
		}
		if len(toks) == 1 && toks[0].unk != nil {
			return m.unkIndex(toks[0].unk, name, c), true
		}
		if _, ok := m.cut(s, c, false); ok && s.t != nil && name != "Count" {
			n := "Index"
			if strings.HasPrefix(name, "Last") {
				n = "LastIndex"
			}
			ix := m.textIndex(s.t)
			k := n + string([]byte{c})
			if ix[k] == nil {
				a := Aff{V: m.zone.newVar()}
				m.assumeLeq(K(0), a)
				ix[k] = a
			}
			return ix[k], true
		}
		a := Aff{V: m.zone.newVar()}
		m.assumeLeq(K(0), a)
		if name == "Count" {
			m.assumeLeq(K(1), a)
		}
		m.taint("a position in a text")
		return a, true
	case "HasPrefix", "HasSuffix", "EqualFold":
		m.taint("a comparison of texts")
		return m.choose(2, name) == 1, true
	case "TrimSpace", "ToLower", "ToUpper", "Trim", "TrimPrefix", "TrimSuffix", "TrimLeft", "TrimRight", "Replace", "ReplaceAll", "Repeat":
		m.taint("a change of a text")
		return unknownText(), true
	}
	return nil, false
}

// unkIndex is the first or last position, or the number, of a character that
// an unknown text has.
func (m *M) unkIndex(u *unkText, name string, c byte) Value {
	switch {
	case name == "Count":
	case strings.HasPrefix(name, "Last"):
		name = "LastIndex"
	default:
		name = "Index"
	}
	cl := m.classOf(u)
	if c == '/' && cl != txOther && name == "LastIndex" {
		name = "Index" // there is only one
	}
	k := name + string([]byte{c})
	if v := u.index[k]; v != nil {
		return v
	}
	lo, hi := int64(0), int64(-1)
	if name == "Count" {
		lo = 1
	}
	colon := cl == txColon || cl == txColonPrefix
	if cl != txOther {
		switch k {
		case "Count:":
			lo, hi = 2, 8
		case "Count.":
			lo, hi = 3, 3
		case "Count/":
			lo, hi = 1, 1
		case "Index:":
			lo, hi = 0, 4
		case "LastIndex:":
			lo, hi = 1, 38
		case "Index.":
			lo, hi = 1, 3
			if colon {
				lo, hi = 3, 33
			}
		case "LastIndex.":
			lo, hi = 5, 11
			if colon {
				lo, hi = 7, 41
			}
		case "Index/":
			lo, hi = 7, 15
			if colon {
				lo, hi = 2, 45
			}
		}
	}
	if lo == hi {
		u.index[k] = Const{lo}
		return u.index[k]
	}
	a := Aff{V: m.zone.newVar()}
	m.assumeLeq(K(lo), a)
	if hi >= 0 {
		m.assumeLeq(a, K(hi))
	}
	u.index[k] = a
	return a
}

func (m *M) builders() map[Ptr][]tok {
	b, ok := m.extra["builders"].(map[Ptr][]tok)
	if !ok {
		b = map[Ptr][]tok{}
		m.extra["builders"] = b
	}
	return b
}

func (m *M) builderFn(name string, args []Value) (Value, bool) {
	p, ok := args[0].(Ptr)
	if !ok || p.obj == nil {
		return nil, false
	}
	b := m.builders()
	switch name {
	case "WriteString":
		s, ok := args[1].(Str)
		if !ok {
			return nil, false
		}
		b[p] = append(b[p], s.toks()...)
		return Tuple{Top{"a length"}, Iface{}}, true
	case "WriteByte", "WriteRune":
		c, ok := oneChar(args[1])
		if !ok {
			return nil, false
		}
		b[p] = append(b[p], tok{lit: string([]byte{c})})
		if name == "WriteByte" {
			return Iface{}, true
		}
		return Tuple{Const{1}, Iface{}}, true
	case "String":
		return strOf(b[p]), true
	case "Reset":
		delete(b, p)
		return nil, true
	case "Grow":
		return nil, true
	case "Len", "Cap":
		return Top{"a length"}, true
	}
	return nil, false
}

// decimal is a number in decimal notation.
func (m *M) decimal(v Value, t types.Type) []tok {
	_, signed := intInfo(t)
	switch v := m.force(v).(type) {
	case Const:
		if signed {
			return lit(fmt.Sprint(v.V))
		}
		return lit(fmt.Sprint(uint64(v.V)))
	case *Bits:
		top := v.b[len(v.b)-1]
		if signed && !bitSame(top, bitConst(false)) {
			break
		}
		return []tok{{dec: v}}
	}
	return unknownText().t.toks
}

// textOf is how %s and %v format a value.
func (m *M) textOf(v Value, verb byte) []tok {
	i, ok := m.force(v).(Iface)
	if !ok {
		return unknownText().t.toks
	}
	if i.typ == nil {
		return lit("<nil>")
	}
	if verb != 'd' {
		if _, bad := i.v.(ErrVal); bad {
			return unknownText().t.toks
		}
		if sel := m.prog.ssa.MethodSets.MethodSet(i.typ).Lookup(nil, "String"); sel != nil {
			if fn := m.prog.ssa.MethodValue(sel); fn != nil {
				if s, ok := m.call(fn, []Value{i.v}, nil).(Str); ok {
					return s.toks()
				}
			}
			return unknownText().t.toks
		}
		if s, ok := m.force(i.v).(Str); ok {
			return s.toks()
		}
	}
	if b, ok := i.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && verb != 's' {
		return m.decimal(i.v, i.typ)
	}
	return unknownText().t.toks
}

func (m *M) variadic(v Value) ([]Value, bool) {
	s, ok := m.force(v).(Slice)
	if !ok {
		return nil, false
	}
	var r []Value
	for i := 0; i < s.ln; i++ {
		r = append(r, m.byteAt(s, i))
	}
	return r, true
}

func (m *M) sprintf(format Value, rest Value) []tok {
	f, ok := m.force(format).(Str)
	args, ok2 := m.variadic(rest)
	if !ok || !f.known || !ok2 {
		return unknownText().t.toks
	}
	var r []tok
	s, k := f.s, 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			r = append(r, tok{lit: s[i : i+1]})
			continue
		}
		i++
		if i >= len(s) {
			return unknownText().t.toks
		}
		switch c := s[i]; {
		case c == '%':
			r = append(r, tok{lit: "%"})
		case (c == 'd' || c == 's' || c == 'v') && k < len(args):
			r = append(r, m.textOf(args[k], c)...)
			k++
		default: // flags, other verbs
			j := i
			for j < len(s) && strings.IndexByte("0123456789+-# .", s[j]) >= 0 {
				j++
			}
			if j >= len(s) || strings.IndexByte("dxXobcqv", s[j]) < 0 || k >= len(args) {
				return unknownText().t.toks
			}
			r = append(r, m.formatted("%"+s[i:j+1], args[k])...)
			i, k = j, k+1
		}
	}
	if k != len(args) {
		return unknownText().t.toks
	}
	return r
}

func (m *M) fmtFn(name string, args []Value) (Value, bool) {
	if m.mode != "bits" {
		if strings.HasPrefix(name, "Sprint") {
			return Str{}, true
		}
		return nil, false
	}
	switch name {
	case "Sprintf":
		return strOf(m.sprintf(args[0], args[1])), true
	case "Sprint":
		a, ok := m.variadic(args[0])
		if !ok || len(a) != 1 {
			return unknownText(), true
		}
		return strOf(m.textOf(a[0], 'v')), true
	case "Sprintln":
		return unknownText(), true
	case "Fprintf":
		if i, ok := m.force(args[0]).(Iface); ok && i.typ != nil && i.typ.String() == "*strings.Builder" {
			if p, ok := m.force(i.v).(Ptr); ok && p.obj != nil {
				b := m.builders()
				b[p] = append(b[p], m.sprintf(args[1], args[2])...)
				return Tuple{Top{"a length"}, Iface{}}, true
			}
		}
	}
	return nil, false
}

func (m *M) strconvFn(fn *ssa.Function, name string, args []Value) (Value, bool) {
	switch name {
	case "Atoi", "ParseInt", "ParseUint":
		return m.parseNumber(fn, name, args)
	case "Itoa":
		return strOf(m.decimal(args[0], types.Typ[types.Int])), true
	case "FormatInt", "FormatUint":
		t := types.Typ[types.Int64]
		if name == "FormatUint" {
			t = types.Typ[types.Uint64]
		}
		if m.force(args[1]) == Value(Const{10}) {
			return strOf(m.decimal(args[0], t)), true
		}
		return unknownText(), true
	}
	return nil, false
}

// parseAddr is what netip.ParseAddr (without a zone) makes of a text: whether
// it's an address, in which notation (colon or dotted) and all of its bits.
func (m *M) parseAddr(toks []tok) (good, colon bool, x *Bits, known bool) {
	plain := true
	for _, t := range toks {
		plain = plain && t.ip6 == nil && t.unk == nil
	}
	if !plain {
		if len(toks) != 1 {
			return false, false, nil, false
		}
		if toks[0].ip6 != nil {
			return true, true, toks[0].ip6, true
		}
		switch u := toks[0].unk; m.classOf(u) {
		case txV4:
			return true, false, m.mappedBits(u.bits), true
		case txColon:
			return true, true, u.bits, true
		}
		return false, false, nil, true
	}
	sub := func(base int) (string, []*Bits) {
		s, ds := "", []*Bits(nil)
		for _, t := range toks {
			if t.dec != nil {
				s += fmt.Sprint(base + len(ds))
				ds = append(ds, t.dec)
			} else {
				s += t.lit
			}
		}
		return s, ds
	}
	for i, t := range toks {
		if t.dec == nil {
			continue
		}
		before, after := byte(0), byte(0)
		if i > 0 {
			p := toks[i-1]
			if p.lit == "" {
				return false, false, nil, false
			}
			before = p.lit[len(p.lit)-1]
		}
		if i+1 < len(toks) {
			n := toks[i+1]
			if n.lit == "" {
				return false, false, nil, false
			}
			after = n.lit[0]
		}
		if before != 0 && before != '.' && before != ':' || after != 0 && after != '.' || before == ':' && after != '.' {
			return false, false, nil, false
		}
		for j := 8; j < len(t.dec.b); j++ {
			if m.bitVal(t.dec.b[j]) { // too large
				return false, false, nil, true
			}
		}
	}
	s1, ds := sub(101)
	if len(ds) > 50 {
		return false, false, nil, false
	}
	s2, _ := sub(201)
	a1, e1 := netip.ParseAddr(s1)
	a2, e2 := netip.ParseAddr(s2)
	if e1 != nil || e2 != nil || a1.Zone() != "" {
		return false, false, nil, true
	}
	b1, b2 := a1.As16(), a2.As16()
	x = &Bits{}
	for i := 15; i >= 0; i-- {
		if b1[i] == b2[i] {
			x.b = append(x.b, bitsConst(Const{int64(b1[i])}, 8).b...)
			continue
		}
		k := int(b1[i]) - 101
		if k < 0 || k >= len(ds) {
			return false, false, nil, false
		}
		d := ds[k].b
		for j := 0; j < 8; j++ {
			if j < len(d) {
				x.b = append(x.b, d[j])
			} else {
				x.b = append(x.b, bitConst(false))
			}
		}
	}
	return true, !a1.Is4(), x, true
}

// mappedBits are the 16 bytes in which package net keeps an IPv4 address.
func (m *M) mappedBits(x *Bits) *Bits {
	r := &Bits{b: append([]Bit(nil), x.b...)}
	for i := 32; i < 128; i++ {
		r.b = append(r.b, bitConst(i < 48))
	}
	return r
}

// parseText is what net.ParseIP and net.ParseCIDR return.
func (m *M) parseText(name string, v Value) (Value, bool) {
	s, ok := v.(Str)
	if !ok {
		return nil, false
	}
	toks := s.toks()
	if name == "ParseIP" {
		good, _, x, known := m.parseAddr(toks)
		if !known {
			m.taint("parsing of a text")
			_, _, x, _ = m.parseAddr(unknownText().toks())
			good = x != nil
		}
		if !good {
			return Slice{}, true
		}
		return m.newBytes(x.bytes(), "net.ParseIP"), true
	}
	bad := Tuple{Slice{}, Ptr{}, m.newErr()}
	if len(toks) == 1 && toks[0].unk != nil {
		u := toks[0].unk
		switch m.classOf(u) {
		case txV4Prefix:
			return m.cidrResult(m.newBytes(m.mappedBits(u.bits).bytes(), "net.ParseCIDR"), u.length, 32)
		case txColonPrefix:
			return m.cidrResult(m.newBytes(u.bits.bytes(), "net.ParseCIDR"), u.length, 128)
		}
		return bad, true
	}
	var left, right []tok
	slash := false
	for _, t := range toks {
		switch {
		case slash:
			right = append(right, t)
		case t.unk != nil:
			m.taint("parsing of a text")
			return m.parseText(name, unknownText())
		case strings.Contains(t.lit, "/"):
			slash = true
			i := strings.IndexByte(t.lit, '/')
			left = append(left, tok{lit: t.lit[:i]})
			right = append(right, tok{lit: t.lit[i+1:]})
		default:
			left = append(left, t)
		}
	}
	if !slash {
		return bad, true
	}
	l, r := strOf(left).toks(), strOf(right)
	good, colon, x, known := m.parseAddr(l)
	if !known || !r.known {
		m.taint("parsing of a text")
		return m.parseText(name, unknownText())
	}
	if !good {
		return bad, true
	}
	probe, w := "0.0.0.0/", int64(32)
	if colon {
		probe, w = "::/", 128
	}
	_, n, err := net.ParseCIDR(probe + r.s)
	if err != nil {
		return bad, true
	}
	ones, _ := n.Mask.Size()
	return m.cidrResult(m.newBytes(x.bytes(), "net.ParseCIDR"), int64(ones), w)
}

// ipText is what net.IP.String returns.
func (m *M) ipText(v Value) []tok {
	s, ok := v.(Slice)
	if !ok || s.ln != 0 && s.ln != 4 && s.ln != 16 {
		return unknownText().t.toks
	}
	if s.ln == 0 {
		return lit("<nil>")
	}
	o := 0
	if s.ln == 16 {
		if !m.mapped(s) {
			return []tok{{ip6: m.byteBits(s)}}
		}
		o = 12
	}
	var r []tok
	for i := 0; i < 4; i++ {
		if i > 0 {
			r = append(r, tok{lit: "."})
		}
		r = append(r, m.decimal(m.byteAt(s, o+i), byteType)...)
	}
	return r
}

// netString is the text of an address, a mask or a network.
func (m *M) netString(name string, v Value) (Value, bool) {
	if m.mode != "bits" {
		return Str{}, true
	}
	v = m.force(v)
	switch name {
	case "IP.String":
		return strOf(m.ipText(v)), true
	case "IPNet.String":
		p, ok := v.(Ptr)
		if !ok || p.obj == nil {
			return unknownText(), true
		}
		st, ok := m.load(p).(Struct)
		if !ok || len(st) != 2 {
			return unknownText(), true
		}
		ip, ok1 := m.force(st[0]).(Slice)
		mask, ok2 := m.force(st[1]).(Slice)
		if !ok1 || !ok2 || ip.ln != 4 && ip.ln != 16 {
			return unknownText(), true
		}
		n := ip.ln
		if n == 16 && m.mapped(ip) {
			n = 4
		}
		switch {
		case mask.ln == n:
		case mask.ln == 16 && n == 4:
			mask.off, mask.ln = mask.off+12, 4
		default:
			return unknownText(), true
		}
		sz, ok := m.maskSize(mask)
		if !ok {
			return unknownText(), true
		}
		t := sz.(Tuple)
		if t[1] == Value(Const{0}) {
			return unknownText(), true
		}
		return strOf(append(append(m.ipText(ip), tok{lit: "/"}), m.decimal(t[0], types.Typ[types.Int])...)), true
	}
	return unknownText(), true
}

// textEqual compares texts.
func (m *M) textEqual(a, b Str) Value {
	if a.known && b.known {
		return a.s == b.s
	}
	if a.t != nil && a.t == b.t {
		return true
	}
	if a.known {
		a, b = b, a
	}
	if b.known {
		// a text that is neither an address nor a prefix isn't any of the
		// texts that are
		if t := a.toks(); len(t) == 1 && t[0].unk != nil && a.t != nil {
			_, e1 := netip.ParseAddr(b.s)
			_, _, e2 := net.ParseCIDR(b.s)
			if e1 != nil && e2 != nil {
				u := t[0].unk
				k := "=" + b.s
				if v, ok := u.has[k]; ok {
					return v
				}
				u.has[k] = m.classOf(u) == txOther && m.choose(2, "text "+k) == 1
				if u.has[k] {
					for c := 1; c < 128; c++ {
						s := string([]byte{byte(c)})
						in := strings.IndexByte(b.s, byte(c)) >= 0
						if v, ok := u.has[s]; ok && v != in {
							m.infeasible()
						}
						u.has[s] = in
					}
				}
				return u.has[k]
			}
		}
		if b.s == "" {
			for _, t := range a.toks() {
				if t.dec != nil || t.ip6 != nil || t.lit != "" {
					return false
				}
			}
		}
	}
	m.taint("a comparison of texts")
	return m.choose(2, "streq") == 0
}

// textLen is the length of an unknown text.
func (m *M) textLen(s Str) (Value, bool) {
	if s.t == nil || len(s.t.toks) != 1 || s.t.toks[0].unk == nil {
		return nil, false
	}
	u := s.t.toks[0].unk
	if u.index["len"] == nil {
		a := Aff{V: m.zone.newVar()}
		lo := int64(0)
		if m.classOf(u) != txOther {
			lo = 2
		}
		m.assumeLeq(K(lo), a)
		u.index["len"] = a
	}
	return u.index["len"], true
}

// formatted is a number in a format that isn't modelled: some numbers are told
// apart, for the others the text is unknown.
func (m *M) formatted(format string, v Value) []tok {
	i, ok := m.force(v).(Iface)
	if !ok || i.typ == nil {
		return unknownText().t.toks
	}
	b, ok := i.typ.Underlying().(*types.Basic)
	if !ok || b.Info()&types.IsInteger == 0 {
		return unknownText().t.toks
	}
	var c Const
	switch x := m.force(i.v).(type) {
	case Const:
		c = x
	case *Bits:
		some := []int64{0, 7, 42, 200}
		k := m.choose(len(some)+1, "number")
		if k == len(some) {
			return unknownText().t.toks
		}
		c = Const{some[k]}
		w := bitsConst(c, len(x.b))
		for i := range x.b {
			if m.bitVal(x.b[i]) != m.bitVal(w.b[i]) {
				m.infeasible()
			}
		}
	default:
		return unknownText().t.toks
	}
	if _, signed := intInfo(i.typ); signed {
		return lit(fmt.Sprintf(format, c.V))
	}
	return lit(fmt.Sprintf(format, uint64(c.V)))
}

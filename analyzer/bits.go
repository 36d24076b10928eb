package main

// Bits: machine words whose bits are small boolean functions of input bits,
// in canonical form (a truth table over at most four inputs).

import (
	"fmt"
	"go/token"
	"sort"
	"strings"
)

type Bit struct {
	vars []int // sorted
	tab  uint16
	top  bool
}

type Bits struct {
	b      []Bit // least significant first
	signed bool
}

func bitConst(v bool) Bit {
	if v {
		return Bit{tab: 1}
	}
	return Bit{}
}

func bitVar(id int) Bit { return Bit{vars: []int{id}, tab: 2} }

func (b Bit) isConst() (bool, bool) { return b.tab&1 == 1, len(b.vars) == 0 && !b.top }

func (b Bit) String() string {
	if b.top {
		return "?"
	}
	if len(b.vars) == 0 {
		return fmt.Sprint(b.tab & 1)
	}
	if len(b.vars) == 1 {
		if b.tab == 2 {
			return fmt.Sprintf("x%d", b.vars[0])
		}
		return fmt.Sprintf("~x%d", b.vars[0])
	}
	return fmt.Sprintf("f%x%v", b.tab, b.vars)
}

func bitOp(a, b Bit, f func(x, y bool) bool) Bit {
	// constants may absorb an unknown
	if a.top || b.top {
		if v, ok := a.isConst(); ok && f(v, false) == f(v, true) {
			return bitConst(f(v, false))
		}
		if v, ok := b.isConst(); ok && f(false, v) == f(true, v) {
			return bitConst(f(false, v))
		}
		return Bit{top: true}
	}
	set := map[int]bool{}
	for _, v := range a.vars {
		set[v] = true
	}
	for _, v := range b.vars {
		set[v] = true
	}
	var vs []int
	for v := range set {
		vs = append(vs, v)
	}
	sort.Ints(vs)
	if len(vs) > 4 {
		return Bit{top: true}
	}
	pos := map[int]int{}
	for i, v := range vs {
		pos[v] = i
	}
	at := func(x Bit, env int) bool {
		idx := 0
		for i, v := range x.vars {
			if env>>pos[v]&1 == 1 {
				idx |= 1 << i
			}
		}
		return x.tab>>idx&1 == 1
	}
	var tab uint16
	for env := 0; env < 1<<len(vs); env++ {
		if f(at(a, env), at(b, env)) {
			tab |= 1 << env
		}
	}
	// drop variables that don't matter
	r := Bit{vars: vs, tab: tab}
	for i := 0; i < len(r.vars); {
		n := len(r.vars)
		dep := false
		for env := 0; env < 1<<n; env++ {
			if r.tab>>env&1 != r.tab>>(env^(1<<i))&1 {
				dep = true
			}
		}
		if dep {
			i++
			continue
		}
		var t uint16
		k := 0
		for env := 0; env < 1<<n; env++ {
			if env>>i&1 == 0 {
				if r.tab>>env&1 == 1 {
					t |= 1 << k
				}
				k++
			}
		}
		r.vars = append(append([]int(nil), r.vars[:i]...), r.vars[i+1:]...)
		r.tab = t
	}
	return r
}

func bitAnd(a, b Bit) Bit { return bitOp(a, b, func(x, y bool) bool { return x && y }) }
func bitOr(a, b Bit) Bit  { return bitOp(a, b, func(x, y bool) bool { return x || y }) }
func bitXor(a, b Bit) Bit { return bitOp(a, b, func(x, y bool) bool { return x != y }) }
func bitNot(a Bit) Bit    { return bitXor(a, bitConst(true)) }

func bitSame(a, b Bit) bool {
	if a.top || b.top || a.tab != b.tab || len(a.vars) != len(b.vars) {
		return false
	}
	for i := range a.vars {
		if a.vars[i] != b.vars[i] {
			return false
		}
	}
	return true
}

func (x *Bits) String() string {
	var s []string
	for i := len(x.b) - 1; i >= 0; i-- {
		s = append(s, x.b[i].String())
	}
	return strings.Join(s, "")
}

func bitsConst(v Value, n int) *Bits {
	r := &Bits{b: make([]Bit, n)}
	if bb, ok := v.(*Bits); ok {
		return bb
	}
	c, ok := v.(Const)
	for i := range r.b {
		if !ok {
			r.b[i] = Bit{top: true}
			continue
		}
		k := i
		if k > 63 {
			k = 63
		}
		r.b[i] = bitConst(c.V>>uint(k)&1 == 1)
		if i > 63 {
			r.b[i] = bitConst(false)
		}
	}
	return r
}

// bitsStruct is the word of a uint128 given by its halves.
func bitsStruct(s Struct) *Bits {
	if len(s) != 2 {
		return &Bits{b: []Bit{{top: true}}}
	}
	h, l := bitsConst(s[0], 64), bitsConst(s[1], 64)
	return &Bits{b: append(append([]Bit(nil), l.b...), h.b...)}
}

func (x *Bits) not() Value {
	r := &Bits{b: make([]Bit, len(x.b)), signed: x.signed}
	for i := range r.b {
		r.b[i] = bitNot(x.b[i])
	}
	return r.simp()
}

func (x *Bits) half(i int) Value {
	if len(x.b) != 128 {
		return Top{"half"}
	}
	r := &Bits{}
	if i == 0 {
		r.b = x.b[64:]
	} else {
		r.b = x.b[:64]
	}
	return r.simp()
}

// simp returns a constant if all bits are known.
func (x *Bits) simp() Value {
	if len(x.b) > 64 {
		return x
	}
	var u uint64
	for i, b := range x.b {
		v, ok := b.isConst()
		if !ok {
			return x
		}
		if v {
			u |= 1 << uint(i)
		}
	}
	if x.signed && len(x.b) < 64 && u>>(uint(len(x.b))-1) == 1 {
		u |= ^uint64(0) << uint(len(x.b))
	}
	return Const{int64(u)}
}

func (x *Bits) binop(m *M, op token.Token, y Value) Value {
	n := len(x.b)
	r := &Bits{b: make([]Bit, n), signed: x.signed}
	if op == token.SHL || op == token.SHR {
		c, ok := y.(Const)
		if !ok {
			m.undecided("shift of bits by %s", vstr(y))
		}
		if c.V < 0 {
			// the amount is unsigned or the program panics; both are decided by
			// the caller's type, which isn't known here: treat as large
			c.V = int64(n)
		}
		for i := 0; i < n; i++ {
			j := int64(i) - c.V
			if op == token.SHR {
				j = int64(i) + c.V
			}
			if c.V <= int64(n) && j >= 0 && j < int64(n) {
				r.b[i] = x.b[j]
			} else if op == token.SHR && x.signed {
				r.b[i] = x.b[n-1]
			}
		}
		return r.simp()
	}
	z := bitsConst(y, n)
	if len(z.b) != n {
		m.undecided("bits of different size")
	}
	switch op {
	case token.AND:
		for i := range r.b {
			r.b[i] = bitAnd(x.b[i], z.b[i])
		}
	case token.OR:
		for i := range r.b {
			r.b[i] = bitOr(x.b[i], z.b[i])
		}
	case token.XOR:
		for i := range r.b {
			r.b[i] = bitXor(x.b[i], z.b[i])
		}
	case token.AND_NOT:
		for i := range r.b {
			r.b[i] = bitAnd(x.b[i], bitNot(z.b[i]))
		}
	case token.ADD, token.SUB:
		carry := bitConst(op == token.SUB)
		for i := range r.b {
			b := z.b[i]
			if op == token.SUB {
				b = bitNot(b)
			}
			s := bitXor(x.b[i], b)
			r.b[i] = bitXor(s, carry)
			carry = bitOr(bitAnd(x.b[i], b), bitAnd(carry, s))
		}
	case token.MUL:
		acc := bitsConst(Const{0}, n)
		for i := 0; i < n; i++ {
			v, ok := z.b[i].isConst()
			if !ok {
				m.undecided("multiplication of bits")
			}
			if v {
				t := bitsConst(x.binop(m, token.SHL, Const{int64(i)}), n)
				acc = bitsConst(acc.binop(m, token.ADD, t), n)
			}
		}
		return acc.simp()
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return m.bitsCmp(op, x, z)
	default:
		m.undecided("operator %s on bits", op)
	}
	return r.simp()
}

// bitsCmp compares, from the most significant bit down, splitting on the first
// bit that may differ.
func (m *M) bitsCmp(op token.Token, x, z *Bits) Value {
	c := 0
	for i := len(x.b) - 1; i >= 0 && c == 0; i-- {
		if bitSame(x.b[i], z.b[i]) || !m.bitVal(bitXor(x.b[i], z.b[i])) {
			continue
		}
		c = -1
		if m.bitVal(x.b[i]) {
			c = 1
		}
		if x.signed && i == len(x.b)-1 {
			c = -c
		}
	}
	switch op {
	case token.LSS:
		return c < 0
	case token.LEQ:
		return c <= 0
	case token.GTR:
		return c > 0
	}
	return c >= 0
}

// bitVal decides a bit, splitting on its inputs.
func (m *M) bitVal(b Bit) bool {
	if b.top {
		m.taint("an unknown bit")
		return m.choose(2, "bit?") == 1
	}
	idx := 0
	for i, v := range b.vars {
		if m.bitInput(v) {
			idx |= 1 << i
		}
	}
	return b.tab>>idx&1 == 1
}

func (m *M) bitInput(v int) bool {
	if m.bitEnv == nil {
		m.bitEnv = map[int]bool{}
	}
	if x, ok := m.bitEnv[v]; ok {
		return x
	}
	x := m.choose(2, fmt.Sprintf("x%d", v)) == 1
	m.bitEnv[v] = x
	return x
}

// equal decides equality of two words.
func (x *Bits) equal(m *M, y *Bits) Value {
	if len(x.b) != len(y.b) {
		m.undecided("bits of different size")
	}
	same := true
	for i := range x.b {
		if !bitSame(x.b[i], y.b[i]) {
			same = false
		}
		a, ok1 := x.b[i].isConst()
		b, ok2 := y.b[i].isConst()
		if ok1 && ok2 && a != b {
			return false
		}
	}
	if same {
		return true
	}
	// from the most significant bit down; stop at the first difference
	for i := len(x.b) - 1; i >= 0; i-- {
		d := bitXor(x.b[i], y.b[i])
		if m.bitVal(d) {
			return false
		}
	}
	return true
}

func (x *Bits) resize(m *M, n int, signed bool) Value {
	r := &Bits{b: make([]Bit, n), signed: signed}
	for i := range r.b {
		if i < len(x.b) {
			r.b[i] = x.b[i]
		} else if x.signed {
			r.b[i] = x.b[len(x.b)-1]
		}
	}
	return r.simp()
}

// bitsCarry is bits.Add64, bits.Sub64 and the like.
func (m *M) bitsCarry(name string, args []Value) (Value, bool) {
	n := 64
	if strings.HasSuffix(name, "32") {
		n = 32
	}
	var w [3]*Bits
	for i, a := range args {
		switch a := m.force(a).(type) {
		case Const:
			w[i] = bitsConst(a, n)
		case *Bits:
			w[i] = &Bits{b: a.b}
		default:
			return nil, false
		}
	}
	one := m.bitVal(w[2].b[0])
	op, c := token.ADD, Const{}
	if strings.HasPrefix(name, "Sub") {
		op = token.SUB
	}
	if one {
		c.V = 1
	}
	sum := bitsConst(bitsConst(w[0].binop(m, op, w[1]), n).binop(m, op, c), n)
	// the carry or borrow
	var out Value
	switch {
	case op == token.ADD && one:
		out = m.bitsCmp(token.LEQ, sum, w[0])
	case op == token.ADD:
		out = m.bitsCmp(token.LSS, sum, w[0])
	case one:
		out = m.bitsCmp(token.LEQ, w[0], w[1])
	default:
		out = m.bitsCmp(token.LSS, w[0], w[1])
	}
	carry := Const{}
	if out.(bool) {
		carry.V = 1
	}
	return Tuple{sum.simp(), carry}, true
}

// bitsBits models math/bits on Bits.
func (m *M) bitsBits(name string, args []Value) (Value, bool) {
	if base := strings.TrimSuffix(strings.TrimSuffix(name, "64"), "32"); len(args) == 3 && (base == "Add" || base == "Sub") {
		return m.bitsCarry(name, args)
	}
	x, ok := args[0].(*Bits)
	if !ok {
		return nil, false
	}
	n := len(x.b)
	switch {
	case strings.HasPrefix(name, "LeadingZeros"), strings.HasPrefix(name, "Len"):
		i := n - 1
		for i >= 0 && !m.bitVal(x.b[i]) {
			i--
		}
		if strings.HasPrefix(name, "Len") {
			return Const{int64(i + 1)}, true
		}
		return Const{int64(n - 1 - i)}, true
	case strings.HasPrefix(name, "TrailingZeros"):
		i := 0
		for i < n && !m.bitVal(x.b[i]) {
			i++
		}
		return Const{int64(i)}, true
	case strings.HasPrefix(name, "OnesCount"):
		return (&BitSum{bits: x.b}).simp(m), true
	case strings.HasPrefix(name, "ReverseBytes"):
		r := &Bits{b: make([]Bit, n)}
		for i := range r.b {
			r.b[i] = x.b[n-8*(i/8)-8+i%8]
		}
		return r.simp(), true
	}
	return nil, false
}

// BitSum is the number of bits that are set, plus a constant.
type BitSum struct {
	c    int64
	bits []Bit
}

// simp takes out the bits that are known.
func (s *BitSum) simp(m *M) Value {
	r := &BitSum{c: s.c}
	for _, b := range s.bits {
		known := true
		for _, v := range b.vars {
			if _, ok := m.bitEnv[v]; !ok {
				known = false
			}
		}
		if b.top || !known {
			r.bits = append(r.bits, b)
		} else if m.bitVal(b) {
			r.c++
		}
	}
	if len(r.bits) == 0 {
		return Const{r.c}
	}
	return r
}

func (m *M) sumBinop(op token.Token, x, y Value) (Value, bool) {
	a, ok1 := x.(*BitSum)
	b, ok2 := y.(*BitSum)
	if !ok1 && !ok2 {
		return nil, false
	}
	if op == token.ADD {
		r := &BitSum{}
		for _, v := range []Value{x, y} {
			switch v := v.(type) {
			case Const:
				r.c += v.V
			case *BitSum:
				r.c += v.c
				r.bits = append(append([]Bit(nil), r.bits...), v.bits...)
			default:
				return nil, false
			}
		}
		return r.simp(m), true
	}
	if ok1 && ok2 {
		return nil, false
	}
	if ok2 {
		flip := map[token.Token]token.Token{token.LSS: token.GTR, token.GTR: token.LSS, token.LEQ: token.GEQ, token.GEQ: token.LEQ}
		if f, ok := flip[op]; ok {
			op = f
		} else if op != token.EQL {
			return nil, false
		}
		a, y = b, x
	}
	k, ok := y.(Const)
	if !ok {
		return nil, false
	}
	// count until the outcome is clear
	lo := a.c
	for i := 0; ; i++ {
		hi := lo + int64(len(a.bits)-i)
		switch op {
		case token.EQL:
			if lo > k.V || hi < k.V {
				return false, true
			}
			if lo == hi {
				return true, true
			}
		case token.LSS, token.GEQ:
			if hi < k.V {
				return op == token.LSS, true
			}
			if lo >= k.V {
				return op == token.GEQ, true
			}
		case token.LEQ, token.GTR:
			if hi <= k.V {
				return op == token.LEQ, true
			}
			if lo > k.V {
				return op == token.GTR, true
			}
		default:
			return nil, false
		}
		if m.bitVal(a.bits[i]) {
			lo++
		}
	}
}

// newBits is an arbitrary word.
func (m *M) newBits(n int) *Bits {
	r := &Bits{b: make([]Bit, n)}
	for i := range r.b {
		m.nbit++
		r.b[i] = bitVar(m.nbit)
	}
	return r
}

// ByteSlice is a slice of bytes of unknown length.
type ByteSlice struct {
	n   Aff // length
	obj *Obj
}

func (s *ByteSlice) length(m *M) Value { return fromAff(s.n) }
func (s *ByteSlice) isNil(m *M) Value  { return false }

// newByteSlice is a slice of at least lo and at most hi bytes (hi < 0: any).
func (m *M) newByteSlice(lo, hi int64) *ByteSlice {
	n := Aff{V: m.zone.newVar()}
	m.assumeLeq(K(lo), n)
	if hi >= 0 {
		m.assumeLeq(n, K(hi))
	}
	o := m.newObj(nil, nil, "bytes")
	o.frozen, o.why = true, "an argument"
	return &ByteSlice{n, o}
}

func (m *M) byteSliceIndex(s *ByteSlice, i int) Value {
	if i < 0 || !m.lt(K(int64(i)), s.n) {
		m.outOfRange()
	}
	if i > 250 {
		m.undecided("a slice of unknown length is indexed")
	}
	a, _ := s.obj.val.(Array)
	for len(a) <= i {
		a = append(a, m.newBits(8))
	}
	s.obj.val = a
	return Ptr{s.obj, string([]byte{byte(i)})}
}

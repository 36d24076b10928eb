package main

// Arithmetic and conversions of addresses, masks and prefixes, on words of
// arbitrary bits, for each length.

import (
	"fmt"
	"go/types"
)

// bitsVal is the value of the integer type of an address.
func (m *M) bitsVal(x *Bits) Value {
	if m.W == 32 {
		return x.simp()
	}
	return Struct{(&Bits{b: x.b[64:]}).simp(), (&Bits{b: x.b[:64]}).simp()}
}

func (m *M) bitsAddr(x *Bits) Struct { return Struct{m.bitsVal(x)} }

func (m *M) bitsPrefix(x *Bits, l int64) Struct { return m.mkPrefix(m.bitsVal(x), Const{l}) }

// bitsOf are the bits of an address, a mask or an integer.
func (m *M) bitsOf(v Value, what string) *Bits {
	v = m.force(v)
	for {
		s, ok := v.(Struct)
		if !ok || len(s) != 1 {
			break
		}
		v = m.force(s[0])
	}
	switch x := v.(type) {
	case *Bits:
		return x
	case Const:
		return bitsConst(x, int(m.W))
	case Struct:
		if len(x) == 2 {
			return bitsStruct(x)
		}
	}
	m.undecided("%s is %s", what, vstr(v))
	return nil
}

func (m *M) bitsPrefixOf(v Value, what string) (*Bits, int64) {
	s, ok := m.force(v).(Struct)
	if !ok || len(s) != 2 {
		m.undecided("%s is %s", what, vstr(v))
	}
	l, ok := m.force(s[m.fam.pLen]).(Const)
	if !ok {
		m.undecided("the length of %s is %s", what, vstr(s[m.fam.pLen]))
	}
	return m.bitsOf(s[m.fam.pAddr], what), l.V
}

// sameBits checks that a word is what it should be, bit by bit.
func (m *M) sameBits(got, want *Bits, what string) {
	if len(got.b) != len(want.b) {
		m.undecided("%s has %d bits", what, len(got.b))
	}
	for i := len(want.b) - 1; i >= 0; i-- {
		m.loc.checks++
		if bitSame(got.b[i], want.b[i]) {
			continue
		}
		if m.bitVal(bitXor(got.b[i], want.b[i])) {
			m.check(false, "value", "bit %d of %s is wrong (%s instead of %s)", i, what, got.b[i], want.b[i])
		}
	}
}

func (m *M) samePrefix(v Value, addr *Bits, l int64, what string) {
	x, n := m.bitsPrefixOf(v, what)
	m.sameBits(x, addr, what)
	m.check(n == l, "value", "the length of %s is %d instead of %d", what, n, l)
}

// maskBits are l ones and then zeros.
func (m *M) maskBits(l int64) *Bits {
	x := &Bits{b: make([]Bit, m.W)}
	for i := range x.b {
		x.b[i] = bitConst(int64(i) >= m.W-l)
	}
	return x
}

// partBits are the bits of x in the first l bits (or the others) and v elsewhere.
func (m *M) partBits(x *Bits, l int64, first, v bool) *Bits {
	r := &Bits{b: make([]Bit, m.W)}
	for i := range r.b {
		if (int64(i) >= m.W-l) == first {
			r.b[i] = x.b[i]
		} else {
			r.b[i] = bitConst(v)
		}
	}
	return r
}

// anyMask is an arbitrary valid mask.
func (m *M) anyMask() (*Bits, int64) {
	l := int64(m.choose(int(m.W)+1, "length"))
	return m.maskBits(l), l
}

// shapedMask is an arbitrary word that is a mask (of length l) or isn't (l < 0):
// there is a first zero, later a last one, and in between anything.
func (m *M) shapedMask(w int64) (*Bits, int64) {
	z := int64(m.choose(int(w)+1, "first zero"))
	x := &Bits{b: make([]Bit, w)}
	set := func(pos int64, b Bit) { x.b[w-1-pos] = b }
	for i := int64(0); i < w; i++ {
		set(i, bitConst(i < z))
	}
	if w-z < 2 || m.choose(2, "contiguous") == 1 {
		return x, z
	}
	last := z + 1 + int64(m.choose(int(w-z-1), "last one"))
	for i := z + 1; i < last; i++ {
		m.nbit++
		set(i, bitVar(m.nbit))
	}
	set(last, bitConst(true))
	return x, -1
}

// word parts: the operands of constructors that take an address in parts.
func parts(x *Bits, n int) []Value {
	var r []Value
	for i := len(x.b) - n; i >= 0; i -= n {
		r = append(r, (&Bits{b: x.b[i : i+n]}).simp())
	}
	return r
}

// outcome splits a result and an error.
func (m *M) outcome(v Value) (Value, bool) {
	t, ok := v.(Tuple)
	if !ok || len(t) < 2 {
		m.undecided("the result is %s", vstr(v))
	}
	return t[0], isErr(t[len(t)-1])
}

// outBytes are the bits of a slice that is handed out.
func (m *M) outBytes(v Value, n int, what string) *Bits {
	s, ok := m.force(v).(Slice)
	if !ok {
		m.undecided("%s is %s", what, vstr(v))
	}
	m.check(s.ln == n, "value", "%s has %d bytes instead of %d", what, s.ln, n)
	m.check(s.obj != nil && !s.obj.frozen, "alias", "%s is shared memory", what)
	if s.ln != n {
		m.infeasible()
	}
	return m.byteBits(s)
}

// argBytes is a slice of bytes of the caller.
func (m *M) argBytes(x *Bits) Slice {
	s := m.newBytes(x.bytes(), "bytes")
	s.obj.frozen, s.obj.why = true, "an argument"
	return s
}

func (fam *Family) bitsObligations() []*Obligation {
	var obs []*Obligation
	W := fam.W
	add := func(name, desc string, run func(m *M)) {
		obs = append(obs, &Obligation{id: fam.name + "/bits/" + name, fam: fam, mode: "bits", desc: desc, run: run})
	}
	// an operation of a prefix
	pop := func(name, desc string, run func(m *M, x *Bits, l int64, r Value)) {
		if !fam.has("Prefix", name) {
			return
		}
		add("Prefix."+name, desc, func(m *M) {
			fn := m.need("Prefix", name, 1)
			l := int64(m.choose(int(W)+1, "length"))
			x := m.newBits(int(W))
			run(m, x, l, m.run(fn, m.bitsPrefix(x, l)))
		})
	}
	pop("Mask", "length leading ones", func(m *M, x *Bits, l int64, r Value) {
		m.sameBits(m.bitsOf(r, "the mask"), m.maskBits(l), "the mask")
	})
	pop("Network", "the bits of the network part, zeros, same length", func(m *M, x *Bits, l int64, r Value) {
		m.samePrefix(r, m.partBits(x, l, true, false), l, "the network")
	})
	pop("Broadcast", "the bits of the network part, ones, same length", func(m *M, x *Bits, l int64, r Value) {
		m.samePrefix(r, m.partBits(x, l, true, true), l, "the broadcast address")
	})
	pop("Host", "zeros, the bits of the host part, same length", func(m *M, x *Bits, l int64, r Value) {
		m.samePrefix(r, m.partBits(x, l, false, false), l, "the host part")
	})
	pop("Prefix", "the prefix itself", func(m *M, x *Bits, l int64, r Value) {
		m.samePrefix(r, x, l, "the prefix")
	})
	pop("Address", "all bits of the address", func(m *M, x *Bits, l int64, r Value) {
		m.sameBits(m.bitsOf(r, "the address"), x, "the address")
	})
	pop("Length", "the length", func(m *M, x *Bits, l int64, r Value) {
		m.check(r == Value(Const{l}), "value", "the length is %s instead of %d", vstr(r), l)
	})
	pop("Range", "from the network to the broadcast address", func(m *M, x *Bits, l int64, r Value) {
		s, ok := r.(Struct)
		if !ok || len(s) != 2 {
			m.undecided("the range is %s", vstr(r))
		}
		f := m.bitsOf(m.run(m.need("Range", "First", 1), r), "the first address")
		e := m.bitsOf(m.run(m.need("Range", "Last", 1), r), "the last address")
		m.sameBits(f, m.partBits(x, l, true, false), "the first address")
		m.sameBits(e, m.partBits(x, l, true, true), "the last address")
	})
	pop("Halves", "the two prefixes that are one bit longer", func(m *M, x *Bits, l int64, r Value) {
		t, ok := r.(Tuple)
		if !ok || len(t) != 2 {
			m.undecided("the result is %s", vstr(r))
		}
		if l == W { // documented as undefined
			for _, p := range t {
				_, n := m.bitsPrefixOf(p, "a half")
				m.check(n >= 0 && n <= W, "length", "a half has length %d", n)
			}
			return
		}
		lo := m.partBits(x, l, true, false)
		hi := &Bits{b: append([]Bit(nil), lo.b...)}
		hi.b[W-1-l] = bitConst(true)
		m.samePrefix(t[0], lo, l+1, "the lower half")
		m.samePrefix(t[1], hi, l+1, "the upper half")
	})
	pop("ToNetIPNet", "the bytes of the address and of the mask, in new memory", func(m *M, x *Bits, l int64, r Value) {
		p, ok := r.(Ptr)
		if !ok || p.obj == nil {
			m.undecided("the result is %s", vstr(r))
		}
		m.check(!p.obj.frozen, "alias", "the result is shared memory")
		s, ok := m.load(p).(Struct)
		if !ok || len(s) != 2 {
			m.undecided("the result is %s", vstr(s))
		}
		m.sameBits(m.outBytes(s[0], int(W/8), "the IP"), x, "the IP")
		m.sameBits(m.outBytes(s[1], int(W/8), "the mask"), m.maskBits(l), "the mask")
	})
	num := "Uint32"
	if W == 128 {
		num = "Uint64"
	}
	pop(num, "the bits of the address and of the mask", func(m *M, x *Bits, l int64, r Value) {
		t, ok := r.(Tuple)
		if !ok || len(t) != 2 && len(t) != 4 {
			m.undecided("the result is %s", vstr(r))
		}
		h := len(t) / 2
		m.sameBits(m.joinParts(t[:h]), x, "the address")
		m.sameBits(m.joinParts(t[h:]), m.maskBits(l), "the mask")
	})
	// addresses
	aop := func(name, desc string, run func(m *M, x *Bits, r Value)) {
		if !fam.has("Address", name) {
			return
		}
		add("Address."+name, desc, func(m *M) {
			fn := m.need("Address", name, 1)
			x := m.newBits(int(W))
			run(m, x, m.run(fn, m.bitsAddr(x)))
		})
	}
	aop("Prefix", "the prefix of this address only", func(m *M, x *Bits, r Value) {
		m.samePrefix(r, x, W, "the prefix")
	})
	aop("NumBits", "the size of an address", func(m *M, x *Bits, r Value) {
		m.check(r == Value(Const{W}), "value", "%s bits", vstr(r))
	})
	aop("ToNetIP", "the bytes, the most significant first, in new memory", func(m *M, x *Bits, r Value) {
		m.sameBits(m.outBytes(r, int(W/8), "the IP"), x, "the IP")
	})
	aop(num, "the bits as integers", func(m *M, x *Bits, r Value) {
		if t, ok := r.(Tuple); ok {
			m.sameBits(m.joinParts(t), x, "the address")
			return
		}
		m.sameBits(m.bitsOf(r, "the address"), x, "the address")
	})
	// masks
	mop := func(name, desc string, run func(m *M, x *Bits, l int64, r Value)) {
		if !fam.has("Mask", name) {
			return
		}
		add("Mask."+name, desc, func(m *M) {
			fn := m.need("Mask", name, 1)
			x, l := m.anyMask()
			run(m, x, l, m.run(fn, m.bitsAddr(x)))
		})
	}
	mop("Length", "the number of leading ones", func(m *M, x *Bits, l int64, r Value) {
		m.check(r == Value(Const{l}), "value", "the length of a mask is %s instead of %d", vstr(r), l)
	})
	mop(num, "the bits as integers", func(m *M, x *Bits, l int64, r Value) {
		if t, ok := r.(Tuple); ok {
			m.sameBits(m.joinParts(t), x, "the mask")
			return
		}
		m.sameBits(m.bitsOf(r, "the mask"), x, "the mask")
	})
	mop("ToNetIPMask", "the bytes, the most significant first, in new memory", func(m *M, x *Bits, l int64, r Value) {
		m.sameBits(m.outBytes(r, int(W/8), "the mask"), x, "the mask")
	})
	// constructors from parts
	for _, c := range []struct {
		name string
		n    int
	}{{"Bytes", 8}, {"Uint16", 16}, {"Uint32", 32}, {"Uint64", 64}} {
		c := c
		if fam.has("", "AddressFrom"+c.name) {
			add("AddressFrom"+c.name, "every bit at its place", func(m *M) {
				fn := m.need("", "AddressFrom"+c.name, int(W)/c.n)
				x := m.newBits(int(W))
				m.sameBits(m.bitsOf(m.run(fn, parts(x, c.n)...), "the address"), x, "the address")
			})
		}
		if fam.has("", "MaskFrom"+c.name) {
			add("MaskFrom"+c.name, "an error exactly if the ones aren't contiguous; every bit at its place", func(m *M) {
				fn := m.need("", "MaskFrom"+c.name, int(W)/c.n)
				x, l := m.shapedMask(W)
				r, bad := m.outcome(m.run(fn, parts(x, c.n)...))
				m.check(bad == (l < 0), "value", "a word that %s a mask is %s", map[bool]string{true: "isn't", false: "is"}[l < 0], map[bool]string{true: "rejected", false: "accepted"}[bad])
				if !bad {
					m.sameBits(m.bitsOf(r, "the mask"), x, "the mask")
				}
			})
		}
	}
	add("MaskFromLength", "an error exactly if the length is negative or more than the size of an address", func(m *M) {
		fn := m.need("", "MaskFromLength", 1)
		var n Value
		k := m.choose(int(W)+3, "length")
		l := int64(k)
		switch {
		case l == W+1:
			a := Aff{V: m.zone.newVar()}
			m.assumeLeq(K(W+1), a)
			n, l = a, -1
		case l == W+2:
			a := Aff{V: m.zone.newVar()}
			m.assumeLeq(a, K(-1))
			n, l = a, -1
		default:
			n = Const{l}
		}
		r, bad := m.outcome(m.run(fn, n))
		m.check(bad == (l < 0), "value", "a length is %s wrongly", map[bool]string{true: "rejected", false: "accepted"}[bad])
		if !bad {
			m.sameBits(m.bitsOf(r, "the mask"), m.maskBits(l), "the mask")
		}
	})
	// from slices
	size := int(W / 8)
	other := func(m *M) Value { // a slice of another size
		switch m.choose(5, "size") {
		case 0:
			return Slice{}
		case 1:
			return m.newByteSlice(0, 3)
		case 2:
			return m.newByteSlice(5, 15)
		case 3:
			return m.newByteSlice(17, -1)
		}
		return m.argBytes(m.newBits(8 * (20 - size)))
	}
	add("AddressFromSlice", "every byte at its place; an error for any other size", func(m *M) {
		fn := m.need("", "AddressFromSlice", 1)
		if m.choose(2, "good") == 0 {
			_, bad := m.outcome(m.run(fn, other(m)))
			m.check(bad, "value", "a slice of the wrong size is accepted")
			return
		}
		x := m.newBits(int(W))
		r, bad := m.outcome(m.run(fn, m.argBytes(x)))
		m.check(!bad, "value", "a slice of %d bytes is rejected", size)
		if !bad {
			m.sameBits(m.bitsOf(r, "the address"), x, "the address")
		}
	})
	add("AddressFromNetIP", "every byte at its place; an error for any other size (and for an IP of the other family)", func(m *M) {
		fn := m.need("", "AddressFromNetIP", 1)
		switch m.choose(3, "kind") {
		case 0:
			arg := other(m)
			want := true
			var x *Bits
			if s, ok := arg.(Slice); ok && W == 32 && s.ln == 16 && m.mapped(s) {
				want = false // an IPv4 address in 16 bytes
				x = &Bits{b: m.byteBits(s).b[:32]}
			}
			r, bad := m.outcome(m.run(fn, arg))
			m.check(bad == want, "value", "an IP of the wrong size or family is accepted (or one in 16 bytes rejected)")
			if x != nil && !bad {
				m.sameBits(m.bitsOf(r, "the address"), x, "the address")
			}
		case 1:
			x := m.newBits(int(W))
			r, bad := m.outcome(m.run(fn, m.argBytes(x)))
			m.check(!bad, "value", "an IP of %d bytes is rejected", size)
			if !bad {
				m.sameBits(m.bitsOf(r, "the address"), x, "the address")
			}
		case 2: // there and back
			x := m.newBits(int(W))
			ip := m.run(m.need("Address", "ToNetIP", 1), m.bitsAddr(x))
			r, bad := m.outcome(m.run(fn, ip))
			m.check(!bad, "value", "an IP that an address was converted to is rejected")
			if !bad {
				m.sameBits(m.bitsOf(r, "the address"), x, "the address")
			}
		}
	})
	add("MaskFromNetIPMask", "an error exactly if the size is wrong or the ones aren't contiguous; every bit at its place", func(m *M) {
		fn := m.need("", "MaskFromNetIPMask", 1)
		if m.choose(2, "good size") == 0 {
			_, bad := m.outcome(m.run(fn, otherMask(m, other)))
			m.check(bad, "value", "a mask of the wrong size is accepted")
			return
		}
		x, l := m.shapedMask(W)
		r, bad := m.outcome(m.run(fn, m.argBytes(x)))
		m.check(bad == (l < 0), "value", "a word that %s a mask is %s", map[bool]string{true: "isn't", false: "is"}[l < 0], map[bool]string{true: "rejected", false: "accepted"}[bad])
		if !bad {
			m.sameBits(m.bitsOf(r, "the mask"), x, "the mask")
		}
	})
	add("PrefixFromAddressMask", "the address and the length of the mask", func(m *M) {
		fn := m.need("", "PrefixFromAddressMask", 2)
		x := m.newBits(int(W))
		mk, l := m.anyMask()
		r := m.run(fn, m.bitsAddr(x), m.bitsAddr(mk))
		_, n := m.bitsPrefixOf(r, "the prefix")
		m.check(n >= 0 && n <= W, "length", "a prefix of length %d", n)
		m.samePrefix(r, x, l, "the prefix")
	})
	add("PrefixFromNetIPNet", "the address and the length of the mask; an error for any other size and if the ones aren't contiguous", func(m *M) {
		fn := m.need("", "PrefixFromNetIPNet", 1)
		nt := m.prog.netType("IPNet")
		if nt == nil {
			m.undecided("package net isn't imported")
		}
		k := m.choose(4, "kind")
		if k == 0 {
			_, bad := m.outcome(m.run(fn, Ptr{}))
			m.check(bad, "value", "a nil *net.IPNet is accepted")
			return
		}
		x := m.newBits(int(W))
		var ip, mask Value = m.argBytes(x), nil
		l := int64(-1)
		switch k {
		case 1:
			var mk *Bits
			mk, l = m.shapedMask(W)
			mask = m.argBytes(mk)
		case 2:
			mask = otherMask(m, other)
		case 3:
			mask = m.argBytes(m.maskBits(int64(m.choose(int(W)+1, "length"))))
			switch m.choose(3, "ip") {
			case 0:
				ip = Slice{}
			case 1:
				ip = m.newByteSlice(0, 3)
			case 2:
				ip = m.newByteSlice(17, -1)
			}
		}
		o := m.newObj(nt, Struct{ip, mask}, "IPNet")
		o.frozen, o.why = true, "an argument"
		r, bad := m.outcome(m.run(fn, Ptr{obj: o}))
		if !bad {
			_, n := m.bitsPrefixOf(r, "the prefix")
			m.check(n >= 0 && n <= W, "length", "a prefix of length %d", n)
		}
		m.check(bad == (l < 0), "value", "a *net.IPNet is %s wrongly", map[bool]string{true: "rejected", false: "accepted"}[bad])
		if !bad {
			m.samePrefix(r, x, l, "the prefix")
		}
	})
	add("PrefixFromString/length", "no text yields a prefix with an impossible length", func(m *M) {
		fn := m.need("", "PrefixFromString", 1)
		r, bad := m.outcome(m.run(fn, unknownText()))
		if !bad {
			_, n := m.bitsPrefixOf(r, "the prefix")
			m.check(n >= 0 && n <= W, "length", "a prefix of length %d", n)
		}
	})
	if W == 128 {
		obs = append(obs, fam.wordObligations()...)
	}
	return obs
}

// otherMask is a mask of another size: of 4 or 16 bytes, contiguous or not.
func otherMask(m *M, other func(m *M) Value) Value {
	v := other(m)
	if s, ok := v.(Slice); ok && s.obj != nil {
		x, _ := m.shapedMask(int64(8 * s.ln))
		return m.argBytes(x)
	}
	return v
}

// joinParts joins integers, the most significant first.
func (m *M) joinParts(t Tuple) *Bits {
	n := int(m.W) / len(t)
	r := &Bits{}
	for i := len(t) - 1; i >= 0; i-- {
		switch v := m.force(t[i]).(type) {
		case *Bits:
			if len(v.b) != n {
				m.undecided("%d bits", len(v.b))
			}
			r.b = append(r.b, v.b...)
		case Const:
			r.b = append(r.b, bitsConst(v, n).b...)
		default:
			m.undecided("a part is %s", vstr(v))
		}
	}
	return r
}

// wordObligations are about the 128 bit words, which the other domains model.
func (fam *Family) wordObligations() []*Obligation {
	var obs []*Obligation
	add := func(name, mode, desc string, run func(m *M)) {
		obs = append(obs, &Obligation{id: fam.name + "/uint128." + name, fam: fam, mode: mode, desc: desc, run: run})
	}
	t := fam.named("uint128")
	if t == nil {
		return nil
	}
	if s, ok := t.Underlying().(*types.Struct); !ok || s.NumFields() != 2 {
		return nil
	}
	for name, op := range map[string]func(a, b Bit) Bit{"and": bitAnd, "or": bitOr, "xor": bitXor} {
		if !fam.has("uint128", name) {
			continue
		}
		add(name, "bits", "bitwise", func(m *M) {
			fn := m.need("uint128", name, 2)
			x, y := m.newBits(128), m.newBits(128)
			w := &Bits{b: make([]Bit, 128)}
			for i := range w.b {
				w.b[i] = op(x.b[i], y.b[i])
			}
			m.sameBits(m.bitsOf(m.run(fn, m.bitsVal(x), m.bitsVal(y)), name), w, name)
		})
	}
	if fam.has("uint128", "complement") {
		add("complement", "bits", "bitwise", func(m *M) {
			fn := m.need("uint128", "complement", 1)
			x := m.newBits(128)
			m.sameBits(m.bitsOf(m.run(fn, m.bitsVal(x)), "complement"), x.not().(*Bits), "complement")
		})
	}
	for _, name := range []string{"leftShift", "rightShift"} {
		name := name
		if !fam.has("uint128", name) {
			continue
		}
		add(name, "bits", "every bit moved by the amount, for each amount from 0 to 128", func(m *M) {
			fn := m.need("uint128", name, 2)
			x := m.newBits(128)
			k := m.choose(129, "amount")
			w := &Bits{b: make([]Bit, 128)}
			for i := range w.b {
				j := i - k
				if name == "rightShift" {
					j = i + k
				}
				if j >= 0 && j < 128 {
					w.b[i] = x.b[j]
				}
			}
			m.sameBits(m.bitsOf(m.run(fn, m.bitsVal(x), Const{int64(k)}), name), w, fmt.Sprintf("%s by %d", name, k))
		})
	}
	if fam.has("uint128", "leadingZeros") {
		add("leadingZeros", "bits", "the number of zeros before the first one", func(m *M) {
			fn := m.need("uint128", "leadingZeros", 1)
			x := &Bits{b: make([]Bit, 128)}
			k := m.choose(129, "zeros")
			for i := range x.b {
				switch {
				case i > 127-k:
				case i == 127-k:
					x.b[i] = bitConst(true)
				default:
					m.nbit++
					x.b[i] = bitVar(m.nbit)
				}
			}
			r := m.run(fn, m.bitsVal(x))
			m.check(r == Value(Const{int64(k)}), "value", "%s leading zeros instead of %d", vstr(r), k)
		})
	}
	if fam.has("uint128", "onesCount") {
		add("onesCount", "bits", "the number of ones", func(m *M) {
			fn := m.need("uint128", "onesCount", 1)
			x := m.newBits(128)
			r, ok := m.run(fn, m.bitsVal(x)).(*BitSum)
			if !ok {
				m.undecided("the number isn't expressed by bits")
			}
			n := map[int]int{}
			for _, b := range r.bits {
				if b.top || len(b.vars) != 1 || b.tab != 2 {
					m.undecided("the number isn't expressed by bits of the argument")
				}
				n[b.vars[0]]++
			}
			good := r.c == 0 && len(r.bits) == 128
			for _, b := range x.b {
				good = good && n[b.vars[0]] == 1
			}
			m.check(good, "value", "the number of ones is wrong")
		})
	}
	for _, name := range []string{"addUint64", "subtractUint64"} {
		name := name
		if !fam.has("uint128", name) {
			continue
		}
		for _, one := range []bool{true, false} {
			one := one
			id, d := name, "for any number"
			if one {
				id, d = name+"/1", "for 1"
			}
			add(id, "limb", "the sum or difference modulo 2^128, "+d, func(m *M) {
				fn := m.need("uint128", name, 2)
				h, l := m.limbInput("high", 64), m.limbInput("low", 64)
				var n Value = Const{1}
				if !one {
					n = m.limbInput("n", 64)
				}
				nl, _ := m.limbOf(n, 64)
				r, ok := m.run(fn, Struct{h, l}, n).(Struct)
				if !ok || len(r) != 2 {
					m.undecided("the result is %s", vstr(r))
				}
				rh, ok1 := m.limbOf(m.force(r[0]), 64)
				rl, ok2 := m.limbOf(m.force(r[1]), 64)
				if !ok1 || !ok2 {
					m.undecided("the result is %s", vstr(r))
				}
				s := int64(1)
				if name == "subtractUint64" {
					s = -1
				}
				d := limbLin(limbLin(m.limb128(h, l), nl, s), m.limb128(rh, rl), -1)
				d = m.limbSubst(d)
				c := d.c.String()
				mod := pow2big(128).String()
				m.check(len(d.t) == 0 && (c == "0" || c == mod || c == "-"+mod), "value", "the result is off by %s", d)
				m.limbRange(rh)
				m.limbRange(rl)
			})
			if one {
				// bit by bit: 1 is added to a zero and a number of ones after it
				obs[len(obs)-1].alt = func(m *M) {
					m.mode = "bits"
					fn := m.need("uint128", name, 2)
					x, want := m.newBits(128), &Bits{b: make([]Bit, 128)}
					t, up := m.choose(129, "ones at the end"), name == "addUint64"
					for i := range x.b {
						switch {
						case i < t:
							x.b[i], want.b[i] = bitConst(up), bitConst(!up)
						case i == t:
							x.b[i], want.b[i] = bitConst(!up), bitConst(up)
						default:
							want.b[i] = x.b[i]
						}
					}
					m.sameBits(m.bitsOf(m.run(fn, m.bitsVal(x), Const{1}), "the number"), want, "the result")
				}
			}
		}
	}
	if fam.has("uint128", "compare") {
		add("compare", "limb", "-1, 0 or 1 as the numbers are", func(m *M) {
			fn := m.need("uint128", "compare", 2)
			a, b := Struct{m.limbInput("ah", 64), m.limbInput("al", 64)}, Struct{m.limbInput("bh", 64), m.limbInput("bl", 64)}
			r := m.run(fn, a, b)
			want := int64(0)
			for i := range a {
				d := limbLin(a[i].(*Limb), b[i].(*Limb), -1)
				if !m.limbNonneg(d) {
					want = -1
					break
				}
				if !m.limbNonneg(limbLin(newLimb(64), d, -1)) {
					want = 1
					break
				}
			}
			m.check(r == Value(Const{want}), "value", "compare returns %s instead of %d", vstr(r), want)
		})
		obs[len(obs)-1].alt = func(m *M) {
			m.mode = "bits"
			fn := m.need("uint128", "compare", 2)
			x, y, want := m.newBits(128), m.newBits(128), int64(0)
			k := m.choose(129, "first difference") - 1
			for i := k + 1; i < 128; i++ {
				y.b[i] = x.b[i]
			}
			if k >= 0 {
				greater := m.choose(2, "greater") == 1
				x.b[k], y.b[k] = bitConst(greater), bitConst(!greater)
				want = -1
				if greater {
					want = 1
				}
			}
			r := m.run(fn, m.bitsVal(x), m.bitsVal(y))
			m.check(r == Value(Const{want}), "value", "compare returns %s instead of %d", vstr(r), want)
		}
	}
	if fam.has("", "uint128FromBytes") {
		add("uint128FromBytes", "bits", "every byte at its place; an error for any other size", func(m *M) {
			fn := m.need("", "uint128FromBytes", 1)
			x := m.newBits(128)
			r, bad := m.outcome(m.run(fn, m.argBytes(x)))
			m.check(!bad, "value", "16 bytes are rejected")
			if !bad {
				m.sameBits(m.bitsOf(r, "the number"), x, "the number")
			}
		})
	}
	return obs
}

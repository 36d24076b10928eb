package main

// Models of package net and encoding/binary on slices of bytes.

import (
	"go/types"
	"strings"
)

var byteType = types.Typ[types.Uint8]

// newBytes is a new slice.
func (m *M) newBytes(vals []Value, label string) Slice {
	n := len(vals)
	return Slice{m.newObj(types.NewArray(byteType, int64(n)), Array(vals), label), 0, n, n}
}

func (m *M) byteAt(s Slice, i int) Value {
	return m.force(m.load(Ptr{s.obj, string([]byte{byte(s.off + i)})}))
}

// byteBits are the bits of a slice of bytes, the least significant first.
func (m *M) byteBits(s Slice) *Bits {
	r := &Bits{}
	for i := s.ln - 1; i >= 0; i-- {
		r.b = append(r.b, bitsConst(m.byteAt(s, i), 8).b...)
	}
	return r
}

// bytesOf are the bytes of a word.
func (x *Bits) bytes() []Value {
	var r []Value
	for i := len(x.b) - 8; i >= 0; i -= 8 {
		r = append(r, (&Bits{b: x.b[i : i+8]}).simp())
	}
	return r
}

func (m *M) bytesEqual(x, y Value) (Value, bool) {
	a, ok1 := x.(Slice)
	b, ok2 := y.(Slice)
	if !ok1 || !ok2 {
		return nil, false
	}
	if a.ln != b.ln {
		return false, true
	}
	for i := 0; i < a.ln; i++ {
		if !m.truth(m.equal(m.byteAt(a, i), m.byteAt(b, i), byteType)) {
			return false, true
		}
	}
	return true, true
}

func (m *M) mapped(s Slice) bool {
	for i := 0; i < 12; i++ {
		w := int64(0)
		if i >= 10 {
			w = 255
		}
		if !m.truth(m.equal(m.byteAt(s, i), Const{w}, byteType)) {
			return false
		}
	}
	return true
}

func (m *M) ipv4Bytes(b []Value) Slice {
	v := make([]Value, 0, 16)
	for i := 0; i < 10; i++ {
		v = append(v, Const{0})
	}
	v = append(v, Const{255}, Const{255})
	return m.newBytes(append(v, b...), "net.IPv4")
}

func (m *M) cidrMask(ones, bits int64) Value {
	if bits != 32 && bits != 128 || ones < 0 || ones > bits {
		return Slice{}
	}
	x := &Bits{b: make([]Bit, bits)}
	for i := range x.b {
		x.b[i] = bitConst(int64(i) >= bits-ones)
	}
	return m.newBytes(x.bytes(), "net.CIDRMask")
}

// maskSize is what net.IPMask.Size returns.
func (m *M) maskSize(v Value) (Value, bool) {
	switch s := v.(type) {
	case Slice:
		x := m.byteBits(s)
		i := len(x.b) - 1
		for i >= 0 && m.bitVal(x.b[i]) {
			i--
		}
		ones := len(x.b) - 1 - i
		for j := 0; j <= i; j++ {
			if m.bitVal(x.b[j]) {
				return Tuple{Const{0}, Const{0}}, true
			}
		}
		return Tuple{Const{int64(ones)}, Const{int64(len(x.b))}}, true
	case *ByteSlice:
		if m.choose(2, "contiguous") == 0 {
			return Tuple{Const{0}, Const{0}}, true
		}
		ones, bits := Aff{V: m.zone.newVar()}, Aff{V: m.zone.newVar()}
		m.assumeLeq(K(0), ones)
		m.assumeLeq(ones, bits)
		// eight bits for each byte, compared with the sizes that matter
		for _, n := range []int64{4, 16} {
			if m.lt(s.n, K(n)) {
				m.assumeLeq(bits, K(8*n-8))
				break
			}
			if m.leq(s.n, K(n)) {
				m.assumeLeq(bits, K(8*n))
				m.assumeLeq(K(8*n), bits)
				break
			}
			m.assumeLeq(K(8*n+8), bits)
		}
		return Tuple{fromAff(ones), fromAff(bits)}, true
	}
	return nil, false
}

func (m *M) netFn(name string, args []Value) (Value, bool) {
	switch name {
	case "IPv4":
		return m.ipv4Bytes(args), true
	case "IP.To4":
		switch s := args[0].(type) {
		case Slice:
			if s.ln == 4 {
				return s, true
			}
			if s.ln == 16 && m.mapped(s) {
				return Slice{s.obj, s.off + 12, 4, s.cap_ - 12}, true
			}
			return Slice{}, true
		case *ByteSlice:
			for _, n := range []int64{4, 16} {
				if !m.lt(s.n, K(n)) && m.leq(s.n, K(n)) {
					return nil, false
				}
			}
			return Slice{}, true
		}
	case "IP.To16":
		if s, ok := args[0].(Slice); ok {
			if s.ln == 4 {
				var b []Value
				for i := 0; i < 4; i++ {
					b = append(b, m.byteAt(s, i))
				}
				return m.ipv4Bytes(b), true
			}
			if s.ln == 16 {
				return s, true
			}
			return Slice{}, true
		}
		if s, ok := args[0].(*ByteSlice); ok {
			for _, n := range []int64{4, 16} {
				if !m.lt(s.n, K(n)) && m.leq(s.n, K(n)) {
					return nil, false
				}
			}
			return Slice{}, true
		}
	case "IP.Equal":
		return m.bytesEqual(args[0], args[1])
	case "CIDRMask":
		ones, ok1 := args[0].(Const)
		bits, ok2 := args[1].(Const)
		if ok1 && ok2 {
			return m.cidrMask(ones.V, bits.V), true
		}
	case "IPMask.Size":
		return m.maskSize(args[0])
	case "ParseIP", "ParseCIDR":
		return m.parseText(name, args[0])
	case "IP.String", "IPMask.String", "IPNet.String":
		return m.netString(name, args[0])
	}
	return nil, false
}

func (m *M) binaryFn(name string, args []Value) (Value, bool) {
	big := strings.HasPrefix(name, "bigEndian.")
	if !big && !strings.HasPrefix(name, "littleEndian.") {
		return nil, false
	}
	name = name[strings.Index(name, ".")+1:]
	n := 0
	for _, k := range []int{16, 32, 64} {
		if strings.HasSuffix(name, map[int]string{16: "16", 32: "32", 64: "64"}[k]) {
			n = k / 8
		}
	}
	if n == 0 || len(args) < 2 {
		return nil, false
	}
	s, ok := args[1].(Slice)
	if !ok {
		return nil, false
	}
	switch {
	case strings.HasPrefix(name, "Uint"):
		if s.ln < n {
			m.outOfRange()
		}
		r := &Bits{}
		for i := 0; i < n; i++ {
			k := i
			if big {
				k = n - 1 - i
			}
			r.b = append(r.b, bitsConst(m.byteAt(s, k), 8).b...)
		}
		return r.simp(), true
	case strings.HasPrefix(name, "PutUint"):
		if s.ln < n {
			m.outOfRange()
		}
		v := bitsConst(args[2], n*8)
		for i, b := range v.bytes() {
			k := i
			if !big {
				k = n - 1 - i
			}
			m.store(Ptr{s.obj, string([]byte{byte(s.off + k)})}, b)
		}
		return nil, true
	}
	return nil, false
}

// cidrResult is what net.ParseCIDR returns.
func (m *M) cidrResult(ip Slice, l, w int64) (Value, bool) {
	nt := m.prog.netType("IPNet")
	if nt == nil {
		return nil, false
	}
	mask := m.cidrMask(l, w)
	x := m.byteBits(ip)
	n := &Bits{b: append([]Bit(nil), x.b[:w]...)}
	for i := int64(0); i < w-l; i++ {
		n.b[i] = bitConst(false)
	}
	o := m.newObj(nt, Struct{m.newBytes(n.bytes(), "network"), mask}, "IPNet")
	return Tuple{ip, Ptr{obj: o}, Iface{}}, true
}

// netType is a type of package net.
func (p *Prog) netType(name string) types.Type {
	for _, f := range p.fams {
		for _, i := range f.pkg.Pkg.Imports() {
			if i.Path() == "net" {
				if o := i.Scope().Lookup(name); o != nil {
					return o.Type()
				}
			}
		}
	}
	return nil
}

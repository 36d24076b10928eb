package main

// The family independent package: each function against the one of the family
// of its input.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func (m *M) ipFn(name string, params int) *ssa.Function {
	if m.prog.ip == nil {
		m.undecided("there is no package ip")
	}
	fn := m.prog.ip.Func(name)
	if fn == nil {
		m.undecided("there is no ip.%s", name)
	}
	if len(fn.Params) != params {
		m.undecided("ip.%s has %d parameters", name, len(fn.Params))
	}
	m.top = fn
	return fn
}

// family is about addresses of this family from now on.
func (m *M) family(f *Family) {
	m.fam, m.W, m.contr = f, f.W, f.contracts
}

// foreign is a value of another type, or of the pointer to one of the types,
// or nil.
func (m *M) foreign() Value {
	if m.choose(2, "nil") == 0 {
		return Iface{}
	}
	return &AnyIface{name: "something else",
		assert: func(m *M, t types.Type) (Value, bool) {
			if _, ok := t.Underlying().(*types.Interface); ok {
				m.undecided("type assertion to an interface")
			}
			return nil, false
		},
		invoke: func(m *M, meth *types.Func, args []Value) Value {
			m.taint("a method of something else")
			res := meth.Type().(*types.Signature).Results()
			if res.Len() == 1 {
				if b, ok := res.At(0).Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
					return unknownText()
				}
			}
			return Top{meth.Name()}
		}}
}

// sameResult checks an interface value against a value of the family.
func (m *M) sameResult(got Value, want Value, typ string) {
	t := m.typ(typ)
	g, ok := m.force(got).(Iface)
	if !ok {
		m.undecided("the result is %s", vstr(got))
	}
	m.check(g.typ != nil, "value", "nil is returned")
	m.check(types.Identical(g.typ, t), "value", "the result is of type %s instead of %s", g.typ, t)
	if !types.Identical(g.typ, t) {
		return
	}
	e := m.equal(g.v, want, t)
	if _, top := e.(Top); top {
		m.undecided("the result is %s", vstr(g.v))
	}
	m.check(m.truth(e), "value", "the result differs from the one of the function of the family")
}

func (m *M) isNil(got Value, what string) {
	g, ok := m.force(got).(Iface)
	if !ok {
		m.undecided("the result is %s", vstr(got))
	}
	m.check(g.typ == nil, "value", "%s yields a result", what)
}

func (p *Prog) facadeObligations() []*Obligation {
	var obs []*Obligation
	add := func(fam *Family, mode, name, desc string, run func(m *M)) {
		obs = append(obs, &Obligation{id: fam.name + "/facade/" + name, fam: fam, mode: mode, desc: desc, run: run})
	}
	v4, v6 := p.fams["ipv4"], p.fams["ipv6"]
	if v4 == nil || v6 == nil {
		return nil
	}
	// agree runs the function of the family and the one of package ip
	agree := func(m *M, name, fn, typ string, args ...Value) {
		want, bad := m.outcome(m.run(m.need("", fn, len(args)), args...))
		got, gbad := m.outcome(m.run(m.ipFn(name, len(args)), args...))
		m.check(bad == gbad, "value", "the function of the family %s and the one of package ip %s", fails(bad), fails(gbad))
		if !bad && !gbad {
			m.sameResult(got, want, typ)
		}
	}
	mustFail := func(m *M, name, what string, args ...Value) {
		_, bad := m.outcome(m.run(m.ipFn(name, len(args)), args...))
		m.check(bad, "value", "%s is accepted", what)
	}
	for _, typ := range []string{"Address", "Prefix"} {
		typ := typ
		add(v4, "bits", typ+"FromString", "an arbitrary text: as the function of the family of its notation, or an error", func(m *M) {
			s := unknownText()
			u := s.t.toks[0].unk
			switch m.classOf(u) {
			case txOther:
				mustFail(m, typ+"FromString", "a text that is neither an address nor a prefix", s)
				return
			case txColon, txColonPrefix:
				m.family(v6)
			}
			agree(m, typ+"FromString", typ+"FromString", typ, s)
		})
	}
	other := func(m *M) Value { // a slice of a size that is no address's
		switch m.choose(4, "size") {
		case 0:
			return Slice{}
		case 1:
			return m.newByteSlice(0, 3)
		case 2:
			return m.newByteSlice(5, 15)
		}
		return m.newByteSlice(17, -1)
	}
	for _, f := range []*Family{v4, v6} {
		f := f
		W := f.W
		add(f, "bits", "AddressFromNetIP", "as the function of the family of this size", func(m *M) {
			agree(m, "AddressFromNetIP", "AddressFromNetIP", "Address", m.argBytes(m.newBits(int(W))))
		})
		add(f, "bits", "MaskFromNetIPMask", "as the function of the family of this size", func(m *M) {
			x, _ := m.shapedMask(W)
			agree(m, "MaskFromNetIPMask", "MaskFromNetIPMask", "Mask", m.argBytes(x))
		})
		add(f, "bits", "PrefixFromNetIPNet", "as the function of the family of the size of the IP, for any mask", func(m *M) {
			nt := p.netType("IPNet")
			if nt == nil {
				m.undecided("package net isn't imported")
			}
			var mask Value
			switch m.choose(3, "mask") {
			case 0:
				x, _ := m.shapedMask(32)
				mask = m.argBytes(x)
			case 1:
				x, _ := m.shapedMask(128)
				mask = m.argBytes(x)
			case 2:
				mask = other(m)
			}
			o := m.newObj(nt, Struct{m.argBytes(m.newBits(int(W))), mask}, "IPNet")
			o.frozen, o.why = true, "an argument"
			agree(m, "PrefixFromNetIPNet", "PrefixFromNetIPNet", "Prefix", Ptr{obj: o})
		})
		add(f, "bits", "PrefixFromAddress", "the prefix of the address", func(m *M) {
			x := m.bitsAddr(m.newBits(int(W)))
			m.sameResult(m.run(m.ipFn("PrefixFromAddress", 1), m.iface("Address", x)), m.run(m.need("Address", "Prefix", 1), x), "Prefix")
		})
		for _, part := range []string{"Address", "Mask", "Range"} {
			part := part
			add(f, "bits", part+"FromPrefix", "as the method of the prefix", func(m *M) {
				x := m.bitsPrefix(m.newBits(int(W)), int64(m.choose(int(W)+1, "length")))
				m.sameResult(m.run(m.ipFn(part+"FromPrefix", 1), m.iface("Prefix", x)), m.run(m.need("Prefix", part, 1), x), part)
			})
		}
		// a mask or an address of the other family, something else, nil
		strange := func(m *M, typ string, mk func(m *M) Value) Value {
			if m.choose(2, "family") == 1 {
				return m.foreign()
			}
			o := v4
			if f == v4 {
				o = v6
			}
			m.family(o)
			v := m.iface(typ, mk(m))
			m.family(f)
			return v
		}
		add(f, "bits", "PrefixFromAddressMask", "as the function of the family; an error if the mask is of another one", func(m *M) {
			x := m.bitsAddr(m.newBits(int(W)))
			if m.choose(2, "same family") == 0 {
				mask := strange(m, "Mask", func(m *M) Value { mk, _ := m.anyMask(); return m.bitsAddr(mk) })
				if m.choose(2, "which") == 0 {
					mustFail(m, "PrefixFromAddressMask", "a mask of another family", m.iface("Address", x), mask)
					return
				}
				mk, _ := m.anyMask()
				mustFail(m, "PrefixFromAddressMask", "an address of no family", m.foreign(), m.iface("Mask", m.bitsAddr(mk)))
				return
			}
			b, _ := m.anyMask()
			mk := m.bitsAddr(b)
			want := m.run(m.need("", "PrefixFromAddressMask", 2), x, mk)
			got, bad := m.outcome(m.run(m.ipFn("PrefixFromAddressMask", 2), m.iface("Address", x), m.iface("Mask", mk)))
			m.check(!bad, "value", "an address and a mask of the same family are rejected")
			if !bad {
				m.sameResult(got, want, "Prefix")
			}
		})
		add(f, "ord", "RangeFromAddresses", "as the function of the family", func(m *M) {
			a, b := m.ordAddr(m.newOrd()), m.ordAddr(m.newOrd())
			want, ok := m.run(m.need("", "RangeFromAddresses", 2), a, b).(Tuple)
			got, ok2 := m.run(m.ipFn("RangeFromAddresses", 2), m.iface("Address", a), m.iface("Address", b)).(Tuple)
			if !ok || !ok2 || len(want) != 2 || len(got) != 3 {
				m.undecided("the result is %s, %s", vstr(want), vstr(got))
			}
			m.check(!isErr(got[2]), "value", "addresses of the same family are rejected")
			empty := m.truth(want[1])
			m.check(m.truth(got[1]) == empty, "value", "empty is reported differently than by the function of the family")
			if !empty {
				m.sameResult(got[0], want[0], "Range")
			}
		})
		add(f, "bits", "RangeFromAddresses/mixed", "an error", func(m *M) {
			x := m.iface("Address", m.bitsAddr(m.newBits(int(W))))
			y := strange(m, "Address", func(m *M) Value { return m.bitsAddr(m.newBits(int(m.W))) })
			if m.choose(2, "which") == 0 {
				mustFail(m, "RangeFromAddresses", "a last address of another family", x, y)
			} else {
				mustFail(m, "RangeFromAddresses", "a first address of another family", y, x)
			}
		})
		for _, n := range []string{"First", "Last"} {
			n := n
			add(f, "ord", n+"FromRange", "as the method of the range", func(m *M) {
				a, b := m.anyRange()
				r := m.ordRange(a, b)
				m.sameResult(m.run(m.ipFn(n+"FromRange", 1), m.iface("Range", r)), m.run(m.need("Range", n, 1), r), "Address")
			})
		}
	}
	add(v4, "bits", "neither", "nil, or an error, for what is of neither family", func(m *M) {
		name := []string{"AddressFromNetIP", "MaskFromNetIPMask", "PrefixFromNetIPNet", "PrefixFromNetIPNet/nil",
			"PrefixFromAddress", "AddressFromPrefix", "MaskFromPrefix", "RangeFromPrefix", "FirstFromRange", "LastFromRange"}
		switch n := name[m.choose(len(name), "function")]; n {
		case "AddressFromNetIP":
			mustFail(m, n, "an IP of a size that is no address's", other(m))
		case "MaskFromNetIPMask":
			mustFail(m, n, "a mask of a size that is no address's", other(m))
		case "PrefixFromNetIPNet":
			nt := p.netType("IPNet")
			if nt == nil {
				m.undecided("package net isn't imported")
			}
			x, _ := m.shapedMask(int64(32 + 96*m.choose(2, "mask")))
			o := m.newObj(nt, Struct{other(m), m.argBytes(x)}, "IPNet")
			o.frozen, o.why = true, "an argument"
			mustFail(m, n, "an IP of a size that is no address's", Ptr{obj: o})
		case "PrefixFromNetIPNet/nil":
			mustFail(m, "PrefixFromNetIPNet", "nil", Ptr{})
		default:
			m.isNil(m.run(m.ipFn(n, 1), m.foreign()), "something of neither family")
		}
	})
	return obs
}

func fails(b bool) string {
	if b {
		return "fails"
	}
	return "succeeds"
}

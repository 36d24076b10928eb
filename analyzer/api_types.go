package main

// What the types of the public values are made of.

import "go/types"

func (fam *Family) typeObligations() []*Obligation {
	var obs []*Obligation
	for _, n := range []string{"Address", "Mask", "Prefix", "Range"} {
		n := n
		obs = append(obs, &Obligation{id: fam.name + "/types/" + n, fam: fam, mode: "type",
			desc: "no reference in the type; == compares all of it",
			run: func(m *M) {
				t := m.typ(n)
				m.check(types.Comparable(t), "type", "%s isn't comparable", n)
				bits := m.plainBits(t, n)
				want := map[string]int64{"Address": m.W, "Mask": m.W, "Prefix": m.W, "Range": 2 * m.W}[n]
				if n == "Prefix" {
					// an address and one integer for the length
					s, ok := t.Underlying().(*types.Struct)
					if !ok || s.NumFields() != 2 {
						m.undecided("a prefix isn't an address and a length")
					}
					lb, _ := intInfo(s.Field(m.fam.pLen).Type())
					bits -= lb
				}
				if bits != want {
					m.undecided("%s has %d bits: == may tell more than the address", n, bits)
				}
			}})
	}
	return obs
}

// plainBits is the number of bits of a type without references.
func (m *M) plainBits(t types.Type, what string) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if b, _ := intInfo(u); b > 0 {
			return b
		}
		if u.Info()&(types.IsBoolean|types.IsString) != 0 {
			m.undecided("%s contains a %s", what, u)
		}
	case *types.Struct:
		n := int64(0)
		for i := 0; i < u.NumFields(); i++ {
			n += m.plainBits(u.Field(i).Type(), what+"."+u.Field(i).Name())
		}
		return n
	case *types.Array:
		return u.Len() * m.plainBits(u.Elem(), what)
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		m.check(false, "type", "%s is a reference (%s)", what, t)
		return 0
	}
	m.undecided("%s is %s", what, t)
	return 0
}

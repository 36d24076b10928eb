package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// verifier is a contract with the obligation to show it for a function.
type verifier interface {
	Contract
	verify(fam *Family, fn *ssa.Function, name string) []*Obligation
}

type namedContract struct {
	name string
	c    verifier
}

func (f *Family) contractList() []namedContract {
	l := []namedContract{
		{"setNode.Union", setBinops[0]},
		{"setNode.Difference", setBinops[1]},
		{"setNode.Intersect", setBinops[2]},
		{"trieNode.Equal", &equalContract{}},
		{"setNode.Equal", &equalContract{}},
		{"trieNode.NumAddresses", &countContract{}},
		{"setNode.NumAddresses", &countContract{}},
		{"trieNode.IsEmpty", &emptyContract{}},
		{"setNode.IsEmpty", &emptyContract{}},
		{"setNodeFromRange", &rangeContract{}},
		{"setNode.findSmallestContainingPrefix", &findContract{}},
		{"setNode.FindSmallestContainingPrefix", &findContract{reserved: true}},
		{"trieNode.insert", &insertContract{}},
		{"trieNode.del", &deleteContract{}},
		{"trieNode.Match", &matchContract{}},
		{"trieNode.GetOrInsert", &getOrInsertContract{}},
		{"trieNode.diff", &diffContract{}},
		{"trieNode.Map", &mapContract{}},
		{"trieNode.aggregate", &aggregateContract{}},
	}
	return l
}

// bindContracts attaches the contracts to the recursive functions: the named
// one or, if that only delegates, the recursive one of the same signature that
// it delegates to.
func (f *Family) bindContracts() []*Obligation {
	f.contracts = map[*ssa.Function]Contract{}
	f.contractNames = map[*ssa.Function]string{}
	var obs []*Obligation
	list := f.contractList()
	taken := map[*ssa.Function]bool{}
	for _, nc := range list {
		if fn := f.fn(nc.name); fn != nil {
			taken[fn] = true
		}
	}
	for _, nc := range list {
		fn := f.fn(nc.name)
		if fn == nil {
			continue
		}
		if f.prog.recursive(fn) {
			f.contracts[fn] = nc.c
			f.contractNames[fn] = nc.name
			obs = append(obs, nc.c.verify(f, fn, nc.name)...)
			continue
		}
		obs = append(obs, nc.c.verify(f, fn, nc.name)...)
		for g := range f.prog.reach(fn) {
			if taken[g] || f.contracts[g] != nil || !f.prog.recursive(g) || !sameShape(fn, g) {
				continue
			}
			f.contracts[g] = nc.c
			f.contractNames[g] = nc.name
			obs = append(obs, nc.c.verify(f, g, nc.name+"("+g.Name()+")")...)
		}
	}
	return obs
}

// sameShape: the parameters (with the receiver) and results are of the same
// types.
func sameShape(a, b *ssa.Function) bool {
	if len(a.Params) != len(b.Params) || !types.Identical(a.Signature.Results(), b.Signature.Results()) {
		return false
	}
	for i := range a.Params {
		if !types.Identical(a.Params[i].Type(), b.Params[i].Type()) {
			return false
		}
	}
	return true
}

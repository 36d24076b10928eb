package main

import "golang.org/x/tools/go/ssa"

// callees of a function, by static calls and closures made in it.
func (p *Prog) callees(fn *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if g := c.Common().StaticCallee(); g != nil {
					r = append(r, origin(g))
				}
			}
			for _, op := range in.Operands(nil) {
				if *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					r = append(r, origin(g))
				}
			}
		}
	}
	return r
}

func (p *Prog) reach(fn *ssa.Function) map[*ssa.Function]bool {
	p.reachMu.Lock()
	defer p.reachMu.Unlock()
	if p.reachable == nil {
		p.reachable = map[*ssa.Function]map[*ssa.Function]bool{}
	}
	if r, ok := p.reachable[fn]; ok {
		return r
	}
	seen := map[*ssa.Function]bool{}
	work := p.callees(fn)
	for len(work) > 0 {
		g := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[g] || !p.inRepo(g) {
			continue
		}
		seen[g] = true
		work = append(work, p.callees(g)...)
	}
	p.reachable[fn] = seen
	return seen
}

func (p *Prog) recursive(fn *ssa.Function) bool { return p.reach(fn)[fn] }

func (p *Prog) sameSCC(f, g *ssa.Function) bool {
	return p.reach(f)[g] && p.reach(g)[f]
}

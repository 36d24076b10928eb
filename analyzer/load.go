package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the loaded program under analysis.
type Prog struct {
	dir        string
	ssa        *ssa.Program
	pkgs       []*packages.Package
	fset       *token.FileSet
	fams       map[string]*Family
	ip         *ssa.Package
	all        []*ssa.Function
	globInit   map[*ssa.Global][]*ssa.Store
	globStores map[*ssa.Global]int
	problems   []string
	reachMu    sync.Mutex
	reachable  map[*ssa.Function]map[*ssa.Function]bool
}

// Family is one of the two sibling packages.
type Family struct {
	name string
	W    int64
	pkg  *ssa.Package
	tp   *packages.Package

	prog *Prog
	// field indexes of the trie node
	fPrefix, fData, fSize, fH, fActive, fKids int
	pAddr, pLen                               int
	trieNode, setNode                         *types.Named
	wordUint                                  bool
	contracts                                 map[*ssa.Function]Contract
	contractNames                             map[*ssa.Function]string
}

func loadProg(dir string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadSyntax | packages.NeedModule,
		Dir:  dir,
		Env:  append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, e)
		}
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.BuilderMode(0))
	prog.Build()
	p := &Prog{dir: dir, ssa: prog, pkgs: pkgs, fset: prog.Fset, fams: map[string]*Family{},
		globInit: map[*ssa.Global][]*ssa.Store{}, globStores: map[*ssa.Global]int{}}
	for i, sp := range spkgs {
		if sp == nil {
			continue
		}
		switch pkgs[i].Name {
		case "ipv4":
			p.fams["ipv4"] = &Family{name: "ipv4", W: 32, pkg: sp, tp: pkgs[i], prog: p}
		case "ipv6":
			p.fams["ipv6"] = &Family{name: "ipv6", W: 128, pkg: sp, tp: pkgs[i], prog: p}
		case "ip":
			p.ip = sp
		}
	}
	for _, n := range []string{"ipv4", "ipv6"} {
		f := p.fams[n]
		if f == nil {
			p.problems = append(p.problems, "package "+n+" not found")
			continue
		}
		if err := f.resolve(); err != nil {
			p.problems = append(p.problems, err.Error())
			delete(p.fams, n)
		}
	}
	if p.ip == nil {
		p.problems = append(p.problems, "package ip not found")
	}
	all := ssautil.AllFunctions(prog)
	var add func(fn *ssa.Function)
	add = func(fn *ssa.Function) {
		if fn == nil {
			return
		}
		all[fn] = true
		for _, a := range fn.AnonFuncs {
			add(a)
		}
	}
	// and the ones that aren't used (in a form that isn't generic)
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		for _, mem := range sp.Members {
			switch mem := mem.(type) {
			case *ssa.Function:
				add(mem)
			case *ssa.Type:
				if t, ok := mem.Type().(*types.Named); ok {
					for i := 0; i < t.NumMethods(); i++ {
						add(prog.FuncValue(t.Method(i)))
					}
				}
			}
		}
	}
	for fn := range all {
		if fn.Blocks == nil || !p.inRepo(fn) {
			continue
		}
		p.all = append(p.all, fn)
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				st, ok := in.(*ssa.Store)
				if !ok {
					continue
				}
				g := globalRoot(st.Addr)
				if g == nil {
					continue
				}
				if fn.Name() == "init" && fn.Synthetic != "" {
					p.globInit[g] = append(p.globInit[g], st)
				} else {
					p.globStores[g]++
				}
			}
		}
	}
	sort.Slice(p.all, func(i, j int) bool { return p.all[i].String() < p.all[j].String() })
	return p, nil
}

func (p *Prog) inRepo(fn *ssa.Function) bool {
	for fn.Parent() != nil {
		fn = fn.Parent()
	}
	fn = origin(fn)
	if fn.Pkg == nil {
		return false
	}
	for _, f := range p.fams {
		if fn.Pkg == f.pkg {
			return true
		}
	}
	return fn.Pkg == p.ip
}

func (p *Prog) pos(ps token.Pos) string {
	if !ps.IsValid() {
		return "-"
	}
	q := p.fset.Position(ps)
	f := q.Filename
	if r, err := filepath.Rel(p.dir, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (p *Prog) method(t types.Type, meth *types.Func) *ssa.Function {
	sel := p.ssa.MethodSets.MethodSet(t).Lookup(meth.Pkg(), meth.Name())
	if sel == nil {
		return nil
	}
	return p.ssa.MethodValue(sel)
}

func (f *Family) named(n string) *types.Named {
	o := f.pkg.Pkg.Scope().Lookup(n)
	if o == nil {
		return nil
	}
	t, _ := o.Type().(*types.Named)
	return t
}

// fn finds "Type.Method", "*Type.Method" or "function".
func (f *Family) fn(name string) *ssa.Function {
	i := strings.Index(name, ".")
	if i < 0 {
		return f.pkg.Func(name)
	}
	tn, mn := name[:i], name[i+1:]
	t := f.named(tn)
	if t == nil {
		return nil
	}
	for k := 0; k < t.NumMethods(); k++ {
		if t.Method(k).Name() == mn {
			return f.prog.ssa.FuncValue(t.Method(k))
		}
	}
	return nil
}

func (f *Family) resolve() error {
	f.trieNode, f.setNode = f.named("trieNode"), f.named("setNode")
	pfx, addr := f.named("Prefix"), f.named("Address")
	if f.trieNode == nil || f.setNode == nil || pfx == nil || addr == nil {
		return fmt.Errorf("%s: types trieNode, setNode, Prefix, Address expected", f.name)
	}
	st, ok := f.trieNode.Underlying().(*types.Struct)
	if !ok {
		return fmt.Errorf("%s: trieNode isn't a struct", f.name)
	}
	f.fPrefix, f.fData, f.fSize, f.fH, f.fActive, f.fKids = -1, -1, -1, -1, -1, -1
	for i := 0; i < st.NumFields(); i++ {
		switch v := st.Field(i); {
		case types.Identical(v.Type(), pfx):
			f.fPrefix = i
		case isIface(v.Type()):
			f.fData = i
		case isKids(v.Type(), f.trieNode):
			f.fKids = i
		case types.Identical(v.Type(), types.Typ[types.Bool]):
			f.fActive = i
		case v.Name() == "h" || v.Name() == "height":
			f.fH = i
		case isInt(v.Type()) && (f.fSize < 0 || v.Name() == "size"):
			f.fSize = i
		}
	}
	for _, i := range []int{f.fPrefix, f.fData, f.fSize, f.fH, f.fActive, f.fKids} {
		if i < 0 {
			return fmt.Errorf("%s: a field of trieNode is missing", f.name)
		}
	}
	ps, ok := pfx.Underlying().(*types.Struct)
	if !ok {
		return fmt.Errorf("%s: Prefix isn't a struct", f.name)
	}
	f.pAddr, f.pLen = -1, -1
	for i := 0; i < ps.NumFields(); i++ {
		if types.Identical(ps.Field(i).Type(), addr) {
			f.pAddr = i
		} else if ps.Field(i).Name() == "length" {
			f.pLen = i
		}
	}
	if f.pAddr < 0 || f.pLen < 0 || ps.NumFields() != 2 {
		return fmt.Errorf("%s: Prefix isn't {address, length}", f.name)
	}
	as, ok := addr.Underlying().(*types.Struct)
	if !ok || as.NumFields() != 1 {
		return fmt.Errorf("%s: Address isn't a struct of one field", f.name)
	}
	return nil
}

func isIface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isKids(t types.Type, node types.Type) bool {
	a, ok := t.Underlying().(*types.Array)
	if !ok || a.Len() != 2 {
		return false
	}
	p, ok := a.Elem().(*types.Pointer)
	return ok && types.Identical(p.Elem(), node)
}

// globalRoot is the package variable that an address is part of.
func globalRoot(v ssa.Value) *ssa.Global {
	for {
		switch x := v.(type) {
		case *ssa.Global:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

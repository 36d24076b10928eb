package main

// Effects of operations that no result tells about: package-level state,
// goroutines, output, and anything read from outside.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// effects finds out what is reachable from the exported functions of the
// packages and what that does.
type effects struct {
	p *Prog
	// callers of functions whose callee is known
	sites map[*ssa.Function][]ssa.CallInstruction
	binds map[*ssa.Function][]*ssa.MakeClosure
	// functions of the repository by name, for calls by an interface
	byName map[string][]*ssa.Function
	locks  string
}

func (p *Prog) newEffects() *effects {
	e := &effects{p: p, sites: map[*ssa.Function][]ssa.CallInstruction{}, binds: map[*ssa.Function][]*ssa.MakeClosure{},
		byName: map[string][]*ssa.Function{}}
	for _, fn := range p.all {
		if fn.Signature.Recv() != nil {
			e.byName[fn.Name()] = append(e.byName[fn.Name()], fn)
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case ssa.CallInstruction:
					if c := in.Common().StaticCallee(); c != nil {
						c = origin(c)
						e.sites[c] = append(e.sites[c], in)
						if pkgPath(c) == "sync" {
							e.locks = p.pos(in.Pos())
						}
					}
				case *ssa.MakeClosure:
					f := in.Fn.(*ssa.Function)
					e.binds[f] = append(e.binds[f], in)
				}
			}
		}
	}
	return e
}

// reach is every function of the repository that fn may call, directly or not.
func (e *effects) reach(fn *ssa.Function) []*ssa.Function {
	seen := map[*ssa.Function]bool{}
	var r []*ssa.Function
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		f = origin(f)
		if seen[f] || f.Blocks == nil || !e.p.inRepo(f) {
			return
		}
		seen[f] = true
		r = append(r, f)
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
					for _, g := range e.byName[c.Common().Method.Name()] {
						visit(g)
					}
				}
				for _, op := range in.Operands(nil) {
					if g, ok := (*op).(*ssa.Function); ok {
						visit(g)
					}
				}
			}
		}
	}
	visit(fn)
	return r
}

// roots is where a reference comes from: package variables, or something else.
func (e *effects) roots(v ssa.Value, seen map[ssa.Value]bool) (globals map[*ssa.Global]bool, other bool) {
	globals = map[*ssa.Global]bool{}
	if seen[v] {
		return globals, false
	}
	seen[v] = true
	join := func(w ssa.Value) {
		g, o := e.roots(w, seen)
		for k := range g {
			globals[k] = true
		}
		other = other || o
	}
	switch v := v.(type) {
	case *ssa.Global:
		globals[v] = true
	case *ssa.FieldAddr:
		join(v.X)
	case *ssa.IndexAddr:
		join(v.X)
	case *ssa.Slice:
		join(v.X)
	case *ssa.Field:
		join(v.X)
	case *ssa.Index:
		join(v.X)
	case *ssa.Lookup:
		join(v.X)
	case *ssa.Extract:
		if _, ok := v.Tuple.(*ssa.Call); ok {
			return globals, true
		}
		join(v.Tuple)
	case *ssa.TypeAssert:
		join(v.X)
	case *ssa.MakeInterface:
		join(v.X)
	case *ssa.ChangeInterface:
		join(v.X)
	case *ssa.ChangeType:
		join(v.X)
	case *ssa.Convert:
		join(v.X)
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return globals, true
		}
		join(v.X)
	case *ssa.Phi:
		for _, w := range v.Edges {
			join(w)
		}
	case *ssa.Parameter:
		sites := e.sites[v.Parent()]
		if len(sites) == 0 {
			return globals, true
		}
		// functions used as values are called from elsewhere, too
		if v.Parent().Object() == nil || v.Parent().Object().Exported() {
			other = true
		}
		for i, q := range v.Parent().Params {
			if q != v {
				continue
			}
			for _, s := range sites {
				if args := s.Common().Args; i < len(args) {
					join(args[i])
				} else {
					other = true
				}
			}
		}
	case *ssa.FreeVar:
		for i, q := range v.Parent().FreeVars {
			if q == v {
				for _, b := range e.binds[v.Parent()] {
					join(b.Bindings[i])
				}
			}
		}
	case *ssa.Const:
	default:
		other = true
	}
	return globals, other
}

// unsure notes what isn't known; something that is known to be wrong goes first.
func (e *effects) unsure(m *M, format string, a ...interface{}) {
	if _, ok := m.extra["unsure"]; !ok {
		m.extra["unsure"] = fmt.Sprintf(format, a...)
	}
}

// writes reports a write to a package variable or what it refers to.
func (e *effects) writes(m *M, what ssa.Value, pos token.Pos, fn *ssa.Function) {
	g, other := e.roots(what, map[ssa.Value]bool{})
	if len(g) == 0 {
		m.check(true, "effect", "")
		return
	}
	var names []string
	for k := range g {
		names = append(names, k.Name())
	}
	sort.Strings(names)
	at := e.p.pos(pos)
	if other {
		e.unsure(m, "%s: %s may write to the package variable %s", at, fnName(fn), names[0])
		return
	}
	if e.locks != "" {
		e.unsure(m, "%s: %s writes to the package variable %s, perhaps with a lock held (%s)", at, fnName(fn), names[0], e.locks)
		return
	}
	m.check(false, "effect", "%s: %s writes to the package variable %s", at, fnName(fn), names[0])
}

// outside says what a function that isn't part of the repository does: "" for
// nothing but its results, "?" if that isn't known.
func outside(path, name string) string {
	switch path {
	case "os", "os/exec", "os/signal", "os/user", "log", "log/slog", "math/rand", "math/rand/v2", "crypto/rand", "syscall", "io/ioutil", "io/fs", "net/http", "runtime/debug", "testing", "flag", "expvar":
		return "uses package " + path
	case "time":
		switch name {
		case "Now", "Since", "Until", "Sleep", "After", "AfterFunc", "Tick", "NewTimer", "NewTicker":
			return "uses time." + name
		}
		return ""
	case "fmt":
		if strings.HasPrefix(name, "Print") {
			return "prints"
		}
		if strings.HasPrefix(name, "Scan") {
			return "reads the standard input"
		}
		if strings.HasPrefix(name, "F") {
			return "?"
		}
		return ""
	case "net":
		for _, s := range []string{"Dial", "Listen", "Lookup", "Interface", "Resolve", "FileConn", "FileListener", "FilePacketConn"} {
			if strings.HasPrefix(name, s) {
				return "uses net." + name
			}
		}
		return ""
	case "strconv", "strings", "math", "math/bits", "math/big", "math/cmplx", "bytes", "errors", "sort", "slices", "maps", "cmp", "iter", "net/netip",
		"encoding/binary", "encoding/hex", "unicode", "unicode/utf8", "sync/atomic", "unsafe", "reflect":
		return ""
	}
	return "?"
}

func (e *effects) check(m *M, fn *ssa.Function) {
	m.loc.funcs[fn] = true
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			at := func() string { return e.p.pos(in.Pos()) }
			switch in := in.(type) {
			case *ssa.Store:
				e.writes(m, in.Addr, in.Pos(), fn)
			case *ssa.MapUpdate:
				e.writes(m, in.Map, in.Pos(), fn)
			case *ssa.Send:
				e.unsure(m, "%s: %s uses a channel", at(), fnName(fn))
			case *ssa.Select:
				e.unsure(m, "%s: %s uses a channel", at(), fnName(fn))
			case *ssa.Range:
				if _, ok := in.X.Type().Underlying().(*types.Map); ok {
					e.unsure(m, "%s: %s depends on the order of a map", at(), fnName(fn))
				}
			case *ssa.UnOp:
				if in.Op == token.ARROW {
					e.unsure(m, "%s: %s uses a channel", at(), fnName(fn))
				}
			case *ssa.Go:
				m.check(false, "effect", "%s: %s starts a goroutine", at(), fnName(fn))
			case ssa.CallInstruction:
				c := in.Common()
				if bi, ok := c.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "print", "println":
						m.check(false, "effect", "%s: %s prints", at(), fnName(fn))
					case "copy", "delete", "clear":
						e.writes(m, c.Args[0], in.Pos(), fn)
					case "append":
						// a package variable with room for more is written to
						if g, _ := e.roots(c.Args[0], map[ssa.Value]bool{}); len(g) > 0 {
							if roomLeft(c.Args[0]) {
								e.writes(m, c.Args[0], in.Pos(), fn)
								continue
							}
							e.unsure(m, "%s: %s appends to a package variable", at(), fnName(fn))
						}
					}
					continue
				}
				callee := c.StaticCallee()
				if callee == nil || e.p.inRepo(callee) {
					continue
				}
				path, name := pkgPath(callee), callee.Name()
				switch o := outside(path, name); o {
				case "":
					m.check(true, "effect", "")
				case "?":
					e.unsure(m, "%s: %s calls %s", at(), fnName(fn), callee)
				default:
					m.check(false, "effect", "%s: %s %s", at(), fnName(fn), o)
				}
				if path == "sync/atomic" && strings.Contains(name, "Load") {
					continue
				}
				for _, a := range c.Args {
					if _, ok := a.Type().Underlying().(*types.Pointer); !ok && path != "sync/atomic" {
						continue
					}
					if g, _ := e.roots(a, map[ssa.Value]bool{}); len(g) > 0 {
						e.unsure(m, "%s: %s passes a package variable to %s", at(), fnName(fn), callee)
					}
				}
			}
		}
	}
}

func (p *Prog) effectObligations() []*Obligation {
	e := p.newEffects()
	var obs []*Obligation
	type root struct {
		pkg *ssa.Package
		fam *Family
	}
	var pkgs []root
	for _, n := range []string{"ipv4", "ipv6"} {
		if f := p.fams[n]; f != nil {
			pkgs = append(pkgs, root{f.pkg, f})
		}
	}
	if p.ip != nil && len(pkgs) > 0 {
		pkgs = append(pkgs, root{p.ip, pkgs[0].fam})
	}
	for _, r := range pkgs {
		for _, fn := range p.all {
			if origin(fn) != fn || fn.Pkg != r.pkg || fn.Parent() != nil || fn.Synthetic != "" || !exportedFn(fn) {
				continue
			}
			fn, fam := fn, r.fam
			name := fn.Name()
			if rv := fn.Signature.Recv(); rv != nil {
				t := rv.Type()
				if pt, ok := t.(*types.Pointer); ok {
					t = pt.Elem()
				}
				name = t.(*types.Named).Obj().Name() + "." + name
			}
			obs = append(obs, &Obligation{id: fmt.Sprintf("%s/effects/%s", r.pkg.Pkg.Name(), name), fam: fam, mode: "effect", top: fn,
				desc: "nothing that the function may call has an effect but through its arguments and results, or depends on anything else",
				run: func(m *M) {
					for _, f := range e.reach(fn) {
						e.check(m, f)
					}
					if s, ok := m.extra["unsure"].(string); ok {
						m.undecided("%s", s)
					}
				}})
		}
	}
	return obs
}

func exportedFn(fn *ssa.Function) bool {
	if !token.IsExported(fn.Name()) {
		return false
	}
	for _, s := range []string{"Print", "Debug", "Dump"} {
		if strings.HasPrefix(fn.Name(), s) {
			return false
		}
	}
	rv := fn.Signature.Recv()
	if rv == nil {
		return true
	}
	t := rv.Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, ok := t.(*types.Named)
	return ok && n.Obj().Exported()
}

// roomLeft says whether a slice is known to be a part of an array only: append
// writes to the rest of it.
func roomLeft(v ssa.Value) bool {
	s, ok := v.(*ssa.Slice)
	if !ok || s.High == nil || s.Max != nil {
		return false
	}
	p, ok := s.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	a, ok := p.Elem().Underlying().(*types.Array)
	h, isConst := s.High.(*ssa.Const)
	return ok && isConst && h.Int64() < a.Len()
}

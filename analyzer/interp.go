package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation of an analysed function.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	binds  []Value
	defers []func()
	cur    ssa.Instruction
	visits map[*ssa.BasicBlock]int
	rec    int // recursive calls on something, for the cost
}

const maxVisits = 400
const maxDepth = 120

// Contract is the specification of a function. apply is used at call sites.
type Contract interface {
	Apply(m *M, fn *ssa.Function, args []Value) Value
}

func (m *M) newObj(t types.Type, v Value, label string) *Obj {
	m.nobj++
	return &Obj{id: m.nobj, typ: t, val: v, label: label}
}

func origin(fn *ssa.Function) *ssa.Function {
	if o := fn.Origin(); o != nil {
		return o
	}
	return fn
}

// call invokes a function value.
func (m *M) callValue(f Value, args []Value) Value {
	fn, ok := f.(*Fn)
	if !ok {
		m.undecided("call of an unknown function value %s", vstr(f))
	}
	if fn == nil {
		panic(targetPanic{Str{"call of a nil function", true, nil}, m.curPos(), m.curFn(), false})
	}
	if fn.impl != nil {
		return fn.impl(m, args)
	}
	return m.call(fn.fn, args, fn.binds)
}

func (m *M) curPos() token.Pos {
	for i := len(m.stack) - 1; i >= 0; i-- {
		if m.stack[i].cur != nil && m.stack[i].cur.Pos().IsValid() {
			return m.stack[i].cur.Pos()
		}
	}
	return token.NoPos
}

func (m *M) curFn() *ssa.Function {
	if len(m.stack) == 0 {
		return m.top
	}
	return m.stack[len(m.stack)-1].fn
}

func (m *M) call(fn *ssa.Function, args []Value, binds []Value) Value {
	fn = origin(fn)
	if m.cost != nil {
		m.costNote(fn, args)
	}
	if h := m.hooks[fn]; h != nil {
		if r, ok := h(args); ok {
			return r
		}
	}
	if c := m.contr[fn]; c != nil {
		m.loc.contrs[fn] = true
		return c.Apply(m, fn, args)
	}
	if r, ok := m.external(fn, args); ok {
		return r
	}
	if fn.Blocks == nil {
		m.undecided("call of %s, which has no body", fnName(fn))
	}
	for _, f := range m.stack {
		if f.fn == fn {
			n := 0
			for _, g := range m.stack {
				if g.fn == fn {
					n++
				}
			}
			if n > 3 {
				m.undecided("recursion through %s, which has no contract", fnName(fn))
			}
			break
		}
	}
	return m.exec(fn, args, binds)
}

// exec interprets the body of fn.
func (m *M) exec(fn *ssa.Function, args []Value, binds []Value) (ret Value) {
	if len(m.stack) > maxDepth {
		m.undecided("call depth")
	}
	m.loc.funcs[fn] = true
	f := &Frame{fn: fn, env: map[ssa.Value]Value{}, binds: binds, visits: map[*ssa.BasicBlock]int{}}
	if len(args) != len(fn.Params) {
		m.undecided("%s called with %d arguments instead of %d", fnName(fn), len(args), len(fn.Params))
	}
	for i, p := range fn.Params {
		f.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.env[p] = binds[i]
	}
	m.stack = append(m.stack, f)
	depth := len(m.stack)
	defer func() {
		// target panics run the deferred calls on their way
		if r := recover(); r != nil {
			if tp, ok := r.(targetPanic); ok && len(f.defers) > 0 {
				m.stack = m.stack[:depth]
				m.runDefers(f)
				m.stack = m.stack[:depth-1]
				panic(tp)
			}
			panic(r)
		}
		m.stack = m.stack[:depth-1]
	}()
	blk := fn.Blocks[0]
	var prev *ssa.BasicBlock
	for {
		f.visits[blk]++
		if f.visits[blk] > maxVisits {
			m.undecided("a loop that the analysis doesn't bound")
		}
		if m.loopHook != nil && f.visits[blk] >= 1 {
			m.loopHook(m, f, blk, prev)
		}
		next, done, r := m.block(f, blk, prev)
		if done {
			return r
		}
		prev, blk = blk, next
	}
}

func (m *M) runDefers(f *Frame) {
	for len(f.defers) > 0 {
		d := f.defers[len(f.defers)-1]
		f.defers = f.defers[:len(f.defers)-1]
		d()
	}
}

func (m *M) block(f *Frame, b, prev *ssa.BasicBlock) (next *ssa.BasicBlock, done bool, ret Value) {
	// phis are simultaneous
	i := 0
	var phis []Value
	for ; i < len(b.Instrs); i++ {
		p, ok := b.Instrs[i].(*ssa.Phi)
		if !ok {
			break
		}
		k := -1
		for j, pr := range b.Preds {
			if pr == prev {
				k = j
			}
		}
		phis = append(phis, m.val(f, p.Edges[k]))
	}
	for j, v := range phis {
		f.env[b.Instrs[j].(*ssa.Phi)] = v
	}
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		f.cur = in
		m.steps++
		if m.steps > 2000000 {
			m.undecided("step budget")
		}
		switch in := in.(type) {
		case *ssa.Jump:
			return b.Succs[0], false, nil
		case *ssa.If:
			if m.truth(m.val(f, in.Cond)) {
				return b.Succs[0], false, nil
			}
			return b.Succs[1], false, nil
		case *ssa.Return:
			switch len(in.Results) {
			case 0:
				return nil, true, nil
			case 1:
				return nil, true, m.val(f, in.Results[0])
			}
			t := make(Tuple, len(in.Results))
			for k, r := range in.Results {
				t[k] = m.val(f, r)
			}
			return nil, true, t
		case *ssa.Panic:
			panic(targetPanic{m.val(f, in.X), in.Pos(), f.fn, true})
		case *ssa.RunDefers:
			m.runDefers(f)
		case *ssa.Defer:
			call := in.Call
			fv, args := m.callee(f, &call)
			f.defers = append(f.defers, func() { m.invoke(fv, args, &call) })
		case *ssa.Store:
			m.store(m.val(f, in.Addr), m.val(f, in.Val))
		case *ssa.DebugRef:
		case ssa.Value:
			f.env[in] = m.eval(f, in)
		default:
			m.undecided("instruction %T", in)
		}
	}
	panic("block without terminator")
}

func (m *M) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case Top:
		return m.split(2, "cond", "an unknown condition: "+v.why) == 0
	}
	m.undecided("condition %s", vstr(v))
	return false
}

func (m *M) val(f *Frame, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return m.constVal(v)
	case *ssa.Function:
		return &Fn{fn: v}
	case *ssa.Global:
		return Ptr{obj: m.global(v)}
	case *ssa.Builtin:
		return &Fn{name: v.Name()}
	}
	r, ok := f.env[v]
	if !ok {
		m.undecided("value %s used before it is computed", v.Name())
	}
	return r
}

func isWordType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Name() == "uint128"
}

func (m *M) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return constant.BoolVal(c.Value)
	case constant.String:
		return Str{constant.StringVal(c.Value), true, nil}
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			f, _ := constant.Float64Val(c.Value)
			return Float{f}
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return Const{i}
		}
		u, _ := constant.Uint64Val(c.Value)
		return Const{int64(u)}
	case constant.Float:
		f, _ := constant.Float64Val(c.Value)
		return Float{f}
	}
	m.undecided("constant %s", c)
	return nil
}

// Float is a floating point constant or 2^e for an affine e.
type Float struct{ V float64 }
type FloatOf struct{ v Value }

func (m *M) zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return Const{0}
		case u.Info()&types.IsString != 0:
			return Str{"", true, nil}
		case u.Info()&types.IsFloat != 0:
			return Float{0}
		case u.Kind() == types.UnsafePointer:
			return Ptr{}
		case u.Kind() == types.UntypedNil:
			return Ptr{}
		}
	case *types.Struct:
		if _, ok := types.Unalias(t).(*types.TypeParam); ok {
			break
		}
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(Array, u.Len())
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Pointer:
		return Ptr{}
	case *types.Signature:
		return (*Fn)(nil)
	case *types.Interface:
		if _, ok := types.Unalias(t).(*types.TypeParam); ok {
			return m.zeroT()
		}
		return Iface{}
	case *types.Slice:
		return Slice{}
	case *types.Map, *types.Chan:
		return Top{"map"}
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = m.zero(u.At(i).Type())
		}
		return r
	}
	m.undecided("zero value of %s", t)
	return nil
}

// zeroT is the zero value of a type parameter.
func (m *M) zeroT() Value { return Sym{0, "zero"} }

func (m *M) newSym(name string) Sym {
	m.nsym++
	return Sym{m.nsym, fmt.Sprintf("%s%d", name, m.nsym)}
}

// global returns the object of a package variable, with its initial value if
// it is assigned only once, in its declaration.
func (m *M) global(g *ssa.Global) *Obj {
	if o, ok := m.glob[g]; ok {
		return o
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	o := m.newObj(t, nil, g.Name())
	m.glob[g] = o
	if m.prog.globStores[g] > 0 {
		o.val = Top{"global " + g.Name()}
	} else {
		o.val = m.zero(t)
		for _, st := range m.prog.globInit[g] {
			f := &Frame{fn: st.Parent(), env: map[ssa.Value]Value{}}
			v := m.initVal(f, st.Val)
			addr := m.initVal(f, st.Addr)
			m.store(addr, v)
		}
	}
	m.publish(Ptr{obj: o}, "a package variable")
	return o
}

// publish marks all memory that a value leads to as visible to others.
func (m *M) publish(v Value, why string) {
	switch x := v.(type) {
	case Struct:
		for _, e := range x {
			m.publish(e, why)
		}
	case Array:
		for _, e := range x {
			m.publish(e, why)
		}
	case Iface:
		m.publish(x.v, why)
	case *Fn:
		if x != nil {
			for _, e := range x.binds {
				m.publish(e, why)
			}
		}
	case Ptr:
		if x.obj != nil && !x.obj.frozen {
			x.obj.frozen, x.obj.why = true, why
			m.publish(x.obj.val, why)
		}
	case Slice:
		if x.obj != nil && !x.obj.frozen {
			x.obj.frozen, x.obj.why = true, why
			m.publish(x.obj.val, why)
		}
	}
}

func (m *M) initVal(f *Frame, v ssa.Value) Value {
	if in, ok := v.(ssa.Instruction); ok {
		if r, ok := f.env[v]; ok {
			return r
		}
		// evaluate operands first
		for _, op := range in.Operands(nil) {
			if *op == nil {
				continue
			}
			if _, ok := (*op).(ssa.Instruction); ok {
				m.initVal(f, *op)
			}
		}
		r := m.eval(f, v)
		f.env[v] = r
		if a, ok := v.(*ssa.Alloc); ok {
			// replay what is stored there
			for _, b := range a.Parent().Blocks {
				for _, x := range b.Instrs {
					if st, ok := x.(*ssa.Store); ok && allocRoot(st.Addr) == a {
						m.store(m.initVal(f, st.Addr), m.initVal(f, st.Val))
					}
				}
			}
		}
		return r
	}
	return m.val(f, v)
}

func allocRoot(v ssa.Value) *ssa.Alloc {
	for {
		switch x := v.(type) {
		case *ssa.Alloc:
			return x
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		default:
			return nil
		}
	}
}

// ---- memory ----

func (m *M) nilDeref(what string) {
	panic(targetPanic{Str{"nil pointer dereference (" + what + ")", true, nil}, m.curPos(), m.curFn(), false})
}

func (m *M) walkPath(v *Value, path string) *Value {
	for i := 0; i < len(path); i++ {
		k := int(path[i])
		if l, ok := (*v).(Lazy); ok {
			*v = m.forceLazy(l)
		}
		switch x := (*v).(type) {
		case Struct:
			v = &x[k]
		case Array:
			v = &x[k]
		default:
			return nil
		}
	}
	return v
}

func (m *M) load(p Value) Value {
	ptr, ok := p.(Ptr)
	if !ok {
		m.undecided("load through %s", vstr(p))
	}
	if ptr.obj == nil {
		m.nilDeref("load")
	}
	if ptr.obj.cell != nil {
		return m.cellPlainLoad(ptr)
	}
	if w, ok := ptr.obj.val.(*Word); ok && len(ptr.path) == 1 {
		return m.halfWord(w, int(ptr.path[0]))
	}
	v := m.walkPath(&ptr.obj.val, ptr.path)
	if v == nil {
		// a field of a word-valued struct
		if q := m.walkPath(&ptr.obj.val, ptr.path[:len(ptr.path)-1]); q != nil {
			if w, ok := (*q).(*Word); ok {
				return m.halfWord(w, int(ptr.path[len(ptr.path)-1]))
			}
		}
		m.undecided("load of a part of %s", vstr(ptr.obj.val))
	}
	if l, ok := (*v).(Lazy); ok {
		r := m.forceLazy(l)
		*v = r
		return r
	}
	return clone(*v)
}

func (m *M) force(v Value) Value {
	if l, ok := v.(Lazy); ok {
		return m.forceLazy(l)
	}
	if l, ok := v.(*OrdLen); ok {
		return l.force(m)
	}
	return v
}

func (m *M) store(p Value, v Value) {
	ptr, ok := p.(Ptr)
	if !ok {
		m.undecided("store through %s", vstr(p))
	}
	if ptr.obj == nil {
		m.nilDeref("store")
	}
	if ptr.obj.cell != nil {
		m.cellPlainStore(ptr, v)
		return
	}
	if ptr.obj.frozen {
		m.fail("fresh", "writes into %s, which is %s", m.describe(ptr), ptr.obj.why)
	}
	if ptr.path == "" {
		ptr.obj.val = clone(v)
		return
	}
	q := m.walkPath(&ptr.obj.val, ptr.path)
	if q == nil {
		if pq := m.walkPath(&ptr.obj.val, ptr.path[:len(ptr.path)-1]); pq != nil {
			if w, ok := (*pq).(*Word); ok {
				s := Struct{m.halfWord(w, 0), m.halfWord(w, 1)}
				s[ptr.path[len(ptr.path)-1]] = v
				*pq = s
				return
			}
		}
		m.undecided("store to a part of %s", vstr(ptr.obj.val))
	}
	*q = clone(v)
}

func (m *M) describe(p Ptr) string {
	t := p.obj.typ
	s := p.obj.label
	for i := 0; i < len(p.path); i++ {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if int(p.path[i]) < u.NumFields() {
				fl := u.Field(int(p.path[i]))
				s += "." + fl.Name()
				t = fl.Type()
			}
		case *types.Array:
			s += fmt.Sprintf("[%d]", p.path[i])
			t = u.Elem()
		}
	}
	return s
}

func (m *M) halfWord(w *Word, i int) Value {
	if w.width != 128 {
		m.undecided("part of a word")
	}
	r := &Word{base: int64(i) * 64, width: 64}
	if i == 0 {
		for _, s := range w.segs {
			if m.leq(K(64), s.end) {
				s.end = K(64)
				r.segs = append(r.segs, s)
				break
			}
			r.segs = append(r.segs, s)
		}
		return m.norm(r)
	}
	for _, s := range w.segs {
		if m.leq(s.end, K(64)) {
			continue
		}
		r.segs = append(r.segs, s)
	}
	return m.norm(r)
}

// asWord converts an integer or uint128 value to a word.
func (m *M) asWord(v Value, width int64) *Word {
	switch v := v.(type) {
	case *Word:
		return v
	case Const:
		return m.constWord(uint64(v.V), 0, width)
	case Struct:
		if len(v) == 2 {
			h, hok := v[0].(Const)
			l, lok := v[1].(Const)
			if hok && lok {
				return constWord128(uint64(h.V), uint64(l.V))
			}
			hw, ok1 := v[0].(*Word)
			lw, ok2 := v[1].(*Word)
			if hok {
				hw, ok1 = m.constWord(uint64(h.V), 0, 64), true
			}
			if lok {
				lw, ok2 = m.constWord(uint64(l.V), 64, 64), true
			}
			if ok1 && ok2 && hw.base == 0 && lw.base == 64 && hw.width == 64 {
				r := &Word{width: 128}
				r.segs = append(append(r.segs, hw.segs...), lw.segs...)
				return m.norm(r)
			}
		}
	}
	return nil
}

// ---- expressions ----

func (m *M) eval(f *Frame, in ssa.Value) Value {
	switch in := in.(type) {
	case *ssa.Alloc:
		t := in.Type().Underlying().(*types.Pointer).Elem()
		if m.cost != nil && m.fam.isTriePtr(in.Type()) {
			m.cost.allocs++
		}
		o := m.newObj(t, m.zero(t), in.Comment)
		if o.label == "" {
			o.label = "new " + types.TypeString(t, func(*types.Package) string { return "" })
		}
		return Ptr{obj: o}
	case *ssa.BinOp:
		return m.binop(in.Op, m.val(f, in.X), m.val(f, in.Y), in.X.Type(), in.Y.Type())
	case *ssa.UnOp:
		x := m.val(f, in.X)
		switch in.Op {
		case token.MUL:
			return m.load(x)
		case token.NOT:
			if t, ok := x.(Top); ok {
				return t
			}
			return !m.truth(x)
		case token.SUB:
			switch v := x.(type) {
			case Const:
				return m.wrapConst(-v.V, in.Type())
			case Cnt:
				return Cnt{!v.neg, -v.k}
			case Aff:
				return m.nonneg(Aff{V: v.V, Neg: v.V != 0 && !v.Neg, C: -v.C}, in.Type())
			}
		case token.XOR:
			switch v := x.(type) {
			case Const:
				return m.wrapConst(^v.V, in.Type())
			case *Word:
				return m.unsignedWord(m.wNot(v), in.Type())
			case *Bits:
				return v.not()
			case Cnt:
				return Cnt{!v.neg, math.MaxUint64 - v.k}
			}
		}
		m.undecided("operator %s on %s", in.Op, vstr(x))
	case *ssa.Call:
		return m.callInstr(f, &in.Call)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		return m.val(f, *in.(ssa.Instruction).Operands(nil)[0])
	case *ssa.Convert:
		return m.convert(m.val(f, in.X), in.X.Type(), in.Type())
	case *ssa.MultiConvert:
		return m.convert(m.val(f, in.X), in.X.Type(), in.Type())
	case *ssa.Extract:
		t := m.val(f, in.Tuple)
		tt, ok := t.(Tuple)
		if !ok {
			m.undecided("extract from %s", vstr(t))
		}
		return tt[in.Index]
	case *ssa.Field:
		x := m.val(f, in.X)
		switch x := x.(type) {
		case Struct:
			return m.force(x[in.Field])
		case *Word:
			return m.halfWord(x, in.Field)
		case *Bits:
			return x.half(in.Field)
		case Ord:
			m.undecided("the representation of an address is used in a comparison domain")
		}
		m.undecided("field of %s", vstr(x))
	case *ssa.FieldAddr:
		p, ok := m.val(f, in.X).(Ptr)
		if !ok {
			m.undecided("field address of %s", vstr(m.val(f, in.X)))
		}
		if p.obj == nil {
			m.nilDeref("field " + fieldName(in.X.Type(), in.Field))
		}
		return Ptr{p.obj, p.path + string([]byte{byte(in.Field)})}
	case *ssa.Index:
		x := m.val(f, in.X)
		n := -1
		if a, ok := x.(Array); ok {
			n = len(a)
		}
		i := m.indexIn(m.val(f, in.Index), n)
		if a, ok := x.(Array); ok {
			if i < 0 || i >= len(a) {
				m.outOfRange()
			}
			return m.force(a[i])
		}
		m.undecided("index of %s", vstr(x))
	case *ssa.IndexAddr:
		x := m.val(f, in.X)
		n := -1
		switch x := x.(type) {
		case Ptr:
			n = int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		case Slice:
			n = x.ln
		}
		i := m.indexIn(m.val(f, in.Index), n)
		switch x := x.(type) {
		case Ptr:
			if x.obj == nil {
				m.nilDeref("index")
			}
			n := in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			if i < 0 || int64(i) >= n {
				m.outOfRange()
			}
			return Ptr{x.obj, x.path + string([]byte{byte(i)})}
		case Slice:
			if i < 0 || i >= x.ln {
				m.outOfRange()
			}
			return Ptr{x.obj, string([]byte{byte(i + x.off)})}
		case *ByteSlice:
			return m.byteSliceIndex(x, i)
		}
		m.undecided("index address of %s", vstr(x))
	case *ssa.MakeClosure:
		var b []Value
		for _, x := range in.Bindings {
			b = append(b, m.val(f, x))
		}
		return &Fn{fn: in.Fn.(*ssa.Function), binds: b}
	case *ssa.MakeInterface:
		v := m.val(f, in.X)
		if s, ok := v.(Sym); ok {
			return s
		}
		return Iface{in.X.Type(), v}
	case *ssa.Phi:
		m.undecided("phi")
	case *ssa.Slice:
		return m.sliceOp(f, in)
	case *ssa.MakeSlice:
		n := m.index(m.val(f, in.Len))
		c := m.index(m.val(f, in.Cap))
		et := in.Type().Underlying().(*types.Slice).Elem()
		a := make(Array, c)
		for i := range a {
			a[i] = m.zero(et)
		}
		return Slice{m.newObj(types.NewArray(et, int64(c)), a, "make"), 0, n, c}
	case *ssa.TypeAssert:
		return m.typeAssert(m.val(f, in.X), in)
	case *ssa.SliceToArrayPointer:
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if s, ok := m.val(f, in.X).(Slice); ok {
			if int64(s.ln) < n {
				m.outOfRange()
			}
			if s.obj == nil {
				return Ptr{}
			}
			if a, ok := s.obj.val.(Array); ok && s.off == 0 && int64(len(a)) == n {
				return Ptr{obj: s.obj}
			}
		}
		m.undecided("conversion of a slice to an array")
	}
	m.undecided("instruction %T (%s)", in, in)
	return nil
}

func fieldName(t types.Type, i int) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if s, ok := t.Underlying().(*types.Struct); ok && i < s.NumFields() {
		return s.Field(i).Name()
	}
	return "?"
}

func (m *M) outOfRange() {
	panic(targetPanic{Str{"index out of range", true, nil}, m.curPos(), m.curFn(), false})
}

// indexIn is an index of something with n elements, or a negative number if
// it's out of range.
func (m *M) indexIn(v Value, n int) int {
	if w, ok := v.(*Word); ok {
		if l, ok := m.wordLin(m.fixBits(w)); ok {
			v = m.linNorm(l)
		}
	}
	switch v := v.(type) {
	case Const:
		return int(v.V)
	case Aff:
		if v.V == 0 {
			return int(v.C)
		}
		for i := int64(-1); i <= 128; i++ {
			if m.entEq(v, K(i)) {
				return int(i)
			}
		}
		if n >= 0 {
			if !m.leq(K(0), v) || !m.lt(v, K(int64(n))) {
				return -1
			}
		}
		if i, ok := m.eachValue(v); ok {
			return int(i)
		}
	}
	m.undecided("index %s", vstr(v))
	return 0
}

func (m *M) index(v Value) int { return m.indexIn(v, -1) }

func (m *M) sliceOp(f *Frame, in *ssa.Slice) Value {
	x := m.val(f, in.X)
	get := func(v ssa.Value, def int) int {
		if v == nil {
			return def
		}
		return m.index(m.val(f, v))
	}
	switch x := x.(type) {
	case Ptr:
		if x.obj == nil {
			m.nilDeref("slice")
		}
		n := int(in.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		lo, hi := get(in.Low, 0), get(in.High, n)
		if x.path != "" {
			m.undecided("slice of an inner array")
		}
		return Slice{x.obj, lo, hi - lo, n - lo}
	case Slice:
		lo, hi := get(in.Low, 0), get(in.High, x.ln)
		if lo < 0 || hi < lo || hi > x.cap_ {
			m.outOfRange()
		}
		return Slice{x.obj, x.off + lo, hi - lo, x.cap_ - lo}
	case Str:
		var lo, hi Value
		if in.Low != nil {
			lo = m.force(m.val(f, in.Low))
		}
		if in.High != nil {
			hi = m.force(m.val(f, in.High))
		}
		if v, ok := m.textSlice(x, lo, hi); ok {
			return v
		}
		m.taint("a part of a text")
		return unknownText()
	case SymSlice:
		m.undecided("slice of an unknown slice")
	}
	m.undecided("slice of %s", vstr(x))
	return nil
}

func (m *M) typeAssert(x Value, in *ssa.TypeAssert) Value {
	x = m.force(x)
	_, toT := types.Unalias(in.AssertedType).(*types.TypeParam)
	res := func(v Value, ok bool) Value {
		if in.CommaOk {
			return Tuple{v, ok}
		}
		if !ok {
			panic(targetPanic{Str{"failed type assertion", true, nil}, in.Pos(), m.curFn(), false})
		}
		return v
	}
	switch v := x.(type) {
	case Sym:
		if toT {
			if v.id == 0 || !m.symMayBeNil(v) {
				return res(v, true)
			}
			// T may be an interface type and the value nil
			if in.CommaOk {
				return res(v, m.choose(2, "nilT") == 0)
			}
			if m.choose(2, "nilT") == 1 {
				m.fail("cmppanic", "a type assertion panics for a nil value when the values are of interface type")
			}
			return v
		}
		m.undecided("type assertion on a user value")
	case Iface:
		if toT {
			if v.typ == nil {
				if in.CommaOk {
					return Tuple{m.zeroT(), false}
				}
				return res(m.zeroT(), false)
			}
			m.undecided("type assertion of %s to a type parameter", v.typ)
		}
		if v.typ == nil {
			return res(m.zero(in.AssertedType), false)
		}
		if it, ok := in.AssertedType.Underlying().(*types.Interface); ok {
			if types.Implements(v.typ, it) {
				return res(v, true)
			}
			return res(Iface{}, false)
		}
		if types.Identical(v.typ, in.AssertedType) {
			return res(v.v, true)
		}
		return res(m.zero(in.AssertedType), false)
	case Top:
		if in.CommaOk {
			return Tuple{Top{"assert"}, Top{"assert ok"}}
		}
		return Top{"assert"}
	case *AnyIface:
		return m.anyAssert(v, in, res)
	}
	m.undecided("type assertion on %s", vstr(x))
	return nil
}

func (m *M) callee(f *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, m.val(f, a))
	}
	if c.IsInvoke() {
		recv := m.val(f, c.Value)
		return recv, args
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return &Fn{name: "builtin." + b.Name()}, args
	}
	if fn := c.StaticCallee(); fn != nil {
		if _, isClosure := c.Value.(*ssa.MakeClosure); !isClosure {
			return &Fn{fn: fn}, args
		}
	}
	return m.val(f, c.Value), args
}

func (m *M) callInstr(f *Frame, c *ssa.CallCommon) Value {
	fv, args := m.callee(f, c)
	m.loc.calls[c] = true
	return m.invoke(fv, args, c)
}

func (m *M) invoke(fv Value, args []Value, c *ssa.CallCommon) Value {
	if c.IsInvoke() {
		return m.invokeMethod(fv, c.Method, args, c)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return m.builtin(b, args, c)
	}
	return m.callValue(fv, args)
}

func (m *M) invokeMethod(recv Value, meth *types.Func, args []Value, c *ssa.CallCommon) Value {
	recv = m.force(recv)
	switch r := recv.(type) {
	case Iface:
		if r.typ == nil {
			panic(targetPanic{Str{"method " + meth.Name() + " called on a nil interface", true, nil}, m.curPos(), m.curFn(), false})
		}
		if ev, ok := r.v.(ErrVal); ok {
			_ = ev
			return Str{}
		}
		fn := m.prog.method(r.typ, meth)
		if fn == nil {
			m.undecided("method %s of %s", meth.Name(), r.typ)
		}
		return m.call(fn, append([]Value{r.v}, args...), nil)
	case *AnyIface:
		return r.invoke(m, meth, args)
	}
	m.undecided("method %s called on %s", meth.Name(), vstr(recv))
	return nil
}

// ErrVal is a non-nil error made by fmt.Errorf or errors.New.
type ErrVal struct{ id int }

// AnyIface is a non-nil interface value of unknown dynamic type.
type AnyIface struct {
	name   string
	invoke func(m *M, meth *types.Func, args []Value) Value
	assert func(m *M, t types.Type) (Value, bool)
}

func (m *M) anyAssert(v *AnyIface, in *ssa.TypeAssert, res func(Value, bool) Value) Value {
	if v.assert != nil {
		x, ok := v.assert(m, in.AssertedType)
		if !ok && in.CommaOk {
			return Tuple{m.zero(in.AssertedType), false}
		}
		return res(x, ok)
	}
	m.undecided("type assertion on %s", v.name)
	return nil
}

// SymSlice is a slice of unknown length.
type SymSlice struct{ name string }

func (m *M) newErr() Value {
	m.nsym++
	return Iface{types.Universe.Lookup("error").Type(), ErrVal{m.nsym}}
}

func isErr(v Value) bool { // a non-nil error
	i, ok := v.(Iface)
	return ok && i.typ != nil
}

func (m *M) builtin(b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "len", "cap":
		switch v := m.force(args[0]).(type) {
		case Slice:
			if b.Name() == "cap" {
				return Const{int64(v.cap_)}
			}
			return Const{int64(v.ln)}
		case Array:
			return Const{int64(len(v))}
		case Str:
			if v.known {
				return Const{int64(len(v.s))}
			}
			if a, ok := m.textLen(v); ok {
				return a
			}
			return Top{"len"}
		case *ByteSlice:
			return v.length(m)
		}
		m.undecided("len of %s", vstr(args[0]))
	case "append":
		s, ok := args[0].(Slice)
		t, ok2 := args[1].(Slice)
		if !ok || !ok2 {
			m.undecided("append to %s", vstr(args[0]))
		}
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		n := s.ln + t.ln
		a := make(Array, n)
		for i := 0; i < s.ln; i++ {
			a[i] = m.load(Ptr{s.obj, string([]byte{byte(s.off + i)})})
		}
		for i := 0; i < t.ln; i++ {
			a[s.ln+i] = m.load(Ptr{t.obj, string([]byte{byte(t.off + i)})})
		}
		if n == 0 {
			return s
		}
		if n <= s.cap_ && t.ln > 0 {
			// in place
			for i := 0; i < t.ln; i++ {
				m.store(Ptr{s.obj, string([]byte{byte(s.off + s.ln + i)})}, a[s.ln+i])
			}
			return Slice{s.obj, s.off, n, s.cap_}
		}
		return Slice{m.newObj(types.NewArray(et, int64(n)), a, "append"), 0, n, n}
	case "copy":
		d, ok := args[0].(Slice)
		s, ok2 := args[1].(Slice)
		if ok && ok2 {
			n := d.ln
			if s.ln < n {
				n = s.ln
			}
			var tmp []Value
			for i := 0; i < n; i++ {
				tmp = append(tmp, m.load(Ptr{s.obj, string([]byte{byte(s.off + i)})}))
			}
			for i := 0; i < n; i++ {
				m.store(Ptr{d.obj, string([]byte{byte(d.off + i)})}, tmp[i])
			}
			return Const{int64(n)}
		}
	case "min", "max":
		r := args[0]
		for i, x := range args[1:] {
			less := m.truth(m.binop(token.LSS, x, r, c.Args[i+1].Type(), c.Args[0].Type()))
			if less == (b.Name() == "min") {
				r = x
			}
		}
		return r
	case "ssa:wrapnilchk":
		if p, ok := args[0].(Ptr); ok && p.obj == nil {
			m.nilDeref("method value")
		}
		return args[0]
	case "print", "println", "recover":
		return Iface{}
	}
	m.undecided("builtin %s", b.Name())
	return nil
}

// ---- integers ----

func intInfo(t types.Type) (bits int64, signed bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 0, false
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	return 0, false
}

func (m *M) wrapConst(v int64, t types.Type) Value {
	b, s := intInfo(t)
	if b == 0 || b == 64 {
		return Const{v}
	}
	u := uint64(v) & (1<<uint(b) - 1)
	if s && u>>(uint(b)-1) == 1 {
		return Const{int64(u) - 1<<uint(b)}
	}
	return Const{int64(u)}
}

func toAff(v Value) (Aff, bool) {
	switch v := v.(type) {
	case Const:
		return K(v.V), true
	case Aff:
		return v, true
	}
	return Aff{}, false
}

func fromAff(a Aff) Value {
	if a.V == 0 {
		return Const{a.C}
	}
	return a
}

func toLin(v Value) (Lin, bool) {
	switch v := v.(type) {
	case Const:
		return Lin{C: v.V}, true
	case Lin:
		return v, true
	}
	return Lin{}, false
}

// nonneg makes sure that the result of an addition or subtraction doesn't wrap.
func (m *M) nonneg(a Aff, t types.Type) Value {
	bits, signed := intInfo(t)
	if !signed && !m.leq(K(0), a) {
		return Top{"wrapped"}
	}
	if bits > 0 && bits < 64 {
		max := int64(1)<<uint(bits) - 1
		if signed {
			max >>= 1
		}
		if !m.leq(a, K(max)) || signed && !m.leq(K(-max-1), a) {
			return Top{"wrapped"}
		}
	}
	return fromAff(a)
}

// unsignedWord makes sure that a word of a signed type isn't negative: words
// are compared and extended as unsigned.
func (m *M) unsignedWord(v Value, t types.Type) Value {
	if w, ok := v.(*Word); ok {
		if bits, signed := intInfo(t); signed && w.width >= bits && !(len(w.segs) > 0 && w.segs[0].k == sZero) {
			m.undecided("a word with a sign")
		}
	}
	return v
}

// inRange makes sure that the result of an operation on counts fits its type
// (modulo 2^64, everything is exact).
func (m *M) inRange(v Value, t types.Type) Value {
	bits, signed := intInfo(t)
	if bits == 0 || bits >= 64 {
		return v
	}
	if c, ok := v.(Const); ok {
		return m.wrapConst(c.V, t)
	}
	if signed {
		bits--
	}
	if l, ok := v.(Lin); ok && !m.linBelow(l, bits) {
		return Top{"a count that may not fit"}
	}
	return v
}

func (m *M) binop(op token.Token, x, y Value, xt, yt types.Type) Value {
	switch op {
	case token.AND, token.OR, token.XOR, token.AND_NOT, token.SHL, token.SHR, token.ADD, token.SUB:
		return m.unsignedWord(m.binop1(op, x, y, xt, yt), xt)
	}
	return m.binop1(op, x, y, xt, yt)
}

func (m *M) binop1(op token.Token, x, y Value, xt, yt types.Type) Value {
	x, y = m.force(x), m.force(y)
	switch op {
	case token.EQL:
		return m.equal(x, y, xt)
	case token.NEQ:
		e := m.equal(x, y, xt)
		if t, ok := e.(Top); ok {
			return t
		}
		return !e.(bool)
	}
	if v, ok := m.innerLen(op, x, y); ok {
		return v
	}
	if a, ok := x.(Str); ok {
		if b, ok := y.(Str); ok && op == token.ADD {
			return strOf(append(append([]tok(nil), a.toks()...), b.toks()...))
		}
		return Top{"strings"}
	}
	if v, ok := m.cntBinop(op, x, y); ok {
		return v
	}
	bw, bsigned := intInfo(xt)
	if op == token.SHL || op == token.SHR {
		if c, ok := y.(Const); ok && c.V < 0 {
			if _, signed := intInfo(yt); signed {
				panic(targetPanic{Str{"negative shift amount", true, nil}, m.curPos(), m.curFn(), false})
			}
			y = Const{math.MaxInt64}
		}
	}
	for _, v := range []Value{x, y} {
		if s, ok := v.(*BitSum); ok && !bsigned && s.c < 0 {
			m.undecided("a number of bits less something")
		}
	}
	if v, ok := m.sumBinop(op, x, y); ok {
		if s, ok := v.(*BitSum); ok && (!bsigned && s.c < 0 || bw < 64 && s.c+int64(len(s.bits)) > 127) {
			m.undecided("a number of bits that may not fit")
		}
		return v
	}
	if bx, ok := x.(*Bits); ok {
		return (&Bits{b: bx.b, signed: bsigned}).binop(m, op, y)
	}
	if by, ok := y.(*Bits); ok {
		if op == token.SHL || op == token.SHR {
			m.undecided("shift by %s", vstr(y))
		}
		return (&Bits{b: bitsConst(x, len(by.b)).b, signed: bsigned}).binop(m, op, y)
	}
	if _, ok := x.(Top); ok {
		return Top{"arith"}
	}
	if _, ok := y.(Top); ok {
		return Top{"arith"}
	}
	if v, ok := m.ordBinop(op, x, y, bsigned); ok {
		return v
	}
	if v, ok := m.limbBinop(op, x, y, bw, bsigned); ok {
		return v
	}
	cx, okx := x.(Const)
	cy, oky := y.(Const)
	if okx && oky {
		return m.constOp(op, cx.V, cy.V, xt)
	}
	// shifts
	if op == token.SHL || op == token.SHR {
		bits, _ := intInfo(xt)
		s, ok := toAff(y)
		if !ok {
			m.undecided("shift by %s", vstr(y))
		}
		if _, signed := intInfo(yt); signed && !m.leq(K(0), s) {
			panic(targetPanic{Str{"negative shift amount", true, nil}, m.curPos(), m.curFn(), false})
		}
		w := m.asWord(x, bits)
		if w == nil {
			m.undecided("shift of %s", vstr(x))
		}
		return m.wShift(w, s, op == token.SHR)
	}
	wx, wokx := x.(*Word)
	wy, woky := y.(*Word)
	if _, isLin := y.(Lin); wokx && isLin {
		if l, ok := m.wordLin(wx); ok {
			return m.binop(op, m.linNorm(l), y, xt, yt)
		}
	}
	if _, isLin := x.(Lin); woky && isLin {
		if l, ok := m.wordLin(wy); ok {
			return m.binop(op, x, m.linNorm(l), xt, yt)
		}
	}
	if wokx || woky {
		if op == token.REM || op == token.QUO || op == token.MUL {
			// numbers
			if wokx {
				if l, ok := m.wordLin(m.fixBits(wx)); ok {
					return m.binop(op, m.linNorm(l), y, xt, yt)
				}
			} else if l, ok := m.wordLin(m.fixBits(wy)); ok {
				return m.binop(op, x, m.linNorm(l), xt, yt)
			}
		}
		if !wokx {
			wx = m.asWordAt(x, wy)
		}
		if !woky {
			if c, ok := y.(Const); ok && (op == token.ADD && c.V == 0 || op == token.SUB && c.V == 0) {
				return wx
			}
			wy = m.asWordAt(y, wx)
		}
		if wx == nil || wy == nil {
			m.undecided("%s %s %s", vstr(x), op, vstr(y))
		}
		switch op {
		case token.AND:
			return m.wAnd(wx, wy)
		case token.OR:
			return m.wOr(wx, wy)
		case token.XOR:
			return m.wXor(wx, wy)
		case token.AND_NOT:
			return m.wAndNot(wx, wy)
		case token.LSS:
			return m.wCmp(wx, wy) < 0
		case token.LEQ:
			return m.wCmp(wx, wy) <= 0
		case token.GTR:
			return m.wCmp(wx, wy) > 0
		case token.GEQ:
			return m.wCmp(wx, wy) >= 0
		}
		if op == token.ADD || op == token.SUB {
			if c, ok := y.(Const); ok && (c.V == 1 && op == token.SUB || c.V == -1 && op == token.ADD) {
				return m.wAddConst(wx, -1)
			}
			f := m.wAdd
			if op == token.SUB {
				f = m.wSub
			}
			if r, ok := f(wx, wy); ok {
				return r
			}
		}
		// small numbers
		if lx, ok := m.wordLin(m.fixBits(wx)); ok {
			if ly, ok := m.wordLin(m.fixBits(wy)); ok {
				return m.binop(op, m.linNorm(lx), m.linNorm(ly), xt, yt)
			}
		}
		m.undecided("%s of words", op)
	}
	// linear quantities
	_, lx := x.(Lin)
	_, ly := y.(Lin)
	if lx || ly {
		a, ok1 := toLin(x)
		b, ok2 := toLin(y)
		if ok1 && ok2 {
			switch op {
			case token.ADD:
				return m.inRange(m.linNorm(linAdd(a, b, 1)), xt)
			case token.SUB:
				return m.inRange(m.linNorm(linAdd(a, b, -1)), xt)
			case token.MUL:
				if okx {
					return m.inRange(m.linNorm(linAdd(Lin{}, b, cx.V)), xt)
				}
				if oky {
					return m.inRange(m.linNorm(linAdd(Lin{}, a, cy.V)), xt)
				}
			case token.LSS, token.LEQ, token.GTR, token.GEQ:
				if !bsigned && (m.linLeast(a, 0) != true || m.linLeast(b, 0) != true) {
					m.undecided("comparison of a count that may have wrapped")
				}
				return m.linCmp(op, a, b)
			}
		}
		m.undecided("%s %s %s", vstr(x), op, vstr(y))
	}
	// lengths
	a, ok1 := toAff(x)
	b, ok2 := toAff(y)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			if r, ok := affSum(a, b, 1); ok {
				return m.nonneg(r, xt)
			}
		case token.SUB:
			if r, ok := affSum(a, b, -1); ok {
				return m.nonneg(r, xt)
			}
			return m.affDiff(a, b, xt)
		case token.LSS:
			return m.lt(a, b)
		case token.LEQ:
			return m.leq(a, b)
		case token.GTR:
			return m.lt(b, a)
		case token.GEQ:
			return m.leq(b, a)
		}
	}
	if h, ok := m.floatOp(op, x, y); ok {
		if f, ok := h.(Float); ok && isFloat32(xt) {
			return Float{float64(float32(f.V))}
		}
		return h
	}
	if ok1 && ok2 {
		// one case for each length
		if c, ok := m.eachValue(a); ok {
			if d, ok := m.eachValue(b); ok {
				return m.constOp(op, c, d, xt)
			}
		}
	}
	m.undecided("%s %s %s", vstr(x), op, vstr(y))
	return nil
}

// eachValue splits on the value of a length.
func (m *M) eachValue(a Aff) (int64, bool) {
	if a.V == 0 {
		return a.C, true
	}
	hi, lo := m.zone.d[a.V][0], -m.zone.d[0][a.V]
	if hi-lo > 129 || hi < lo {
		return 0, false
	}
	v := lo
	if hi > lo {
		v += int64(m.choose(int(hi-lo)+1, "value"))
	}
	m.assumeLeq(K(v), Aff{V: a.V})
	m.assumeLeq(Aff{V: a.V}, K(v))
	if a.Neg {
		v = -v
	}
	return v + a.C, true
}

// affDiff is the difference of two lengths, as a new variable (its relation to
// both is kept where it can be expressed) remembered under its definition.
func (m *M) affDiff(a, b Aff, t types.Type) Value {
	if !m.leq(b, a) {
		if _, signed := intInfo(t); !signed {
			return Top{"wrapped"}
		}
		v := Aff{V: m.zone.newVar()}
		m.assumeLeq(v, K(-1))
		m.diffs = append(m.diffs, diffDef{v.V, a, b})
		return v
	}
	v := Aff{V: m.zone.newVar()}
	m.assumeLeq(K(0), v)
	if m.leq(K(0), b) {
		m.assumeLeq(v, a)
	}
	m.diffs = append(m.diffs, diffDef{v.V, a, b})
	return v
}

type diffDef struct {
	v    int
	a, b Aff
}

// asWordAt converts an integer to a word at the position of w.
func (m *M) asWordAt(v Value, w *Word) *Word {
	r := m.asWord(v, w.width)
	if r != nil && r.base != w.base {
		r = m.rebase(r, w.base)
	}
	return r
}

func (m *M) rebase(w *Word, base int64) *Word {
	r := &Word{base: base, width: w.width}
	for _, s := range w.segs {
		if s.k != sZero && s.k != sOne || s.end.V != 0 {
			m.undecided("words of different position")
		}
		s.end.C += base - w.base
		r.segs = append(r.segs, s)
	}
	return r
}

func (m *M) constOp(op token.Token, a, b int64, t types.Type) Value {
	bits, signed := intInfo(t)
	ua, ub := uint64(a), uint64(b)
	switch op {
	case token.ADD:
		return m.wrapConst(a+b, t)
	case token.SUB:
		return m.wrapConst(a-b, t)
	case token.MUL:
		return m.wrapConst(a*b, t)
	case token.QUO, token.REM:
		if b == 0 {
			panic(targetPanic{Str{"division by zero", true, nil}, m.curPos(), m.curFn(), false})
		}
		var q, r int64
		if signed {
			q, r = a/b, a%b
		} else {
			q, r = int64(ua/ub), int64(ua%ub)
		}
		if op == token.QUO {
			return m.wrapConst(q, t)
		}
		return m.wrapConst(r, t)
	case token.AND:
		return m.wrapConst(a&b, t)
	case token.OR:
		return m.wrapConst(a|b, t)
	case token.XOR:
		return m.wrapConst(a^b, t)
	case token.AND_NOT:
		return m.wrapConst(a&^b, t)
	case token.SHL:
		if ub >= 64 {
			return Const{0}
		}
		return m.wrapConst(a<<ub, t)
	case token.SHR:
		if b < 0 {
			panic(targetPanic{Str{"negative shift amount", true, nil}, m.curPos(), m.curFn(), false})
		}
		if signed {
			if ub > 63 {
				ub = 63
			}
			return Const{a >> ub}
		}
		if ub >= 64 {
			return Const{0}
		}
		if bits < 64 {
			ua &= 1<<uint(bits) - 1
		}
		return m.wrapConst(int64(ua>>ub), t)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		c := 0
		if signed {
			if a < b {
				c = -1
			} else if a > b {
				c = 1
			}
		} else if ua < ub {
			c = -1
		} else if ua > ub {
			c = 1
		}
		switch op {
		case token.LSS:
			return c < 0
		case token.LEQ:
			return c <= 0
		case token.GTR:
			return c > 0
		}
		return c >= 0
	}
	m.undecided("constant operator %s", op)
	return nil
}

func (m *M) linNorm(l Lin) Value {
	if len(l.T) == 0 {
		return Const{l.C}
	}
	return l
}

// linCmp compares linear quantities whose terms are all at least 1.
func (m *M) linCmp(op token.Token, a, b Lin) Value {
	d := m.linSettled(linAdd(a, b, -1))
	switch op {
	case token.LSS:
		return m.linLeast(linAdd(Lin{}, d, -1), 1)
	case token.LEQ:
		return m.linLeast(linAdd(Lin{}, d, -1), 0)
	case token.GTR:
		return m.linLeast(d, 1)
	}
	return m.linLeast(d, 0)
}

// linSettled is d by the sizes that were told about least.
func (m *M) linSettled(d Lin) Lin {
	if len(d.T) > 1 && len(m.stack) > 0 {
		m.settleSizes()
		d = m.linRen(d)
	}
	return d
}

// linDir is what d is made of, without the constant and up to the sign, and the
// sign.
func linDir(d Lin) (string, int64) {
	var ks []string
	for k := range d.T {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	sign := int64(1)
	if d.T[ks[0]] < 0 {
		sign = -1
	}
	key := ""
	for _, k := range ks {
		key += fmt.Sprintf("%+d*%s ", sign*d.T[k], k)
	}
	return key, sign
}

// linFact is what was decided about a sum of sizes.
type linFact struct {
	lo, hi int64
	not    map[int64]bool
	terms  []string
}

func (m *M) linFact(d Lin) (*linFact, int64) {
	key, sign := linDir(d)
	if m.lins == nil {
		m.lins = map[string]*linFact{}
	}
	f := m.lins[key]
	if f == nil {
		f = &linFact{lo: -inf, hi: inf, not: map[int64]bool{}}
		lo, hi := int64(0), int64(0)
		loInf, hiInf := false, false
		for t, k := range d.T {
			f.terms = append(f.terms, t)
			if k *= sign; k > 0 {
				lo += k
				hiInf = true
			} else {
				hi += k
				loInf = true
			}
		}
		if !loInf {
			f.lo = lo
		}
		if !hiInf {
			f.hi = hi
		}
		m.lins[key] = f
		m.heights(d, sign, f)
	}
	return f, sign
}

// heights: a trie is higher than its parts.
func (m *M) heights(d Lin, sign int64, f *linFact) {
	if len(d.T) != 2 {
		return
	}
	var up, down *Node
	for _, n := range m.nodes {
		if n.same != nil {
			continue
		}
		switch sign * d.T["height("+n.size+")"] {
		case 1:
			up = n
		case -1:
			down = n
		}
	}
	if up == nil || down == nil {
		return
	}
	if m.within(down, up) {
		f.lo = 1
	} else if m.within(up, down) {
		f.hi = -1
	}
}

// linLeast: d >= c
func (m *M) linLeast(d Lin, c int64) Value {
	if len(d.T) == 0 {
		return d.C >= c
	}
	f, sign := m.linFact(d)
	c -= d.C
	if sign > 0 {
		if f.lo >= c {
			return true
		}
		if f.hi < c {
			return false
		}
		if m.sizes(d, "lin") {
			f.lo = c
			return true
		}
		f.hi = c - 1
		return false
	}
	// -x >= c
	if f.hi <= -c {
		return true
	}
	if f.lo > -c {
		return false
	}
	if m.sizes(d, "lin") {
		f.hi = -c
		return true
	}
	f.lo = -c + 1
	return false
}

// sizes decides a comparison of sizes. Those of tries that have nothing to do
// with each other may be anything. How those of others compare isn't derived
// from what is known about the contents of one in relation to another.
func (m *M) sizes(d Lin, what string) bool {
	if len(d.T) > 1 && len(m.stack) > 0 && (m.related || m.extra["witness"] != nil || !m.sizesFree(d)) {
		return m.split(2, what, "a comparison of the sizes of several tries") == 0
	}
	return m.choose(2, what) == 0
}

// sizesFree: the sizes in d are of separate tries and weren't compared before.
func (m *M) sizesFree(d Lin) bool {
	key, _ := linDir(d)
	var ns []*Node
	for t := range d.T {
		for k, f := range m.lins {
			for _, u := range f.terms {
				if u == t && k != key {
					return false
				}
			}
		}
		var of *Node
		for _, n := range m.nodes {
			if n.same == nil && (t == "size("+n.size+")" || t == "height("+n.size+")") {
				of = n
			}
		}
		for of != nil {
			top := of
			for top.parent != nil {
				top = m.rep(top.parent)
			}
			if top.origin != "call" {
				break
			}
			// what the result of a contract was made from
			of = top.src
		}
		if of == nil {
			return false
		}
		ns = append(ns, m.rep(of))
	}
	for i, a := range ns {
		for _, b := range ns[:i] {
			if m.within(a, b) || m.within(b, a) {
				return false
			}
		}
	}
	return true
}

// within: a is b or a part of it
func (m *M) within(a, b *Node) bool {
	for {
		if a == b {
			return true
		}
		if a.parent == nil {
			return false
		}
		a = m.rep(a.parent)
	}
}

func (m *M) linEqual(a, b Lin) Value {
	d := m.linSettled(linAdd(a, b, -1))
	if len(d.T) == 0 {
		return d.C == 0
	}
	f, sign := m.linFact(d)
	c := -d.C * sign
	switch {
	case c < f.lo || c > f.hi || f.not[c]:
		return false
	case f.lo == f.hi:
		return true
	}
	if m.sizes(d, "lineq") {
		f.lo, f.hi = c, c
		return true
	}
	f.not[c] = true
	for f.not[f.lo] {
		f.lo++
	}
	for f.not[f.hi] {
		f.hi--
	}
	return false
}

func (m *M) equal(x, y Value, t types.Type) Value {
	for i, v := range []Value{x, y} {
		if d, ok := v.(OrdDiff); ok {
			if c, ok := []Value{y, x}[i].(Const); ok {
				if r, ok := m.ordDiffCmp(token.EQL, d, c.V); ok {
					return r
				}
			}
			return Top{"difference"}
		}
	}
	x, y = m.force(x), m.force(y)
	if v, ok := m.innerLen(token.EQL, x, y); ok {
		return v
	}
	if v, ok := m.cntBinop(token.EQL, x, y); ok {
		return v
	}
	switch a := x.(type) {
	case bool:
		if b, ok := y.(bool); ok {
			return a == b
		}
	case Ptr:
		if b, ok := y.(Ptr); ok {
			return m.ptrEq(a, b)
		}
	case *BitSum:
		if v, ok := m.sumBinop(token.EQL, x, y); ok {
			return v
		}
	case Const, Aff:
		if v, ok := m.sumBinop(token.EQL, x, y); ok {
			return v
		}
		if v, ok := m.ordBinop(token.EQL, x, y, false); ok {
			return v
		}
		if bb, ok := y.(*Bits); ok {
			return bb.equal(m, bitsConst(x, len(bb.b)))
		}
		if v, ok := m.limbBinop(token.EQL, x, y, 64, false); ok {
			return v
		}
		if w, ok := y.(*Word); ok {
			return m.equal(w, x, t)
		}
		if l, ok := y.(Lin); ok {
			c, _ := toLin(x)
			return m.linEqual(c, l)
		}
		aa, _ := toAff(x)
		if b, ok := toAff(y); ok {
			return m.affEq(aa, b)
		}
		if _, ok := y.(Top); ok {
			return y
		}
	case Lin:
		if b, ok := toLin(y); ok {
			return m.linEqual(a, b)
		}
		if b, ok := y.(*Word); ok {
			return m.equal(b, a, t)
		}
		if b, ok := y.(Aff); ok {
			_ = b
			return m.split(2, "lin=aff", "comparison of a count with a length") == 0
		}
	case Ord:
		if v, ok := m.ordBinop(token.EQL, x, y, false); ok {
			return v
		}
	case *Limb:
		if v, ok := m.limbBinop(token.EQL, x, y, a.bits, false); ok {
			return v
		}
	case *Bits:
		if b, ok := y.(*Bits); ok {
			return a.equal(m, b)
		}
		if b, ok := y.(Struct); ok {
			return a.equal(m, bitsStruct(b))
		}
		return a.equal(m, bitsConst(y, len(a.b)))
	case *Word:
		if b, ok := y.(*Word); ok {
			return m.wEq(a, b)
		}
		if b, ok := y.(Lin); ok {
			if l, ok := m.wordLin(a); ok {
				return m.linEqual(l, b)
			}
		}
		if b := m.asWord(y, a.width); b != nil {
			if b.base != a.base {
				b = m.rebase(b, a.base)
			}
			return m.wEq(a, b)
		}
	case Struct:
		if b, ok := y.(*Word); ok {
			if w := m.asWord(a, b.width); w != nil {
				return m.wEq(w, b)
			}
		}
		if b, ok := y.(*Bits); ok {
			return b.equal(m, bitsStruct(a))
		}
		if b, ok := y.(Struct); ok && len(a) == len(b) {
			st, _ := t.Underlying().(*types.Struct)
			for i := range a {
				var ft types.Type
				if st != nil {
					ft = st.Field(i).Type()
				}
				e := m.equal(a[i], b[i], ft)
				if t, ok := e.(Top); ok {
					return t
				}
				if !e.(bool) {
					return false
				}
			}
			return true
		}
		if b, ok := y.(Ord); ok {
			return m.equal(b, a, t)
		}
	case Array:
		if b, ok := y.(Array); ok && len(a) == len(b) {
			at, _ := t.Underlying().(*types.Array)
			for i := range a {
				var et types.Type
				if at != nil {
					et = at.Elem()
				}
				e := m.equal(a[i], b[i], et)
				if t, ok := e.(Top); ok {
					return t
				}
				if !e.(bool) {
					return false
				}
			}
			return true
		}
	case Iface:
		switch b := y.(type) {
		case Iface:
			if a.typ == nil || b.typ == nil {
				return a.typ == nil && b.typ == nil
			}
			ea, ok1 := a.v.(ErrVal)
			eb, ok2 := b.v.(ErrVal)
			if ok1 && ok2 {
				return ea == eb
			}
			if !types.Identical(a.typ, b.typ) {
				return false
			}
			return m.equal(a.v, b.v, a.typ)
		case Sym:
			return m.equal(y, x, t)
		case *AnyIface:
			if a.typ == nil {
				return false
			}
		}
	case *AnyIface:
		if b, ok := y.(Iface); ok && b.typ == nil {
			return false
		}
		if b, ok := y.(*AnyIface); ok && a == b {
			return true
		}
	case Sym:
		if b, ok := y.(Iface); ok && b.typ == nil {
			return m.symNil(a)
		}
		if b, ok := y.(Sym); ok {
			return m.symRawEq(a, b)
		}
		if b, ok := y.(Iface); ok {
			_ = b
			return false
		}
	case *Fn:
		if b, ok := y.(*Fn); ok {
			if a == nil || b == nil {
				return a == nil && b == nil
			}
		}
	case Slice:
		if b, ok := y.(Slice); ok {
			return a.obj == nil && b.obj == nil
		}
		if _, ok := y.(*ByteSlice); ok && a.obj == nil {
			return false
		}
	case *ByteSlice:
		if b, ok := y.(Slice); ok && b.obj == nil {
			return a.isNil(m)
		}
	case Str:
		if b, ok := y.(Str); ok {
			return m.textEqual(a, b)
		}
	case Top:
		return Top{"cmp"}
	case Float:
		if b, ok := y.(Float); ok {
			return a.V == b.V
		}
	}
	if _, ok := y.(Top); ok {
		return Top{"cmp"}
	}
	m.undecided("comparison of %s with %s", vstr(x), vstr(y))
	return nil
}

func (m *M) convert(x Value, from, to types.Type) Value {
	x = m.force(x)
	// pointers
	if _, ok := x.(Ptr); ok {
		return x
	}
	if b, ok := to.Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
		short := b.Kind() == types.Float32
		switch v := x.(type) {
		case Const:
			if bits, signed := intInfo(from); bits == 64 && !signed {
				if short {
					return Float{float64(float32(uint64(v.V)))}
				}
				return Float{float64(uint64(v.V))}
			}
			if short {
				return Float{float64(float32(v.V))}
			}
			return Float{float64(v.V)}
		case Float:
			if short {
				return Float{float64(float32(v.V))}
			}
			return v
		case FloatOf:
			if _, pow := v.v.(PowVal); !pow && short {
				return Top{"rounded"}
			}
			return v
		case Aff:
			if short && !(m.leq(v, K(1<<24)) && m.leq(K(-1<<24), v)) {
				return Top{"rounded"}
			}
		case Top:
			return v
		}
		return FloatOf{x}
	}
	switch v := x.(type) {
	case Cnt:
		if bits, signed := intInfo(to); bits == 64 && !signed {
			return v
		}
		return Top{"conversion of a count"}
	case Float:
		if fb, isF := to.Underlying().(*types.Basic); isF && fb.Info()&types.IsInteger != 0 {
			t := math.Trunc(v.V)
			bits, signed := intInfo(to)
			if signed {
				if t >= -math.Ldexp(1, int(bits-1)) && t < math.Ldexp(1, int(bits-1)) {
					return Const{int64(t)}
				}
			} else if t >= 0 && t < math.Ldexp(1, int(bits)) {
				return Const{int64(uint64(t))}
			}
			return Top{"conversion of a float that is out of range"}
		}
	case FloatOf:
		return m.floatToInt(v, to)
	case Const:
		return m.wrapConst(v.V, to)
	case Aff:
		bits, signed := intInfo(to)
		if bits > 0 && bits < 64 {
			max := int64(1)<<uint(bits) - 1
			if signed {
				max >>= 1
			}
			if !m.leq(v, K(max)) {
				return Top{"truncated"}
			}
		}
		if !signed && !m.leq(K(0), v) {
			return Top{"wrapped"}
		}
		return v
	case Lin:
		if bits, signed := intInfo(to); bits > 0 {
			if signed {
				bits--
			}
			if !m.linBelow(v, bits) {
				return Top{"a count that may not fit"}
			}
		}
		return v
	case *Word:
		bits, _ := intInfo(to)
		fb, _ := intInfo(from)
		if bits == fb {
			if _, signed := intInfo(to); signed && v.width == bits {
				// the sign bit must be zero
				if len(v.segs) > 0 && v.segs[0].k == sZero {
					return v
				}
				return m.wordToInt(v, to)
			}
			return v
		}
		if _, signed := intInfo(to); v.width == fb && (bits > fb || !signed) && bits > 0 {
			v = m.fixBits(v)
			if l, ok := m.wordLin(v); !ok || bits < fb && !m.linBelow(l, bits) {
				return m.resizeWord(v, bits)
			}
		}
		return m.wordToInt(v, to)
	case *Bits:
		bits, signed := intInfo(to)
		_, fs := intInfo(from)
		return (&Bits{b: v.b, signed: fs}).resize(m, int(bits), signed)
	case *Limb:
		if bits, signed := intInfo(to); bits >= v.bits && !(signed && bits == v.bits) {
			if bits == v.bits {
				return v
			}
			r := limbLin(v, newLimb(bits), 1)
			r.bits = bits
			return r
		}
	case OrdDiff:
		bits, signed := intInfo(to)
		if !signed && !m.leq(v.b, v.a) {
			return Top{"difference"}
		}
		if bits > 32 || bits == 32 && !v.wide && !signed {
			return v
		}
		return Top{"difference"}
	case Ord:
		bits, signed := intInfo(to)
		return m.ordConvert(v, bits, signed)
	case *BitSum:
		if bits, signed := intInfo(to); v.c < 0 && !signed || bits < 64 && v.c+int64(len(v.bits)) > 127 {
			m.undecided("a number of bits that may not fit")
		}
		return v
	case Str, Slice, *ByteSlice, Top, *OrdLen:
		return v
	case *Fn, Struct, Array, bool:
		return v
	}
	m.undecided("conversion of %s to %s", vstr(x), to)
	return nil
}

// resizeWord cuts off or adds leading bits.
func (m *M) resizeWord(w *Word, bits int64) *Word {
	r := &Word{base: w.base + w.width - bits, width: bits}
	if bits > w.width {
		r.segs = append(append(r.segs, Seg{k: sZero, end: w.lo()}), w.segs...)
		return m.norm(r)
	}
	for _, s := range w.segs {
		if m.leq(s.end, r.lo()) {
			continue
		}
		r.segs = append(r.segs, s)
	}
	return m.norm(r)
}

// wordToInt converts a word to another integer type.
func (m *M) wordToInt(w *Word, to types.Type) Value {
	if l, ok := m.wordLin(m.fixBits(w)); ok {
		return m.convert(m.linNorm(l), nil, to)
	}
	m.undecided("conversion of %s to an integer", w)
	return nil
}

// linBelow reports whether a count is surely less than 2^bits.
func (m *M) linBelow(l Lin, bits int64) bool {
	if bits >= 62 {
		return true // entries and addresses of the sets that have a count
	}
	if len(l.T) == 0 {
		return l.C >= 0 && l.C < 1<<uint(bits)
	}
	entries := true
	for k := range l.T {
		if !strings.HasPrefix(k, "size(") && !strings.HasPrefix(k, "height(") {
			entries = false
		}
	}
	if entries {
		return bits >= 15 // what fits into memory
	}
	// a single power of two (minus something)
	var big string
	for k, v := range l.T {
		if !strings.HasPrefix(k, "2^") || v > 1 || v == 1 && big != "" {
			return false
		}
		if v == 1 {
			big = k
		}
	}
	if big == "" {
		return false
	}
	i := 0
	for _, ch := range big[2:] {
		i = i*10 + int(ch-'0')
	}
	if l.C < 0 || len(l.T) > 1 {
		return m.entLeq(m.pows[i], K(bits))
	}
	return l.C == 0 && m.entLeq(m.pows[i], K(bits-1))
}

// pow2 is 2^n as a linear quantity.
func (m *M) pow2(n Aff) Lin {
	if n.V == 0 && n.C >= 0 && n.C < 62 {
		return Lin{C: 1 << uint(n.C)}
	}
	for c := int64(0); c < 2; c++ {
		if m.entEq(n, K(c)) {
			return Lin{C: 1 << uint(c)}
		}
	}
	return Lin{T: map[string]int64{m.powKey(n): 1}}
}

// powKey names 2^n; equal exponents get equal names.
func (m *M) powKey(n Aff) string {
	for k, a := range m.pows {
		if a == n || m.entEq(a, n) {
			return fmt.Sprintf("2^%d", k)
		}
	}
	m.pows = append(m.pows, n)
	return fmt.Sprintf("2^%d", len(m.pows)-1)
}

func isFloat32(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Float32
}

func (m *M) floatOp(op token.Token, x, y Value) (Value, bool) {
	a, ok1 := x.(Float)
	b, ok2 := y.(Float)
	if ok1 && ok2 {
		switch op {
		case token.ADD:
			return Float{a.V + b.V}, true
		case token.SUB:
			return Float{a.V - b.V}, true
		case token.MUL:
			return Float{a.V * b.V}, true
		case token.LSS:
			return a.V < b.V, true
		case token.GTR:
			return a.V > b.V, true
		}
	}
	return nil, false
}

func (m *M) floatToInt(v FloatOf, to types.Type) Value {
	switch x := v.v.(type) {
	case PowVal:
		bits, signed := intInfo(to)
		lim := bits - 1
		if signed {
			lim--
		}
		if !m.leq(x.n, K(lim)) || !m.leq(K(0), x.n) {
			return Top{"overflow in float conversion"}
		}
		return m.linNorm(m.pow2(x.n))
	case Aff:
		return m.convert(x, nil, to)
	}
	return Top{"float"}
}

// PowVal is the number 2^n.
type PowVal struct{ n Aff }

package main

// Models of the standard library functions that the repository uses, and of
// the 128 bit words (whose own code is analysed separately, see uint128.go).

import (
	"go/types"
	"math"
	"math/bits"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func pkgPath(fn *ssa.Function) string {
	fn = origin(fn)
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	return ""
}

func recvName(fn *ssa.Function) string {
	fn = origin(fn)
	if fn.Signature.Recv() == nil {
		return ""
	}
	t := fn.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (m *M) external(fn *ssa.Function, args []Value) (Value, bool) {
	if recvName(fn) == "uint128" && m.mode != "bits" && m.mode != "limb" && m.prog.inRepo(fn) {
		v, ok := m.wordMethod(fn, args)
		if ok {
			name := fnName(origin(fn))
			if c, ok := args[len(args)-1].(Const); ok && c.V == 1 && strings.HasSuffix(fn.Name(), "Uint64") {
				name += "/1"
			}
			m.loc.prims[name] = true
		}
		return v, ok
	}
	if fn.Blocks != nil && m.prog.inRepo(fn) {
		return nil, false
	}
	if m.fam != nil && m.extFn != nil {
		if v, ok := m.extFn(m, fn, args); ok {
			return v, true
		}
	}
	path, name := pkgPath(fn), fn.Name()
	rn := recvName(fn)
	if rn != "" {
		name = rn + "." + name
	}
	switch path {
	case "sync/atomic":
		return m.atomicOp(name, args), true
	case "fmt":
		switch name {
		case "Errorf":
			return m.newErr(), true
		}
		return m.fmtFn(name, args)
	case "errors":
		if name == "New" {
			return m.newErr(), true
		}
	case "strings":
		if m.mode == "bits" {
			return m.stringsFn(name, args)
		}
		if strings.HasPrefix(name, "Builder.") || strings.HasPrefix(name, "Join") || strings.HasPrefix(name, "Repeat") {
			return m.opaqueResult(fn), true
		}
	case "strconv":
		if m.mode == "bits" {
			if v, ok := m.strconvFn(fn, name, args); ok {
				return v, true
			}
		}
		return m.opaqueResult(fn), true
	case "math":
		switch name {
		case "Exp2":
			name, args = "Pow", []Value{Float{2}, args[0]}
		case "Ldexp":
			if one, ok := args[0].(Float); ok && one.V == 1 {
				e := args[1]
				if c, ok := e.(Const); ok {
					e = Float{float64(c.V)}
				} else {
					e = FloatOf{e}
				}
				name, args = "Pow", []Value{Float{2}, e}
			}
		}
		if name == "Pow" {
			if b, ok := args[0].(Float); ok && b.V == 2 {
				switch e := args[1].(type) {
				case FloatOf:
					if a, ok := toAff(e.v); ok {
						return FloatOf{PowVal{a}}, true
					}
					if d, ok := e.v.(Lin); ok {
						_ = d
					}
				case Float:
					return Float{math.Pow(2, e.V)}, true
				}
			}
			return Top{"math.Pow"}, true
		}
		if name == "Exp2" || name == "Ldexp" {
			return Top{"math." + name}, true
		}
	case "net":
		return m.netFn(name, args)
	case "encoding/binary":
		return m.binaryFn(name, args)
	case "bytes":
		if name == "Equal" {
			return m.bytesEqual(args[0], args[1])
		}
	case "math/bits":
		return m.bitsFn(name, args), true
	}
	return nil, false
}

// opaqueResult is an unknown result of the result types of fn.
func (m *M) opaqueResult(fn *ssa.Function) Value {
	res := fn.Signature.Results()
	mk := func(t types.Type) Value {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return Str{}
			}
		case *types.Interface:
			if t.String() == "error" {
				return Iface{}
			}
		}
		return Top{fn.Name()}
	}
	switch res.Len() {
	case 0:
		return nil
	case 1:
		return mk(res.At(0).Type())
	}
	t := make(Tuple, res.Len())
	for i := range t {
		t[i] = mk(res.At(i).Type())
	}
	return t
}

func (m *M) bitsFn(name string, args []Value) Value {
	if c, ok := m.force(args[0]).(Const); ok && len(args) == 1 {
		if v, ok := constBits(name, uint64(c.V)); ok {
			return v
		}
	}
	if name == "Add64" || name == "Sub64" {
		if v, ok := m.ordAdd64(name, args); ok {
			return v
		}
	}
	if name == "Add64" {
		if v, ok := m.cntAdd64(args); ok {
			return v
		}
	}
	if m.mode == "bits" {
		if v, ok := m.bitsBits(name, args); ok {
			return v
		}
	}
	if m.mode == "limb" {
		if v, ok := m.limbBits(name, args); ok {
			return v
		}
	}
	width := int64(64)
	if strings.HasSuffix(name, "32") {
		width = 32
	} else if strings.HasSuffix(name, "8") {
		width = 8
	} else if strings.HasSuffix(name, "16") {
		width = 16
	}
	var w *Word
	switch x := m.force(args[0]).(type) {
	case Top:
		return Top{"bits." + name}
	default:
		w = m.asWord(x, width)
	}
	if w == nil || w.width != width {
		m.undecided("math/bits.%s of %s", name, vstr(args[0]))
	}
	switch {
	case strings.HasPrefix(name, "LeadingZeros"):
		return m.leadingZeros(w)
	case strings.HasPrefix(name, "Len"):
		a, ok := toAff(m.leadingZeros(w))
		if !ok {
			return Top{"bits.Len"}
		}
		r, _ := affSum(K(width), a, -1)
		return fromAff(r)
	case strings.HasPrefix(name, "OnesCount"):
		// only for a run of ones
		return m.onesCount(w)
	case strings.HasPrefix(name, "TrailingZeros"):
		hi := w.hi()
		for i := len(w.segs) - 1; i >= 0; i-- {
			s := w.segs[i]
			if s.k == sZero {
				if i == 0 {
					return Const{width}
				}
				hi = w.segs[i-1].end
				continue
			}
			if s.k == sOne {
				r, _ := affSum(w.hi(), hi, -1)
				return fromAff(r)
			}
			break
		}
		return Top{"bits.TrailingZeros"}
	}
	m.undecided("math/bits.%s", name)
	return nil
}

// constBits are the functions of math/bits of a constant.
func constBits(name string, u uint64) (Value, bool) {
	base := strings.TrimRight(name, "0123456789")
	w := 64
	switch name[len(base):] {
	case "8":
		w = 8
	case "16":
		w = 16
	case "32":
		w = 32
	}
	u &= ^uint64(0) >> uint(64-w)
	switch base {
	case "LeadingZeros":
		return Const{int64(bits.LeadingZeros64(u) - 64 + w)}, true
	case "TrailingZeros":
		if u == 0 {
			return Const{int64(w)}, true
		}
		return Const{int64(bits.TrailingZeros64(u))}, true
	case "Len":
		return Const{int64(bits.Len64(u))}, true
	case "OnesCount":
		return Const{int64(bits.OnesCount64(u))}, true
	case "ReverseBytes":
		return Const{int64(bits.ReverseBytes64(u) >> uint(64-w))}, true
	case "Reverse":
		return Const{int64(bits.Reverse64(u) >> uint(64-w))}, true
	}
	return nil, false
}

func (m *M) onesCount(w *Word) Value {
	total := Aff{}
	lo := w.lo()
	for _, s := range w.segs {
		switch s.k {
		case sOne:
			d, ok := affSum(s.end, lo, -1)
			if !ok {
				return Top{"bits.OnesCount"}
			}
			total, ok = affSum(total, d, 1)
			if !ok {
				return Top{"bits.OnesCount"}
			}
		case sZero:
		default:
			return Top{"bits.OnesCount"}
		}
		lo = s.end
	}
	return fromAff(total)
}

// wordMethod models the methods of uint128 on words.
func (m *M) wordMethod(fn *ssa.Function, args []Value) (Value, bool) {
	name := fn.Name()
	for i := range args {
		args[i] = m.force(args[i])
	}
	if m.mode == "ord" {
		return m.ordMethod(name, args)
	}
	w := m.asWord(args[0], 128)
	if w == nil || w.width != 128 {
		return nil, false
	}
	var w2 *Word
	if len(args) > 1 && isWordType(fn.Params[1].Type()) {
		w2 = m.asWord(args[1], 128)
		if w2 == nil {
			return nil, false
		}
	}
	switch name {
	case "and":
		return m.wAnd(w, w2), true
	case "or":
		return m.wOr(w, w2), true
	case "xor":
		return m.wXor(w, w2), true
	case "complement":
		return m.wNot(w), true
	case "leftShift", "rightShift":
		s, ok := toAff(args[1])
		if !ok {
			return nil, false
		}
		if !m.leq(K(0), s) {
			panic(targetPanic{Str{"negative shift amount", true, nil}, m.curPos(), m.curFn(), false})
		}
		return m.wShift(w, s, name == "rightShift"), true
	case "leadingZeros":
		return m.leadingZeros(w), true
	case "onesCount":
		return m.onesCount(w), true
	case "compare":
		return Const{int64(m.wCmp(w, w2))}, true
	case "addUint64", "subtractUint64":
		c, ok := args[1].(Const)
		if !ok {
			return nil, false
		}
		if name == "subtractUint64" {
			c.V = -c.V
		}
		return m.wAddConst(w, c.V), true
	}
	return nil, false
}

// ---- shared cells ----

// Cell is the shared root of a mutable collection.
type Cell struct {
	field    int  // the field that holds the root
	volatile bool // others may change it at any time
	cur      Ptr
	mk       func(m *M) Ptr // an arbitrary root
	loads    []Ptr
	stores   []cellStore
	failed   bool // a compare-and-swap failed
}

type cellStore struct {
	old, new Ptr
	cas      bool
	pos      string
}

func (m *M) cellValue(p Ptr) Value {
	c := p.obj.cell
	s := p.obj.val.(Struct)
	s[c.field] = m.cellCur(c)
	v := m.walkPath(&p.obj.val, p.path)
	if v == nil {
		m.undecided("load of a part of %s", vstr(p.obj.val))
	}
	return clone(*v)
}

func (m *M) cellCur(c *Cell) Ptr {
	if c.volatile {
		r := c.mk(m)
		c.loads = append(c.loads, r)
		return r
	}
	return c.cur
}

func touchesField(p Ptr, f int) bool { return p.path == "" || int(p.path[0]) == f }

func (m *M) cellPlainLoad(p Ptr) Value {
	c := p.obj.cell
	if touchesField(p, c.field) {
		if c.volatile {
			m.fail("race", "the root of a shared collection is read without synchronisation")
		}
		return m.cellValue(p)
	}
	return clone(*m.walkPath(&p.obj.val, p.path))
}

func (m *M) cellPlainStore(p Ptr, v Value) {
	c := p.obj.cell
	if touchesField(p, c.field) {
		if c.volatile {
			m.fail("race", "the root of a shared collection is written without synchronisation")
		}
		if p.path == "" {
			s, ok := v.(Struct)
			if !ok {
				m.undecided("store of %s", vstr(v))
			}
			p.obj.val = clone(s)
			c.cur = m.nodePtr(s[c.field], "root")
		} else {
			c.cur = m.nodePtr(v, "root")
		}
		c.stores = append(c.stores, cellStore{new: c.cur})
		return
	}
	m.fail("race", "a field of a shared collection is written")
}

func (m *M) atomicOp(name string, args []Value) Value {
	if strings.HasPrefix(name, "Pointer.") { // atomic.Pointer[T]
		m.undecided("atomic.Pointer")
	}
	p, ok := args[0].(Ptr)
	if !ok {
		m.undecided("atomic operation on %s", vstr(args[0]))
	}
	if p.obj == nil {
		m.nilDeref("atomic operation")
	}
	c := p.obj.cell
	if c == nil || !touchesField(p, c.field) {
		switch name {
		case "LoadPointer":
			return m.load(p)
		case "StorePointer":
			m.store(p, args[1])
			return nil
		case "CompareAndSwapPointer":
			if m.equal(m.load(p), args[1], nil).(bool) {
				m.store(p, args[2])
				return true
			}
			return false
		}
		m.undecided("atomic.%s", name)
	}
	pos, _ := m.where()
	switch name {
	case "LoadPointer":
		return m.cellCur(c)
	case "StorePointer":
		n := m.nodePtr(args[1], "root")
		m.freeze(n, "published")
		c.stores = append(c.stores, cellStore{new: n, pos: pos})
		c.cur = n
		return nil
	case "SwapPointer":
		old := m.cellCur(c)
		n := m.nodePtr(args[1], "root")
		m.freeze(n, "published")
		c.stores = append(c.stores, cellStore{new: n, pos: pos})
		c.cur = n
		return old
	case "CompareAndSwapPointer":
		old, n := m.nodePtr(args[1], "root"), m.nodePtr(args[2], "root")
		var ok bool
		if c.volatile {
			ok = m.choose(2, "cas") == 0
		} else {
			ok = m.ptrEq(old, c.cur).(bool)
		}
		if ok {
			m.freeze(n, "published")
			c.stores = append(c.stores, cellStore{old: old, new: n, cas: true, pos: pos})
			c.cur = n
		} else {
			c.failed = true
		}
		return ok
	}
	m.undecided("atomic.%s", name)
	return nil
}

package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Value is one of:
//
//	*Term                booleans, integers, floats
//	string, *SStr        strings: concrete, symbolic bytes of concrete length
//	*DocStr              opaque text carrying a JSON document
//	Ptr                  pointers (and unsafe.Pointer)
//	*SymPtr              element pointer with a symbolic index (scalar elements)
//	Struct, Array, Slice, *Map, *Chan, *Closure, Iface, Tuple
//	*Native              host objects of the intrinsics
//	Poison               value the engine could not compute (only an error when used)
type Value = any
type Ptr = *Value

type Struct []Value
type Array []Value
type Slice []Value
type Tuple []Value
type Poison struct{ why string }

type SStr struct{ b []*Term }

type SymPtr struct {
	base []Value
	idx  *Term
}

type Closure struct {
	fn     *ssa.Function
	env    []Value
	native func(g *Gor, args []Value) Value
	name   string
}

type Iface struct {
	t types.Type
	v Value
}

type Native struct {
	kind string
	v    any
}

type Map struct {
	keys, vals []Value
	kt, vt     types.Type
	hk         map[any]int // concrete scalar/string keys -> index, when all keys are such
	symKeys    bool
}

type Chan struct {
	cap    int
	buf    []Value
	closed bool
	sendq  []*waiter
	recvq  []*waiter
	et     types.Type
}

type waiter struct {
	g    *Gor
	val  Value
	ok   bool
	done bool
	sel  *selState
	idx  int
}

type selState struct {
	done bool
	idx  int
	val  Value
	ok   bool
}

// ---- types helpers ----

func intInfo(t types.Type) (w int, signed, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Int16:
		return 16, true, true
	case types.Int8:
		return 8, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint8:
		return 8, false, true
	}
	return 0, false, false
}

func floatWidth(t types.Type) int {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0
	}
	switch b.Kind() {
	case types.Float64, types.UntypedFloat:
		return 64
	case types.Float32:
		return 32
	}
	return 0
}

func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

func isScalar(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsBoolean|types.IsInteger|types.IsFloat) != 0
}

func (b *TB) zero(t types.Type) Value {
	switch t := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := intInfo(t); ok {
			return b.Const(0, w)
		}
		if w := floatWidth(t); w != 0 {
			return b.FConst(0, w)
		}
		switch {
		case t.Info()&types.IsBoolean != 0:
			return b.False
		case t.Info()&types.IsString != 0:
			return ""
		case t.Kind() == types.UnsafePointer, t.Kind() == types.UntypedNil:
			return Ptr(nil)
		}
		return Poison{"zero of " + t.String()}
	case *types.Pointer:
		return Ptr(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*Closure)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Struct:
		s := make(Struct, t.NumFields())
		for i := range s {
			s[i] = b.zero(t.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(t.Len())
		if n > 1<<20 {
			return Poison{"huge array"}
		}
		s := make(Array, n)
		if n == 0 {
			return s
		}
		if isAggregate(t.Elem()) {
			for i := range s {
				s[i] = b.zero(t.Elem())
			}
		} else {
			z := b.zero(t.Elem())
			for i := range s {
				s[i] = z
			}
		}
		return s
	case *types.Tuple:
		s := make(Tuple, t.Len())
		for i := range s {
			s[i] = b.zero(t.At(i).Type())
		}
		return s
	}
	panic(fmt.Sprintf("zero of %s", t))
}

func isAggregate(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		c := make(Struct, len(v))
		for i, x := range v {
			c[i] = copyVal(x)
		}
		return c
	case Array:
		c := make(Array, len(v))
		if len(v) > 0 {
			switch v[0].(type) {
			case Struct, Array:
				for i, x := range v {
					c[i] = copyVal(x)
				}
			default:
				copy(c, v)
			}
		}
		return c
	}
	return v
}

func storeTo(addr Ptr, v Value) {
	switch v := v.(type) {
	case Struct:
		if d, ok := (*addr).(Struct); ok && len(d) == len(v) {
			for i := range v {
				storeTo(&d[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	case Array:
		if d, ok := (*addr).(Array); ok && len(d) == len(v) {
			for i := range v {
				storeTo(&d[i], v[i])
			}
			return
		}
		*addr = copyVal(v)
	default:
		*addr = v
	}
}

// ---- strings ----

func (b *TB) strBytes(v Value) []*Term {
	switch v := v.(type) {
	case string:
		r := make([]*Term, len(v))
		for i := 0; i < len(v); i++ {
			r[i] = b.Const(uint64(v[i]), 8)
		}
		return r
	case *SStr:
		return v.b
	}
	panic(unsupported("bytes of opaque string %T", v))
}

func mkStr(bs []*Term) Value {
	var sb strings.Builder
	for _, t := range bs {
		if !t.isConst() {
			return &SStr{append([]*Term(nil), bs...)}
		}
		sb.WriteByte(byte(t.val))
	}
	return sb.String()
}

func strLen(v Value) int {
	switch v := v.(type) {
	case string:
		return len(v)
	case *SStr:
		return len(v.b)
	}
	panic(unsupported("len of opaque string %T", v))
}

func (b *TB) strEq(x, y Value) *Term {
	xs, ok1 := x.(string)
	ys, ok2 := y.(string)
	if ok1 && ok2 {
		return b.Bool(xs == ys)
	}
	if dx, ok := x.(*DocStr); ok {
		if dy, ok := y.(*DocStr); ok && dx == dy {
			return b.True
		}
		if ok2 && ys == "" {
			return b.False
		}
		panic(unsupported("comparing JSON text"))
	}
	if _, ok := y.(*DocStr); ok {
		return b.strEq(y, x)
	}
	xb, yb := b.strBytes(x), b.strBytes(y)
	if len(xb) != len(yb) {
		return b.False
	}
	cs := make([]*Term, len(xb))
	for i := range xb {
		cs[i] = b.Eq(xb[i], yb[i])
	}
	return b.And(cs...)
}

func (b *TB) strLess(x, y Value, orEq bool) *Term {
	xs, ok1 := x.(string)
	ys, ok2 := y.(string)
	if ok1 && ok2 {
		return b.Bool(xs < ys || orEq && xs == ys)
	}
	xb, yb := b.strBytes(x), b.strBytes(y)
	n := min(len(xb), len(yb))
	var r *Term
	if len(xb) < len(yb) {
		r = b.True
	} else if len(xb) > len(yb) {
		r = b.False
	} else {
		r = b.Bool(orEq)
	}
	for i := n - 1; i >= 0; i-- {
		r = b.Ite(b.Eq(xb[i], yb[i]), r, b.ULt(xb[i], yb[i]))
	}
	return r
}

// ---- equality ----

func (b *TB) eq(x, y Value) *Term {
	switch x := x.(type) {
	case *Term:
		if x.sort.K == KFP {
			return b.FBin(OFEq, x, y.(*Term))
		}
		return b.Eq(x, y.(*Term))
	case string, *SStr, *DocStr:
		return b.strEq(x, y)
	case Ptr:
		switch y := y.(type) {
		case Ptr:
			return b.Bool(x == y)
		case *SymPtr:
			return b.Bool(false)
		case *Native:
			return b.False
		}
	case *Native:
		yn, ok := y.(*Native)
		return b.Bool(ok && (yn == x || x.kind == "rtype" && yn.kind == "rtype" && types.Identical(x.v.(types.Type), yn.v.(types.Type))))
	case *Chan:
		return b.Bool(x == y.(*Chan))
	case *Map:
		return b.Bool(x == y.(*Map)) // only against nil
	case Slice:
		return b.Bool(x == nil && y.(Slice) == nil)
	case *Closure:
		return b.Bool(x == nil && y.(*Closure) == nil)
	case Iface:
		yi := y.(Iface)
		if x.t == nil || yi.t == nil {
			return b.Bool(x.t == nil && yi.t == nil)
		}
		if x.t != yi.t && !types.Identical(x.t, yi.t) {
			return b.False
		}
		if !types.Comparable(x.t) {
			panic(runtimePanic("comparing uncomparable type " + x.t.String()))
		}
		return b.eq(x.v, yi.v)
	case Struct:
		yv := y.(Struct)
		cs := make([]*Term, len(x))
		for i := range x {
			cs[i] = b.eq(x[i], yv[i])
		}
		return b.And(cs...)
	case Array:
		yv := y.(Array)
		cs := make([]*Term, len(x))
		for i := range x {
			cs[i] = b.eq(x[i], yv[i])
		}
		return b.And(cs...)
	}
	panic(unsupported("equality of %T and %T", x, y))
}

// ---- maps ----

func hashKey(k Value) (any, bool) {
	switch k := k.(type) {
	case string:
		return k, true
	case *Term:
		if k.isConst() {
			return [2]uint64{uint64(k.sort.K)<<8 | uint64(k.sort.W), k.val}, true
		}
	case Ptr:
		return k, true
	case *Native:
		if k.kind == "rval" {
			return nil, false
		}
		return k, true
	case *Chan:
		return k, true
	case Iface:
		if k.t == nil {
			return nil, false
		}
		if h, ok := hashKey(k.v); ok {
			return [2]any{k.t.String(), h}, true
		}
	case Struct:
		var sb strings.Builder
		for _, f := range k {
			h, ok := hashKey(f)
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T:%v|", h, h)
		}
		return "struct" + sb.String(), true
	case Array:
		return hashKey(Struct(k))
	}
	return nil, false
}

// find returns the index of k in m or -1; symbolic comparisons fork.
func (m *Map) find(g *Gor, k Value) int {
	if m == nil {
		return -1
	}
	if h, ok := hashKey(k); ok && !m.symKeys {
		if i, ok := m.hk[h]; ok {
			return i
		}
		return -1
	}
	for i, x := range m.keys {
		if g.p.decide(g.p.b.eq(x, k)) {
			return i
		}
	}
	return -1
}

func (m *Map) put(g *Gor, k, v Value) {
	if i := m.find(g, k); i >= 0 {
		m.vals[i] = v
		return
	}
	if h, ok := hashKey(k); ok {
		if m.hk == nil {
			m.hk = map[any]int{}
		}
		m.hk[h] = len(m.keys)
	} else {
		m.symKeys = true
	}
	m.keys = append(m.keys, copyVal(k))
	m.vals = append(m.vals, v)
}

func (m *Map) del(g *Gor, k Value) {
	i := m.find(g, k)
	if i < 0 {
		return
	}
	m.keys = append(append([]Value(nil), m.keys[:i]...), m.keys[i+1:]...)
	m.vals = append(append([]Value(nil), m.vals[:i]...), m.vals[i+1:]...)
	m.hk = map[any]int{}
	m.symKeys = false
	for i, k := range m.keys {
		if h, ok := hashKey(k); ok {
			m.hk[h] = i
		} else {
			m.symKeys = true
		}
	}
}

// ---- errors of the engine ----

type abort struct {
	kind string // unsupported, steps, infeasible, unknown, killed, violation, done
	msg  string
}

func unsupported(f string, a ...any) *abort { return &abort{"unsupported", fmt.Sprintf(f, a...)} }

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v     Iface
	rt    bool
	where string
}

type rtPanic string

func runtimePanic(msg string) rtPanic { return rtPanic(msg) }

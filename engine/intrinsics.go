package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value

var intrinsics = map[string]intrinsic{}

type intrSlot struct{ h intrinsic }

var intrCache sync.Map // *fnInfo -> *intrSlot

func lookupIntrinsic(fi *fnInfo) intrinsic {
	if x, ok := intrCache.Load(fi); ok {
		return x.(*intrSlot).h
	}
	h := findIntrinsic(fi)
	intrCache.Store(fi, &intrSlot{h})
	return h
}

func findIntrinsic(fi *fnInfo) intrinsic {
	if h, ok := intrinsics[fi.key]; ok {
		return h
	}
	if o := fi.fn.Origin(); o != nil {
		if h, ok := intrinsics[o.String()]; ok {
			return h
		}
	}
	pkg := ""
	if fi.fn.Pkg != nil {
		pkg = fi.fn.Pkg.Pkg.Path()
	} else if fi.fn.Object() != nil && fi.fn.Object().Pkg() != nil {
		pkg = fi.fn.Object().Pkg().Path()
	}
	if fi.fn.Name() == "init" && fi.fn.Synthetic != "" {
		return nil
	}
	switch pkg {
	case "github.com/sirupsen/logrus":
		return logrusCall
	case "reflect":
		return reflectMissing(fi.key)
	case "log":
		return func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return resultZero(g, fn) }
	}
	return nil
}

func resultZero(g *Gor, fn *ssa.Function) Value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return g.zeroDeep(r.At(0).Type())
	}
	t := make(Tuple, r.Len())
	for i := range t {
		t[i] = g.zeroDeep(r.At(i).Type())
	}
	return t
}

// zeroDeep is the zero value, except that logrus pointers are non-nil.
func (g *Gor) zeroDeep(t types.Type) Value {
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		v := new(Value)
		*v = g.p.b.zero(pt.Elem())
		return Ptr(v)
	}
	return g.p.b.zero(t)
}

// logrusCall: logging has no effect on the properties; Fatal ends the process and Panic panics.
func logrusCall(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
	n := fn.Name()
	switch {
	case strings.HasPrefix(n, "Fatal") || n == "Exit":
		g.p.violation(g, "panic", "log.Fatal: process exit", nil)
		panic(&abort{"violation", "fatal"})
	case strings.HasPrefix(n, "Panic"):
		g.throw(Iface{types.Typ[types.String], "log.Panic"}, false)
	case n == "String" || n == "MarshalText" || n == "ParseLevel":
		return resultZero(g, fn)
	}
	return resultZero(g, fn)
}

func nativeMethod(n *Native, name string) func(g *Gor, n *Native, a []Value) Value {
	if n.kind == "rtype" {
		return rtypeMethod(name)
	}
	return nil
}

var nativeType types.Type = types.NewNamed(types.NewTypeName(0, nil, "nativeObject", nil), types.NewStruct(nil, nil), nil)

func (g *Gor) str(v Value) string {
	switch v := v.(type) {
	case string:
		return v
	case *SStr:
		bs := make([]byte, len(v.b))
		for i, t := range v.b {
			bs[i] = byte(g.p.concretize(t))
		}
		return string(bs)
	}
	panic(unsupported("concrete string from %T", v))
}

// name gives the unique name of a new symbolic input.
func (p *Path) inputName(base string) string {
	n := p.names[base]
	p.names[base] = n + 1
	return fmt.Sprintf("%s#%d", base, n)
}

func (p *Path) newVar(base, kind string, s Sort, lo, hi uint64) *Term {
	if k := max(bits.Len64(hi), 1); s.K == KBV && k < int(s.W) {
		v := p.newVar(base, kind, BV(k), lo, hi)
		x := p.b.ZExt(v, int(s.W))
		p.inputs[len(p.inputs)-1].vals[0] = x
		return x
	}
	nm := p.inputName(base)
	v := p.b.Var(nm, s, lo, hi)
	p.seedVar(v)
	p.inputs = append(p.inputs, Input{name: base, kind: kind, vals: []*Term{v}})
	return v
}

func (g *Gor) newError(msg string) Iface {
	t := g.p.cfg.Prog.Pkgs["errors"].Type("errorString").Type()
	v := new(Value)
	*v = Struct{msg}
	return Iface{types.NewPointer(t), Ptr(v)}
}

var errPtrCache sync.Map

func (g *Gor) mkError(msg Value) Iface {
	var pt types.Type
	if x, ok := errPtrCache.Load(g.p.cfg.Prog); ok {
		pt = x.(types.Type)
	} else {
		t := g.p.cfg.Prog.Pkgs["errors"].Type("errorString").Type()
		pt = types.NewPointer(t)
		errPtrCache.Store(g.p.cfg.Prog, pt)
	}
	v := new(Value)
	*v = Struct{msg}
	return Iface{pt, Ptr(v)}
}

func (g *Gor) callMethod(v Iface, name string) (Value, bool) {
	fn := g.p.cfg.Prog.findMethod(v.t, nil, name)
	if fn == nil {
		return nil, false
	}
	return g.callFn(g.top, fn, []Value{copyVal(v.v)}, nil), true
}

func (g *Gor) tryError(v Iface) (s string, ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if a, isA := x.(*abort); isA && a.kind == "killed" {
				panic(x)
			}
			ok = false
		}
	}()
	r, ok := g.callMethod(v, "Error")
	if !ok {
		return "", false
	}
	if st, isS := r.(string); isS {
		return st, true
	}
	return "?", true
}

func init() {
	I := intrinsics
	T := func(v Value) *Term { return v.(*Term) }

	// ---- harness API ----
	S := symPkg + "."
	I[S+"Bool"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return g.p.newVar(g.str(a[0]), "bool", SBool, 0, 1)
	}
	for _, k := range []struct {
		n string
		w int
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"I64", 64}} {
		k := k
		I[S+k.n] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
			return g.p.newVar(g.str(a[0]), k.n, BV(k.w), 0, mask(k.w))
		}
	}
	I[S+"Int"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		lo, hi := g.intVal(a[1]), g.intVal(a[2])
		if lo >= 0 {
			return g.p.newVar(g.str(a[0]), "Int", BV(64), uint64(lo), uint64(hi))
		}
		v := g.p.newVar(g.str(a[0]), "Int", BV(64), 0, uint64(hi-lo))
		v = g.p.b.Add(v, g.p.b.Const(uint64(lo), 64))
		g.p.inputs[len(g.p.inputs)-1].vals[0] = v
		return v
	}
	I[S+"Choose"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		n := g.intVal(a[1])
		v := g.p.newVar(g.str(a[0]), "Int", BV(64), 0, uint64(n-1))
		x := g.p.concretize(v)
		g.p.trace = append(g.p.trace, fmt.Sprintf("%s=%d", g.str(a[0]), x))
		return g.p.b.Const(x, 64)
	}
	I[S+"Pin"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		t := T(a[0])
		return g.p.b.constLike(t, g.p.concretize(t))
	}
	I[S+"Bytes"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(g.intVal(a[1]))
		base := g.str(a[0])
		nm := g.p.inputName(base)
		in := Input{name: base, kind: "bytes"}
		s := make(Slice, n)
		for i := range s {
			v := g.p.b.Var(fmt.Sprintf("%s[%d]", nm, i), BV(8), 0, 255)
			g.p.seedVar(v)
			in.vals = append(in.vals, v)
			s[i] = v
		}
		g.p.inputs = append(g.p.inputs, in)
		return s
	}
	I[S+"String"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		s := I[S+"Bytes"](g, fr, fn, a).(Slice)
		bs := make([]*Term, len(s))
		for i := range s {
			bs[i] = s[i].(*Term)
		}
		return mkStr(bs)
	}
	I[S+"Assume"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.p.assume(T(a[0]))
		return nil
	}
	I[S+"Assert"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.p.assertTrue(g, T(a[0]), g.str(a[1]))
		return nil
	}
	I[S+"Cover"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.p.covers[g.str(a[0])] = true
		return nil
	}
	I[S+"And"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		b := g.p.b
		r := b.True
		for _, x := range a[0].(Slice) {
			r = b.And(r, T(x))
		}
		return r
	}
	I[S+"Or"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		b := g.p.b
		r := b.False
		for _, x := range a[0].(Slice) {
			r = b.Or(r, T(x))
		}
		return r
	}
	I[S+"Not"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return g.p.b.Not(T(a[0])) }
	for _, n := range []string{"IteU16", "IteU32", "IteI64", "IteU64", "IteB"} {
		I[S+n] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
			return g.p.b.Ite(T(a[0]), T(a[1]), T(a[2]))
		}
	}
	I[S+"Observe"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		o := Obs{label: g.str(a[0])}
		for _, x := range a[1].(Slice) {
			o.vals = append(o.vals, x)
		}
		g.p.obs = append(g.p.obs, o)
		return nil
	}
	I[S+"Advance"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.advance(T(a[0]))
		return nil
	}
	I[S+"Settle"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.settle()
		return nil
	}
	I[S+"Now"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return g.p.b.Sub(g.p.clock, g.p.b.Const(1_000_000, 64))
	}
	I[S+"Schedules"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.p.side["sched"] = int(g.intVal(a[0]))
		return nil
	}
	I[S+"MutexBlocked"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, o := range g.p.gors {
			if !o.finished && o.waiting {
				n++
			}
		}
		return g.p.b.Const(uint64(n), 64)
	}
	I[S+"Alive"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, o := range g.p.gors {
			if !o.finished && o != g {
				n++
			}
		}
		return g.p.b.Const(uint64(n), 64)
	}
	I[S+"Param"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		if v, ok := curParams[g.str(a[0])]; ok {
			return g.p.b.Const(uint64(v), 64)
		}
		return a[1]
	}
	I[S+"End"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return nil }
	I[S+"Yield"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { g.yield(); return nil }

	// ---- sync ----
	I["(*sync.Mutex).Lock"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { g.lockPtr(a[0]); return nil }
	I["(*sync.Mutex).Unlock"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { g.unlock(a[0].(Ptr)); return nil }
	I["(*sync.Mutex).TryLock"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return g.p.b.Bool(g.tryLock(a[0].(Ptr)))
	}
	I["(*sync.RWMutex).Lock"] = I["(*sync.Mutex).Lock"]
	I["(*sync.RWMutex).Unlock"] = I["(*sync.Mutex).Unlock"]
	I["(*sync.RWMutex).RLock"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { g.rlock(a[0].(Ptr)); return nil }
	I["(*sync.RWMutex).RUnlock"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { g.runlock(a[0].(Ptr)); return nil }
	I["(*sync.WaitGroup).Add"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		k := wgKey{a[0].(Ptr)}
		n, _ := g.p.side[k].(int)
		n += int(g.intVal(a[1]))
		g.p.side[k] = n
		g.release(k)
		if n < 0 {
			g.throw(Iface{types.Typ[types.String], "sync: negative WaitGroup counter"}, false)
		}
		return nil
	}
	I["(*sync.WaitGroup).Done"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return I["(*sync.WaitGroup).Add"](g, fr, fn, []Value{a[0], g.p.b.Const(^uint64(0), 64)})
	}
	I["(*sync.WaitGroup).Wait"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.yield()
		k := wgKey{a[0].(Ptr)}
		g.block("WaitGroup", func() bool { n, _ := g.p.side[k].(int); return n == 0 })
		g.acquire(k)
		return nil
	}
	I["(*sync.Once).Do"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		k := onceKey{a[0].(Ptr)}
		switch st, _ := g.p.side[k].(int); st {
		case 0:
			g.p.side[k] = 1
			func() {
				defer func() { g.p.side[k] = 2; g.release(k) }()
				g.callValue(fr, a[1], nil)
			}()
		case 1:
			g.block("Once", func() bool { return g.p.side[k].(int) == 2 })
			g.acquire(k)
		default:
			g.acquire(k)
		}
		return nil
	}
	I["(*sync.Pool).Get"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		st := (*a[0].(Ptr)).(Struct)
		f := st[len(st)-1].(*Closure)
		if f == nil {
			return Iface{}
		}
		return g.callValue(fr, f, nil)
	}
	I["(*sync.Pool).Put"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return nil }

	// sync.Map over an association list
	smap := func(g *Gor, v Value) *Map {
		k := smapKey{v.(Ptr)}
		m, _ := g.p.side[k].(*Map)
		if m == nil {
			m = &Map{}
			g.p.side[k] = m
		}
		return m
	}
	I["(*sync.Map).Load"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.yield()
		m := smap(g, a[0])
		g.acquire(m)
		if i := m.find(g, a[1]); i >= 0 {
			return Tuple{m.vals[i], g.p.b.True}
		}
		return Tuple{Iface{}, g.p.b.False}
	}
	I["(*sync.Map).Store"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.yield()
		m := smap(g, a[0])
		g.release(m)
		m.put(g, a[1], a[2])
		return nil
	}
	I["(*sync.Map).LoadOrStore"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.yield()
		m := smap(g, a[0])
		g.acquire(m)
		if i := m.find(g, a[1]); i >= 0 {
			return Tuple{m.vals[i], g.p.b.True}
		}
		g.release(m)
		m.put(g, a[1], a[2])
		return Tuple{a[2], g.p.b.False}
	}
	I["(*sync.Map).LoadAndDelete"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.yield()
		m := smap(g, a[0])
		g.acquire(m)
		if i := m.find(g, a[1]); i >= 0 {
			v := m.vals[i]
			g.release(m)
			m.del(g, a[1])
			return Tuple{v, g.p.b.True}
		}
		return Tuple{Iface{}, g.p.b.False}
	}
	I["(*sync.Map).Delete"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.yield()
		m := smap(g, a[0])
		g.release(m)
		m.del(g, a[1])
		return nil
	}
	I["(*sync.Map).CompareAndDelete"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.yield()
		m := smap(g, a[0])
		g.acquire(m)
		if i := m.find(g, a[1]); i >= 0 && g.p.decide(g.p.b.eq(m.vals[i], a[2])) {
			m.del(g, a[1])
			g.release(m)
			return g.p.b.True
		}
		return g.p.b.False
	}
	I["(*sync.Map).Range"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.yield()
		m := smap(g, a[0])
		g.acquire(m)
		keys := append([]Value(nil), m.keys...)
		for _, k := range keys {
			i := m.find(g, k)
			if i < 0 {
				continue
			}
			r := g.callValue(fr, a[1], []Value{k, m.vals[i]})
			if !g.p.decide(T(r)) {
				break
			}
		}
		return nil
	}

	// ---- atomics ----
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		I["sync/atomic.Load"+ty] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
			g.yield()
			g.acquire(a[0])
			return *g.nn(a[0])
		}
		I["sync/atomic.Store"+ty] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
			g.yield()
			g.release(a[0])
			*g.nn(a[0]) = a[1]
			return nil
		}
		I["sync/atomic.Add"+ty] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
			g.yield()
			g.acquire(a[0])
			g.release(a[0])
			c := g.nn(a[0])
			*c = g.p.b.Add(T(*c), T(a[1]))
			return *c
		}
		I["sync/atomic.Swap"+ty] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
			g.yield()
			g.acquire(a[0])
			g.release(a[0])
			c := g.nn(a[0])
			o := *c
			*c = a[1]
			return o
		}
		I["sync/atomic.CompareAndSwap"+ty] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
			g.yield()
			g.acquire(a[0])
			c := g.nn(a[0])
			if g.p.decide(g.p.b.eq(*c, a[1])) {
				g.release(a[0])
				*c = a[2]
				return g.p.b.True
			}
			return g.p.b.False
		}
	}
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64"} {
		for _, op := range []string{"And", "Or"} {
			op := op
			I["sync/atomic."+op+ty] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
				g.yield()
				c := g.nn(a[0])
				o := *c
				if op == "And" {
					*c = g.p.b.BAnd(T(o), T(a[1]))
				} else {
					*c = g.p.b.BOr(T(o), T(a[1]))
				}
				return o
			}
		}
	}
	for _, n := range []string{"Load", "Store", "Swap", "CompareAndSwap"} {
		n := n
		I["(*sync/atomic.Value)."+n] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
			g.yield()
			k := avKey{a[0].(Ptr)}
			o, _ := g.p.side[k].(Iface)
			switch n {
			case "Load":
				g.acquire(k)
				return o
			case "Store":
				g.release(k)
				g.p.side[k] = a[1]
				return nil
			case "Swap":
				g.acquire(k)
				g.release(k)
				g.p.side[k] = a[1]
				return o
			}
			if g.p.decide(g.p.b.eq(o, a[1])) {
				g.p.side[k] = a[2]
				return g.p.b.True
			}
			return g.p.b.False
		}
	}

	// ---- random numbers: any ----
	for _, n := range []string{"math/rand.runtime_rand", "math/rand/v2.runtime_rand", "runtime.rand"} {
		I[n] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
			v := g.p.b.Var(g.p.inputName("rand"), BV(64), 0, ^uint64(0))
			g.p.seedVar(v)
			return v
		}
	}

	// ---- time ----
	I["time.runtimeNano"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return g.p.clock }
	I["time.runtimeIsBubbled"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return g.p.b.False }
	I["time.runtimeNow"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		b := g.p.b
		e9 := b.Const(1_000_000_000, 64)
		return Tuple{b.Add(b.UDiv(g.p.clock, e9), b.Const(946684800, 64)), b.Extract(b.URem(g.p.clock, e9), 0, 32), g.p.clock}
	}
	I["time.now"] = I["time.runtimeNow"]
	I["time.Sleep"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		fired := false
		g.p.addTimer(T(a[0]), func() { fired = true })
		g.block("sleep", func() bool { return fired })
		return nil
	}
	mkTimer := func(g *Gor, name string, d *Term, period *Term, f Value) Value {
		t := g.p.cfg.Prog.Pkgs["time"].Type(name).Type()
		v := new(Value)
		st := g.p.b.zero(t).(Struct)
		*v = st
		ch := &Chan{cap: 1, et: g.p.cfg.Prog.Pkgs["time"].Type("Time").Type()}
		if f == nil {
			st[0] = ch
		}
		var vt *vtimer
		vt = g.p.addTimer(d, func() {
			if f != nil {
				g.p.main.spawnAt(f, name)
				return
			}
			if len(ch.buf) == 0 {
				now := g.p.main.callFn(nil, g.p.cfg.Prog.fn("time", "Now"), nil, nil)
				if w := ch.popRecv(); w != nil {
					w.give(now, true)
				} else {
					ch.buf = append(ch.buf, now)
				}
			}
		})
		vt.period = period
		g.p.side[timerKey{Ptr(v)}] = &timerRec{vt, ch}
		return Ptr(v)
	}
	I["time.NewTimer"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return mkTimer(g, "Timer", T(a[0]), nil, nil)
	}
	I["time.AfterFunc"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return mkTimer(g, "Timer", T(a[0]), nil, a[1])
	}
	I["time.After"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return (*mkTimer(g, "Timer", T(a[0]), nil, nil).(Ptr)).(Struct)[0]
	}
	I["time.NewTicker"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		b := g.p.b
		if g.p.decide(b.SLe(T(a[0]), b.Const(0, 64))) {
			g.throw(Iface{types.Typ[types.String], "non-positive interval for NewTicker"}, false)
		}
		return mkTimer(g, "Ticker", T(a[0]), T(a[0]), nil)
	}
	I["time.Tick"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return (*mkTimer(g, "Ticker", T(a[0]), T(a[0]), nil).(Ptr)).(Struct)[0]
	}
	stop := func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		r, ok := g.p.side[timerKey{g.nn(a[0])}].(*timerRec)
		was := false
		if ok {
			was = r.t.active
			r.t.active = false
			if len(r.c.buf) > 0 {
				was = true
			}
			r.c.buf = nil
		}
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return g.p.b.Bool(was)
	}
	I["(*time.Timer).Stop"] = stop
	I["(*time.Ticker).Stop"] = stop
	reset := func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		r, ok := g.p.side[timerKey{g.nn(a[0])}].(*timerRec)
		if !ok {
			g.throw(Iface{types.Typ[types.String], "time: Reset called on uninitialized Timer"}, false)
		}
		was := r.t.active || len(r.c.buf) > 0
		r.t.active = false
		r.c.buf = nil
		nt := g.p.addTimer(T(a[1]), r.t.fire)
		if r.t.period != nil {
			nt.period = T(a[1])
		}
		r.t = nt
		if fn.Signature.Results().Len() == 0 {
			return nil
		}
		return g.p.b.Bool(was)
	}
	I["(*time.Timer).Reset"] = reset
	I["(*time.Ticker).Reset"] = reset

	// ---- runtime, os ----
	nop := func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return resultZero(g, fn) }
	for _, n := range []string{"runtime.Gosched", "runtime.Callers", "time.initLocal", "runtime.GC", "runtime/debug.FreeOSMemory", "runtime.KeepAlive", "runtime.SetFinalizer", "runtime/debug.PrintStack",
		"internal/race.Acquire", "internal/race.Release", "internal/race.Enable", "internal/race.Disable"} {
		I[n] = nop
	}
	I["syscall.runtime_envs"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return Slice{} }
	I["os.Getpid"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return g.p.b.Const(1, 64) }
	I["os.Exit"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		g.p.violation(g, "panic", "os.Exit called", nil)
		panic(&abort{"violation", "exit"})
	}

	// ---- errors, fmt ----
	I["errors.As"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return g.errorsAs(a[0].(Iface), a[1].(Iface))
	}
	I["fmt.Sprintf"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return g.sprintf(g.str(a[0]), a[1].(Slice))
	}
	I["fmt.Sprint"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		var r Value = ""
		s := a[0].(Slice)
		for i, x := range s {
			if i > 0 {
				_, s1 := s[i-1].(Iface).v.(string)
				_, s2 := x.(Iface).v.(string)
				if !s1 && !s2 {
					r = g.concat(r, " ")
				}
			}
			r = g.concat(r, g.fmtArg('v', x.(Iface), ""))
		}
		return r
	}
	I["fmt.Errorf"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		f := g.str(a[0])
		args := a[1].(Slice)
		msg := g.sprintf(f, args)
		if strings.Contains(f, "%w") {
			// one wrapped error
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] == '%' {
					if f[i+1] == '%' {
						i++
						continue
					}
					if f[i+1] == 'w' && n < len(args) {
						t := g.p.cfg.Prog.Pkgs["fmt"].Type("wrapError").Type()
						v := new(Value)
						e := args[n].(Iface)
						*v = Struct{msg, e}
						return Iface{types.NewPointer(t), Ptr(v)}
					}
					n++
				}
			}
		}
		return g.mkError(msg)
	}
	I["fmt.Println"] = nop
	I["fmt.Printf"] = nop
	I["fmt.Print"] = nop
	I["fmt.Fprintf"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		msg := g.sprintf(g.str(a[1]), a[2].(Slice))
		w := a[0].(Iface)
		m := g.p.cfg.Prog.findMethod(w.t, nil, "Write")
		if m == nil {
			panic(unsupported("Fprintf to %s", w.t))
		}
		bs := g.convert(types.NewSlice(types.Typ[types.Uint8]), types.Typ[types.String], msg)
		return g.callFn(fr, m, []Value{copyVal(w.v), bs}, nil)
	}

	// ---- bytealg and friends ----
	sbytes := func(g *Gor, v Value) []*Term {
		if s, ok := v.(Slice); ok {
			r := make([]*Term, len(s))
			for i := range s {
				r[i] = s[i].(*Term)
			}
			return r
		}
		return g.p.b.strBytes(v)
	}
	indexByte := func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		b := g.p.b
		if s, ok := a[0].(string); ok && T(a[1]).isConst() {
			return b.Const(uint64(strings.IndexByte(s, byte(T(a[1]).val))), 64)
		}
		for i, c := range sbytes(g, a[0]) {
			if g.p.decide(b.Eq(c, T(a[1]))) {
				return b.Const(uint64(i), 64)
			}
		}
		return b.Const(^uint64(0), 64)
	}
	for _, n := range []string{"internal/bytealg.IndexByte", "internal/bytealg.IndexByteString", "strings.IndexByte", "bytes.IndexByte"} {
		I[n] = indexByte
	}
	lastIndexByte := func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		b := g.p.b
		bs := sbytes(g, a[0])
		for i := len(bs) - 1; i >= 0; i-- {
			if g.p.decide(b.Eq(bs[i], T(a[1]))) {
				return b.Const(uint64(i), 64)
			}
		}
		return b.Const(^uint64(0), 64)
	}
	for _, n := range []string{"internal/bytealg.LastIndexByteString", "internal/bytealg.LastIndexByte", "strings.LastIndexByte", "internal/stringslite.LastIndexByte"} {
		I[n] = lastIndexByte
	}
	index := func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		b := g.p.b
		if s, ok := a[0].(string); ok {
			if t, ok := a[1].(string); ok {
				return b.Const(uint64(strings.Index(s, t)), 64)
			}
		}
		x, y := sbytes(g, a[0]), sbytes(g, a[1])
		for i := 0; i+len(y) <= len(x); i++ {
			cs := make([]*Term, len(y))
			for j := range y {
				cs[j] = b.Eq(x[i+j], y[j])
			}
			if g.p.decide(b.And(cs...)) {
				return b.Const(uint64(i), 64)
			}
		}
		return b.Const(^uint64(0), 64)
	}
	for _, n := range []string{"strings.Index", "bytes.Index", "internal/bytealg.Index", "internal/bytealg.IndexString", "internal/stringslite.Index"} {
		I[n] = index
	}
	count := func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		n := 0
		for _, c := range sbytes(g, a[0]) {
			if g.p.decide(g.p.b.Eq(c, T(a[1]))) {
				n++
			}
		}
		return g.p.b.Const(uint64(n), 64)
	}
	I["internal/bytealg.Count"] = count
	I["internal/bytealg.CountString"] = count
	I["bytes.Equal"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		b := g.p.b
		x, y := sbytes(g, a[0]), sbytes(g, a[1])
		if len(x) != len(y) {
			return b.False
		}
		cs := make([]*Term, len(x))
		for i := range x {
			cs[i] = b.Eq(x[i], y[i])
		}
		return b.And(cs...)
	}
	I["internal/bytealg.Equal"] = I["bytes.Equal"]
	I["internal/bytealg.MakeNoZero"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		n := int(g.intVal(a[0]))
		return g.p.b.makeSlice(types.Typ[types.Uint8], n, n)
	}
	I["internal/bytealg.Compare"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		b := g.p.b
		x, y := mkStr(sbytes(g, a[0])), mkStr(sbytes(g, a[1]))
		return b.Ite(b.strEq(x, y), b.Const(0, 64), b.Ite(b.strLess(x, y, false), b.Const(^uint64(0), 64), b.Const(1, 64)))
	}
	I["internal/bytealg.CompareString"] = I["internal/bytealg.Compare"]
	I["strings.Compare"] = I["internal/bytealg.Compare"]
	I["strings.Clone"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] }
	I["internal/stringslite.Clone"] = I["strings.Clone"]
	I["internal/abi.NoEscape"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] }
	I["internal/abi.Escape"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return a[0] }
	I["(*strings.Builder).copyCheck"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return nil }
	I["(*strings.Builder).String"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		st := (*g.nn(a[0])).(Struct)
		return g.convert(types.Typ[types.String], types.NewSlice(types.Typ[types.Uint8]), st[len(st)-1])
	}

	// strconv on concrete text
	I["strconv.Itoa"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return strconv.FormatInt(g.intVal(a[0]), 10)
	}
	I["strconv.FormatInt"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return strconv.FormatInt(g.intVal(a[0]), int(g.intVal(a[1])))
	}
	I["strconv.FormatUint"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		return strconv.FormatUint(uint64(g.intVal(a[0])), int(g.intVal(a[1])))
	}

	// sort.Slice: insertion sort through the comparison function
	sortSlice := func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		s := a[0].(Iface).v.(Slice)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := g.callValue(fr, a[1], []Value{g.p.b.Const(uint64(j), 64), g.p.b.Const(uint64(j-1), 64)})
				if !g.p.decide(T(r)) {
					break
				}
				x, y := copyVal(s[j]), copyVal(s[j-1])
				storeTo(&s[j], y)
				storeTo(&s[j-1], x)
			}
		}
		return nil
	}
	I["sort.Slice"] = sortSlice
	I["sort.SliceStable"] = sortSlice

	// math/rand: any value
	I["math/rand.Intn"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		n := g.intVal(a[0])
		return g.p.newVar("rand", "Int", BV(64), 0, uint64(n-1))
	}
}

type wgKey struct{ p Ptr }
type onceKey struct{ p Ptr }
type smapKey struct{ p Ptr }
type avKey struct{ p Ptr }
type timerKey struct{ p Ptr }
type timerRec struct {
	t *vtimer
	c *Chan
}

func (g *Gor) nn(v Value) Ptr {
	p, ok := v.(Ptr)
	if !ok {
		panic(unsupported("pointer expected, got %T", v))
	}
	if p == nil {
		g.throwRT("invalid memory address or nil pointer dereference", false)
	}
	return p
}

func (g *Gor) lockPtr(v Value) { g.lock(g.nn(v)) }

// spawnAt starts a goroutine running f (timer callbacks).
func (g *Gor) spawnAt(f Value, name string) {
	n := g.p.newGor(name, func(ng *Gor) { ng.callValue(nil, f, nil) })
	n.vcJoin(g.vcSnap(nil))
	n.tick()
}

func (g *Gor) errorsAs(err, target Iface) Value {
	b := g.p.b
	pt := target.t.Underlying().(*types.Pointer)
	tt := pt.Elem()
	for err.t != nil {
		ok := false
		if it, isI := tt.Underlying().(*types.Interface); isI {
			ok = g.p.cfg.Prog.implements(err.t, it)
			if ok {
				storeTo(target.v.(Ptr), err)
			}
		} else if types.Identical(err.t, tt) {
			ok = true
			storeTo(target.v.(Ptr), err.v)
		}
		if ok {
			return b.True
		}
		r, has := g.callMethodOpt(err, "Unwrap")
		if !has {
			break
		}
		e, isI := r.(Iface)
		if !isI {
			break
		}
		err = e
	}
	return b.False
}

func (g *Gor) callMethodOpt(v Iface, name string) (Value, bool) {
	return g.callMethod(v, name)
}

// ---- formatting ----

func (g *Gor) sprintf(f string, args Slice) Value {
	var out Value = ""
	n, indexed := 0, false
	var lit strings.Builder
	flush := func() {
		if lit.Len() > 0 {
			out = g.concat(out, lit.String())
			lit.Reset()
		}
	}
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			lit.WriteByte(f[i])
			continue
		}
		j := i + 1
		if j < len(f) && f[j] == '[' {
			e := strings.IndexByte(f[j:], ']')
			k, err := 0, error(nil)
			if e > 0 {
				k, err = strconv.Atoi(f[j+1 : j+e])
			}
			if e <= 0 || err != nil || k < 1 || k > len(args) {
				panic(unsupported("format %q", f))
			}
			n, indexed = k-1, true
			j += e + 1
		}
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit.WriteString("%!(NOVERB)")
			break
		}
		flags := f[i+1 : j]
		verb := f[j]
		i = j
		if verb == '*' || verb == '[' {
			panic(unsupported("format %q", f))
		}
		if verb == '%' {
			lit.WriteByte('%')
			continue
		}
		if n >= len(args) {
			lit.WriteString("%!" + string(verb) + "(MISSING)")
			continue
		}
		flush()
		out = g.concat(out, g.fmtArg(verb, args[n].(Iface), flags))
		n++
	}
	flush()
	if n < len(args) && !indexed {
		out = g.concat(out, "%!(EXTRA "+fmt.Sprint(len(args)-n)+")")
	}
	return out
}

func (g *Gor) fmtArg(verb byte, v Iface, flags string) Value {
	if v.t == nil {
		if verb == 'v' || verb == 'w' {
			return "<nil>"
		}
		return "%!" + string(verb) + "(<nil>)"
	}
	switch verb {
	case 'T':
		return v.t.String()
	case 'v', 's', 'w', 'q':
		if pt, isP := v.v.(Ptr); isP && pt == nil {
			return "<nil>"
		}
		for _, m := range []string{"Error", "String"} {
			if fn := g.p.cfg.Prog.findMethod(v.t, nil, m); fn != nil && fn.Signature.Params().Len() == 0 && fn.Signature.Results().Len() == 1 && isString(fn.Signature.Results().At(0).Type()) {
				return g.callFn(g.top, fn, []Value{copyVal(v.v)}, nil)
			}
		}
	}
	switch x := v.v.(type) {
	case string:
		if verb == 'q' {
			return strconv.Quote(x)
		}
		if verb == 's' || verb == 'v' {
			return fmt.Sprintf("%"+flags+"s", x)
		}
		return fmt.Sprintf("%"+flags+string(verb), x)
	case *SStr:
		return x
	case *DocStr:
		return "<json>"
	case *Term:
		if x.sort.K == KBool {
			if !x.isConst() {
				return "<bool>"
			}
			return strconv.FormatBool(x.val != 0)
		}
		if x.sort.K == KFP {
			if !x.isConst() {
				return "<float>"
			}
			return fmt.Sprintf("%"+flags+string(verb), x.f())
		}
		if !x.isConst() {
			return "<" + x.sort.smt() + ">"
		}
		_, signed, _ := intInfo(v.t)
		if signed {
			return fmt.Sprintf("%"+flags+string(verb), sext(x.val, x.w()))
		}
		return fmt.Sprintf("%"+flags+string(verb), x.val)
	}
	return "<" + v.t.String() + ">"
}

// evalStr renders a value under the path's model, for traces compared with the native run.
func (p *Path) evalStr(v Value) string {
	switch v := v.(type) {
	case Iface:
		if v.t == nil {
			return "<nil>"
		}
		if t, ok := v.v.(*Term); ok && t.sort.K == KBV {
			x := p.b.Eval(t, p.model)
			if _, signed, _ := intInfo(v.t); signed {
				return strconv.FormatInt(sext(x, t.w()), 10)
			}
			return strconv.FormatUint(x, 10)
		}
		return p.evalStr(v.v)
	case *Term:
		x := p.b.Eval(v, p.model)
		switch v.sort.K {
		case KBool:
			return strconv.FormatBool(x != 0)
		case KFP:
			return fmt.Sprintf("f%x", x)
		}
		return strconv.FormatUint(x, 10)
	case string:
		return strconv.Quote(v)
	case *SStr:
		bs := make([]byte, len(v.b))
		for i, t := range v.b {
			bs[i] = byte(p.b.Eval(t, p.model))
		}
		return strconv.Quote(string(bs))
	case Slice:
		if v == nil {
			return "[]"
		}
		parts := make([]string, len(v))
		for i, x := range v {
			parts[i] = p.evalStr(x)
		}
		return "[" + strings.Join(parts, " ") + "]"
	}
	return fmt.Sprintf("?%T", v)
}

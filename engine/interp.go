package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type frame struct {
	g         *Gor
	caller    *frame
	fi        *fnInfo
	fn        *ssa.Function
	env       []Value
	block     int
	prev      int
	defers    *deferred
	result    Value
	panicking bool
	panicv    targetPanic
	recovered bool
	cur       ssa.Instruction
	initMode  bool
	yielded   bool // the library call of this frame was a scheduling point already
}

type deferred struct {
	fn    Value
	args  []Value
	instr *ssa.Defer
	tail  *deferred
}

func (g *Gor) where() string {
	prog := g.p.cfg.Prog
	for fr := g.top; fr != nil; fr = fr.caller {
		if fr.cur == nil {
			continue
		}
		pos := fr.cur.Pos()
		if pos == token.NoPos {
			pos = fr.fn.Pos()
		}
		f := prog.Fset.Position(pos)
		if strings.HasPrefix(f.Filename, prog.Repo+"/") || strings.Contains(f.Filename, "vharness") {
			return fmt.Sprintf("%s:%d (%s)", strings.TrimPrefix(f.Filename, prog.Repo+"/"), f.Line, fr.fn.Name())
		}
	}
	return ""
}

func (g *Gor) stack() string {
	var sb strings.Builder
	for fr := g.top; fr != nil; fr = fr.caller {
		sb.WriteString(fr.fn.String())
		if fr.cur != nil {
			f := g.p.cfg.Prog.Fset.Position(fr.cur.Pos())
			fmt.Fprintf(&sb, ":%d", f.Line)
		}
		sb.WriteString(" < ")
	}
	return sb.String()
}

func (p *Path) constVal(i int) Value {
	w := p.w
	for len(w.consts) <= i {
		w.consts = append(w.consts, nil)
	}
	if v := w.consts[i]; v != nil {
		return v
	}
	constMu.Lock()
	c := constTab[i]
	constMu.Unlock()
	v := p.b.constOf(c)
	switch v.(type) {
	case Struct, Array:
		return v
	}
	w.consts[i] = v
	return v
}

func (b *TB) constOf(c *ssa.Const) Value {
	if c.Value == nil {
		return b.zero(c.Type())
	}
	t := c.Type()
	if w, signed, ok := intInfo(t); ok {
		if signed {
			return b.Const(uint64(c.Int64()), w)
		}
		return b.Const(c.Uint64(), w)
	}
	if w := floatWidth(t); w != 0 {
		f, _ := constant.Float64Val(constant.ToFloat(c.Value))
		return b.FConst(f, w)
	}
	if isBool(t) {
		return b.Bool(constant.BoolVal(c.Value))
	}
	if isString(t) {
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		return string(rune(c.Int64()))
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return Ptr(nil)
	}
	return Poison{"constant of type " + t.String()}
}

func (fr *frame) op(o *opnd) Value {
	switch o.kind {
	case 1:
		return fr.env[o.idx]
	case 2:
		return fr.g.p.constVal(o.idx)
	case 3:
		return fr.g.p.global(fr.g, o.glob)
	case 4:
		return o.fnv
	case 5:
		return o.bi
	}
	return nil
}

func (fr *frame) get(ci *cins, i int) Value { return fr.op(&ci.ops[i]) }

func (g *Gor) throw(v Iface, rt bool) {
	panic(targetPanic{v: v, rt: rt, where: g.where()})
}

// throwRT raises a runtime error of the interpreted program.
func (g *Gor) throwRT(msg string, plain bool) {
	g.throw(g.p.cfg.Prog.rtError(msg), true)
}

func (p *Path) panicText(g *Gor, t targetPanic) string {
	return "panic: " + p.describe(g, t.v)
}

func (p *Path) describe(g *Gor, v Iface) string {
	if v.t == nil {
		return "nil"
	}
	if s, ok := v.v.(string); ok {
		if t := v.t.String(); strings.Contains(t, "runtime") {
			return "runtime error: " + s
		}
		return s
	}
	if g != nil {
		if s, ok := g.tryError(v); ok {
			return s
		}
	}
	return v.t.String()
}

// callValue calls a function value.
func (g *Gor) callValue(caller *frame, f Value, args []Value) Value {
	switch f := f.(type) {
	case *Closure:
		if f == nil {
			g.throwRT("invalid memory address or nil pointer dereference", false)
		}
		if f.native != nil {
			return f.native(g, args)
		}
		return g.callFn(caller, f.fn, args, f.env)
	case *ssa.Builtin:
		return g.builtin(caller, nil, f, args, nil)
	}
	panic(unsupported("call of %T", f))
}

func (g *Gor) callFn(caller *frame, fn *ssa.Function, args []Value, env []Value) Value {
	p := g.p
	fi := getInfo(fn)
	if st, ok := p.cfg.Stubs[fi.key]; ok && st != fn {
		p.w.natives["stub "+fi.key]++
		return g.callFn(caller, st, args, nil)
	}
	if h := lookupIntrinsic(fi); h != nil {
		p.w.natives[fi.key]++
		return h(g, caller, fn, args)
	}
	if len(fi.blocks) == 0 {
		panic(unsupported("no body: %s (called by %s)", fi.key, g.stack()))
	}
	if g.depth > 400 {
		panic(unsupported("call depth: %s", fi.key))
	}
	p.w.funcs[fn]++
	fr := &frame{g: g, caller: caller, fi: fi, fn: fn, env: make([]Value, fi.nslots), prev: -1}
	for i, s := range fi.params {
		fr.env[s] = args[i]
	}
	for i, s := range fi.free {
		fr.env[s] = env[i]
	}
	g.depth++
	old := g.top
	g.top = fr
	defer func() {
		g.depth--
		g.top = old
	}()
	fr.run()
	return fr.result
}

// run executes the frame, handling panics and deferred calls of the interpreted program.
func (fr *frame) run() {
	fr.runBody()
	for fr.recovered {
		// resume in the recover block
		fr.recovered = false
		if fr.fn.Recover == nil {
			fr.result = fr.zeroResult()
			return
		}
		fr.prev = -1
		fr.block = fr.fn.Recover.Index
		fr.runBody()
	}
}

func (fr *frame) zeroResult() Value {
	r := fr.fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return fr.g.p.b.zero(r.At(0).Type())
	}
	return fr.g.p.b.zero(r)
}

func (fr *frame) runBody() {
	if fr.fn.Recover != nil || fr.hasDefers() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			tp, ok := x.(targetPanic)
			if !ok {
				if r, ok := x.(rtPanic); ok {
					tp = targetPanic{v: fr.g.p.cfg.Prog.rtError(string(r)), rt: true, where: fr.g.where()}
				} else {
					panic(x)
				}
			}
			fr.g.top = fr
			fr.panicking = true
			fr.panicv = tp
			fr.runDefers()
			if fr.panicking {
				panic(fr.panicv)
			}
			fr.recovered = true
		}()
	}
	fr.loop()
}

func (fr *frame) hasDefers() bool {
	// functions with defers always have a Recover block in go/ssa unless results are unnamed;
	// scan lazily
	for i := range fr.fi.blocks {
		for j := range fr.fi.blocks[i].ins {
			if _, ok := fr.fi.blocks[i].ins[j].in.(*ssa.Defer); ok {
				return true
			}
		}
	}
	return false
}

func (fr *frame) runDefers() {
	for d := fr.defers; d != nil; d = fr.defers {
		fr.defers = d.tail
		fr.runDefer(d)
	}
}

func (fr *frame) runDefer(d *deferred) {
	ok := false
	defer func() {
		if !ok {
			x := recover()
			if r, isrt := x.(rtPanic); isrt {
				x = targetPanic{v: fr.g.p.cfg.Prog.rtError(string(r)), rt: true}
			}
			tp, isT := x.(targetPanic)
			if !isT {
				panic(x)
			}
			fr.g.top = fr
			fr.panicking = true
			fr.panicv = tp
		}
	}()
	if b, isb := d.fn.(*ssa.Builtin); isb {
		fr.g.builtin(fr, d.instr, b, d.args, nil)
	} else {
		fr.g.callValue(fr, d.fn, d.args)
	}
	ok = true
}

func (fr *frame) loop() {
	g := fr.g
	p := g.p
	for {
		cb := &fr.fi.blocks[fr.block]
		if cb.nphi > 0 {
			edge := -1
			for i, pr := range fr.fn.Blocks[fr.block].Preds {
				if pr.Index == fr.prev {
					edge = i
					break
				}
			}
			tmp := make([]Value, cb.nphi)
			for i := 0; i < cb.nphi; i++ {
				tmp[i] = fr.op(&cb.ins[i].ops[edge])
			}
			for i := 0; i < cb.nphi; i++ {
				fr.env[cb.ins[i].dst] = tmp[i]
			}
		}
		next := -1
		for i := cb.nphi; i < len(cb.ins); i++ {
			ci := &cb.ins[i]
			fr.cur = ci.in
			p.steps++
			if p.steps > p.cfg.MaxSteps {
				panic(&abort{"steps", fmt.Sprintf("%d steps in %s", p.cfg.MaxSteps, g.where())})
			}
			switch in := ci.in.(type) {
			case *ssa.Jump:
				next = fr.fn.Blocks[fr.block].Succs[0].Index
			case *ssa.If:
				c := fr.get(ci, 0).(*Term)
				if !c.isConst() {
					if j := fr.tryMerge(c); j >= 0 {
						next = -2
						fr.block = j
						break
					}
				}
				if p.decide(c) {
					next = fr.fn.Blocks[fr.block].Succs[0].Index
				} else {
					next = fr.fn.Blocks[fr.block].Succs[1].Index
				}
			case *ssa.Return:
				switch len(ci.ops) {
				case 0:
				case 1:
					fr.result = fr.get(ci, 0)
				default:
					r := make(Tuple, len(ci.ops))
					for k := range ci.ops {
						r[k] = fr.get(ci, k)
					}
					fr.result = r
				}
				return
			case *ssa.Panic:
				v := fr.get(ci, 0).(Iface)
				if v.t == nil {
					g.throwRT("panic called with nil argument (use GODEBUG=panicnil=1 to disable)", false)
				}
				g.throw(v, false)
			default:
				if fr.initMode {
					fr.safeExec(ci)
				} else {
					fr.exec(in, ci)
				}
			}
			if next != -1 {
				break
			}
		}
		if next == -2 {
			continue // merged: prev and block are set
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func (fr *frame) set(ci *cins, v Value) { fr.env[ci.dst] = v }

func (fr *frame) exec(instr ssa.Instruction, ci *cins) {
	g := fr.g
	p := g.p
	b := p.b
	switch in := instr.(type) {
	case *ssa.UnOp:
		fr.set(ci, g.unop(in, fr.get(ci, 0)))
	case *ssa.BinOp:
		fr.set(ci, g.binop(in.Op, in.X.Type(), fr.get(ci, 0), fr.get(ci, 1), in.Y.Type()))
	case *ssa.Call:
		fr.set(ci, fr.doCall(&in.Call, ci, in))
	case *ssa.ChangeInterface:
		fr.set(ci, fr.get(ci, 0))
	case *ssa.ChangeType:
		fr.set(ci, fr.get(ci, 0))
	case *ssa.Convert:
		fr.set(ci, g.convert(in.Type(), in.X.Type(), fr.get(ci, 0)))
	case *ssa.MultiConvert:
		fr.set(ci, g.convert(in.Type(), in.X.Type(), fr.get(ci, 0)))
	case *ssa.SliceToArrayPointer:
		s := fr.get(ci, 0).(Slice)
		at := derefType(in.Type()).Underlying().(*types.Array)
		n := int(at.Len())
		if len(s) < n {
			g.throwRT(fmt.Sprintf("cannot convert slice with length %d to array or pointer to array with length %d", len(s), n), false)
		}
		if n == 0 && s == nil {
			fr.set(ci, Ptr(nil))
		} else {
			var v Value = Array(s[:n:n])
			fr.set(ci, Ptr(&v))
		}
	case *ssa.MakeInterface:
		fr.set(ci, Iface{in.X.Type(), copyVal(fr.get(ci, 0))})
	case *ssa.Extract:
		fr.set(ci, fr.get(ci, 0).(Tuple)[in.Index])
	case *ssa.Slice:
		fr.set(ci, g.slice(in, fr.get(ci, 0), fr.get(ci, 1), fr.get(ci, 2), fr.get(ci, 3)))
	case *ssa.Store:
		g.storeV(fr.get(ci, 0), fr.get(ci, 1))
	case *ssa.MapUpdate:
		m := fr.get(ci, 0).(*Map)
		if m == nil {
			g.throwRT("assignment to entry in nil map", true)
		}
		g.mapAccess(m, true)
		m.put(g, fr.get(ci, 1), copyVal(fr.get(ci, 2)))
	case *ssa.Lookup:
		fr.set(ci, g.lookup(in, fr.get(ci, 0), fr.get(ci, 1)))
	case *ssa.Alloc:
		v := new(Value)
		*v = b.zero(derefType(in.Type()))
		fr.set(ci, Ptr(v))
	case *ssa.MakeSlice:
		ln := g.sizeVal(fr.get(ci, 0), in.Len.Type())
		cp := g.sizeVal(fr.get(ci, 1), in.Cap.Type())
		et := in.Type().Underlying().(*types.Slice).Elem()
		if ln < 0 || ln > 1<<24 {
			if ln > 1<<24 && ln < 1<<40 {
				panic(unsupported("make of %d elements", ln))
			}
			g.throwRT("makeslice: len out of range", false)
		}
		if cp < ln {
			g.throwRT("makeslice: cap out of range", false)
		}
		fr.set(ci, b.makeSlice(et, int(ln), int(cp)))
	case *ssa.MakeMap:
		mt := in.Type().Underlying().(*types.Map)
		fr.set(ci, &Map{kt: mt.Key(), vt: mt.Elem()})
	case *ssa.MakeChan:
		n := g.sizeVal(fr.get(ci, 0), in.Size.Type())
		fr.set(ci, &Chan{cap: int(n), et: in.Type().Underlying().(*types.Chan).Elem()})
	case *ssa.MakeClosure:
		env := make([]Value, len(ci.ops)-1)
		for i := range env {
			env[i] = fr.get(ci, i+1)
		}
		fr.set(ci, &Closure{fn: in.Fn.(*ssa.Function), env: env})
	case *ssa.FieldAddr:
		x := fr.get(ci, 0)
		pt, ok := x.(Ptr)
		if !ok {
			panic(unsupported("field address of %T in %s", x, fr.fn))
		}
		if pt == nil {
			g.throwRT("invalid memory address or nil pointer dereference", false)
		}
		st, ok := (*pt).(Struct)
		if !ok {
			panic(unsupported("field address in %T (%v) in %s", *pt, *pt, fr.fn))
		}
		fr.set(ci, Ptr(&st[in.Field]))
	case *ssa.Field:
		fr.set(ci, copyVal(fr.get(ci, 0).(Struct)[in.Field]))
	case *ssa.IndexAddr:
		fr.set(ci, g.indexAddr(in, fr.get(ci, 0), fr.get(ci, 1)))
	case *ssa.Index:
		fr.set(ci, g.index(in, fr.get(ci, 0), fr.get(ci, 1)))
	case *ssa.TypeAssert:
		fr.set(ci, g.typeAssert(in, fr.get(ci, 0)))
	case *ssa.Range:
		switch x := fr.get(ci, 0).(type) {
		case *Map:
			it := &mapIter{m: x}
			if x != nil {
				g.mapAccess(x, false)
				it.keys = append(it.keys, x.keys...)
			}
			fr.set(ci, it)
		default:
			fr.set(ci, &strIter{s: x})
		}
	case *ssa.Next:
		switch it := fr.get(ci, 0).(type) {
		case *mapIter:
			fr.set(ci, it.next(g))
		case *strIter:
			fr.set(ci, it.next(g))
		}
	case *ssa.Send:
		g.send(fr.get(ci, 0).(*Chan), copyVal(fr.get(ci, 1)))
	case *ssa.Go:
		f, args := fr.prepareCall(&in.Call, ci)
		g.spawn(f, args, in)
	case *ssa.Defer:
		f, args := fr.prepareCall(&in.Call, ci)
		d := &deferred{fn: f, args: args, instr: in, tail: fr.defers}
		fr.defers = d
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicking {
			panic(fr.panicv)
		}
	case *ssa.Select:
		var cases []selCase
		for i, st := range in.States {
			c := fr.get(ci, 2*i).(*Chan)
			sc := selCase{c: c, send: st.Dir == types.SendOnly}
			if sc.send {
				sc.v = copyVal(fr.get(ci, 2*i+1))
			}
			cases = append(cases, sc)
		}
		idx, v, ok := g.selectStmt(cases, in.Blocking)
		r := Tuple{b.Const(uint64(idx), 64), b.Bool(ok)}
		for i, st := range in.States {
			if st.Dir == types.RecvOnly {
				var x Value
				if i == idx {
					x = v
				} else {
					x = b.zero(st.Chan.Type().Underlying().(*types.Chan).Elem())
				}
				r = append(r, x)
			}
		}
		fr.set(ci, r)
	default:
		panic(unsupported("instruction %T", instr))
	}
}

func (b *TB) makeSlice(et types.Type, ln, cp int) Slice {
	s := make([]Value, cp)
	if isAggregate(et) {
		for i := range s {
			s[i] = b.zero(et)
		}
	} else if cp > 0 {
		z := b.zero(et)
		for i := range s {
			s[i] = z
		}
	}
	return Slice(s[:ln])
}

func (g *Gor) spawn(f Value, args []Value, in *ssa.Go) {
	name := "goroutine"
	if in != nil {
		pos := g.p.cfg.Prog.Fset.Position(in.Pos())
		name = fmt.Sprintf("goroutine@%s:%d", pos.Filename[strings.LastIndex(pos.Filename, "/")+1:], pos.Line)
	}
	n := g.p.newGor(name, func(ng *Gor) {
		ng.callValue(nil, f, args)
	})
	n.vcJoin(g.vcSnap(nil))
	n.tick()
	g.yield()
}

func (fr *frame) prepareCall(c *ssa.CallCommon, ci *cins) (Value, []Value) {
	g := fr.g
	if c.IsInvoke() {
		recv := fr.get(ci, 0)
		args := make([]Value, 0, len(ci.ops))
		for i := 1; i < len(ci.ops); i++ {
			args = append(args, copyVal(fr.get(ci, i)))
		}
		return g.lookupMethod(fr, c, recv, args)
	}
	f := fr.get(ci, 0)
	args := make([]Value, 0, len(ci.ops))
	for i := 1; i < len(ci.ops); i++ {
		args = append(args, copyVal(fr.get(ci, i)))
	}
	return f, args
}

// lookupMethod resolves an interface method call; it returns the function and full arguments.
func (g *Gor) lookupMethod(fr *frame, c *ssa.CallCommon, recv Value, args []Value) (Value, []Value) {
	p := g.p
	rv, ok := recv.(Iface)
	if !ok {
		panic(unsupported("invoke on %T (%v) in %s", recv, recv, fr.fn))
	}
	if st := p.cfg.Prog.ifaceStub(p.cfg, c); st != nil {
		p.w.natives["stub "+st.Name()]++
		return &Closure{fn: st}, append([]Value{recv}, args...)
	}
	if rv.t == nil {
		g.throwRT("invalid memory address or nil pointer dereference", false)
	}
	if n, ok := rv.v.(*Native); ok && n != nil {
		if h := nativeMethod(n, c.Method.Name()); h != nil {
			return &Closure{native: func(g *Gor, a []Value) Value { return h(g, n, a) }}, args
		}
	}
	fn := p.method(rv.t, c.Method)
	if fn == nil {
		panic(unsupported("method %s of %s", c.Method.Name(), rv.t))
	}
	return &Closure{fn: fn}, append([]Value{copyVal(rv.v)}, args...)
}

func (p *Path) method(t types.Type, m *types.Func) *ssa.Function {
	k := methKey{t, m.Id()}
	if f, ok := p.w.meths[k]; ok {
		return f
	}
	f := p.cfg.Prog.findMethod(t, m.Pkg(), m.Name())
	p.w.meths[k] = f
	return f
}

func (fr *frame) doCall(c *ssa.CallCommon, ci *cins, site *ssa.Call) Value {
	g := fr.g
	f, args := fr.prepareCall(c, ci)
	if bi, ok := f.(*ssa.Builtin); ok {
		return g.builtin(fr, site, bi, args, c)
	}
	if fr.initMode {
		if cl, ok := f.(*Closure); ok && cl != nil && cl.fn != nil && cl.fn.Synthetic == "package initializer" {
			return nil
		}
	}
	return g.callValue(fr, f, args)
}

// ---- operations ----

func (g *Gor) intVal(v Value) int64 {
	t := v.(*Term)
	x := g.p.concretize(t)
	return sext(x, t.w())
}

// sizeVal is the value of a length operand of any integer type.
func (g *Gor) sizeVal(v Value, t types.Type) int64 {
	_, signed, _ := intInfo(t)
	return g.intVal(g.p.b.Resize(v.(*Term), 64, signed))
}

func (g *Gor) load(ptr Value) Value {
	switch ptr := ptr.(type) {
	case Ptr:
		if ptr == nil {
			g.throwRT("invalid memory address or nil pointer dereference", false)
		}
		if g.p.cfg.Races {
			g.accessAll(ptr, false)
		}
		return copyVal(*ptr)
	case *SymPtr:
		return g.symLoad(ptr.base, ptr.idx)
	}
	panic(unsupported("load through %T (%v)", ptr, ptr))
}

func (g *Gor) storeV(ptr, v Value) {
	switch ptr := ptr.(type) {
	case Ptr:
		if ptr == nil {
			g.throwRT("invalid memory address or nil pointer dereference", false)
		}
		if g.p.cfg.Races {
			g.accessAll(ptr, true)
		}
		storeTo(ptr, v)
		return
	case *SymPtr:
		b := g.p.b
		x := v.(*Term)
		for i := range ptr.base {
			c := b.Eq(ptr.idx, b.Const(uint64(i), ptr.idx.w()))
			if c == b.False {
				continue
			}
			ptr.base[i] = b.Ite(c, x, ptr.base[i].(*Term))
		}
		return
	}
	panic(unsupported("store through %T (%v)", ptr, ptr))
}

func (g *Gor) symLoad(base []Value, idx *Term) Value {
	b := g.p.b
	var r *Term
	for i := len(base) - 1; i >= 0; i-- {
		x, ok := base[i].(*Term)
		if !ok {
			panic(unsupported("symbolic index over %T", base[i]))
		}
		if r == nil {
			if uint64(i) > idx.hi {
				continue
			}
			r = x
			continue
		}
		r = b.Ite(b.Eq(idx, b.Const(uint64(i), idx.w())), x, r)
	}
	return r
}

func (g *Gor) unop(in *ssa.UnOp, x Value) Value {
	b := g.p.b
	switch in.Op {
	case token.MUL:
		return g.load(x)
	case token.ARROW:
		v, ok := g.recv(x.(*Chan))
		if in.CommaOk {
			return Tuple{v, b.Bool(ok)}
		}
		return v
	case token.NOT:
		return b.Not(x.(*Term))
	case token.SUB:
		t := x.(*Term)
		if t.sort.K == KFP {
			return b.FNeg(t)
		}
		return b.Neg(t)
	case token.XOR:
		t := x.(*Term)
		return b.BXor(t, b.Const(mask(t.w()), t.w()))
	}
	panic(unsupported("unop %s", in.Op))
}

func (g *Gor) binop(op token.Token, t types.Type, x, y Value, yt types.Type) Value {
	b := g.p.b
	switch op {
	case token.EQL:
		return b.eq2(g, x, y)
	case token.NEQ:
		return b.Not(b.eq2(g, x, y))
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return g.concat(x, y)
		case token.LSS:
			return b.strLess(x, y, false)
		case token.LEQ:
			return b.strLess(x, y, true)
		case token.GTR:
			return b.strLess(y, x, false)
		case token.GEQ:
			return b.strLess(y, x, true)
		}
	}
	xt, ok := x.(*Term)
	if !ok {
		panic(unsupported("binop %s on %T (%v)", op, x, x))
	}
	yv, ok := y.(*Term)
	if !ok {
		panic(unsupported("binop %s on %T (%v)", op, y, y))
	}
	if xt.sort.K == KFP {
		switch op {
		case token.ADD:
			return b.FBin(OFAdd, xt, yv)
		case token.SUB:
			return b.FBin(OFSub, xt, yv)
		case token.MUL:
			return b.FBin(OFMul, xt, yv)
		case token.QUO:
			return b.FBin(OFDiv, xt, yv)
		case token.LSS:
			return b.FBin(OFLt, xt, yv)
		case token.LEQ:
			return b.FBin(OFLe, xt, yv)
		case token.GTR:
			return b.FBin(OFLt, yv, xt)
		case token.GEQ:
			return b.FBin(OFLe, yv, xt)
		}
		panic(unsupported("float op %s", op))
	}
	_, signed, _ := intInfo(t)
	switch op {
	case token.ADD:
		return b.Add(xt, yv)
	case token.SUB:
		return b.Sub(xt, yv)
	case token.MUL:
		return b.Mul(xt, yv)
	case token.QUO, token.REM:
		if g.p.decide(b.Eq(yv, b.Const(0, yv.w()))) {
			g.throwRT("integer divide by zero", false)
		}
		switch {
		case op == token.QUO && signed:
			return b.SDiv(xt, yv)
		case op == token.QUO:
			return b.UDiv(xt, yv)
		case signed:
			return b.SRem(xt, yv)
		}
		return b.URem(xt, yv)
	case token.AND:
		if xt.sort.K == KBool {
			return b.And(xt, yv)
		}
		return b.BAnd(xt, yv)
	case token.OR:
		if xt.sort.K == KBool {
			return b.Or(xt, yv)
		}
		return b.BOr(xt, yv)
	case token.XOR:
		return b.BXor(xt, yv)
	case token.AND_NOT:
		return b.BAnd(xt, b.BXor(yv, b.Const(mask(yv.w()), yv.w())))
	case token.SHL, token.SHR:
		_, ys, _ := intInfo(yt)
		if ys {
			if g.p.decide(b.SLt(yv, b.Const(0, yv.w()))) {
				g.throwRT("negative shift amount", false)
			}
		}
		w := xt.w()
		var s *Term
		if yv.w() > w {
			s = b.Ite(b.ULt(yv, b.Const(uint64(w), yv.w())), b.Extract(yv, 0, w), b.Const(uint64(w), w))
		} else {
			s = b.ZExt(yv, w)
		}
		if w == 8 && !s.isConst() && s.hi > 255 {
			panic("shift width")
		}
		if op == token.SHL {
			return b.Shl(xt, s)
		}
		if signed {
			return b.AShr(xt, s)
		}
		return b.LShr(xt, s)
	case token.LSS:
		if signed {
			return b.SLt(xt, yv)
		}
		return b.ULt(xt, yv)
	case token.LEQ:
		if signed {
			return b.SLe(xt, yv)
		}
		return b.ULe(xt, yv)
	case token.GTR:
		if signed {
			return b.SLt(yv, xt)
		}
		return b.ULt(yv, xt)
	case token.GEQ:
		if signed {
			return b.SLe(yv, xt)
		}
		return b.ULe(yv, xt)
	}
	panic(unsupported("binop %s", op))
}

// eq2 compares, allowing an interface against a concrete operand.
func (b *TB) eq2(g *Gor, x, y Value) *Term {
	return b.eq(x, y)
}

func (g *Gor) concat(x, y Value) Value {
	xs, ok1 := x.(string)
	ys, ok2 := y.(string)
	if ok1 && ok2 {
		return xs + ys
	}
	if ok1 && xs == "" {
		return y
	}
	if ok2 && ys == "" {
		return x
	}
	b := g.p.b
	return mkStr(append(append([]*Term(nil), b.strBytes(x)...), b.strBytes(y)...))
}

func (g *Gor) convert(dst, src types.Type, x Value) Value {
	b := g.p.b
	ud, us := dst.Underlying(), src.Underlying()
	if tp, ok := ud.(*types.Interface); ok && tp != nil {
		return x
	}
	if dw, _, ok := intInfo(ud); ok {
		if _, ss, ok := intInfo(us); ok {
			t, isT := x.(*Term)
			if !isT {
				panic(unsupported("convert %T to %s", x, dst))
			}
			return b.Resize(t, dw, ss)
		}
		if floatWidth(us) != 0 {
			_, ds, _ := intInfo(ud)
			return b.F2I(x.(*Term), dw, ds)
		}
		if bt, ok := us.(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
			panic(unsupported("uintptr(unsafe.Pointer)"))
		}
	}
	if fw := floatWidth(ud); fw != 0 {
		if _, ss, ok := intInfo(us); ok {
			return b.I2F(x.(*Term), fw, ss)
		}
		if floatWidth(us) != 0 {
			return b.F2F(x.(*Term), fw)
		}
	}
	if isString(ud) {
		if _, ss, ok := intInfo(us); ok {
			t := x.(*Term)
			_ = ss
			v := sext(g.p.concretize(t), t.w())
			if v < 0 || v > 0x10ffff {
				v = 0xfffd
			}
			return string(rune(v))
		}
		if isString(us) {
			return x
		}
		if sl, ok := us.(*types.Slice); ok {
			s, isS := x.(Slice)
			if !isS {
				if d, ok := x.(*DocStr); ok {
					return d
				}
				panic(unsupported("string(%T)", x))
			}
			if len(s) == 1 {
				if d, ok := s[0].(*DocStr); ok {
					return d
				}
			}
			if w, _, _ := intInfo(sl.Elem()); w == 8 {
				bs := make([]*Term, len(s))
				for i, v := range s {
					t, ok := v.(*Term)
					if !ok {
						panic(unsupported("string of %T element", v))
					}
					bs[i] = t
				}
				return mkStr(bs)
			}
			var rs []rune
			for _, v := range s {
				t := v.(*Term)
				rs = append(rs, rune(sext(g.p.concretize(t), 32)))
			}
			return string(rs)
		}
	}
	if sl, ok := ud.(*types.Slice); ok && isString(us) {
		if w, _, _ := intInfo(sl.Elem()); w == 8 {
			if d, ok := x.(*DocStr); ok {
				return Slice{d}
			}
			bs := b.strBytes(x)
			s := make(Slice, len(bs))
			for i, t := range bs {
				s[i] = t
			}
			return s
		}
		str, ok := x.(string)
		if !ok {
			panic(unsupported("[]rune of symbolic string"))
		}
		s := Slice{}
		for _, r := range str {
			s = append(s, b.Const(uint64(r), 32))
		}
		return s
	}
	switch ud.(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Signature, *types.Struct, *types.Array:
		return x
	}
	if bt, ok := ud.(*types.Basic); ok && bt.Kind() == types.UnsafePointer {
		if _, _, isInt := intInfo(us); isInt {
			panic(unsupported("unsafe.Pointer(uintptr)"))
		}
		return x
	}
	panic(unsupported("convert %s to %s", src, dst))
}

func (g *Gor) boundsFail(msg string) { g.throwRT(msg, false) }

func (g *Gor) slice(in *ssa.Slice, x, lo, hi, mx Value) Value {
	iv := func(v Value, def int) int64 {
		if v == nil {
			return int64(def)
		}
		t := v.(*Term)
		var r uint64
		if !t.isConst() {
			r = g.p.concretize(t)
		} else {
			r = t.val
		}
		if w, s, _ := 0, true, 0; w == 0 && s {
			return sext(r, t.w())
		}
		return int64(r)
	}
	switch x := x.(type) {
	case string, *SStr, *DocStr:
		if _, ok := x.(*DocStr); ok && lo == nil && hi == nil {
			return x
		}
		n := strLen(x)
		l, h := iv(lo, 0), iv(hi, n)
		if h < 0 || h > int64(n) {
			g.boundsFail(fmt.Sprintf("slice bounds out of range [:%d] with length %d", h, n))
		}
		if l < 0 || l > h {
			g.boundsFail(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		if s, ok := x.(string); ok {
			return s[l:h]
		}
		return mkStr(x.(*SStr).b[l:h])
	case Slice:
		return g.sliceOf(x, x == nil, lo, hi, mx, iv)
	case Ptr:
		if x == nil {
			g.throwRT("invalid memory address or nil pointer dereference", false)
		}
		a := (*x).(Array)
		return g.sliceOf(Slice(a), false, lo, hi, mx, iv)
	}
	panic(unsupported("slice of %T", x))
}

func (g *Gor) sliceOf(s Slice, isNil bool, lo, hi, mx Value, iv func(Value, int) int64) Value {
	n, c := len(s), cap(s)
	l, h, m := iv(lo, 0), iv(hi, n), iv(mx, c)
	if m < 0 || m > int64(c) {
		g.boundsFail(fmt.Sprintf("slice bounds out of range [::%d] with capacity %d", m, c))
	}
	if h < 0 || h > m {
		g.boundsFail(fmt.Sprintf("slice bounds out of range [:%d] with capacity %d", h, m))
	}
	if l < 0 || l > h {
		g.boundsFail(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
	}
	if isNil {
		return Slice(nil)
	}
	return s[l:h:m]
}

// checkIndex decides idx in range and returns the index, symbolic or concrete.
func (g *Gor) checkIndex(idx Value, it types.Type, n int) *Term {
	b := g.p.b
	t := idx.(*Term)
	_, signed, _ := intInfo(it)
	t64 := b.Resize(t, 64, signed)
	if !g.p.decide(b.ULt(t64, b.Const(uint64(n), 64))) {
		v := sext(b.Eval(t64, g.p.model), 64)
		g.throwRT(fmt.Sprintf("index out of range [%d] with length %d", v, n), false)
	}
	return t64
}

func (g *Gor) indexAddr(in *ssa.IndexAddr, x, idx Value) Value {
	var base []Value
	var et types.Type
	switch x := x.(type) {
	case Slice:
		base = x
		et = in.X.Type().Underlying().(*types.Slice).Elem()
	case Ptr:
		if x == nil {
			g.throwRT("invalid memory address or nil pointer dereference", false)
		}
		a, ok := (*x).(Array)
		if !ok {
			panic(unsupported("index address in %T (%v)", *x, *x))
		}
		base = a
		et = derefType(in.X.Type()).Underlying().(*types.Array).Elem()
	default:
		panic(unsupported("index address of %T", x))
	}
	t := g.checkIndex(idx, in.Index.Type(), len(base))
	if t.isConst() {
		return Ptr(&base[t.val])
	}
	if isScalar(et) && len(base) <= 4096 {
		return &SymPtr{base, t}
	}
	i := g.p.concretize(t)
	return Ptr(&base[i])
}

func (g *Gor) index(in *ssa.Index, x, idx Value) Value {
	switch x := x.(type) {
	case Array:
		t := g.checkIndex(idx, in.Index.Type(), len(x))
		if t.isConst() {
			return copyVal(x[t.val])
		}
		if isScalar(in.Type()) {
			return g.symLoad(x, t)
		}
		return copyVal(x[g.p.concretize(t)])
	case string, *SStr:
		return g.strIndex(x, idx, in.Index.Type())
	}
	panic(unsupported("index of %T", x))
}

func (g *Gor) strIndex(x, idx Value, it types.Type) Value {
	b := g.p.b
	n := strLen(x)
	t := g.checkIndex(idx, it, n)
	if t.isConst() {
		if s, ok := x.(string); ok {
			return b.Const(uint64(s[t.val]), 8)
		}
		return x.(*SStr).b[t.val]
	}
	bs := b.strBytes(x)
	vs := make([]Value, len(bs))
	for i := range bs {
		vs[i] = bs[i]
	}
	return g.symLoad(vs, t)
}

func (g *Gor) lookup(in *ssa.Lookup, x, k Value) Value {
	b := g.p.b
	m, ok := x.(*Map)
	if !ok {
		return g.strIndex(x, k, in.Index.Type())
	}
	var v Value
	found := false
	if m != nil {
		g.mapAccess(m, false)
		if i := m.find(g, k); i >= 0 {
			v = copyVal(m.vals[i])
			found = true
		}
	}
	if !found {
		v = b.zero(in.X.Type().Underlying().(*types.Map).Elem())
	}
	if in.CommaOk {
		return Tuple{v, b.Bool(found)}
	}
	return v
}

func (g *Gor) mapAccess(m *Map, write bool) {
	if !g.p.cfg.Races {
		return
	}
	c, _ := g.p.side[m].(Ptr)
	if c == nil {
		c = new(Value)
		g.p.side[m] = c
	}
	g.access(c, write)
}

type mapIter struct {
	m    *Map
	keys []Value
	i    int
}

func (it *mapIter) next(g *Gor) Value {
	b := g.p.b
	for it.i < len(it.keys) {
		k := it.keys[it.i]
		it.i++
		if j := it.m.find(g, k); j >= 0 {
			return Tuple{b.True, copyVal(k), copyVal(it.m.vals[j])}
		}
	}
	return Tuple{b.False, nil, nil}
}

type strIter struct {
	s Value
	i int
}

func (it *strIter) next(g *Gor) Value {
	b := g.p.b
	n := strLen(it.s)
	if it.i >= n {
		return Tuple{b.False, b.Const(0, 64), b.Const(0, 32)}
	}
	i := it.i
	if s, ok := it.s.(string); ok {
		r, w := utf8.DecodeRuneInString(s[i:])
		it.i += w
		return Tuple{b.True, b.Const(uint64(i), 64), b.Const(uint64(r), 32)}
	}
	c := it.s.(*SStr).b[i]
	if g.p.decide(b.ULt(c, b.Const(0x80, 8))) {
		it.i++
		return Tuple{b.True, b.Const(uint64(i), 64), b.ZExt(c, 32)}
	}
	f := g.p.cfg.Prog.fn("unicode/utf8", "DecodeRuneInString")
	r := g.callFn(nil, f, []Value{mkStr(it.s.(*SStr).b[i:])}, nil).(Tuple)
	it.i += int(g.intVal(r[1]))
	return Tuple{b.True, b.Const(uint64(i), 64), r[0]}
}

func (g *Gor) typeAssert(in *ssa.TypeAssert, x Value) Value {
	b := g.p.b
	v, isI := x.(Iface)
	if !isI {
		panic(unsupported("type assertion on %T (%v)", x, x))
	}
	ok := false
	var r Value
	if it, isIface := in.AssertedType.Underlying().(*types.Interface); isIface {
		r = Iface{}
		if v.t != nil {
			if _, nat := v.v.(*Native); nat && v.t == nativeType {
				ok = true
			} else {
				ok = g.p.cfg.Prog.implements(v.t, it)
			}
			if ok {
				r = v
			}
		}
	} else {
		r = b.zero(in.AssertedType)
		if v.t != nil && (v.t == in.AssertedType || types.Identical(v.t, in.AssertedType)) {
			ok = true
			r = copyVal(v.v)
		}
	}
	if in.CommaOk {
		return Tuple{r, b.Bool(ok)}
	}
	if !ok {
		msg := "interface conversion: interface is nil, not " + in.AssertedType.String()
		if v.t != nil {
			msg = fmt.Sprintf("interface conversion: interface is %s, not %s", v.t, in.AssertedType)
		}
		g.throw(g.p.cfg.Prog.rtError(msg), true)
	}
	return r
}

func (g *Gor) builtin(fr *frame, site ssa.Instruction, bi *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	p := g.p
	b := p.b
	switch bi.Name() {
	case "len":
		switch x := args[0].(type) {
		case string, *SStr:
			return b.Const(uint64(strLen(x)), 64)
		case *DocStr:
			return b.Const(uint64(64+x.id), 64)
		case Slice:
			if len(x) == 1 {
				if d, ok := x[0].(*DocStr); ok {
					return b.Const(uint64(64+d.id), 64)
				}
			}
			return b.Const(uint64(len(x)), 64)
		case *Map:
			if x == nil {
				return b.Const(0, 64)
			}
			g.mapAccess(x, false)
			return b.Const(uint64(len(x.keys)), 64)
		case *Chan:
			if x == nil {
				return b.Const(0, 64)
			}
			return b.Const(uint64(len(x.buf)), 64)
		case Array:
			return b.Const(uint64(len(x)), 64)
		case Ptr:
			return b.Const(uint64(len((*x).(Array))), 64)
		}
		panic(unsupported("len of %T (%v)", args[0], args[0]))
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return b.Const(uint64(cap(x)), 64)
		case *Chan:
			return b.Const(uint64(x.cap), 64)
		case Array:
			return b.Const(uint64(len(x)), 64)
		}
	case "append":
		s := args[0].(Slice)
		if len(args) == 1 {
			return s
		}
		var add []Value
		switch y := args[1].(type) {
		case Slice:
			add = y
		case string, *SStr:
			for _, t := range b.strBytes(y) {
				add = append(add, t)
			}
		case *DocStr:
			add = []Value{y}
		default:
			panic(unsupported("append of %T", y))
		}
		if len(add) == 0 {
			return s
		}
		n := len(s) + len(add)
		if n <= cap(s) {
			s2 := s[:n]
			for i, v := range add {
				s2[len(s)+i] = copyVal(v)
			}
			return s2
		}
		// growth like the Go runtime is not observable except through cap; use doubling
		nc := cap(s) * 2
		if nc < n {
			nc = n
		}
		ns := make([]Value, n, nc)
		copy(ns, s)
		for i, v := range add {
			ns[len(s)+i] = copyVal(v)
		}
		full := ns[:nc]
		if nc > n {
			et := sliceElem(bi, c)
			for i := n; i < nc; i++ {
				full[i] = b.zero(et)
			}
		}
		return Slice(ns)
	case "copy":
		d := args[0].(Slice)
		var src []Value
		switch y := args[1].(type) {
		case Slice:
			src = y
		default:
			for _, t := range b.strBytes(y) {
				src = append(src, t)
			}
		}
		n := min(len(d), len(src))
		tmp := make([]Value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(src[i])
		}
		for i := range tmp {
			storeTo(&d[i], tmp[i])
		}
		return b.Const(uint64(n), 64)
	case "close":
		g.closeChan(args[0].(*Chan))
		return nil
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			g.mapAccess(m, true)
			m.del(g, args[1])
		}
		return nil
	case "clear":
		switch m := args[0].(type) {
		case *Map:
			if m != nil {
				m.keys, m.vals, m.hk, m.symKeys = nil, nil, nil, false
			}
		case Slice:
			if len(m) > 0 {
				et := sliceElem(bi, c)
				for i := range m {
					storeTo(&m[i], b.zero(et))
				}
			}
		}
		return nil
	case "panic":
		g.throw(args[0].(Iface), false)
	case "recover":
		// fr is the deferred function's frame; its caller is panicking
		if fr != nil && fr.caller != nil && fr.caller.panicking {
			fr.caller.panicking = false
			v := fr.caller.panicv.v
			fr.caller.panicv = targetPanic{}
			return v
		}
		return Iface{}
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			x := r.(*Term)
			yt := y.(*Term)
			var lt *Term
			if x.sort.K == KFP {
				lt = b.FBin(OFLt, yt, x)
			} else {
				signed := true
				if c != nil {
					_, signed, _ = intInfo(c.Args[0].Type())
				}
				if signed {
					lt = b.SLt(yt, x)
				} else {
					lt = b.ULt(yt, x)
				}
			}
			if bi.Name() == "min" {
				r = b.Ite(lt, yt, x)
			} else {
				r = b.Ite(lt, x, b.Ite(b.Eq(x, yt), x, yt))
				if x.sort.K != KFP {
					r = b.Ite(lt, x, yt)
				}
			}
		}
		return r
	case "ssa:wrapnilchk":
		if pt, ok := args[0].(Ptr); ok && pt == nil {
			g.throwRT("invalid memory address or nil pointer dereference", false)
		}
		return args[0]
	case "String": // unsafe.String
		return g.unsafeString(args[0], int(g.intVal(args[1])))
	case "StringData":
		return &Native{"strdata", args[0]}
	case "SliceData":
		s := args[0].(Slice)
		if cap(s) == 0 {
			return Ptr(nil)
		}
		pt := Ptr(&s[:1][0])
		p.side[sdKey{pt}] = s
		return pt
	case "Slice": // unsafe.Slice
		n := int(g.intVal(args[1]))
		switch x := args[0].(type) {
		case *Native:
			bs := b.strBytes(x.v)
			s := make(Slice, n)
			for i := range s {
				s[i] = bs[i]
			}
			return s
		case Ptr:
			if s, ok := p.side[sdKey{x}].(Slice); ok {
				return s[:n]
			}
		}
		panic(unsupported("unsafe.Slice"))
	}
	panic(unsupported("builtin %s(%T)", bi.Name(), args))
}

type sdKey struct{ p Ptr }

func (g *Gor) unsafeString(x Value, n int) Value {
	if n == 0 {
		return ""
	}
	switch x := x.(type) {
	case Ptr:
		if s, ok := g.p.side[sdKey{x}].(Slice); ok {
			bs := make([]*Term, n)
			for i := range bs {
				if d, ok := s[:n][i].(*DocStr); ok && n == 1 {
					return d
				}
				bs[i] = s[:n][i].(*Term)
			}
			return mkStr(bs)
		}
		if n == 1 {
			return mkStr([]*Term{(*x).(*Term)})
		}
	case *Native:
		return x.v
	}
	panic(unsupported("unsafe.String of %T", x))
}

func sliceElem(bi *ssa.Builtin, c *ssa.CallCommon) types.Type {
	sig := bi.Type().(*types.Signature)
	t := sig.Params().At(0).Type()
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.Uint8]
}

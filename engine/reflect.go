package main

import (
	"go/types"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// A model of package reflect over the executor's values: enough for decoders that walk structs, maps, slices and pointers.

type rval struct {
	t types.Type
	p Ptr   // location, for addressable values
	v Value // otherwise
}

func (x *rval) get() Value {
	if x.p != nil {
		return *x.p
	}
	return x.v
}

var rtypes sync.Map // type text -> *Native

func rtypeOf(t types.Type) *Native {
	k := types.TypeString(t, nil)
	if n, ok := rtypes.Load(k); ok {
		return n.(*Native)
	}
	n, _ := rtypes.LoadOrStore(k, &Native{"rtype", t})
	return n.(*Native)
}

func rtypeIface(t types.Type) Iface { return Iface{nativeType, rtypeOf(t)} }

func (g *Gor) rtypeArg(v Value) types.Type {
	i, ok := v.(Iface)
	if !ok || i.t == nil {
		g.throwRT("invalid memory address or nil pointer dereference", false)
	}
	return i.v.(*Native).v.(types.Type)
}

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Map:
		return reflect.Map
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Struct:
		return reflect.Struct
	case *types.Array:
		return reflect.Array
	}
	return reflect.Invalid
}

func typeName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		return t.Obj().Name()
	case *types.Basic:
		return t.Name()
	}
	return ""
}

func exportedMethods(t types.Type) int {
	if it, ok := t.Underlying().(*types.Interface); ok {
		return it.NumMethods()
	}
	ms := types.NewMethodSet(t)
	n := 0
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Exported() {
			n++
		}
	}
	return n
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func (g *Gor) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	b := g.p.b
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	return Struct{f.Name(), pkg, rtypeIface(f.Type()), st.Tag(i), b.Const(0, 64), Slice{b.Const(uint64(i), 64)}, b.Bool(f.Embedded())}
}

func rtypeMethod(name string) func(g *Gor, n *Native, a []Value) Value {
	num := func(f func(t types.Type) int) func(g *Gor, n *Native, a []Value) Value {
		return func(g *Gor, n *Native, a []Value) Value {
			return g.p.b.Const(uint64(f(n.v.(types.Type))), 64)
		}
	}
	switch name {
	case "Comparable":
		return func(g *Gor, n *Native, a []Value) Value { return g.p.b.Bool(types.Comparable(n.v.(types.Type))) }
	case "String":
		return func(g *Gor, n *Native, a []Value) Value {
			return types.TypeString(n.v.(types.Type), func(p *types.Package) string { return p.Name() })
		}
	case "Kind":
		return num(func(t types.Type) int { return int(kindOf(t)) })
	case "NumMethod":
		return num(exportedMethods)
	case "NumField":
		return num(func(t types.Type) int { return t.Underlying().(*types.Struct).NumFields() })
	case "Len":
		return num(func(t types.Type) int { return int(t.Underlying().(*types.Array).Len()) })
	case "Bits":
		return num(func(t types.Type) int {
			if w, _, ok := intInfo(t); ok {
				return w
			}
			return floatWidth(t)
		})
	case "Name":
		return func(g *Gor, n *Native, a []Value) Value { return typeName(n.v.(types.Type)) }
	case "PkgPath":
		return func(g *Gor, n *Native, a []Value) Value {
			if t, ok := types.Unalias(n.v.(types.Type)).(*types.Named); ok && t.Obj().Pkg() != nil {
				return t.Obj().Pkg().Path()
			}
			return ""
		}
	case "Elem":
		return func(g *Gor, n *Native, a []Value) Value { return rtypeIface(elemType(n.v.(types.Type))) }
	case "Key":
		return func(g *Gor, n *Native, a []Value) Value {
			return rtypeIface(n.v.(types.Type).Underlying().(*types.Map).Key())
		}
	case "Field":
		return func(g *Gor, n *Native, a []Value) Value {
			return g.structField(n.v.(types.Type).Underlying().(*types.Struct), int(g.intVal(a[0])))
		}
	case "Implements":
		return func(g *Gor, n *Native, a []Value) Value {
			it := g.rtypeArg(a[0]).Underlying().(*types.Interface)
			return g.p.b.Bool(types.Implements(n.v.(types.Type), it))
		}
	case "AssignableTo":
		return func(g *Gor, n *Native, a []Value) Value {
			return g.p.b.Bool(types.AssignableTo(n.v.(types.Type), g.rtypeArg(a[0])))
		}
	case "ConvertibleTo":
		return func(g *Gor, n *Native, a []Value) Value {
			return g.p.b.Bool(types.ConvertibleTo(n.v.(types.Type), g.rtypeArg(a[0])))
		}
	}
	return nil
}

func (g *Gor) mkRV(x *rval) Value {
	return Struct{&Native{"rval", x}, Ptr(nil), g.p.b.Const(1, 64)}
}

func (g *Gor) zeroRV() Value {
	return Struct{Ptr(nil), Ptr(nil), g.p.b.Const(0, 64)}
}

// rv gives the model of a reflect.Value, nil for the zero Value.
func (g *Gor) rv(v Value) *rval {
	s, ok := v.(Struct)
	if !ok {
		panic(unsupported("reflect.Value as %T", v))
	}
	if n, ok := s[0].(*Native); ok && n.kind == "rval" {
		return n.v.(*rval)
	}
	return nil
}

func (g *Gor) needRV(v Value, what string) *rval {
	x := g.rv(v)
	if x == nil {
		t := types.NewPointer(g.p.cfg.Prog.Pkgs["reflect"].Type("ValueError").Type())
		e := new(Value)
		*e = Struct{"reflect.Value." + what, g.p.b.Const(0, 64)}
		g.throw(Iface{t, Ptr(e)}, false)
	}
	return x
}

// assign converts v of type from for a location of type to.
func (g *Gor) assignTo(v Value, from, to types.Type) Value {
	if types.IsInterface(to) && !types.IsInterface(from) {
		return Iface{from, copyVal(v)}
	}
	return copyVal(v)
}

func (g *Gor) rset(x *rval, v Value, what string) Value {
	if x.p == nil {
		g.throw(Iface{types.Typ[types.String], "reflect: reflect.Value." + what + " using unaddressable value"}, false)
	}
	storeTo(x.p, v)
	return nil
}

func init() {
	I := intrinsics
	T := func(v Value) *Term { return v.(*Term) }
	add := func(name string, f func(g *Gor, a []Value) Value) {
		I[name] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { return f(g, a) }
	}
	typeOf := func(g *Gor, a []Value) Value {
		v := a[0].(Iface)
		if v.t == nil {
			return Iface{}
		}
		return rtypeIface(v.t)
	}
	add("internal/reflectlite.TypeOf", typeOf)
	add("reflect.TypeOf", typeOf)
	add("reflect.ValueOf", func(g *Gor, a []Value) Value {
		v := a[0].(Iface)
		if v.t == nil {
			return g.zeroRV()
		}
		return g.mkRV(&rval{t: v.t, v: v.v})
	})
	ptrTo := func(g *Gor, a []Value) Value { return rtypeIface(types.NewPointer(g.rtypeArg(a[0]))) }
	add("reflect.PtrTo", ptrTo)
	add("reflect.PointerTo", ptrTo)
	add("reflect.New", func(g *Gor, a []Value) Value {
		t := g.rtypeArg(a[0])
		p := new(Value)
		*p = g.p.b.zero(t)
		return g.mkRV(&rval{t: types.NewPointer(t), v: Ptr(p)})
	})
	add("reflect.Zero", func(g *Gor, a []Value) Value {
		t := g.rtypeArg(a[0])
		return g.mkRV(&rval{t: t, v: g.p.b.zero(t)})
	})
	mkMap := func(g *Gor, a []Value) Value {
		t := g.rtypeArg(a[0])
		m := t.Underlying().(*types.Map)
		return g.mkRV(&rval{t: t, v: &Map{kt: m.Key(), vt: m.Elem()}})
	}
	add("reflect.MakeMap", mkMap)
	add("reflect.MakeMapWithSize", mkMap)
	add("reflect.MakeSlice", func(g *Gor, a []Value) Value {
		t := g.rtypeArg(a[0])
		return g.mkRV(&rval{t: t, v: g.p.b.makeSlice(elemType(t), int(g.intVal(a[1])), int(g.intVal(a[2])))})
	})
	add("reflect.Copy", func(g *Gor, a []Value) Value {
		d, s := g.rv(a[0]).get().(Slice), g.rv(a[1]).get().(Slice)
		n := min(len(d), len(s))
		for i := 0; i < n; i++ {
			storeTo(&d[i], copyVal(s[i]))
		}
		return g.p.b.Const(uint64(n), 64)
	})
	V := "(reflect.Value)."
	add(V+"IsValid", func(g *Gor, a []Value) Value { return g.p.b.Bool(g.rv(a[0]) != nil) })
	add(V+"Kind", func(g *Gor, a []Value) Value {
		x := g.rv(a[0])
		if x == nil {
			return g.p.b.Const(0, 64)
		}
		return g.p.b.Const(uint64(kindOf(x.t)), 64)
	})
	add(V+"Type", func(g *Gor, a []Value) Value { return rtypeIface(g.needRV(a[0], "Type").t) })
	add(V+"IsNil", func(g *Gor, a []Value) Value {
		x := g.needRV(a[0], "IsNil")
		switch v := x.get().(type) {
		case Ptr:
			return g.p.b.Bool(v == nil)
		case Slice:
			return g.p.b.Bool(v == nil)
		case *Map:
			return g.p.b.Bool(v == nil)
		case *Chan:
			return g.p.b.Bool(v == nil)
		case *Closure:
			return g.p.b.Bool(v == nil)
		case Iface:
			return g.p.b.Bool(v.t == nil)
		case *SymPtr:
			return g.p.b.False
		}
		panic(unsupported("reflect IsNil of %s", x.t))
	})
	add(V+"CanAddr", func(g *Gor, a []Value) Value { x := g.rv(a[0]); return g.p.b.Bool(x != nil && x.p != nil) })
	add(V+"CanSet", func(g *Gor, a []Value) Value { x := g.rv(a[0]); return g.p.b.Bool(x != nil && x.p != nil) })
	add(V+"CanInterface", func(g *Gor, a []Value) Value { return g.p.b.True })
	add(V+"Addr", func(g *Gor, a []Value) Value {
		x := g.needRV(a[0], "Addr")
		if x.p == nil {
			g.throw(Iface{types.Typ[types.String], "reflect.Value.Addr of unaddressable value"}, false)
		}
		return g.mkRV(&rval{t: types.NewPointer(x.t), v: x.p})
	})
	add(V+"Elem", func(g *Gor, a []Value) Value {
		x := g.needRV(a[0], "Elem")
		switch v := x.get().(type) {
		case Ptr:
			if v == nil {
				return g.zeroRV()
			}
			return g.mkRV(&rval{t: elemType(x.t), p: v})
		case Iface:
			if v.t == nil {
				return g.zeroRV()
			}
			return g.mkRV(&rval{t: v.t, v: v.v})
		}
		panic(unsupported("reflect Elem of %s", x.t))
	})
	add(V+"Interface", func(g *Gor, a []Value) Value {
		x := g.needRV(a[0], "Interface")
		if v, ok := x.get().(Iface); ok && types.IsInterface(x.t) {
			return v
		}
		return Iface{x.t, copyVal(x.get())}
	})
	add(V+"NumMethod", func(g *Gor, a []Value) Value {
		return g.p.b.Const(uint64(exportedMethods(g.needRV(a[0], "NumMethod").t)), 64)
	})
	add(V+"NumField", func(g *Gor, a []Value) Value {
		return g.p.b.Const(uint64(g.needRV(a[0], "NumField").t.Underlying().(*types.Struct).NumFields()), 64)
	})
	add(V+"Field", func(g *Gor, a []Value) Value {
		x := g.needRV(a[0], "Field")
		i := int(g.intVal(a[1]))
		ft := x.t.Underlying().(*types.Struct).Field(i).Type()
		if x.p != nil {
			return g.mkRV(&rval{t: ft, p: &(*x.p).(Struct)[i]})
		}
		return g.mkRV(&rval{t: ft, v: x.v.(Struct)[i]})
	})
	add(V+"FieldByName", func(g *Gor, a []Value) Value {
		x := g.needRV(a[0], "FieldByName")
		st := x.t.Underlying().(*types.Struct)
		name := g.str(a[1])
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if f.Embedded() {
				panic(unsupported("FieldByName with embedded fields"))
			}
			if f.Name() == name {
				if x.p != nil {
					return g.mkRV(&rval{t: f.Type(), p: &(*x.p).(Struct)[i]})
				}
				return g.mkRV(&rval{t: f.Type(), v: x.v.(Struct)[i]})
			}
		}
		return g.zeroRV()
	})
	add(V+"IsZero", func(g *Gor, a []Value) Value {
		x := g.needRV(a[0], "IsZero")
		switch v := x.get().(type) {
		case Ptr:
			return g.p.b.Bool(v == nil)
		case Slice:
			return g.p.b.Bool(v == nil)
		case *Map:
			return g.p.b.Bool(v == nil)
		case Iface:
			return g.p.b.Bool(v.t == nil)
		case string:
			return g.p.b.Bool(v == "")
		case *SStr:
			return g.p.b.Bool(len(v.b) == 0)
		}
		panic(unsupported("reflect IsZero of %s", x.t))
	})
	add(V+"Len", func(g *Gor, a []Value) Value {
		n := 0
		switch v := g.needRV(a[0], "Len").get().(type) {
		case Slice:
			n = len(v)
		case Array:
			n = len(v)
		case *Map:
			if v != nil {
				n = len(v.keys)
			}
		default:
			n = strLen(v)
		}
		return g.p.b.Const(uint64(n), 64)
	})
	add(V+"Cap", func(g *Gor, a []Value) Value {
		switch v := g.needRV(a[0], "Cap").get().(type) {
		case Slice:
			return g.p.b.Const(uint64(cap(v)), 64)
		case Array:
			return g.p.b.Const(uint64(len(v)), 64)
		}
		panic(unsupported("reflect Cap"))
	})
	add(V+"Index", func(g *Gor, a []Value) Value {
		x := g.needRV(a[0], "Index")
		i := int(g.intVal(a[1]))
		switch v := x.get().(type) {
		case Slice:
			if i < 0 || i >= len(v) {
				g.throw(Iface{types.Typ[types.String], "reflect: slice index out of range"}, false)
			}
			return g.mkRV(&rval{t: elemType(x.t), p: &v[i]})
		case Array:
			if x.p != nil {
				return g.mkRV(&rval{t: elemType(x.t), p: &v[i]})
			}
			return g.mkRV(&rval{t: elemType(x.t), v: v[i]})
		}
		panic(unsupported("reflect Index of %s", x.t))
	})
	add(V+"SetLen", func(g *Gor, a []Value) Value {
		x := g.needRV(a[0], "SetLen")
		n := int(g.intVal(a[1]))
		s := x.get().(Slice)
		if n < 0 || n > cap(s) {
			g.throw(Iface{types.Typ[types.String], "reflect: slice length out of range in SetLen"}, false)
		}
		return g.rset(x, s[:n], "SetLen")
	})
	add(V+"Set", func(g *Gor, a []Value) Value {
		x, y := g.needRV(a[0], "Set"), g.needRV(a[1], "Set")
		if !types.AssignableTo(y.t, x.t) {
			g.throw(Iface{types.Typ[types.String], "reflect.Set: value of type " + y.t.String() + " is not assignable to type " + x.t.String()}, false)
		}
		return g.rset(x, g.assignTo(y.get(), y.t, x.t), "Set")
	})
	add(V+"SetString", func(g *Gor, a []Value) Value { return g.rset(g.needRV(a[0], "SetString"), a[1], "SetString") })
	add(V+"SetBool", func(g *Gor, a []Value) Value { return g.rset(g.needRV(a[0], "SetBool"), a[1], "SetBool") })
	add(V+"SetBytes", func(g *Gor, a []Value) Value { return g.rset(g.needRV(a[0], "SetBytes"), a[1], "SetBytes") })
	setInt := func(from types.Type) func(g *Gor, a []Value) Value {
		return func(g *Gor, a []Value) Value {
			x := g.needRV(a[0], "SetInt")
			return g.rset(x, g.convert(x.t, from, a[1]), "SetInt")
		}
	}
	add(V+"SetInt", setInt(types.Typ[types.Int64]))
	add(V+"SetUint", setInt(types.Typ[types.Uint64]))
	add(V+"SetFloat", setInt(types.Typ[types.Float64]))
	over := func(signed bool) func(g *Gor, a []Value) Value {
		return func(g *Gor, a []Value) Value {
			w, _, ok := intInfo(g.needRV(a[0], "Overflow").t)
			if !ok || w == 64 {
				return g.p.b.False
			}
			b := g.p.b
			lo := b.Extract(T(a[1]), 0, w)
			if signed {
				return b.Not(b.Eq(b.SExt(lo, 64), T(a[1])))
			}
			return b.Not(b.Eq(b.ZExt(lo, 64), T(a[1])))
		}
	}
	add(V+"OverflowInt", over(true))
	add(V+"OverflowUint", over(false))
	add(V+"OverflowFloat", func(g *Gor, a []Value) Value {
		if floatWidth(g.needRV(a[0], "Overflow").t) == 32 {
			panic(unsupported("reflect OverflowFloat of float32"))
		}
		return g.p.b.False
	})
	add(V+"SetMapIndex", func(g *Gor, a []Value) Value {
		x, k, e := g.needRV(a[0], "SetMapIndex"), g.needRV(a[1], "SetMapIndex"), g.rv(a[2])
		m := x.get().(*Map)
		if m == nil {
			g.throw(g.p.cfg.Prog.rtError("assignment to entry in nil map"), true)
		}
		g.mapAccess(m, true)
		mt := x.t.Underlying().(*types.Map)
		kv := g.assignTo(k.get(), k.t, mt.Key())
		if e == nil {
			m.del(g, kv)
			return nil
		}
		m.put(g, kv, g.assignTo(e.get(), e.t, mt.Elem()))
		return nil
	})
	add(V+"MapIndex", func(g *Gor, a []Value) Value {
		x, k := g.needRV(a[0], "MapIndex"), g.needRV(a[1], "MapIndex")
		m := x.get().(*Map)
		mt := x.t.Underlying().(*types.Map)
		if i := m.find(g, g.assignTo(k.get(), k.t, mt.Key())); i >= 0 {
			return g.mkRV(&rval{t: mt.Elem(), v: m.vals[i]})
		}
		return g.zeroRV()
	})
	add(V+"MapKeys", func(g *Gor, a []Value) Value {
		x := g.needRV(a[0], "MapKeys")
		m := x.get().(*Map)
		s := Slice{}
		if m != nil {
			for _, k := range m.keys {
				s = append(s, g.mkRV(&rval{t: m.kt, v: k}))
			}
		}
		return s
	})
	add(V+"String", func(g *Gor, a []Value) Value {
		x := g.rv(a[0])
		if x == nil {
			return "<invalid Value>"
		}
		if !isString(x.t) {
			return "<" + x.t.String() + " Value>"
		}
		return x.get()
	})
	for _, n := range []string{"Bool", "Int", "Uint", "Float"} {
		add(V+n, func(g *Gor, a []Value) Value {
			x := g.needRV(a[0], n)
			switch n {
			case "Int":
				return g.convert(types.Typ[types.Int64], x.t, x.get())
			case "Uint":
				return g.convert(types.Typ[types.Uint64], x.t, x.get())
			case "Float":
				return g.convert(types.Typ[types.Float64], x.t, x.get())
			}
			return x.get()
		})
	}
	add(V+"Bytes", func(g *Gor, a []Value) Value { return g.needRV(a[0], "Bytes").get() })
	add(V+"Convert", func(g *Gor, a []Value) Value {
		x := g.needRV(a[0], "Convert")
		t := g.rtypeArg(a[1])
		if types.IsInterface(t) {
			return g.mkRV(&rval{t: t, v: g.assignTo(x.get(), x.t, t)})
		}
		return g.mkRV(&rval{t: t, v: g.convert(t, x.t, x.get())})
	})
	add("(reflect.StructTag).Get", func(g *Gor, a []Value) Value { return reflect.StructTag(g.str(a[0])).Get(g.str(a[1])) })
	add("(reflect.StructTag).Lookup", func(g *Gor, a []Value) Value {
		s, ok := reflect.StructTag(g.str(a[0])).Lookup(g.str(a[1]))
		return Tuple{s, g.p.b.Bool(ok)}
	})
	add("(reflect.Kind).String", func(g *Gor, a []Value) Value { return reflect.Kind(g.intVal(a[0])).String() })
}

// reflectMissing reports functions of package reflect that have no model.
func reflectMissing(key string) intrinsic {
	if strings.HasPrefix(key, "(reflect.Value).") || strings.HasPrefix(key, "(*reflect.rtype).") {
		return func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value { panic(unsupported("no model of %s", key)) }
	}
	return nil
}

package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// DocStr is unused: JSON text is a byte slice with symbolic bytes inside strings.
type DocStr struct{ id int }

// A model of json.Marshal: the text has a concrete shape; bytes of symbolic strings that
// need no escaping stay symbolic, others are decided.

type jsonEnc struct {
	g   *Gor
	out []*Term
}

type jsonFail struct{ msg string }

func (e *jsonEnc) lit(s string) {
	for i := 0; i < len(s); i++ {
		e.out = append(e.out, e.g.p.b.Const(uint64(s[i]), 8))
	}
}

func (e *jsonEnc) str(v Value) {
	g := e.g
	b := g.p.b
	if s, ok := v.(string); ok {
		d, _ := json.Marshal(s)
		e.lit(string(d))
		return
	}
	bs := b.strBytes(v)
	e.lit(`"`)
	for i := 0; i < len(bs); i++ {
		t := bs[i]
		plain := t.isConst()
		if !plain {
			c := func(x byte) *Term { return b.Const(uint64(x), 8) }
			ok := b.And(b.ULe(c(0x20), t), b.ULt(t, c(0x7f)), b.Not(b.Eq(t, c('"'))), b.Not(b.Eq(t, c('\\'))), b.Not(b.Eq(t, c('<'))), b.Not(b.Eq(t, c('>'))), b.Not(b.Eq(t, c('&'))))
			if g.p.decide(ok) {
				e.out = append(e.out, t)
				continue
			}
		}
		x := byte(g.p.concretize(t))
		if x < utf8.RuneSelf {
			d, _ := json.Marshal(string(rune(x)))
			e.lit(string(d[1 : len(d)-1]))
			continue
		}
		// a multi-byte character or an invalid one
		seq := []byte{x}
		for j := i + 1; j < len(bs) && j < i+4; j++ {
			seq = append(seq, byte(g.p.concretize(bs[j])))
		}
		r, n := utf8.DecodeRune(seq)
		if r == utf8.RuneError && n == 1 {
			e.lit(`\ufffd`)
			continue
		}
		d, _ := json.Marshal(string(r))
		e.lit(string(d[1 : len(d)-1]))
		i += n - 1
	}
	e.lit(`"`)
}

func (e *jsonEnc) empty(t types.Type, v Value) bool {
	b := e.g.p.b
	switch v := v.(type) {
	case *Term:
		if v.sort.K == KBool {
			return e.g.p.decide(b.Not(v))
		}
		return e.g.p.decide(b.eq(v, b.zero(t)))
	case Slice:
		return len(v) == 0
	case Array:
		return len(v) == 0
	case *Map:
		return v == nil || len(v.keys) == 0
	case Ptr:
		return v == nil
	case Iface:
		return v.t == nil
	case string, *SStr:
		return strLen(v) == 0
	}
	return false
}

func (e *jsonEnc) value(t types.Type, v Value, addr Ptr) {
	g := e.g
	if types.IsInterface(t) {
		i := v.(Iface)
		if i.t == nil {
			e.lit("null")
			return
		}
		e.value(i.t, i.v, nil)
		return
	}
	if p, ok := v.(Ptr); ok && p == nil {
		e.lit("null")
		return
	}
	// custom marshalers
	for _, m := range []string{"MarshalJSON", "MarshalText"} {
		recv, rt := copyVal(v), t
		fn := g.p.cfg.Prog.findMethod(t, nil, m)
		if fn == nil && addr != nil {
			rt = types.NewPointer(t)
			if fn = g.p.cfg.Prog.findMethod(rt, nil, m); fn != nil {
				recv = addr
			}
		}
		if fn == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 2 {
			continue
		}
		r := g.callFn(g.top, fn, []Value{recv}, nil).(Tuple)
		if err := r[1].(Iface); err.t != nil {
			panic(jsonFail{"json: error calling " + m})
		}
		var bs []*Term
		for _, x := range r[0].(Slice) {
			bs = append(bs, x.(*Term))
		}
		if m == "MarshalText" {
			e.str(mkStr(bs))
		} else {
			e.out = append(e.out, bs...)
		}
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case isString(t):
			e.str(v)
		case isBool(t):
			e.lit(strconv.FormatBool(g.p.decide(v.(*Term))))
		case floatWidth(t) != 0:
			x := v.(*Term)
			if !x.isConst() {
				panic(unsupported("JSON of a symbolic float"))
			}
			d, err := json.Marshal(x.f())
			if err != nil {
				panic(jsonFail{err.Error()})
			}
			e.lit(string(d))
		default:
			w, signed, ok := intInfo(t)
			if !ok {
				panic(jsonFail{"json: unsupported type: " + t.String()})
			}
			x := g.p.concretize(v.(*Term))
			if signed {
				e.lit(strconv.FormatInt(sext(x, w), 10))
			} else {
				e.lit(strconv.FormatUint(x, 10))
			}
		}
	case *types.Pointer:
		p, ok := v.(Ptr)
		if !ok {
			panic(unsupported("JSON of %T", v))
		}
		e.value(u.Elem(), *p, p)
	case *types.Struct:
		e.lit("{")
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			tag := reflect.StructTag(u.Tag(i)).Get("json")
			if f.Embedded() {
				panic(unsupported("JSON of an embedded field"))
			}
			if !f.Exported() || tag == "-" {
				continue
			}
			name, opts, _ := strings.Cut(tag, ",")
			if name == "" {
				name = f.Name()
			}
			fv := v.(Struct)[i]
			o := "," + opts + ","
			if strings.Contains(o, ",omitempty,") && e.empty(f.Type(), fv) {
				continue
			}
			if strings.Contains(o, ",string,") || strings.Contains(o, ",omitzero,") {
				panic(unsupported("JSON tag %s", tag))
			}
			if n > 0 {
				e.lit(",")
			}
			n++
			d, _ := json.Marshal(name)
			e.lit(string(d) + ":")
			var fa Ptr
			if addr != nil {
				fa = &v.(Struct)[i]
			}
			e.value(f.Type(), fv, fa)
		}
		e.lit("}")
	case *types.Slice, *types.Array:
		var s []Value
		switch v := v.(type) {
		case Slice:
			if v == nil {
				e.lit("null")
				return
			}
			s = v
		case Array:
			s = v
		}
		et := elemType(t)
		if w, _, ok := intInfo(et); ok && w == 8 {
			if _, isS := u.(*types.Slice); isS {
				panic(unsupported("JSON of bytes"))
			}
		}
		e.lit("[")
		for i := range s {
			if i > 0 {
				e.lit(",")
			}
			e.value(et, s[i], &s[i])
		}
		e.lit("]")
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			e.lit("null")
			return
		}
		if !isString(u.Key()) {
			panic(unsupported("JSON of a map keyed by %s", u.Key()))
		}
		type kv struct {
			k string
			v Value
		}
		var l []kv
		for i, k := range m.keys {
			l = append(l, kv{g.str(k), m.vals[i]})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].k < l[j].k })
		e.lit("{")
		for i, x := range l {
			if i > 0 {
				e.lit(",")
			}
			d, _ := json.Marshal(x.k)
			e.lit(string(d) + ":")
			e.value(u.Elem(), x.v, nil)
		}
		e.lit("}")
	default:
		panic(jsonFail{"json: unsupported type: " + t.String()})
	}
}

func init() {
	marshal := func(g *Gor, fr *frame, fn *ssa.Function, a []Value) (res Value) {
		defer func() {
			if x := recover(); x != nil {
				if f, ok := x.(jsonFail); ok {
					res = Tuple{Slice(nil), g.mkError(f.msg)}
					return
				}
				panic(x)
			}
		}()
		e := &jsonEnc{g: g}
		v := a[0].(Iface)
		if v.t == nil {
			e.lit("null")
		} else {
			e.value(v.t, v.v, nil)
		}
		s := make(Slice, len(e.out))
		for i := range s {
			s[i] = e.out[i]
		}
		return Tuple{s, Iface{}}
	}
	intrinsics["encoding/json.Marshal"] = marshal
	// numbers on their text
	intrinsics["strconv.ParseFloat"] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
		f, err := strconv.ParseFloat(g.str(a[0]), int(g.intVal(a[1])))
		var e Value = Iface{}
		if err != nil {
			e = g.mkError(err.Error())
		}
		return Tuple{g.p.b.FConst(f, 64), e}
	}
	for _, n := range []string{"Unmarshal", "NewDecoder", "NewEncoder", "MarshalIndent", "Valid"} {
		n := n
		intrinsics["encoding/json."+n] = func(g *Gor, fr *frame, fn *ssa.Function, a []Value) Value {
			panic(unsupported("encoding/json.%s", n))
		}
	}
	_ = fmt.Sprint
}

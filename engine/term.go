package main

// Symbolic terms: hash-consed, simplified on construction, printed as SMT-LIB2.

import (
	"fmt"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

type Kind uint8

const (
	KBool Kind = iota
	KBV
	KFP // width 32 or 64
)

type Sort struct {
	K Kind
	W uint8 // width for BV and FP
}

var SBool = Sort{KBool, 1}

func BV(w int) Sort { return Sort{KBV, uint8(w)} }
func FP(w int) Sort { return Sort{KFP, uint8(w)} }

func (s Sort) smt() string {
	switch s.K {
	case KBool:
		return "Bool"
	case KBV:
		return fmt.Sprintf("(_ BitVec %d)", s.W)
	default:
		if s.W == 32 {
			return "(_ FloatingPoint 8 24)"
		}
		return "(_ FloatingPoint 11 53)"
	}
}

type Op uint8

const (
	OConst Op = iota
	OVar
	// bool
	ONot
	OAnd
	OOr
	OEq
	OIte
	// bv
	OLin // linear combination: sum coef[i]*args[i] + val
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OBAnd
	OBOr
	OBXor
	OShl
	OLShr
	OAShr
	OULt
	OULe
	OSLt
	OSLe
	OExtract // val = lo ; width = sort width
	OZExt
	OSExt
	OConcat
	// fp
	OFAdd
	OFSub
	OFMul
	OFDiv
	OFNeg
	OFLt
	OFLe
	OFEq
	OS2F // signed bv -> fp
	OU2F
	OF2S // fp -> signed bv (RTZ)
	OF2U
	OF2F
	OFBits // reinterpret fp const/var from bv
)

type Term struct {
	op   Op
	sort Sort
	args []*Term
	coef []uint64 // for OLin
	val  uint64
	name string
	id   int

	lo, hi   uint64 // unsigned range (BV only)
	slo, shi int64  // signed range (BV only)
	vs       *VarSet

	// evaluation cache
	ev    uint64
	epoch int32
	// emitted to the solver
	emitted bool
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) w() int        { return int(t.sort.W) }

type TB struct {
	tab   map[string]*Term
	list  []*Term
	nv    int
	epoch int32
	vars  []*Term
	varBy map[string]*Term
	kb    []byte
	True  *Term
	False *Term
}

func NewTB() *TB {
	b := &TB{tab: map[string]*Term{}, varBy: map[string]*Term{}}
	b.True = b.mk(OConst, SBool, nil, nil, 1, "")
	b.False = b.mk(OConst, SBool, nil, nil, 0, "")
	return b
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (b *TB) mk(op Op, s Sort, args []*Term, coef []uint64, val uint64, name string) *Term {
	k := b.kb[:0]
	k = append(k, byte(op), byte(s.K), s.W)
	for _, a := range args {
		k = strconv.AppendInt(k, int64(a.id), 36)
		k = append(k, ',')
	}
	for _, c := range coef {
		k = strconv.AppendUint(k, c, 36)
		k = append(k, ';')
	}
	k = append(k, '#')
	k = strconv.AppendUint(k, val, 36)
	if name != "" {
		k = append(k, '#')
		k = append(k, name...)
	}
	b.kb = k
	if t, ok := b.tab[string(k)]; ok {
		return t
	}
	t := &Term{op: op, sort: s, val: val, name: name, id: len(b.list), epoch: -1}
	if len(args) > 0 {
		t.args = append([]*Term(nil), args...)
	}
	if len(coef) > 0 {
		t.coef = append([]uint64(nil), coef...)
	}
	if s.K == KBV {
		b.setRange(t)
	}
	b.tab[string(k)] = t
	b.list = append(b.list, t)
	return t
}

func (b *TB) setRange(t *Term) {
	b.setURange(t)
	b.setSRange(t)
}

func (b *TB) setSRange(t *Term) {
	w := uint(t.w())
	smin, smax := int64(-1)<<(w-1), int64(uint64(1)<<(w-1)-1)
	t.slo, t.shi = smin, smax
	const lim = int64(1) << 61
	set := func(l, h int64) {
		if l >= smin && h <= smax && l <= h {
			t.slo, t.shi = max(t.slo, l), min(t.shi, h)
		}
	}
	switch t.op {
	case OConst:
		v := sext(t.val, int(w))
		t.slo, t.shi = v, v
		return
	case OSExt:
		set(t.args[0].slo, t.args[0].shi)
	case OExtract:
		if t.val == 0 {
			set(t.args[0].slo, t.args[0].shi)
		}
	case OIte:
		set(min(t.args[1].slo, t.args[2].slo), max(t.args[1].shi, t.args[2].shi))
	case OSDiv:
		if d := t.args[1]; d.isConst() && sext(d.val, int(w)) > 0 {
			k := sext(d.val, int(w))
			set(t.args[0].slo/k, t.args[0].shi/k)
		}
	case OSRem:
		if d := t.args[1]; d.isConst() && sext(d.val, int(w)) > 0 {
			k := sext(d.val, int(w))
			set(max(-(k-1), min(0, t.args[0].slo)), min(k-1, max(0, t.args[0].shi)))
		}
	case OLin:
		lo := sext(t.val, int(w))
		if lo < -lim || lo > lim {
			break
		}
		hi := lo
		ok := true
		for i, a := range t.args {
			k := sext(t.coef[i], int(w))
			l, o1 := mulSafe(k, a.slo, lim)
			h, o2 := mulSafe(k, a.shi, lim)
			if !o1 || !o2 {
				ok = false
				break
			}
			if l > h {
				l, h = h, l
			}
			lo += l
			hi += h
			if lo < -lim || hi > lim {
				ok = false
				break
			}
		}
		if ok {
			set(lo, hi)
		}
	}
	if t.hi <= uint64(smax) {
		set(int64(t.lo), int64(t.hi))
	}
	if t.slo >= 0 {
		t.lo, t.hi = max(t.lo, uint64(t.slo)), min(t.hi, uint64(t.shi))
	}
}

func mulSafe(a, c, lim int64) (int64, bool) {
	if a == 0 || c == 0 {
		return 0, true
	}
	r := a * c
	if r/c != a || a == -1 && c == math.MinInt64 || r < -lim || r > lim {
		return 0, false
	}
	return r, true
}

// roundW rounds a width up, so that narrowed terms share few widths.
func roundW(k int) int { return (k + 7) / 8 * 8 }

// sbits is the number of bits needed to hold the signed range of t.
func (t *Term) sbits() int {
	n := 1
	for _, v := range []int64{t.slo, t.shi} {
		if v < 0 {
			v = ^v
		}
		n = max(n, bits.Len64(uint64(v))+1)
	}
	return n
}

func (b *TB) setURange(t *Term) {
	m := mask(t.w())
	t.lo, t.hi = 0, m
	switch t.op {
	case OConst:
		t.lo, t.hi = t.val, t.val
	case OZExt:
		t.lo, t.hi = t.args[0].lo, t.args[0].hi
	case OSExt:
		a := t.args[0]
		if a.hi < uint64(1)<<uint(a.w()-1) {
			t.lo, t.hi = a.lo, a.hi
		}
	case OBAnd:
		h := t.args[0].hi
		if t.args[1].hi < h {
			h = t.args[1].hi
		}
		t.hi = h
	case OBOr, OBXor:
		h := t.args[0].hi | t.args[1].hi
		t.hi = mask(bits.Len64(h))
		if t.op == OBOr {
			t.lo = max(t.args[0].lo, t.args[1].lo)
		}
	case OURem:
		if t.args[1].isConst() && t.args[1].val > 0 {
			t.hi = min(t.args[1].val-1, t.args[0].hi)
		}
	case OUDiv:
		if t.args[1].isConst() && t.args[1].val > 0 {
			t.lo, t.hi = t.args[0].lo/t.args[1].val, t.args[0].hi/t.args[1].val
		}
	case OSDiv:
		if t.args[1].isConst() && t.args[1].val > 0 && t.args[1].val>>(uint(t.w())-1) == 0 && t.args[0].hi>>(uint(t.w())-1) == 0 {
			t.lo, t.hi = t.args[0].lo/t.args[1].val, t.args[0].hi/t.args[1].val
		}
	case OLShr:
		if t.args[1].isConst() && t.args[1].val < 64 {
			t.lo, t.hi = t.args[0].lo>>t.args[1].val, t.args[0].hi>>t.args[1].val
		} else {
			t.hi = t.args[0].hi
		}
	case OShl:
		if t.args[1].isConst() && t.args[1].val < 64 {
			h := t.args[0].hi
			if bits.Len64(h)+int(t.args[1].val) <= t.w() {
				t.lo, t.hi = t.args[0].lo<<t.args[1].val, h<<t.args[1].val
			}
		}
	case OExtract:
		a := t.args[0]
		if t.val == 0 && a.hi <= m {
			t.lo, t.hi = a.lo, a.hi
		}
	case OIte:
		t.lo, t.hi = min(t.args[1].lo, t.args[2].lo), max(t.args[1].hi, t.args[2].hi)
	case OLin:
		// signed 128-ish interval arithmetic using int64 when small
		var lo, hi int64 = 0, 0
		ok := true
		const lim = int64(1) << 61
		add := func(l, h int64) {
			lo += l
			hi += h
			if lo < -lim || hi > lim {
				ok = false
			}
		}
		sc := func(v uint64) int64 { // signed interpretation at width
			return sext(v, t.w())
		}
		c := sc(t.val)
		if c > lim || c < -lim {
			ok = false
		} else {
			add(c, c)
		}
		for i, a := range t.args {
			if !ok {
				break
			}
			k := sc(t.coef[i])
			if a.hi > uint64(lim) || k > 1<<20 || k < -(1<<20) || (k > 1 || k < -1) && a.hi > uint64(lim)>>21 {
				ok = false
				break
			}
			l, h := k*int64(a.lo), k*int64(a.hi)
			if l > h {
				l, h = h, l
			}
			add(l, h)
		}
		if ok && lo >= 0 && uint64(hi) <= m {
			t.lo, t.hi = uint64(lo), uint64(hi)
		}
	case OMul:
		h1, l1 := bits.Mul64(t.args[0].hi, t.args[1].hi)
		if h1 == 0 && l1 <= m {
			t.lo, t.hi = t.args[0].lo*t.args[1].lo, l1
		}
	}
}

func sext(v uint64, w int) int64 {
	if w >= 64 {
		return int64(v)
	}
	v &= mask(w)
	if v>>(uint(w)-1) != 0 {
		v |= ^mask(w)
	}
	return int64(v)
}

func (b *TB) Const(v uint64, w int) *Term { return b.mk(OConst, BV(w), nil, nil, v&mask(w), "") }
func (b *TB) Bool(v bool) *Term {
	if v {
		return b.True
	}
	return b.False
}
func (b *TB) FConst(f float64, w int) *Term {
	if w == 32 {
		return b.mk(OConst, FP(32), nil, nil, uint64(math.Float32bits(float32(f))), "")
	}
	return b.mk(OConst, FP(64), nil, nil, math.Float64bits(f), "")
}
func (t *Term) f() float64 {
	if t.sort.W == 32 {
		return float64(math.Float32frombits(uint32(t.val)))
	}
	return math.Float64frombits(t.val)
}

// Var declares (or returns) the variable with a range restriction [lo,hi] (unsigned).
func (b *TB) Var(name string, s Sort, lo, hi uint64) *Term {
	key := fmt.Sprintf("%s|%d.%d|%d.%d", name, s.K, s.W, lo, hi)
	if t, ok := b.varBy[key]; ok {
		return t
	}
	t := b.mk(OVar, s, nil, nil, uint64(len(b.vars)), name)
	if s.K == KBV {
		t.lo, t.hi = lo, hi
		b.setSRange(t)
	}
	b.vars = append(b.vars, t)
	b.varBy[key] = t
	return t
}

func (b *TB) Not(a *Term) *Term {
	if a.isConst() {
		return b.Bool(a.val == 0)
	}
	if a.op == ONot {
		return a.args[0]
	}
	switch a.op {
	case OULt:
		return b.ULe(a.args[1], a.args[0])
	case OULe:
		return b.ULt(a.args[1], a.args[0])
	case OSLt:
		return b.SLe(a.args[1], a.args[0])
	case OSLe:
		return b.SLt(a.args[1], a.args[0])
	}
	return b.mk(ONot, SBool, []*Term{a}, nil, 0, "")
}

func (b *TB) And(xs ...*Term) *Term { return b.nary(OAnd, xs) }
func (b *TB) Or(xs ...*Term) *Term  { return b.nary(OOr, xs) }

func (b *TB) nary(op Op, xs []*Term) *Term {
	unit, zero := b.True, b.False
	if op == OOr {
		unit, zero = b.False, b.True
	}
	var out []*Term
	seen := map[int]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit {
			return true
		}
		if x == zero {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		if !seen[x.id] {
			seen[x.id] = true
			out = append(out, x)
		}
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	for _, x := range out {
		if x.op == ONot && seen[x.args[0].id] {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return b.mk(op, SBool, out, nil, 0, "")
}

func (b *TB) Implies(x, y *Term) *Term { return b.Or(b.Not(x), y) }

func (b *TB) Ite(c, x, y *Term) *Term {
	if c.isConst() {
		if c.val != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("ite sorts %v %v", x.sort, y.sort))
	}
	if x.sort.K == KBool {
		if x == b.True {
			return b.Or(c, y)
		}
		if x == b.False {
			return b.And(b.Not(c), y)
		}
		if y == b.True {
			return b.Or(b.Not(c), x)
		}
		if y == b.False {
			return b.And(c, x)
		}
	}
	if c.op == ONot {
		return b.Ite(c.args[0], y, x)
	}
	if x.op == OIte && x.args[0] == c {
		x = x.args[1]
	}
	if y.op == OIte && y.args[0] == c {
		y = y.args[2]
	}
	if x == y {
		return x
	}
	return b.mk(OIte, x.sort, []*Term{c, x, y}, nil, 0, "")
}

func (b *TB) Eq(x, y *Term) *Term {
	if x == y {
		if x.sort.K == KFP {
			return b.mk(OFEq, SBool, []*Term{x, y}, nil, 0, "")
		}
		return b.True
	}
	if x.sort != y.sort {
		panic(fmt.Sprintf("eq sorts %v %v", x.sort, y.sort))
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.val == y.val)
	}
	if x.sort.K == KBool {
		if x.isConst() {
			x, y = y, x
		}
		if y.isConst() {
			if y.val != 0 {
				return x
			}
			return b.Not(x)
		}
		if x.id > y.id {
			x, y = y, x
		}
		return b.mk(OEq, SBool, []*Term{x, y}, nil, 0, "")
	}
	if x.hi < y.lo || y.hi < x.lo {
		return b.False
	}
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		switch x.op {
		case OIte:
			a, c := x.args[1], x.args[2]
			if a.isConst() || c.isConst() {
				return b.Ite(x.args[0], b.Eq(a, y), b.Eq(c, y))
			}
		case OZExt:
			if y.val > mask(x.args[0].w()) {
				return b.False
			}
			return b.Eq(x.args[0], b.Const(y.val, x.args[0].w()))
		}
	}
	if x.op == OZExt && y.op == OZExt && x.args[0].sort == y.args[0].sort {
		return b.Eq(x.args[0], y.args[0])
	}
	if x.op == OLin || y.op == OLin {
		d := b.Sub(x, y)
		if d.isConst() {
			return b.Bool(d.val == 0)
		}
		if d.op == OLin && len(d.args) == 1 && (d.coef[0] == 1 || d.coef[0] == mask(d.w())) {
			c := d.val
			if d.coef[0] == 1 {
				c = -c
			}
			return b.Eq(d.args[0], b.Const(c, d.w()))
		}
		if d.op != OLin {
			return b.Eq(d, b.Const(0, d.w()))
		}
		// canonical: move negative terms right
		x, y = b.splitLin(d)
	}
	if k := roundW(max(x.sbits(), y.sbits())); k < x.w() {
		return b.Eq(b.Extract(x, 0, k), b.Extract(y, 0, k))
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OEq, SBool, []*Term{x, y}, nil, 0, "")
}

// splitLin splits d == 0 into pos == neg.
func (b *TB) splitLin(d *Term) (*Term, *Term) {
	w := d.w()
	var pa, na []*Term
	var pc, nc []uint64
	half := uint64(1) << uint(w-1)
	for i, a := range d.args {
		if d.coef[i] < half {
			pa, pc = append(pa, a), append(pc, d.coef[i])
		} else {
			na, nc = append(na, a), append(nc, (-d.coef[i])&mask(w))
		}
	}
	var pv, nv uint64
	if d.val < half {
		pv = d.val
	} else {
		nv = (-d.val) & mask(w)
	}
	return b.lin(pa, pc, pv, w), b.lin(na, nc, nv, w)
}

// lin builds a canonical linear combination; args must be non-LIN, distinct.
func (b *TB) lin(args []*Term, coef []uint64, c uint64, w int) *Term {
	c &= mask(w)
	if len(args) == 0 {
		return b.Const(c, w)
	}
	if len(args) == 1 && coef[0] == 1 && c == 0 {
		return args[0]
	}
	return b.mk(OLin, BV(w), args, coef, c, "")
}

func (b *TB) linAdd(x, y *Term, kx, ky uint64) *Term {
	w := x.w()
	m := mask(w)
	acc := map[int]uint64{}
	tm := map[int]*Term{}
	var c uint64
	add := func(t *Term, k uint64) {
		switch t.op {
		case OConst:
			c += k * t.val
		case OLin:
			c += k * t.val
			for i, a := range t.args {
				acc[a.id] += k * t.coef[i]
				tm[a.id] = a
			}
		default:
			acc[t.id] += k
			tm[t.id] = t
		}
	}
	add(x, kx)
	if y != nil {
		add(y, ky)
	}
	ids := make([]int, 0, len(acc))
	for id, k := range acc {
		if k&m != 0 {
			ids = append(ids, id)
		}
	}
	sort.Ints(ids)
	args := make([]*Term, len(ids))
	coef := make([]uint64, len(ids))
	for i, id := range ids {
		args[i] = tm[id]
		coef[i] = acc[id] & m
	}
	return b.lin(args, coef, c, w)
}

func (b *TB) Add(x, y *Term) *Term { return b.linAdd(x, y, 1, 1) }
func (b *TB) Sub(x, y *Term) *Term { return b.linAdd(x, y, 1, ^uint64(0)) }
func (b *TB) Neg(x *Term) *Term    { return b.linAdd(x, nil, ^uint64(0), 0) }
func (b *TB) Mul(x, y *Term) *Term {
	if x.isConst() {
		x, y = y, x
	}
	if y.isConst() {
		return b.linAdd(x, nil, y.val, 0)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.mk(OMul, x.sort, []*Term{x, y}, nil, 0, "")
}

func isPow2(v uint64) bool { return v != 0 && v&(v-1) == 0 }

func (b *TB) UDiv(x, y *Term) *Term {
	if x.isConst() && y.isConst() && y.val != 0 {
		return b.Const(x.val/y.val, x.w())
	}
	if y.isConst() && isPow2(y.val) {
		return b.LShr(x, b.Const(uint64(bits.TrailingZeros64(y.val)), x.w()))
	}
	return b.mk(OUDiv, x.sort, []*Term{x, y}, nil, 0, "")
}
func (b *TB) URem(x, y *Term) *Term {
	if x.isConst() && y.isConst() && y.val != 0 {
		return b.Const(x.val%y.val, x.w())
	}
	if y.isConst() && isPow2(y.val) {
		return b.BAnd(x, b.Const(y.val-1, x.w()))
	}
	if y.isConst() && y.val > 0 && x.hi < y.val {
		return x
	}
	return b.mk(OURem, x.sort, []*Term{x, y}, nil, 0, "")
}
func (b *TB) nonneg(x *Term) bool { return x.hi>>(uint(x.w())-1) == 0 }

func (b *TB) SDiv(x, y *Term) *Term {
	if x.isConst() && y.isConst() && y.val != 0 {
		return b.Const(uint64(sdiv(sext(x.val, x.w()), sext(y.val, y.w()))), x.w())
	}
	if b.nonneg(x) && b.nonneg(y) {
		return b.UDiv(x, y)
	}
	return b.mk(OSDiv, x.sort, []*Term{x, y}, nil, 0, "")
}
func sdiv(a, c int64) int64 {
	if c == -1 {
		return -a
	}
	return a / c
}
func srem(a, c int64) int64 {
	if c == -1 {
		return 0
	}
	return a % c
}
func (b *TB) SRem(x, y *Term) *Term {
	if x.isConst() && y.isConst() && y.val != 0 {
		return b.Const(uint64(srem(sext(x.val, x.w()), sext(y.val, y.w()))), x.w())
	}
	if b.nonneg(x) && b.nonneg(y) {
		return b.URem(x, y)
	}
	return b.mk(OSRem, x.sort, []*Term{x, y}, nil, 0, "")
}

func (b *TB) BAnd(x, y *Term) *Term {
	if x.isConst() {
		x, y = y, x
	}
	if x.isConst() {
		return b.Const(x.val&y.val, x.w())
	}
	if y.isConst() {
		if y.val == 0 {
			return y
		}
		if y.val == mask(x.w()) {
			return x
		}
		// low mask: covers whole range
		if isPow2(y.val + 1) {
			if x.hi <= y.val {
				return x
			}
			// mask of linear: reduce via extract/zext for canonical form
			k := bits.Len64(y.val)
			return b.ZExt(b.Extract(x, 0, k), x.w())
		}
		if x.op == OBAnd && x.args[1].isConst() {
			return b.BAnd(x.args[0], b.Const(x.args[1].val&y.val, x.w()))
		}
		if x.op == OIte && (x.args[1].isConst() || x.args[2].isConst()) {
			return b.Ite(x.args[0], b.BAnd(x.args[1], y), b.BAnd(x.args[2], y))
		}
	}
	if x == y {
		return x
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return b.mk(OBAnd, x.sort, []*Term{x, y}, nil, 0, "")
}
func (b *TB) BOr(x, y *Term) *Term {
	if x.isConst() {
		x, y = y, x
	}
	if x.isConst() {
		return b.Const(x.val|y.val, x.w())
	}
	if y.isConst() {
		if y.val == 0 {
			return x
		}
		if y.val == mask(x.w()) {
			return y
		}
	}
	if x == y {
		return x
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return b.mk(OBOr, x.sort, []*Term{x, y}, nil, 0, "")
}
func (b *TB) BXor(x, y *Term) *Term {
	if x.isConst() {
		x, y = y, x
	}
	if x.isConst() {
		return b.Const(x.val^y.val, x.w())
	}
	if y.isConst() {
		if y.val == 0 {
			return x
		}
		if y.val == mask(x.w()) {
			return b.linAdd(x, nil, ^uint64(0), 0).addc(b, ^uint64(0)) // ^x = -x-1
		}
	}
	if x == y {
		return b.Const(0, x.w())
	}
	if !y.isConst() && x.id > y.id {
		x, y = y, x
	}
	return b.mk(OBXor, x.sort, []*Term{x, y}, nil, 0, "")
}
func (t *Term) addc(b *TB, c uint64) *Term { return b.Add(t, b.Const(c, t.w())) }

// Shifts: y has the same width as x; Go semantics equal SMT semantics (>= width gives 0 / sign).
func (b *TB) Shl(x, y *Term) *Term {
	w := x.w()
	if y.isConst() {
		if y.val >= uint64(w) {
			return b.Const(0, w)
		}
		return b.linAdd(x, nil, uint64(1)<<y.val, 0)
	}
	if x.isConst() && x.val == 0 {
		return x
	}
	return b.mk(OShl, x.sort, []*Term{x, y}, nil, 0, "")
}
func (b *TB) LShr(x, y *Term) *Term {
	w := x.w()
	if y.isConst() {
		if y.val >= uint64(w) {
			return b.Const(0, w)
		}
		if y.val == 0 {
			return x
		}
		if x.isConst() {
			return b.Const(x.val>>y.val, w)
		}
		if x.hi>>y.val == 0 {
			return b.Const(0, w)
		}
		// (x & (m<<k)) >> k etc. -> extract
		return b.ZExt(b.Extract(x, int(y.val), w-int(y.val)), w)
	}
	if x.isConst() && x.val == 0 {
		return x
	}
	return b.mk(OLShr, x.sort, []*Term{x, y}, nil, 0, "")
}
func (b *TB) AShr(x, y *Term) *Term {
	w := x.w()
	if b.nonneg(x) {
		return b.LShr(x, y)
	}
	if y.isConst() {
		k := y.val
		if k >= uint64(w) {
			k = uint64(w - 1)
		}
		if x.isConst() {
			return b.Const(uint64(sext(x.val, w)>>k), w)
		}
		if k == 0 {
			return x
		}
		return b.SExt(b.Extract(x, int(k), w-int(k)), w)
	}
	return b.mk(OAShr, x.sort, []*Term{x, y}, nil, 0, "")
}

func (b *TB) ULt(x, y *Term) *Term {
	if x == y {
		return b.False
	}
	if x.hi < y.lo {
		return b.True
	}
	if x.lo >= y.hi {
		return b.False
	}
	if x.isConst() && y.isConst() {
		return b.Bool(x.val < y.val)
	}
	if r := b.narrow(x, y); r != nil {
		return b.ULt(r[0], r[1])
	}
	if y.isConst() && y.val == 1 {
		return b.Eq(x, b.Const(0, x.w()))
	}
	if y.isConst() && x.op == OIte && (x.args[1].isConst() || x.args[2].isConst()) {
		return b.Ite(x.args[0], b.ULt(x.args[1], y), b.ULt(x.args[2], y))
	}
	if k := roundW(max(bits.Len64(x.hi), bits.Len64(y.hi))); k < x.w() {
		return b.ULt(b.Extract(x, 0, k), b.Extract(y, 0, k))
	}
	return b.mk(OULt, SBool, []*Term{x, y}, nil, 0, "")
}

// narrow strips zero extensions when both sides fit.
func (b *TB) narrow(x, y *Term) []*Term {
	if x.op == OZExt && y.op == OZExt && x.args[0].sort == y.args[0].sort {
		return []*Term{x.args[0], y.args[0]}
	}
	if x.op == OZExt && y.isConst() && y.val <= mask(x.args[0].w()) {
		return []*Term{x.args[0], b.Const(y.val, x.args[0].w())}
	}
	if y.op == OZExt && x.isConst() && x.val <= mask(y.args[0].w()) {
		return []*Term{b.Const(x.val, y.args[0].w()), y.args[0]}
	}
	return nil
}

func (b *TB) ULe(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.hi <= y.lo {
		return b.True
	}
	if x.lo > y.hi {
		return b.False
	}
	if r := b.narrow(x, y); r != nil {
		return b.ULe(r[0], r[1])
	}
	if y.isConst() && y.val == 0 {
		return b.Eq(x, y)
	}
	if y.isConst() {
		return b.ULt(x, b.Const(y.val+1, x.w())) // y.val < max since x.hi > y.lo
	}
	if x.isConst() && x.val > 0 {
		return b.ULt(b.Const(x.val-1, x.w()), y)
	}
	if k := roundW(max(bits.Len64(x.hi), bits.Len64(y.hi))); k < x.w() {
		return b.ULe(b.Extract(x, 0, k), b.Extract(y, 0, k))
	}
	return b.mk(OULe, SBool, []*Term{x, y}, nil, 0, "")
}
func (b *TB) SLt(x, y *Term) *Term {
	if x == y {
		return b.False
	}
	if x.isConst() && y.isConst() {
		return b.Bool(sext(x.val, x.w()) < sext(y.val, y.w()))
	}
	if b.nonneg(x) && b.nonneg(y) {
		return b.ULt(x, y)
	}
	if x.shi < y.slo {
		return b.True
	}
	if x.slo >= y.shi {
		return b.False
	}
	if k := roundW(max(x.sbits(), y.sbits())); k < x.w() {
		return b.SLt(b.Extract(x, 0, k), b.Extract(y, 0, k))
	}
	return b.mk(OSLt, SBool, []*Term{x, y}, nil, 0, "")
}
func (b *TB) SLe(x, y *Term) *Term {
	if x == y {
		return b.True
	}
	if x.isConst() && y.isConst() {
		return b.Bool(sext(x.val, x.w()) <= sext(y.val, y.w()))
	}
	if b.nonneg(x) && b.nonneg(y) {
		return b.ULe(x, y)
	}
	if x.shi <= y.slo {
		return b.True
	}
	if x.slo > y.shi {
		return b.False
	}
	if k := roundW(max(x.sbits(), y.sbits())); k < x.w() {
		return b.SLe(b.Extract(x, 0, k), b.Extract(y, 0, k))
	}
	return b.mk(OSLe, SBool, []*Term{x, y}, nil, 0, "")
}

// Extract takes n bits starting at lo.
func (b *TB) Extract(x *Term, lo, n int) *Term {
	if lo == 0 && n == x.w() {
		return x
	}
	if x.isConst() {
		return b.Const(x.val>>uint(lo), n)
	}
	switch x.op {
	case OExtract:
		return b.Extract(x.args[0], int(x.val)+lo, n)
	case OZExt:
		a := x.args[0]
		if lo+n <= a.w() {
			return b.Extract(a, lo, n)
		}
		if lo >= a.w() {
			return b.Const(0, n)
		}
		return b.ZExt(b.Extract(a, lo, a.w()-lo), n)
	case OSExt:
		a := x.args[0]
		if lo+n <= a.w() {
			return b.Extract(a, lo, n)
		}
	case OIte:
		if x.args[1].isConst() || x.args[2].isConst() {
			return b.Ite(x.args[0], b.Extract(x.args[1], lo, n), b.Extract(x.args[2], lo, n))
		}
	case OLin:
		if lo == 0 {
			r := b.Const(x.val, n)
			for i, a := range x.args {
				r = b.linAdd(r, b.Extract(a, 0, n), 1, x.coef[i]&mask(n))
			}
			return r
		}
	case OBAnd:
		if x.args[1].isConst() {
			return b.BAnd(b.Extract(x.args[0], lo, n), b.Const(x.args[1].val>>uint(lo), n))
		}
	case OBOr:
		return b.BOr(b.Extract(x.args[0], lo, n), b.Extract(x.args[1], lo, n))
	}
	return b.mk(OExtract, BV(n), []*Term{x}, nil, uint64(lo), "")
}
func (b *TB) ZExt(x *Term, w int) *Term {
	if w == x.w() {
		return x
	}
	if x.isConst() {
		return b.Const(x.val, w)
	}
	if x.op == OZExt {
		return b.ZExt(x.args[0], w)
	}
	if x.op == OIte && (x.args[1].isConst() && x.args[2].isConst()) {
		return b.Ite(x.args[0], b.ZExt(x.args[1], w), b.ZExt(x.args[2], w))
	}
	return b.mk(OZExt, BV(w), []*Term{x}, nil, 0, "")
}
func (b *TB) SExt(x *Term, w int) *Term {
	if w == x.w() {
		return x
	}
	if x.isConst() {
		return b.Const(uint64(sext(x.val, x.w())), w)
	}
	if b.nonneg(x) {
		return b.ZExt(x, w)
	}
	if x.op == OSExt {
		return b.SExt(x.args[0], w)
	}
	return b.mk(OSExt, BV(w), []*Term{x}, nil, 0, "")
}

// Resize converts an integer term to width w.
func (b *TB) Resize(x *Term, w int, signed bool) *Term {
	if w <= x.w() {
		return b.Extract(x, 0, w)
	}
	if signed {
		return b.SExt(x, w)
	}
	return b.ZExt(x, w)
}

func (b *TB) FBin(op Op, x, y *Term) *Term {
	if x.isConst() && y.isConst() {
		var r float64
		a, c := x.f(), y.f()
		switch op {
		case OFAdd:
			r = a + c
		case OFSub:
			r = a - c
		case OFMul:
			r = a * c
		case OFDiv:
			r = a / c
		case OFLt:
			return b.Bool(a < c)
		case OFLe:
			return b.Bool(a <= c)
		case OFEq:
			return b.Bool(a == c)
		}
		return b.FConst(r, x.w())
	}
	switch op {
	case OFLt, OFLe, OFEq:
		return b.mk(op, SBool, []*Term{x, y}, nil, 0, "")
	}
	return b.mk(op, x.sort, []*Term{x, y}, nil, 0, "")
}
func (b *TB) FNeg(x *Term) *Term {
	if x.isConst() {
		return b.FConst(-x.f(), x.w())
	}
	return b.mk(OFNeg, x.sort, []*Term{x}, nil, 0, "")
}
func (b *TB) I2F(x *Term, w int, signed bool) *Term {
	if x.isConst() {
		if signed {
			return b.FConst(float64(sext(x.val, x.w())), w)
		}
		return b.FConst(float64(x.val), w)
	}
	if signed && !b.nonneg(x) {
		return b.mk(OS2F, FP(w), []*Term{x}, nil, 0, "")
	}
	return b.mk(OU2F, FP(w), []*Term{x}, nil, 0, "")
}
func (b *TB) F2I(x *Term, w int, signed bool) *Term {
	if x.isConst() {
		if signed {
			return b.Const(uint64(int64(x.f())), w)
		}
		return b.Const(uint64(x.f()), w)
	}
	if signed {
		return b.mk(OF2S, BV(w), []*Term{x}, nil, 0, "")
	}
	return b.mk(OF2U, BV(w), []*Term{x}, nil, 0, "")
}
func (b *TB) F2F(x *Term, w int) *Term {
	if x.w() == w {
		return x
	}
	if x.isConst() {
		return b.FConst(x.f(), w)
	}
	return b.mk(OF2F, FP(w), []*Term{x}, nil, 0, "")
}

// ---- evaluation under a model ----

// Model gives the value of variable i (index in TB.vars); missing ones take the variable's lower bound.
type Model []uint64

func (m Model) get(t *Term) uint64 {
	if t.val < uint64(len(m)) {
		v := m[t.val]
		if t.sort.K == KBV && (v < t.lo || v > t.hi) {
			return t.lo
		}
		return v
	}
	return t.lo
}

func (b *TB) Eval(t *Term, m Model) uint64 {
	b.epoch++
	return b.eval(t, m)
}

func (b *TB) eval(t *Term, m Model) uint64 {
	if t.op == OConst {
		return t.val
	}
	if t.epoch == b.epoch {
		return t.ev
	}
	var r uint64
	w := t.w()
	A := func(i int) uint64 { return b.eval(t.args[i], m) }
	bo := func(x bool) uint64 {
		if x {
			return 1
		}
		return 0
	}
	fl := func(i int) float64 {
		v := A(i)
		if t.args[i].sort.W == 32 {
			return float64(math.Float32frombits(uint32(v)))
		}
		return math.Float64frombits(v)
	}
	fb := func(f float64) uint64 {
		if w == 32 {
			return uint64(math.Float32bits(float32(f)))
		}
		return math.Float64bits(f)
	}
	switch t.op {
	case OVar:
		r = m.get(t)
	case ONot:
		r = 1 - A(0)
	case OAnd:
		r = 1
		for i := range t.args {
			if A(i) == 0 {
				r = 0
				break
			}
		}
	case OOr:
		for i := range t.args {
			if A(i) != 0 {
				r = 1
				break
			}
		}
	case OEq:
		r = bo(A(0) == A(1))
	case OIte:
		if A(0) != 0 {
			r = A(1)
		} else {
			r = A(2)
		}
	case OLin:
		r = t.val
		for i := range t.args {
			r += t.coef[i] * A(i)
		}
	case OMul:
		r = A(0) * A(1)
	case OUDiv:
		if d := A(1); d == 0 {
			r = mask(w)
		} else {
			r = A(0) / d
		}
	case OURem:
		if d := A(1); d == 0 {
			r = A(0)
		} else {
			r = A(0) % d
		}
	case OSDiv:
		a, d := sext(A(0), w), sext(A(1), w)
		if d == 0 {
			if a >= 0 {
				r = mask(w)
			} else {
				r = 1
			}
		} else {
			r = uint64(sdiv(a, d))
		}
	case OSRem:
		a, d := sext(A(0), w), sext(A(1), w)
		if d == 0 {
			r = uint64(a)
		} else {
			r = uint64(srem(a, d))
		}
	case OBAnd:
		r = A(0) & A(1)
	case OBOr:
		r = A(0) | A(1)
	case OBXor:
		r = A(0) ^ A(1)
	case OShl:
		if s := A(1); s < uint64(w) {
			r = A(0) << s
		}
	case OLShr:
		if s := A(1); s < uint64(w) {
			r = A(0) >> s
		}
	case OAShr:
		s := A(1)
		if s >= uint64(w) {
			s = uint64(w - 1)
		}
		r = uint64(sext(A(0), w) >> s)
	case OULt:
		r = bo(A(0) < A(1))
	case OULe:
		r = bo(A(0) <= A(1))
	case OSLt:
		r = bo(sext(A(0), t.args[0].w()) < sext(A(1), t.args[0].w()))
	case OSLe:
		r = bo(sext(A(0), t.args[0].w()) <= sext(A(1), t.args[0].w()))
	case OExtract:
		r = A(0) >> t.val
	case OZExt:
		r = A(0)
	case OSExt:
		r = uint64(sext(A(0), t.args[0].w()))
	case OFAdd:
		r = fb(fl(0) + fl(1))
	case OFSub:
		r = fb(fl(0) - fl(1))
	case OFMul:
		r = fb(fl(0) * fl(1))
	case OFDiv:
		r = fb(fl(0) / fl(1))
	case OFNeg:
		r = fb(-fl(0))
	case OFLt:
		r = bo(fl(0) < fl(1))
	case OFLe:
		r = bo(fl(0) <= fl(1))
	case OFEq:
		r = bo(fl(0) == fl(1))
	case OS2F:
		r = fb(float64(sext(A(0), t.args[0].w())))
	case OU2F:
		r = fb(float64(A(0)))
	case OF2S:
		r = uint64(int64(fl(0)))
	case OF2U:
		r = uint64(fl(0))
	case OF2F:
		r = fb(fl(0))
	default:
		panic("eval op")
	}
	if t.sort.K == KBV {
		r &= mask(w)
	}
	t.ev = r
	t.epoch = b.epoch
	return r
}

// ---- SMT printing ----

func (t *Term) ref() string {
	switch t.op {
	case OConst:
		switch t.sort.K {
		case KBool:
			if t.val != 0 {
				return "true"
			}
			return "false"
		case KBV:
			return fmt.Sprintf("(_ bv%d %d)", t.val, t.sort.W)
		default:
			if t.sort.W == 32 {
				return fmt.Sprintf("((_ to_fp 8 24) (_ bv%d 32))", t.val)
			}
			return fmt.Sprintf("((_ to_fp 11 53) (_ bv%d 64))", t.val)
		}
	case OVar:
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

var smtOp = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem",
	OSDiv: "bvsdiv", OSRem: "bvsrem", OBAnd: "bvand", OBOr: "bvor", OBXor: "bvxor", OShl: "bvshl", OLShr: "bvlshr", OAShr: "bvashr",
	OULt: "bvult", OULe: "bvule", OSLt: "bvslt", OSLe: "bvsle", OFAdd: "fp.add RNE", OFSub: "fp.sub RNE", OFMul: "fp.mul RNE", OFDiv: "fp.div RNE",
	OFNeg: "fp.neg", OFLt: "fp.lt", OFLe: "fp.leq", OFEq: "fp.eq"}

func (t *Term) body() string {
	var sb strings.Builder
	switch t.op {
	case OLin:
		w := t.w()
		one := uint64(1)
		parts := []string{}
		for i, a := range t.args {
			c := t.coef[i]
			switch {
			case c == one:
				parts = append(parts, a.ref())
			case c == mask(w):
				parts = append(parts, "(bvneg "+a.ref()+")")
			default:
				parts = append(parts, fmt.Sprintf("(bvmul (_ bv%d %d) %s)", c, w, a.ref()))
			}
		}
		if t.val != 0 || len(parts) == 0 {
			parts = append(parts, fmt.Sprintf("(_ bv%d %d)", t.val, w))
		}
		r := parts[0]
		for _, p := range parts[1:] {
			r = "(bvadd " + r + " " + p + ")"
		}
		return r
	case OExtract:
		fmt.Fprintf(&sb, "((_ extract %d %d) %s)", int(t.val)+t.w()-1, t.val, t.args[0].ref())
		return sb.String()
	case OZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w()-t.args[0].w(), t.args[0].ref())
	case OSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w()-t.args[0].w(), t.args[0].ref())
	case OS2F, OU2F, OF2F:
		e := "11 53"
		if t.w() == 32 {
			e = "8 24"
		}
		f := "to_fp"
		if t.op == OU2F {
			f = "to_fp_unsigned"
		}
		return fmt.Sprintf("((_ %s %s) RNE %s)", f, e, t.args[0].ref())
	case OF2S:
		return fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w(), t.args[0].ref())
	case OF2U:
		return fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w(), t.args[0].ref())
	}
	sb.WriteByte('(')
	sb.WriteString(smtOp[t.op])
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(a.ref())
	}
	sb.WriteByte(')')
	return sb.String()
}

func (t *Term) String() string {
	switch t.op {
	case OConst, OVar:
		if t.op == OVar {
			return t.name
		}
		if t.sort.K == KBV {
			return strconv.FormatUint(t.val, 10)
		}
		return t.ref()
	}
	var sb strings.Builder
	t.pretty(&sb, 0)
	return sb.String()
}
func (t *Term) pretty(sb *strings.Builder, d int) {
	if d > 8 {
		sb.WriteString("...")
		return
	}
	switch t.op {
	case OConst, OVar:
		sb.WriteString(t.String())
		return
	case OLin:
		sb.WriteString("(+")
		for i, a := range t.args {
			fmt.Fprintf(sb, " %d*", sext(t.coef[i], t.w()))
			a.pretty(sb, d+1)
		}
		fmt.Fprintf(sb, " %d)", sext(t.val, t.w()))
		return
	}
	if s, ok := smtOp[t.op]; ok {
		sb.WriteString("(" + s)
	} else {
		fmt.Fprintf(sb, "(op%d.%d.%d", t.op, t.val, t.sort.W)
	}
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.pretty(sb, d+1)
	}
	sb.WriteByte(')')
}

// ---- variable sets ----

type VarSet struct{ w []uint64 }

var emptyVS = &VarSet{}

func (t *Term) varset() *VarSet {
	if t.vs != nil {
		return t.vs
	}
	switch {
	case t.op == OConst:
		t.vs = emptyVS
	case t.op == OVar:
		w := make([]uint64, t.val/64+1)
		w[t.val/64] |= 1 << (t.val % 64)
		t.vs = &VarSet{w}
	case len(t.args) == 1:
		t.vs = t.args[0].varset()
	default:
		n := 0
		for _, a := range t.args {
			n = max(n, len(a.varset().w))
		}
		// reuse when one argument covers everything
		w := make([]uint64, n)
		for _, a := range t.args {
			for i, x := range a.vs.w {
				w[i] |= x
			}
		}
		for _, a := range t.args {
			if len(a.vs.w) == n {
				same := true
				for i := range w {
					if a.vs.w[i] != w[i] {
						same = false
						break
					}
				}
				if same {
					t.vs = a.vs
					return t.vs
				}
			}
		}
		t.vs = &VarSet{w}
	}
	return t.vs
}

func (a *VarSet) intersects(w []uint64) bool {
	n := min(len(a.w), len(w))
	for i := 0; i < n; i++ {
		if a.w[i]&w[i] != 0 {
			return true
		}
	}
	return false
}

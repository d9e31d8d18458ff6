package main

// Integer back end: queries whose terms are linear over the integers are translated
// exactly (no overflow, or explicit mod) and decided by linear arithmetic, which is
// much faster than bit-blasting for counters and sequence numbers.

import (
	"fmt"
	"strconv"
	"strings"
	"time"
)

const liaFail = "!"

type lia struct {
	*proc
	s   map[*Term]string // signed value (Bool: the formula)
	u   map[*Term]string // unsigned value
	out *strings.Builder

	Queries, Unknown, Skipped int
	Time                      time.Duration
}

func newLia() *lia {
	l := &lia{s: map[*Term]string{}, u: map[*Term]string{}, out: &strings.Builder{}}
	return l
}

func (l *lia) start() {
	l.proc = startProc(solverBin)
	fmt.Fprintf(l.in, "(set-option :global-declarations true)\n(set-option :rlimit %d)\n", liaLimit)
}

var liaLimit = 200_000

func inum(v int64) string {
	if v < 0 {
		if v == -v {
			return "(- 9223372036854775808)"
		}
		return "(- " + strconv.FormatInt(-v, 10) + ")"
	}
	return strconv.FormatInt(v, 10)
}
func unum(v uint64) string { return strconv.FormatUint(v, 10) }

func pow2s(w int) string {
	if w == 64 {
		return "18446744073709551616"
	}
	return unum(1 << uint(w))
}

func (l *lia) def(pfx string, t *Term, e string, sort string) string {
	n := fmt.Sprintf("%s%d", pfx, t.id)
	fmt.Fprintf(l.out, "(define-fun %s () %s %s)\n", n, sort, e)
	return n
}

func atomic(e string) bool {
	return !strings.ContainsAny(e, " ") || strings.HasPrefix(e, "(- ") && strings.Count(e, " ") == 1
}

func isNonneg(t *Term) bool { return t.slo >= 0 }

// sv gives the signed value of a bit-vector term.
func (l *lia) sv(t *Term) string {
	if e, ok := l.s[t]; ok {
		return e
	}
	e := l.sv0(t)
	if e != liaFail && !atomic(e) {
		e = l.def("s", t, e, "Int")
	}
	l.s[t] = e
	return e
}

func (l *lia) sv0(t *Term) string {
	if t.isConst() {
		return inum(sext(t.val, t.w()))
	}
	switch t.op {
	case OSExt:
		return l.sv(t.args[0])
	case OZExt:
		return l.uv(t.args[0])
	case OIte:
		c, a, b := l.bv(t.args[0]), l.sv(t.args[1]), l.sv(t.args[2])
		if c == liaFail || a == liaFail || b == liaFail {
			return liaFail
		}
		return "(ite " + c + " " + a + " " + b + ")"
	case OExtract:
		if t.val == 0 {
			a := t.args[0]
			w := uint(t.w())
			if a.slo >= int64(-1)<<(w-1) && a.shi <= int64(uint64(1)<<(w-1)-1) {
				return l.sv(a)
			}
		}
	case OLin:
		w := t.w()
		c := sext(t.val, w)
		lo, hi, ok := linRange(t, c)
		smin, smax := int64(-1)<<uint(w-1), int64(uint64(1)<<uint(w-1)-1)
		if ok && lo >= smin && hi <= smax {
			return l.sum(t, c, false)
		}
	case OSDiv, OSRem:
		d := t.args[1]
		if d.isConst() && sext(d.val, t.w()) > 0 {
			a := l.sv(t.args[0])
			if a == liaFail {
				return liaFail
			}
			k := unum(d.val)
			if t.args[0].slo >= 0 {
				if t.op == OSDiv {
					return "(div " + a + " " + k + ")"
				}
				return "(mod " + a + " " + k + ")"
			}
			if t.op == OSDiv {
				return "(ite (>= " + a + " 0) (div " + a + " " + k + ") (- (div (- " + a + ") " + k + ")))"
			}
			return "(ite (>= " + a + " 0) (mod " + a + " " + k + ") (- (mod (- " + a + ") " + k + ")))"
		}
		return liaFail
	}
	u := l.uv(t)
	if u == liaFail || isNonneg(t) {
		return u
	}
	if t.w() == 64 {
		return "(ite (>= " + u + " 9223372036854775808) (- " + u + " 18446744073709551616) " + u + ")"
	}
	return "(ite (>= " + u + " " + pow2s(t.w()-1) + ") (- " + u + " " + pow2s(t.w()) + ") " + u + ")"
}

func linRange(t *Term, c int64) (int64, int64, bool) {
	const lim = int64(1) << 61
	if c < -lim || c > lim {
		return 0, 0, false
	}
	lo, hi := c, c
	for i, a := range t.args {
		k := sext(t.coef[i], t.w())
		x, o1 := mulSafe(k, a.slo, lim)
		y, o2 := mulSafe(k, a.shi, lim)
		if !o1 || !o2 {
			return 0, 0, false
		}
		if x > y {
			x, y = y, x
		}
		lo += x
		hi += y
		if lo < -lim || hi > lim {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

func (l *lia) sum(t *Term, c int64, unsigned bool) string {
	var sb strings.Builder
	sb.WriteString("(+ ")
	sb.WriteString(inum(c))
	for i, a := range t.args {
		var e string
		if unsigned {
			e = l.uv(a)
		} else {
			e = l.sv(a)
		}
		if e == liaFail {
			return liaFail
		}
		k := sext(t.coef[i], t.w())
		if k == 1 {
			sb.WriteString(" " + e)
		} else {
			sb.WriteString(" (* " + inum(k) + " " + e + ")")
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// uv gives the unsigned value of a bit-vector term.
func (l *lia) uv(t *Term) string {
	if e, ok := l.u[t]; ok {
		return e
	}
	e := l.uv0(t)
	if e != liaFail && !atomic(e) {
		e = l.def("u", t, e, "Int")
	}
	l.u[t] = e
	return e
}

func (l *lia) uv0(t *Term) string {
	if t.isConst() {
		return unum(t.val)
	}
	w := t.w()
	switch t.op {
	case OVar:
		fmt.Fprintf(l.out, "(declare-const v%d Int)\n", t.id)
		return fmt.Sprintf("v%d", t.id)
	case OZExt:
		return l.uv(t.args[0])
	case OSExt:
		if isNonneg(t.args[0]) {
			return l.sv(t.args[0])
		}
	case OIte:
		c, a, b := l.bv(t.args[0]), l.uv(t.args[1]), l.uv(t.args[2])
		if c == liaFail || a == liaFail || b == liaFail {
			return liaFail
		}
		return "(ite " + c + " " + a + " " + b + ")"
	case OExtract:
		a := t.args[0]
		if t.val == 0 {
			if a.hi <= mask(w) {
				return l.uv(a)
			}
			// an inexact sum need not be reduced twice
			var e string
			if a.op == OLin {
				e = l.sum(a, sext(a.val, a.w()), false)
			} else {
				e = l.uv(a)
			}
			if e == liaFail {
				return e
			}
			return "(mod " + e + " " + pow2s(w) + ")"
		}
		e := l.uv(a)
		if e == liaFail {
			return e
		}
		e = "(div " + e + " " + pow2s(int(t.val)) + ")"
		if int(t.val)+w < a.w() {
			e = "(mod " + e + " " + pow2s(w) + ")"
		}
		return e
	case OLin:
		c := sext(t.val, w)
		lo, _, ok := linRange(t, c)
		if ok && lo >= 0 && isNonneg(t) {
			return l.sv(t)
		}
		// unsigned sum without overflow?
		if lo, hi, ok := linURange(t, c); ok && lo >= 0 && uint64(hi) <= mask(w) {
			return l.sum(t, c, true)
		}
		e := l.sum(t, c, false)
		if e == liaFail {
			return e
		}
		return "(mod " + e + " " + pow2s(w) + ")"
	case OURem, OUDiv:
		if d := t.args[1]; d.isConst() && d.val > 0 {
			a := l.uv(t.args[0])
			if a == liaFail {
				return a
			}
			if t.op == OUDiv {
				return "(div " + a + " " + unum(d.val) + ")"
			}
			return "(mod " + a + " " + unum(d.val) + ")"
		}
		return liaFail
	case OBAnd:
		for i := 0; i < 2; i++ {
			if c := t.args[i]; c.isConst() && c.val&(c.val+1) == 0 && c.val != 0 {
				a := l.uv(t.args[1-i])
				if a == liaFail {
					return a
				}
				if c.val == ^uint64(0) {
					return a
				}
				return "(mod " + a + " " + unum(c.val+1) + ")"
			}
		}
		return liaFail
	case OLShr:
		if c := t.args[1]; c.isConst() && c.val < uint64(w) {
			a := l.uv(t.args[0])
			if a == liaFail {
				return a
			}
			return "(div " + a + " " + unum(uint64(1)<<c.val) + ")"
		}
		return liaFail
	case OShl:
		if c := t.args[1]; c.isConst() && c.val < uint64(w) && c.val < 62 {
			a := l.uv(t.args[0])
			if a == liaFail {
				return a
			}
			e := "(* " + unum(uint64(1)<<c.val) + " " + a + ")"
			if h := t.args[0].hi; h > mask(w)>>c.val {
				e = "(mod " + e + " " + pow2s(w) + ")"
			}
			return e
		}
		return liaFail
	case OSDiv, OSRem:
	default:
		return liaFail
	}
	// from the signed value
	switch t.op {
	case OSDiv, OSRem, OSExt:
		e := l.sv(t)
		if e == liaFail || isNonneg(t) {
			return e
		}
		return "(ite (< " + e + " 0) (+ " + e + " " + pow2s(w) + ") " + e + ")"
	}
	return liaFail
}

func linURange(t *Term, c int64) (int64, int64, bool) {
	const lim = int64(1) << 61
	if c < -lim || c > lim {
		return 0, 0, false
	}
	lo, hi := c, c
	for i, a := range t.args {
		if a.hi > uint64(lim) {
			return 0, 0, false
		}
		k := sext(t.coef[i], t.w())
		x, o1 := mulSafe(k, int64(a.lo), lim)
		y, o2 := mulSafe(k, int64(a.hi), lim)
		if !o1 || !o2 {
			return 0, 0, false
		}
		if x > y {
			x, y = y, x
		}
		lo += x
		hi += y
		if lo < -lim || hi > lim {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// bv gives a formula for a boolean term.
func (l *lia) bv(t *Term) string {
	if e, ok := l.s[t]; ok {
		return e
	}
	e := l.bv0(t)
	if e != liaFail && !atomic(e) {
		e = l.def("b", t, e, "Bool")
	}
	l.s[t] = e
	return e
}

func (l *lia) bv0(t *Term) string {
	if t.isConst() {
		if t.val != 0 {
			return "true"
		}
		return "false"
	}
	bin := func(op, a, b string) string {
		if a == liaFail || b == liaFail {
			return liaFail
		}
		return "(" + op + " " + a + " " + b + ")"
	}
	switch t.op {
	case OVar:
		fmt.Fprintf(l.out, "(declare-const v%d Bool)\n", t.id)
		return fmt.Sprintf("v%d", t.id)
	case ONot, OAnd, OOr:
		var sb strings.Builder
		sb.WriteString("(" + smtOp[t.op])
		for _, a := range t.args {
			e := l.bv(a)
			if e == liaFail {
				return e
			}
			sb.WriteString(" " + e)
		}
		sb.WriteString(")")
		return sb.String()
	case OIte:
		a, b, c := l.bv(t.args[0]), l.bv(t.args[1]), l.bv(t.args[2])
		if a == liaFail || b == liaFail || c == liaFail {
			return liaFail
		}
		return "(ite " + a + " " + b + " " + c + ")"
	case OEq:
		x, y := t.args[0], t.args[1]
		switch x.sort.K {
		case KBool:
			return bin("=", l.bv(x), l.bv(y))
		case KBV:
			if x.hi <= mask(x.w()-1) && y.hi <= mask(y.w()-1) || x.slo >= 0 && y.slo >= 0 {
				return bin("=", l.uv(x), l.uv(y))
			}
			if x.slo < 0 && x.op == OLin || y.slo < 0 && y.op == OLin || x.op == OSExt || y.op == OSExt || x.op == OExtract {
				return bin("=", l.sv(x), l.sv(y))
			}
			return bin("=", l.uv(x), l.uv(y))
		}
		return liaFail
	case OULt:
		return bin("<", l.uv(t.args[0]), l.uv(t.args[1]))
	case OULe:
		return bin("<=", l.uv(t.args[0]), l.uv(t.args[1]))
	case OSLt:
		return bin("<", l.sv(t.args[0]), l.sv(t.args[1]))
	case OSLe:
		return bin("<=", l.sv(t.args[0]), l.sv(t.args[1]))
	}
	return liaFail
}

// check decides the conjunction, or reports that it cannot (ok == false).
func (l *lia) check(s *Solver, cs []*Term) (res SatRes, m map[int]uint64, ok bool) {
	exprs := make([]string, 0, len(cs))
	for _, c := range cs {
		e := l.bv(c)
		if e == liaFail {
			l.Skipped++
			// definitions already written stay valid
			return Unknown, nil, false
		}
		exprs = append(exprs, e)
	}
	if l.proc == nil {
		l.start()
	}
	t0 := time.Now()
	l.Queries++
	l.in.WriteString(l.out.String())
	l.out.Reset()
	l.in.WriteString("(push)\n")
	seen := map[int]bool{}
	for _, c := range cs {
		for i, x := range c.varset().w {
			for x != 0 {
				k := trailing(x)
				x &^= 1 << k
				vi := i*64 + k
				if seen[vi] {
					continue
				}
				seen[vi] = true
				if v := s.b.vars[vi]; v.sort.K == KBV {
					if _, ok := l.u[v]; ok {
						fmt.Fprintf(l.in, "(assert (<= %d v%d %d))\n", v.lo, v.id, v.hi)
					}
				}
			}
		}
	}
	for _, e := range exprs {
		l.in.WriteString("(assert " + e + ")\n")
	}
	l.in.WriteString("(check-sat)\n")
	l.in.Flush()
	res, m = s.answer(l.proc, cs)
	l.in.WriteString("(pop)\n")
	if res == Unknown {
		l.Unknown++
	}
	d := time.Since(t0)
	l.Time += d
	return res, m, res != Unknown
}

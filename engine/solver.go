package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

// proc is one solver process.
type proc struct {
	cmd   *exec.Cmd
	in    *bufio.Writer
	out   *bufio.Reader
	stdin io.WriteCloser
}

func startProc(bin string) *proc {
	cmd := exec.Command(bin, "-in", "-smt2")
	in, err := cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	cmd.Stderr = os.Stderr
	if err := cmd.Start(); err != nil {
		panic(err)
	}
	return &proc{cmd: cmd, stdin: in, in: bufio.NewWriterSize(in, 1<<16), out: bufio.NewReaderSize(out, 1<<16)}
}

func (p *proc) close() {
	if p != nil {
		p.stdin.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
}

// Solver asks an incremental process first, with a short limit, then a fresh standalone query.
type Solver struct {
	b *TB
	*proc
	second  *proc
	lia     *lia
	Second  int
	cache   map[string]cached
	Queries int
	Hits    int
	Time    time.Duration
	Slow    time.Duration
	Unknown int
	timeout int
}

type cached struct {
	res SatRes
	m   map[int]uint64 // var index -> value
}

var crossCheck = os.Getenv("GOSYM_CROSS") != ""
var useLia = os.Getenv("GOSYM_NOLIA") == ""

var solverBin = "z3-new"

func NewSolver(b *TB) *Solver {
	s := &Solver{b: b, cache: map[string]cached{}, timeout: 20000, lia: newLia()}
	s.start()
	return s
}

func (s *Solver) start() {
	s.proc = startProc(solverBin)
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :rlimit %d)\n", fastTimeout)
	if os.Getenv("GOSYM_LOGIC") != "" {
		fmt.Fprintf(s.in, "(set-logic %s)\n", os.Getenv("GOSYM_LOGIC"))
	}
}

// resource limits of the two tiers (deterministic, unlike time limits)
var fastTimeout = 100_000
var slowLimit = 60_000_000
var solverBin2 = "z3-new"

func (s *Solver) Close() {
	s.proc.close()
	s.second.close()
	s.second = nil
	if s.lia.proc != nil {
		s.lia.close()
		s.lia.proc = nil
	}
}

// Reset drops all state for a new term builder.
func (s *Solver) Reset(b *TB) {
	s.Close()
	s.b = b
	l := newLia()
	l.Queries, l.Unknown, l.Skipped, l.Time = s.lia.Queries, s.lia.Unknown, s.lia.Skipped, s.lia.Time
	s.lia = l
	s.cache = map[string]cached{}
	s.start()
}

func (s *Solver) emit(t *Term) {
	if t.emitted || t.op == OConst {
		return
	}
	t.emitted = true
	for _, a := range t.args {
		s.emit(a)
	}
	if t.op == OVar {
		fmt.Fprintf(s.in, "(declare-const v%d %s)\n", t.id, t.sort.smt())
		if t.sort.K == KBV {
			if t.lo > 0 {
				fmt.Fprintf(s.in, "(assert (bvuge v%d (_ bv%d %d)))\n", t.id, t.lo, t.sort.W)
			}
			if t.hi < mask(t.w()) {
				fmt.Fprintf(s.in, "(assert (bvule v%d (_ bv%d %d)))\n", t.id, t.hi, t.sort.W)
			}
		}
		return
	}
	fmt.Fprintf(s.in, "(define-fun t%d () %s %s)\n", t.id, t.sort.smt(), t.body())
}

// Check decides the conjunction. On Sat the model covers the variables of conj.
func (s *Solver) Check(conj []*Term) (SatRes, map[int]uint64) {
	ids := make([]int, 0, len(conj))
	seen := map[int]bool{}
	cs := make([]*Term, 0, len(conj))
	for _, c := range conj {
		if c == s.b.False {
			return Unsat, nil
		}
		if c == s.b.True || seen[c.id] {
			continue
		}
		seen[c.id] = true
		ids = append(ids, c.id)
		cs = append(cs, c)
	}
	sort.Ints(ids)
	var kb []byte
	for _, id := range ids {
		kb = strconv.AppendInt(kb, int64(id), 36)
		kb = append(kb, ' ')
	}
	if r, ok := s.cache[string(kb)]; ok {
		s.Hits++
		return r.res, r.m
	}
	t0 := time.Now()
	s.Queries++
	if useLia {
		if res, m, ok := s.lia.check(s, cs); ok {
			d := time.Since(t0)
			s.Time += d
			if d > s.Slow {
				s.Slow = d
			}
			s.cache[string(kb)] = cached{res, m}
			if !crossCheck || res == Sat {
				return res, m
			}
		}
	}
	for _, c := range cs {
		s.emit(c)
	}
	s.in.WriteString("(push)\n")
	for _, c := range cs {
		fmt.Fprintf(s.in, "(assert %s)\n", c.ref())
	}
	s.in.WriteString("(check-sat)\n")
	s.in.Flush()
	res, m := s.answer(s.proc, cs)
	s.in.WriteString("(pop)\n")
	if res == Unknown {
		s.Second++
		if s.second == nil {
			s.second = startProc(solverBin2)
		}
		fmt.Fprintf(s.second.in, "(reset)\n(set-option :rlimit %d)\n", slowLimit)
		s.standalone(s.second.in, cs)
		s.second.in.Flush()
		res, m = s.answer(s.second, cs)
		if res == Unknown {
			s.Unknown++
		}
	}
	d := time.Since(t0)
	if dumpSlow > 0 && d > dumpSlow {
		s.dump(cs)
	}
	s.Time += d
	if d > s.Slow {
		s.Slow = d
	}
	if c, ok := s.cache[string(kb)]; ok && res != Unknown && res != c.res {
		panic("integer and bit-vector back ends disagree")
	}
	if res != Unknown {
		s.cache[string(kb)] = cached{res, m}
	}
	return res, m
}

func (s *Solver) answer(p *proc, cs []*Term) (SatRes, map[int]uint64) {
	switch line := p.readLine(); line {
	case "unsat":
		return Unsat, nil
	case "unknown", "timeout":
		return Unknown, nil
	case "sat":
	default:
		panic("solver said: " + line)
	}
	m := map[int]uint64{}
	var vs []*Term
	seen := map[uint64]bool{}
	for _, c := range cs {
		for i, x := range c.varset().w {
			for x != 0 {
				k := trailing(x)
				x &^= 1 << k
				vi := uint64(i)*64 + uint64(k)
				if !seen[vi] {
					seen[vi] = true
					vs = append(vs, s.b.vars[vi])
				}
			}
		}
	}
	if len(vs) == 0 {
		return Sat, m
	}
	p.in.WriteString("(get-value (")
	for _, v := range vs {
		fmt.Fprintf(p.in, "v%d ", v.id)
	}
	p.in.WriteString("))\n")
	p.in.Flush()
	txt := p.readSexp()
	vals := parseValues(txt)
	for _, v := range vs {
		val, ok := vals[fmt.Sprintf("v%d", v.id)]
		if !ok {
			panic("solver: no value for v" + strconv.Itoa(v.id) + " in " + txt)
		}
		m[int(v.val)] = val
	}
	// check the answer
	mod := make(Model, len(s.b.vars))
	for i, v := range s.b.vars {
		mod[i] = v.lo
	}
	for i, x := range m {
		mod[i] = x
	}
	for _, c := range cs {
		if s.b.Eval(c, mod) == 0 {
			panic("solver: the model does not satisfy the query")
		}
	}
	return Sat, m
}

func trailing(x uint64) int {
	n := 0
	for x&1 == 0 {
		x >>= 1
		n++
	}
	return n
}

func (s *proc) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died: " + err.Error())
		}
		l = strings.TrimSpace(l)
		if l != "" {
			return l
		}
	}
}

func (s *proc) readSexp() string {
	var sb strings.Builder
	depth := 0
	started := false
	for !started || depth > 0 {
		l, err := s.out.ReadString('\n')
		if err != nil {
			panic("solver died: " + err.Error())
		}
		for _, c := range l {
			if c == '(' {
				depth++
				started = true
			}
			if c == ')' {
				depth--
			}
		}
		sb.WriteString(l)
		if !started && strings.TrimSpace(l) != "" {
			panic("solver said: " + l)
		}
	}
	return sb.String()
}

// parseValues reads ((v1 #x00) (v2 true) (v3 (fp #b0 #b.. #b..)) ...).
func parseValues(s string) map[string]uint64 {
	res := map[string]uint64{}
	toks := tokenize(s)
	i := 0
	var val func() uint64
	num := func(t string) uint64 {
		switch {
		case t == "true":
			return 1
		case t == "false":
			return 0
		case strings.HasPrefix(t, "#x"):
			v, _ := strconv.ParseUint(t[2:], 16, 64)
			return v
		case t[0] >= '0' && t[0] <= '9':
			v, _ := strconv.ParseUint(t, 10, 64)
			return v
		case strings.HasPrefix(t, "#b"):
			v, _ := strconv.ParseUint(t[2:], 2, 64)
			return v
		}
		panic("solver value " + t)
	}
	val = func() uint64 {
		t := toks[i]
		if t != "(" {
			i++
			return num(t)
		}
		i++
		switch toks[i] {
		case "fp":
			i++
			sg := toks[i]
			ex := toks[i+1]
			mt := toks[i+2]
			i += 4
			bitsOf := func(t string) (uint64, int) {
				if strings.HasPrefix(t, "#x") {
					return num(t), 4 * (len(t) - 2)
				}
				return num(t), len(t) - 2
			}
			a, _ := bitsOf(sg)
			e, en := bitsOf(ex)
			f, fn := bitsOf(mt)
			return a<<uint(en+fn) | e<<uint(fn) | f
		case "_":
			// (_ bvN w), (_ +zero 11 53), (_ NaN ..), (_ +oo ..)
			k := toks[i+1]
			var w int
			j := i + 2
			var last string
			for toks[j] != ")" {
				last = toks[j]
				j++
			}
			w, _ = strconv.Atoi(last)
			i = j + 1
			big := w == 53
			switch k {
			case "+zero":
				return 0
			case "-zero":
				if big {
					return 1 << 63
				}
				return 1 << 31
			case "+oo":
				if big {
					return 0x7ff0000000000000
				}
				return 0x7f800000
			case "-oo":
				if big {
					return 0xfff0000000000000
				}
				return 0xff800000
			case "NaN":
				if big {
					return 0x7ff8000000000001
				}
				return 0x7fc00000
			}
			v, _ := strconv.ParseUint(strings.TrimPrefix(k, "bv"), 10, 64)
			return v
		}
		panic("solver value " + strings.Join(toks[i:i+3], " "))
	}
	i++ // (
	for toks[i] == "(" {
		name := toks[i+1]
		i += 2
		res[name] = val()
		i++ // )
	}
	return res
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		switch c := s[i]; {
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

var dumpSlow time.Duration
var dumpN int

// dump writes a standalone copy of a query.
func (s *Solver) dump(cs []*Term) {
	dumpN++
	f, err := os.Create(fmt.Sprintf("/tmp/q%d.smt2", dumpN))
	if err != nil {
		return
	}
	defer f.Close()
	s.standalone(f, cs)
}

func (s *Solver) standalone(f io.Writer, cs []*Term) {
	seen := map[*Term]bool{}
	var em func(t *Term)
	em = func(t *Term) {
		if seen[t] || t.op == OConst {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			em(a)
		}
		if t.op == OVar {
			fmt.Fprintf(f, "(declare-const v%d %s)\n", t.id, t.sort.smt())
			if t.sort.K == KBV {
				if t.lo > 0 {
					fmt.Fprintf(f, "(assert (bvuge v%d (_ bv%d %d)))\n", t.id, t.lo, t.sort.W)
				}
				if t.hi < mask(t.w()) {
					fmt.Fprintf(f, "(assert (bvule v%d (_ bv%d %d)))\n", t.id, t.hi, t.sort.W)
				}
			}
			return
		}
		fmt.Fprintf(f, "(define-fun t%d () %s %s)\n", t.id, t.sort.smt(), t.body())
	}
	for _, c := range cs {
		em(c)
	}
	for _, c := range cs {
		fmt.Fprintf(f, "(assert %s)\n", c.ref())
	}
	fmt.Fprintln(f, "(check-sat)")
}

package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Dec is one recorded decision of a path.
type Dec struct {
	kind byte // 'b' branch, 'i' implied branch, 'v' value, 'x' value other than excl, 'c' internal choice
	val  uint64
	excl []uint64
}

type Task struct {
	decs  []Dec
	model map[string]uint64
}

type Input struct {
	name string
	kind string
	vals []*Term
	str  Value
}

type Obs struct {
	label string
	vals  []Value
}

type Violation struct {
	Kind   string            `json:"kind"`
	Msg    string            `json:"msg"`
	Where  string            `json:"where"`
	Inputs []ReplayInput     `json:"inputs"`
	Trace  []string          `json:"trace"`
	Cfg    map[string]string `json:"cfg,omitempty"`
	Sched  []uint64          `json:"sched,omitempty"`
}

type ReplayInput struct {
	Name string   `json:"name"`
	Kind string   `json:"kind"`
	Vals []uint64 `json:"vals"`
}

type Config struct {
	Entry     *ssa.Function
	Stubs     map[string]*ssa.Function
	MaxSteps  int
	Budget    time.Duration
	Workers   int
	MaxViol   int
	Preempt   int // preemption bound (0: switch only when blocked)
	Races     bool
	SampleMax int
	Verbose   bool
	Prog      *Program
	Seed      int64
	Known     func(v *Violation) bool // recorded findings
	PropID    string                  // assertions labelled for other properties are skipped
}

type Result struct {
	Paths, Infeasible, Unsup, StepLimit, UnknownBr int
	Steps, Decisions                               int64
	Queries, CacheHits, Second                     int
	SolverTime, Slowest                            time.Duration
	Unsups                                         map[string]int
	Covers                                         map[string]int
	Violations                                     []Violation
	violKeys                                       map[string]int
	Samples                                        []Sample
	Exhaustive                                     bool
	Funcs                                          map[string]int
	Asserts                                        int64
	AssertLabels                                   map[string]int
	Wall                                           time.Duration
	Native                                         map[string]int
}

type Sample struct {
	Inputs []ReplayInput
	Obs    []string
	Covers []string
}

type Explorer struct {
	cfg   *Config
	mu    sync.Mutex
	cond  *sync.Cond
	stack []*Task
	busy  int
	stop  bool
	res   *Result
	start time.Time
	first time.Time // of the first violation that is not a recorded finding
	rnd   *rand.Rand
}

// afterViolation bounds the search for further violations once there is one.
const afterViolation = 40 * time.Second

func (e *Explorer) push(ts ...*Task) {
	e.mu.Lock()
	e.stack = append(e.stack, ts...)
	e.mu.Unlock()
	e.cond.Broadcast()
}

func (e *Explorer) pop() *Task {
	e.mu.Lock()
	defer e.mu.Unlock()
	for {
		if e.ending() {
			e.stop = true
			e.cond.Broadcast()
			return nil
		}
		if n := len(e.stack); n > 0 {
			i := n - 1
			if n > 64 && e.rnd.Intn(4) == 0 {
				i = e.rnd.Intn(n)
				e.stack[i], e.stack[n-1] = e.stack[n-1], e.stack[i]
			}
			t := e.stack[n-1]
			e.stack = e.stack[:n-1]
			e.busy++
			return t
		}
		if e.busy == 0 {
			e.cond.Broadcast()
			return nil
		}
		e.cond.Wait()
	}
}

func (e *Explorer) done() {
	e.mu.Lock()
	e.busy--
	e.mu.Unlock()
	e.cond.Broadcast()
}

func Explore(cfg *Config) *Result {
	e := &Explorer{cfg: cfg, start: time.Now(), rnd: rand.New(rand.NewSource(cfg.Seed + 1))}
	e.cond = sync.NewCond(&e.mu)
	e.res = &Result{Unsups: map[string]int{}, Covers: map[string]int{}, violKeys: map[string]int{}, Funcs: map[string]int{}, AssertLabels: map[string]int{}, Native: map[string]int{}}
	e.stack = []*Task{{}}
	var wg sync.WaitGroup
	stopTick := make(chan bool)
	go func() {
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(300 * time.Millisecond):
				e.cond.Broadcast()
			}
		}
	}()
	for i := 0; i < cfg.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := newWorker(e)
			defer w.close()
			for {
				t := e.pop()
				if t == nil {
					return
				}
				w.run(t)
				e.done()
			}
		}()
	}
	wg.Wait()
	close(stopTick)
	r := e.res
	r.Exhaustive = len(e.stack) == 0 && !e.stop && r.UnknownBr == 0 && r.Unsup == 0 && r.StepLimit == 0
	r.Wall = time.Since(e.start)
	return r
}

type methKey struct {
	t  any
	id string
}

type Worker struct {
	e       *Explorer
	b       *TB
	s       *Solver
	consts  []Value
	meths   map[methKey]*ssa.Function
	pristin map[*ssa.Package]map[*ssa.Global]Ptr
	funcs   map[*ssa.Function]int
	natives map[string]int
	npaths  int
}

func newWorker(e *Explorer) *Worker {
	b := NewTB()
	return &Worker{e: e, b: b, s: NewSolver(b), meths: map[methKey]*ssa.Function{}, pristin: map[*ssa.Package]map[*ssa.Global]Ptr{}, funcs: map[*ssa.Function]int{}, natives: map[string]int{}}
}

func (w *Worker) close() {
	w.s.Close()
	r := w.e.res
	w.e.mu.Lock()
	defer w.e.mu.Unlock()
	r.Queries += w.s.Queries
	r.CacheHits += w.s.Hits
	r.Second += w.s.Second
	r.SolverTime += w.s.Time
	if w.s.Slow > r.Slowest {
		r.Slowest = w.s.Slow
	}
	for f, n := range w.funcs {
		r.Funcs[f.String()] += n
	}
	for f, n := range w.natives {
		r.Native[f] += n
	}
}

// Path is one execution.
type Path struct {
	w       *Worker
	b       *TB
	cfg     *Config
	prefix  []Dec
	pos     int
	decs    []Dec
	model   Model
	pc      []*Term
	pcset   map[int]bool
	steps   int
	globals map[*ssa.Global]Ptr
	inited  map[*ssa.Package]bool
	newT    []*Task

	names   map[string]int
	inputs  []Input
	vars    []*Term
	obs     []Obs
	covers  map[string]bool
	viols   []Violation
	asserts int64
	labels  map[string]int
	trace   []string

	gors      []*Gor
	cur       *Gor
	main      *Gor
	clock     *Term
	timers    []*vtimer
	timerSeq  int
	mus       map[Ptr]*muState
	side      map[any]any
	preempts  int
	done      chan any
	killing   bool
	initDepth int
	nextID    int
	ended     bool
}

func (w *Worker) run(t *Task) {
	if len(w.b.list) > 3_000_000 {
		w.b = NewTB()
		w.s.Reset(w.b)
		w.consts = nil
		w.pristin = map[*ssa.Package]map[*ssa.Global]Ptr{}
	}
	p := &Path{w: w, b: w.b, cfg: w.e.cfg, prefix: t.decs, pcset: map[int]bool{}, globals: map[*ssa.Global]Ptr{}, inited: map[*ssa.Package]bool{},
		names: map[string]int{}, covers: map[string]bool{}, labels: map[string]int{}, mus: map[Ptr]*muState{}, side: map[any]any{}, done: make(chan any, 1)}
	p.clock = p.b.Const(1_000_000, 64)
	p.loadModel(t.model)
	res := p.exec()
	w.npaths++
	e := w.e
	e.mu.Lock()
	r := e.res
	r.Steps += int64(p.steps)
	r.Decisions += int64(len(p.decs))
	r.Asserts += p.asserts
	for l, n := range p.labels {
		r.AssertLabels[l] += n
	}
	end := "ok"
	switch a := res.(type) {
	case nil:
	case *abort:
		end = a.kind
		switch a.kind {
		case "infeasible":
			r.Infeasible++
		case "steps":
			r.StepLimit++
			r.Unsups["step limit: "+a.msg]++
		case "unsupported":
			r.Unsup++
			r.Unsups[a.msg]++
		case "unknown":
			r.UnknownBr++
		}
	default:
		r.Unsup++
		r.Unsups[fmt.Sprintf("engine: %v", a)]++
		end = "unsupported"
	}
	if end == "ok" || end == "violation" {
		r.Paths++
	}
	if end != "infeasible" && end != "unsupported" {
		for c := range p.covers {
			r.Covers[c]++
		}
	}
	for _, v := range p.viols {
		if e.first.IsZero() && (e.cfg.Known == nil || !e.cfg.Known(&v)) {
			e.first = time.Now()
		}
		k := v.Kind + "|" + v.Msg + "|" + v.Where
		r.violKeys[k]++
		if r.violKeys[k] <= 4 {
			r.Violations = append(r.Violations, v)
		}
		if len(r.Violations) >= e.cfg.MaxViol {
			e.stop = true
		}
	}
	takeSample := end == "ok" && len(p.viols) == 0 && e.cfg.SampleMax > 0 && (len(r.Samples) < e.cfg.SampleMax || e.rnd.Intn(r.Paths) < e.cfg.SampleMax)
	e.mu.Unlock()
	if takeSample {
		s := p.sample()
		e.mu.Lock()
		if len(r.Samples) < e.cfg.SampleMax {
			r.Samples = append(r.Samples, s)
		} else {
			r.Samples[e.rnd.Intn(len(r.Samples))] = s
		}
		e.mu.Unlock()
	}
	if len(p.newT) > 0 {
		e.push(p.newT...)
	}
}

func (p *Path) exec() (res any) {
	p.main = p.newGor("main", func(g *Gor) {
		p.initRepo(g)
		g.callFn(nil, p.cfg.Entry, nil, nil)
	})
	p.cur = p.main
	p.main.wake <- true
	res = <-p.done
	p.ended = true
	// end the other goroutines
	p.killing = true
	for _, o := range p.gors {
		if !o.finished {
			o.wake <- true
			<-o.dead
		}
	}
	return res
}

func engineErr(x any) any {
	switch x := x.(type) {
	case *abort:
		return x
	}
	st := string(debug.Stack())
	lines := strings.Split(st, "\n")
	var keep []string
	for i := 0; i < len(lines) && len(keep) < 8; i++ {
		if strings.Contains(lines[i], "/engine/") && !strings.Contains(lines[i], "engineErr") {
			keep = append(keep, strings.TrimSpace(lines[i]))
		}
	}
	return fmt.Sprintf("%v\n   %s", x, strings.Join(keep, "\n   "))
}

// ---- models ----

func (p *Path) loadModel(m map[string]uint64) {
	if m == nil {
		return
	}
	p.side["wantModel"] = m
}

// varModel sets the initial value for a newly created variable.
func (p *Path) seedVar(v *Term) {
	p.vars = append(p.vars, v)
	if m, ok := p.side["wantModel"].(map[string]uint64); ok {
		if x, ok := m[v.name]; ok {
			p.setModel(int(v.val), x)
		} else {
			p.setModel(int(v.val), v.lo)
		}
		return
	}
	p.setModel(int(v.val), v.lo)
}

func (p *Path) setModel(i int, x uint64) {
	for len(p.model) <= i {
		p.model = append(p.model, p.b.vars[len(p.model)].lo)
	}
	p.model[i] = x
}

func (p *Path) exportModel(over map[int]uint64) map[string]uint64 {
	m := map[string]uint64{}
	for _, t := range p.vars {
		x := p.model.get(t)
		if y, ok := over[int(t.val)]; ok {
			x = y
		}
		m[t.name] = x
	}
	// variables solved for by the prefix but created later
	if w, ok := p.side["wantModel"].(map[string]uint64); ok {
		for k, v := range w {
			if _, ok := m[k]; !ok {
				m[k] = v
			}
		}
	}
	return m
}

// slice returns the path constraints connected to the variables of q.
func (p *Path) slice(q *Term) []*Term {
	vs := append([]uint64(nil), q.varset().w...)
	out := []*Term{q}
	rest := append([]*Term(nil), p.pc...)
	for {
		n := 0
		changed := false
		for _, c := range rest {
			if c.varset().intersects(vs) {
				out = append(out, c)
				cv := c.vs.w
				for len(vs) < len(cv) {
					vs = append(vs, 0)
				}
				for i, x := range cv {
					if vs[i]|x != vs[i] {
						vs[i] |= x
						changed = true
					}
				}
			} else {
				rest[n] = c
				n++
			}
		}
		rest = rest[:n]
		if !changed {
			return out
		}
	}
}

func (p *Path) check(q *Term) (SatRes, map[int]uint64) {
	if q.isConst() {
		if q.val == 0 {
			return Unsat, nil
		}
		return Sat, nil
	}
	if p.b.Eval(q, p.model) != 0 {
		return Sat, map[int]uint64{}
	}
	if p.pcset[p.b.Not(q).id] {
		return Unsat, nil
	}
	return p.solve(p.slice(q))
}

func (p *Path) solve(cs []*Term) (SatRes, map[int]uint64) {
	if p.w.e.over() {
		panic(&abort{"unknown", "the run is ending"})
	}
	return p.w.s.Check(cs)
}

// over reports whether the time for the exploration has passed.
func (e *Explorer) over() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return e.ending()
}

func (e *Explorer) ending() bool {
	return e.stop || time.Since(e.start) > e.cfg.Budget || !e.first.IsZero() && time.Since(e.first) > afterViolation
}

var debugPC = os.Getenv("GOSYM_DEBUGPC") != ""

func (p *Path) addPC(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			panic(&abort{"infeasible", "constant"})
		}
		return
	}
	if c.op == OAnd {
		for _, a := range c.args {
			p.addPC(a)
		}
		return
	}
	if !p.pcset[c.id] {
		if debugPC && p.b.Eval(c, p.model) == 0 {
			fmt.Println("MODEL BROKEN", p.pos, len(p.prefix), p.cur.where())
			debug.PrintStack()
			os.Exit(3)
		}
		p.pcset[c.id] = true
		p.pc = append(p.pc, c)
	}
}

func (p *Path) forkTask(d Dec, m map[string]uint64) {
	ds := make([]Dec, len(p.decs)+1)
	copy(ds, p.decs)
	ds[len(p.decs)] = d
	p.newT = append(p.newT, &Task{ds, m})
}

func (p *Path) decide(c *Term) bool {
	if c.isConst() {
		return c.val != 0
	}
	if p.pcset[c.id] {
		return true
	}
	nc := p.b.Not(c)
	if p.pcset[nc.id] {
		return false
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		p.decs = append(p.decs, d)
		v := d.val != 0
		if d.kind == 'b' {
			if v {
				p.addPC(c)
			} else {
				p.addPC(nc)
			}
		} else if d.kind != 'i' {
			panic(fmt.Sprintf("decision mismatch: %c at branch (nondeterministic replay)", d.kind))
		}
		return v
	}
	mv := p.b.Eval(c, p.model) != 0
	lit, other := c, nc
	if !mv {
		lit, other = nc, c
	}
	v := uint64(0)
	if mv {
		v = 1
	}
	res, m := p.solve(p.slice(other))
	switch res {
	case Sat:
		p.forkTask(Dec{'b', 1 - v, nil}, p.exportModel(m))
		p.decs = append(p.decs, Dec{'b', v, nil})
		p.addPC(lit)
	case Unsat:
		p.decs = append(p.decs, Dec{'i', v, nil})
	default:
		p.unknownBranch()
		p.decs = append(p.decs, Dec{'b', v, nil})
		p.addPC(lit)
	}
	return mv
}

func (p *Path) unknownBranch() {
	p.w.e.mu.Lock()
	p.w.e.res.UnknownBr++
	p.w.e.mu.Unlock()
}

// concretize forks over all feasible values of t.
func (p *Path) concretize(t *Term) uint64 {
	if t.isConst() {
		return t.val
	}
	var d Dec
	if p.pos < len(p.prefix) {
		d = p.prefix[p.pos]
		p.pos++
		if d.kind == 'v' {
			p.decs = append(p.decs, d)
			p.addPC(p.b.Eq(t, p.b.constLike(t, d.val)))
			return d.val
		}
		if d.kind != 'x' {
			panic(fmt.Sprintf("decision mismatch: %c at value (nondeterministic replay)", d.kind))
		}
	}
	v := p.b.Eval(t, p.model)
	excl := append(append([]uint64(nil), d.excl...), v)
	cs := make([]*Term, len(excl))
	for i, x := range excl {
		cs[i] = p.b.Not(p.b.Eq(t, p.b.constLike(t, x)))
	}
	if len(excl) > 4096 {
		panic(unsupported("concretize: too many values"))
	}
	q := p.b.And(cs...)
	res, m := p.checkFresh(q)
	switch res {
	case Sat:
		p.forkTask(Dec{'x', 0, excl}, p.exportModel(m))
	case Unknown:
		p.unknownBranch()
	}
	p.decs = append(p.decs, Dec{'v', v, nil})
	p.addPC(p.b.Eq(t, p.b.constLike(t, v)))
	return v
}

func (p *Path) checkFresh(q *Term) (SatRes, map[int]uint64) {
	if q.isConst() {
		if q.val == 0 {
			return Unsat, nil
		}
		return Sat, nil
	}
	return p.solve(p.slice(q))
}

func (b *TB) constLike(t *Term, v uint64) *Term {
	switch t.sort.K {
	case KBool:
		return b.Bool(v != 0)
	case KFP:
		return b.mk(OConst, t.sort, nil, nil, v, "")
	}
	return b.Const(v, t.w())
}

// choice forks over n internal alternatives (schedules, map orders).
func (p *Path) choice(n int) int {
	if n <= 1 {
		return 0
	}
	if p.pos < len(p.prefix) {
		d := p.prefix[p.pos]
		p.pos++
		if d.kind != 'c' {
			panic(fmt.Sprintf("decision mismatch: %c at choice (nondeterministic replay)", d.kind))
		}
		p.decs = append(p.decs, d)
		return int(d.val)
	}
	m := p.exportModel(nil)
	for i := n - 1; i >= 1; i-- {
		p.forkTask(Dec{'c', uint64(i), nil}, m)
	}
	p.decs = append(p.decs, Dec{'c', 0, nil})
	return 0
}

func (p *Path) assume(c *Term) {
	if c.isConst() {
		if c.val == 0 {
			panic(&abort{"infeasible", "assume"})
		}
		return
	}
	if p.b.Eval(c, p.model) == 0 {
		// while replaying a prefix the model already satisfies everything before its end
		res, m := p.solve(p.slice(c))
		switch res {
		case Unsat:
			panic(&abort{"infeasible", "assume"})
		case Unknown:
			p.unknownBranch()
			panic(&abort{"unknown", "assume"})
		}
		for i, x := range m {
			p.setModel(i, x)
		}
	}
	p.addPC(c)
}

// foreign reports whether an assertion belongs to another property's check.
func (c *Config) foreign(msg string) bool {
	return c.PropID != "" && len(msg) > 4 && msg[0] == 'C' && msg[3] == ':' && msg[:3] != c.PropID
}

func (p *Path) assertTrue(g *Gor, c *Term, msg string) {
	if p.cfg.foreign(msg) {
		return
	}
	p.asserts++
	p.labels[msg]++
	if c.isConst() && c.val != 0 {
		return
	}
	nc := p.b.Not(c)
	if p.pcset[c.id] {
		return
	}
	// inside the replayed prefix the assertion was decided by the parent path
	if p.pos < len(p.prefix) {
		if c.isConst() {
			panic(&abort{"violation", msg})
		}
		p.addPC(c)
		return
	}
	res, m := p.check(nc)
	switch res {
	case Sat:
		p.violation(g, "assert", msg, m)
		if c.isConst() {
			panic(&abort{"violation", msg})
		}
		// continue with the assertion assumed, where possible
		if p.b.Eval(c, p.model) == 0 {
			r2, m2 := p.solve(p.slice(c))
			if r2 != Sat {
				panic(&abort{"violation", msg})
			}
			for i, x := range m2 {
				p.setModel(i, x)
			}
		}
		p.addPC(c)
	case Unknown:
		p.unknownBranch()
		panic(&abort{"unknown", msg})
	case Unsat:
		p.addPC(c) // implied; helps later slicing lookups
	}
}

func (p *Path) violation(g *Gor, kind, msg string, over map[int]uint64) {
	m := append(Model(nil), p.model...)
	for i, x := range over {
		for len(m) <= i {
			m = append(m, p.b.vars[len(m)].lo)
		}
		m[i] = x
	}
	v := Violation{Kind: kind, Msg: msg, Inputs: p.replayInputs(m), Trace: append([]string(nil), p.trace...)}
	if g != nil {
		v.Where = g.where()
	}
	for _, d := range p.decs {
		if d.kind == 'c' {
			v.Sched = append(v.Sched, d.val)
		}
	}
	p.viols = append(p.viols, v)
}

func (p *Path) replayInputs(m Model) []ReplayInput {
	var out []ReplayInput
	for _, in := range p.inputs {
		r := ReplayInput{Name: in.name, Kind: in.kind}
		for _, t := range in.vals {
			r.Vals = append(r.Vals, p.b.Eval(t, m))
		}
		if r.Vals == nil {
			r.Vals = []uint64{}
		}
		out = append(out, r)
	}
	return out
}

func (p *Path) sample() Sample {
	s := Sample{Inputs: p.replayInputs(p.model)}
	for _, o := range p.obs {
		s.Obs = append(s.Obs, p.fmtObs(o))
	}
	for c := range p.covers {
		s.Covers = append(s.Covers, c)
	}
	sort.Strings(s.Covers)
	return s
}

func (p *Path) fmtObs(o Obs) string {
	parts := []string{o.label}
	for _, v := range o.vals {
		parts = append(parts, p.evalStr(v))
	}
	return strings.Join(parts, " ")
}

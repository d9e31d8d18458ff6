package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Gor struct {
	p        *Path
	id       int
	name     string
	wake     chan bool
	dead     chan bool
	finished bool
	ready    func() bool
	what     string
	quiesce  bool
	top      *frame
	depth    int
	vc       vclock
	waiting  bool
	initing  int // package initialisers that run: they belong to the time before main
}

type muState struct {
	locked  bool
	readers int
	owner   *Gor
	vc      vclock
	rvc     vclock
}

func (p *Path) newGor(name string, f func(g *Gor)) *Gor {
	g := &Gor{p: p, id: len(p.gors), name: name, wake: make(chan bool, 1), dead: make(chan bool)}
	p.gors = append(p.gors, g)
	go func() {
		defer close(g.dead)
		<-g.wake
		if p.killing {
			g.finished = true
			return
		}
		var res any
		func() {
			defer func() {
				if x := recover(); x != nil {
					switch x := x.(type) {
					case targetPanic:
						p.violation(g, "panic", p.panicText(g, x), nil)
						if n := len(p.viols); n > 0 {
							p.viols[n-1].Where = x.where
						}
						res = &abort{"violation", "panic"}
					case rtPanic:
						p.violation(g, "panic", "panic: runtime error: "+string(x), nil)
						res = &abort{"violation", "panic"}
					default:
						res = engineErr(x)
					}
				}
			}()
			f(g)
		}()
		g.finished = true
		if a, ok := res.(*abort); ok && a.kind == "killed" {
			return
		}
		if res != nil || g == p.main {
			p.done <- res
			return
		}
		// hand over
		func() {
			defer func() {
				if x := recover(); x != nil {
					if a, ok := x.(*abort); ok && a.kind == "killed" {
						return
					}
					p.done <- engineErr(x)
				}
			}()
			n := p.next(g)
			p.cur = n
			n.wake <- true
		}()
	}()
	return g
}

// next picks the goroutine to run; fires timers or reports a deadlock when there is none.
func (p *Path) next(from *Gor) *Gor {
	for fired := 0; ; fired++ {
		var cands []*Gor
		n := len(p.gors)
		for k := 1; k <= n; k++ {
			g := p.gors[(from.id+k)%n]
			if g.finished || g.quiesce {
				continue
			}
			if g.ready == nil || g.ready() {
				cands = append(cands, g)
			}
		}
		if len(cands) == 1 {
			return cands[0]
		}
		if len(cands) > 1 {
			if b, ok := p.side["sched"].(int); ok && p.preempts < b {
				c := p.choice(len(cands))
				if c > 0 {
					p.preempts++
				}
				return cands[c]
			}
			return cands[0]
		}
		for _, g := range p.gors {
			if !g.finished && g.quiesce {
				return g
			}
		}
		// Tickers nobody waits for do not help either.
		if (fired < 2000 || p.oneShots()) && p.fireEarliest(nil) {
			continue
		}
		var bl []string
		for _, g := range p.gors {
			if !g.finished {
				bl = append(bl, fmt.Sprintf("%s blocked on %s at %s", g.name, g.what, g.where()))
			}
		}
		p.violation(p.main, "deadlock", "all goroutines are blocked: "+strings.Join(bl, "; "), nil)
		panic(&abort{"violation", "deadlock"})
	}
}

func (g *Gor) switchTo(n *Gor) {
	if n == g {
		return
	}
	p := g.p
	p.cur = n
	n.wake <- true
	<-g.wake
	if p.killing {
		panic(&abort{"killed", ""})
	}
}

// block suspends g until ready() holds.
func (g *Gor) block(what string, ready func() bool) {
	for !ready() {
		g.ready, g.what = ready, what
		g.switchTo(g.p.next(g))
		g.ready = nil
	}
	g.what = ""
}

// yield is a scheduling point.
func (g *Gor) yield() {
	if g.initing > 0 {
		return
	}
	p := g.p
	b, ok := p.side["sched"].(int)
	if !ok || p.preempts >= b {
		return
	}
	// A call of local code into a library is one scheduling point, before its
	// first synchronisation, and none at all in those that only compute.
	var lib *frame
	for f := g.top; f != nil; f = f.caller {
		path := pkgPathOf(f.fn)
		if isLocalPkg(path) {
			break
		}
		if computes[path] {
			return
		}
		lib = f
	}
	if lib != nil {
		if lib.yielded {
			return
		}
		lib.yielded = true
	}
	var cands []*Gor
	n := len(p.gors)
	for k := 1; k < n; k++ {
		o := p.gors[(g.id+k)%n]
		if o.finished || o.quiesce || o.ready != nil && !o.ready() {
			continue
		}
		cands = append(cands, o)
	}
	if len(cands) == 0 {
		return
	}
	c := p.choice(len(cands) + 1)
	if c == 0 {
		return
	}
	p.preempts++
	g.switchTo(cands[c-1])
}

var computes = map[string]bool{"encoding/json": true, "fmt": true, "reflect": true, "strconv": true, "strings": true, "math/rand": true, "os": true,
	"github.com/sirupsen/logrus": true, "github.com/AlekSi/pointer": true, "github.com/titanous/json5": true, "github.com/crazy-max/gonfig": true}

// pkgPathOf is the package of a function, also of closures, instances and wrappers.
func pkgPathOf(fn *ssa.Function) string {
	for fn != nil {
		if fn.Pkg != nil {
			return fn.Pkg.Pkg.Path()
		}
		if o := fn.Origin(); o != nil && o != fn {
			fn = o
			continue
		}
		if fn.Parent() == nil {
			if o := fn.Object(); o != nil && o.Pkg() != nil {
				return o.Pkg().Path()
			}
		}
		fn = fn.Parent()
	}
	return ""
}

// settle runs everything else until all other goroutines are blocked.
func (g *Gor) settle() {
	g.quiesce = true
	for {
		some := false
		for _, o := range g.p.gors {
			if o != g && !o.finished && !o.quiesce && (o.ready == nil || o.ready()) {
				some = true
			}
		}
		if !some {
			break
		}
		g.what = "quiesce"
		g.switchTo(g.p.next(g))
	}
	g.quiesce = false
}

// ---- virtual time ----

type vtimer struct {
	when   *Term
	seq    int
	period *Term
	active bool
	fire   func()
}

func (p *Path) addTimer(d *Term, fire func()) *vtimer {
	b := p.b
	p.timerSeq++
	dd := b.Ite(b.SLt(d, b.Const(0, 64)), b.Const(0, 64), d)
	t := &vtimer{when: b.Add(p.clock, dd), seq: p.timerSeq, active: true, fire: fire}
	p.timers = append(p.timers, t)
	return t
}

// oneShots tells whether a timer that is no ticker is running.
func (p *Path) oneShots() bool {
	for _, t := range p.timers {
		if t.active && t.period == nil {
			return true
		}
	}
	return false
}

// fireEarliest fires the earliest timer due by limit (nil: any).
func (p *Path) fireEarliest(limit *Term) bool {
	b := p.b
	var best *vtimer
	n := 0
	for _, t := range p.timers {
		if !t.active {
			continue
		}
		p.timers[n] = t
		n++
		if best == nil || p.decide(b.SLt(t.when, best.when)) {
			best = t
		}
	}
	p.timers = p.timers[:n]
	if best == nil {
		return false
	}
	if limit != nil && p.decide(b.SLt(limit, best.when)) {
		return false
	}
	if p.decide(b.SLt(p.clock, best.when)) {
		p.clock = best.when
	}
	if best.period != nil {
		best.when = b.Add(best.when, best.period)
	} else {
		best.active = false
	}
	best.fire()
	return true
}

func (g *Gor) advance(d *Term) {
	p := g.p
	target := p.b.Add(p.clock, d)
	for {
		g.settle()
		if !p.fireEarliest(target) {
			break
		}
	}
	p.clock = target
	g.settle()
}

// ---- channels ----

func (g *Gor) send(c *Chan, v Value) {
	g.yield()
	if c == nil {
		g.block("send on nil channel", func() bool { return false })
	}
	if c.closed {
		g.throwRT("send on closed channel", false)
	}
	if w := c.popRecv(); w != nil {
		g.release(c)
		w.give(v, true)
		return
	}
	if len(c.buf) < c.cap {
		g.release(c)
		c.buf = append(c.buf, v)
		return
	}
	w := &waiter{g: g, val: v}
	c.sendq = append(c.sendq, w)
	g.release(c)
	g.block("channel send", func() bool { return w.done || c.closed })
	if !w.done {
		g.throwRT("send on closed channel", false)
	}
}

func (w *waiter) give(v Value, ok bool) {
	w.done = true
	w.val, w.ok = v, ok
	if w.sel != nil {
		w.sel.done, w.sel.idx, w.sel.val, w.sel.ok = true, w.idx, v, ok
	}
}

func (c *Chan) popRecv() *waiter {
	for len(c.recvq) > 0 {
		w := c.recvq[0]
		c.recvq = c.recvq[1:]
		if w.done || w.sel != nil && w.sel.done {
			continue
		}
		return w
	}
	return nil
}
func (c *Chan) popSend() *waiter {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if w.done || w.sel != nil && w.sel.done {
			continue
		}
		return w
	}
	return nil
}

// tryRecv returns done=false when it would block.
func (g *Gor) tryRecv(c *Chan) (v Value, ok, done bool) {
	if c == nil {
		return nil, false, false
	}
	if len(c.buf) > 0 {
		v = c.buf[0]
		c.buf = c.buf[1:]
		if w := c.popSend(); w != nil {
			c.buf = append(c.buf, w.val)
			w.give(nil, true)
		}
		g.acquire(c)
		return v, true, true
	}
	if w := c.popSend(); w != nil {
		v = w.val
		w.give(nil, true)
		g.acquire(c)
		return v, true, true
	}
	if c.closed {
		g.acquire(c)
		return g.p.b.zero(c.et), false, true
	}
	return nil, false, false
}

func (g *Gor) recv(c *Chan) (Value, bool) {
	g.yield()
	if c == nil {
		g.block("receive from nil channel", func() bool { return false })
	}
	if v, ok, done := g.tryRecv(c); done {
		return v, ok
	}
	w := &waiter{g: g}
	c.recvq = append(c.recvq, w)
	g.block("channel receive", func() bool { return w.done })
	g.acquire(c)
	return w.val, w.ok
}

func (g *Gor) closeChan(c *Chan) {
	g.yield()
	if c == nil {
		g.throwRT("close of nil channel", false)
	}
	if c.closed {
		g.throwRT("close of closed channel", false)
	}
	c.closed = true
	g.release(c)
	for {
		w := c.popRecv()
		if w == nil {
			break
		}
		w.give(g.p.b.zero(c.et), false)
	}
}

type selCase struct {
	send bool
	c    *Chan
	v    Value
}

func (g *Gor) selectStmt(cases []selCase, blocking bool) (idx int, v Value, ok bool) {
	g.yield()
	var ready []int
	for i, s := range cases {
		if s.c == nil {
			continue
		}
		if s.send {
			if s.c.closed || len(s.c.buf) < s.c.cap || s.c.hasRecv() {
				ready = append(ready, i)
			}
		} else if len(s.c.buf) > 0 || s.c.closed || s.c.hasSend() {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		i := ready[g.p.choice(len(ready))]
		if cases[i].send {
			g.send(cases[i].c, cases[i].v)
			return i, nil, false
		}
		v, ok, _ := g.tryRecv(cases[i].c)
		return i, v, ok
	}
	if !blocking {
		return -1, nil, false
	}
	st := &selState{}
	for i, s := range cases {
		if s.c == nil {
			continue
		}
		w := &waiter{g: g, val: s.v, sel: st, idx: i}
		if s.send {
			s.c.sendq = append(s.c.sendq, w)
		} else {
			s.c.recvq = append(s.c.recvq, w)
		}
	}
	closedSend := func() int {
		for i, s := range cases {
			if s.send && s.c != nil && s.c.closed {
				return i
			}
		}
		return -1
	}
	g.block("select", func() bool { return st.done || closedSend() >= 0 })
	if !st.done {
		g.throwRT("send on closed channel", false)
	}
	g.acquire(cases[st.idx].c)
	return st.idx, st.val, st.ok
}

func (c *Chan) hasRecv() bool {
	for _, w := range c.recvq {
		if !w.done && (w.sel == nil || !w.sel.done) {
			return true
		}
	}
	return false
}
func (c *Chan) hasSend() bool {
	for _, w := range c.sendq {
		if !w.done && (w.sel == nil || !w.sel.done) {
			return true
		}
	}
	return false
}

// ---- mutexes ----

func (p *Path) mu(k Ptr) *muState {
	m := p.mus[k]
	if m == nil {
		m = &muState{}
		p.mus[k] = m
	}
	return m
}

func (g *Gor) lock(k Ptr) {
	g.yield()
	m := g.p.mu(k)
	g.waiting = true
	g.block("mutex", func() bool { return !m.locked && m.readers == 0 })
	g.waiting = false
	m.locked = true
	m.owner = g
	g.vcJoin(m.vc)
	g.vcJoin(m.rvc)
}

func (g *Gor) tryLock(k Ptr) bool {
	m := g.p.mu(k)
	if m.locked || m.readers > 0 {
		return false
	}
	m.locked = true
	g.vcJoin(m.vc)
	g.vcJoin(m.rvc)
	return true
}

func (g *Gor) unlock(k Ptr) {
	m := g.p.mu(k)
	if !m.locked {
		g.p.violation(g, "panic", "fatal error: sync: unlock of unlocked mutex", nil)
		panic(&abort{"violation", "unlock"})
	}
	m.locked = false
	m.vc = g.vcSnap(m.vc)
	g.yield()
}

func (g *Gor) rlock(k Ptr) {
	g.yield()
	m := g.p.mu(k)
	g.waiting = true
	g.block("rwmutex", func() bool { return !m.locked })
	g.waiting = false
	m.readers++
	g.vcJoin(m.vc)
}

func (g *Gor) runlock(k Ptr) {
	m := g.p.mu(k)
	if m.readers == 0 {
		g.p.violation(g, "panic", "fatal error: sync: RUnlock of unlocked RWMutex", nil)
		panic(&abort{"violation", "unlock"})
	}
	m.readers--
	m.rvc = g.vcSnap(m.rvc)
	g.yield()
}

// ---- vector clocks (race detection) ----

type vclock []int

func (g *Gor) tick() {
	if !g.p.cfg.Races {
		return
	}
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 0)
	}
	g.vc[g.id]++
}

func (g *Gor) vcJoin(o vclock) {
	if !g.p.cfg.Races {
		return
	}
	for i, x := range o {
		for len(g.vc) <= i {
			g.vc = append(g.vc, 0)
		}
		if x > g.vc[i] {
			g.vc[i] = x
		}
	}
}

func (g *Gor) vcSnap(o vclock) vclock {
	if !g.p.cfg.Races {
		return nil
	}
	r := append(vclock(nil), g.vc...)
	for i, x := range o {
		for len(r) <= i {
			r = append(r, 0)
		}
		if x > r[i] {
			r[i] = x
		}
	}
	g.tick()
	return r
}

type syncKey struct{ k any }

// release publishes g's clock on k; acquire joins it.
func (g *Gor) release(k any) {
	if !g.p.cfg.Races {
		return
	}
	o, _ := g.p.side[syncKey{k}].(vclock)
	g.p.side[syncKey{k}] = g.vcSnap(o)
}

func (g *Gor) acquire(k any) {
	if !g.p.cfg.Races {
		return
	}
	if o, ok := g.p.side[syncKey{k}].(vclock); ok {
		g.vcJoin(o)
	}
}

type raceCell struct {
	wg    int
	wclk  int
	wpos  string
	reads map[int]readRec
}
type readRec struct {
	clk int
	pos string
}

// access records a memory access for race detection.
func (g *Gor) access(ptr Ptr, write bool) {
	p := g.p
	if len(p.gors) < 2 || g.initing > 0 {
		// still record, so that later goroutines see unsynchronised first accesses: spawn orders them
		return
	}
	rc, _ := p.side[ptr].(*raceCell)
	if rc == nil {
		rc = &raceCell{wg: -1}
		p.side[ptr] = rc
	}
	for len(g.vc) <= g.id {
		g.vc = append(g.vc, 1)
	}
	seen := func(gid, clk int) bool {
		return gid == g.id || gid < len(g.vc) && g.vc[gid] >= clk
	}
	if rc.wg >= 0 && !seen(rc.wg, rc.wclk) {
		p.race(g, write, rc.wpos, true)
	}
	if write {
		for gid, r := range rc.reads {
			if !seen(gid, r.clk) {
				p.race(g, write, r.pos, false)
				break
			}
		}
		rc.wg, rc.wclk, rc.wpos = g.id, g.vc[g.id], g.where()
		rc.reads = nil
	} else {
		if rc.reads == nil {
			rc.reads = map[int]readRec{}
		}
		rc.reads[g.id] = readRec{g.vc[g.id], g.where()}
	}
}

// accessAll records an access to all the parts of a variable.
func (g *Gor) accessAll(ptr Ptr, write bool) {
	switch v := (*ptr).(type) {
	case Struct:
		for i := range v {
			g.accessAll(&v[i], write)
		}
		if len(v) > 0 {
			return
		}
	case Array:
		if 0 < len(v) && len(v) <= 64 {
			for i := range v {
				g.accessAll(&v[i], write)
			}
			return
		}
	}
	g.access(ptr, write)
}

func (p *Path) race(g *Gor, write bool, other string, otherWrite bool) {
	k := "read"
	if write {
		k = "write"
	}
	o := "read"
	if otherWrite {
		o = "write"
	}
	if strings.Contains(g.where(), "/vharness/") && strings.Contains(other, "/vharness/") {
		return // the harness's own state
	}
	a, b := k+" at "+g.where(), o+" at "+other
	if b < a {
		a, b = b, a
	}
	p.violation(g, "race", "data race: "+a+" / "+b, nil)
	panic(&abort{"violation", "race"})
}

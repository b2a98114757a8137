package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// G is an interpreted goroutine. Exactly one runs at a time; switches happen only at
// synchronisation points (and at accesses found to race), and every switch is a path decision.
type G struct {
	id     int
	name   string
	wake   chan bool
	top    *Frame
	depth  int
	done   bool
	ready  func() bool // nil = runnable
	why    string
	wakeAt int64 // virtual time for sleepers, 0 = none
	vc     map[int]int
	dead   bool // killed by a crash of the process
}

type Sched struct {
	gs       []*G
	clock    int64
	timers   []*timer
	preempts int
	mainDone chan interface{}
	kill     bool
	switches int
}

type timer struct {
	at    int64
	fired bool
	fire  func()
	seq   int
}

func (x *Exec) initSched() {
	x.s = &Sched{mainDone: make(chan interface{}, 1)}
	x.mutexes = map[Ptr]*mutex{}
	x.wgs = map[Ptr]*int{}
}

// runMain runs the harness as goroutine 0 and returns the panic value ending the path (nil if normal).
func (x *Exec) runMain(fn *ssa.Function) interface{} {
	g := &G{id: 0, name: "main", wake: make(chan bool, 1), vc: map[int]int{0: 1}}
	x.s.gs = append(x.s.gs, g)
	x.cur = g
	go x.gbody(g, func() { x.callFn(g, nil, fn, nil, nil) }, true)
	r := <-x.s.mainDone
	// kill all others
	x.s.kill = true
	for _, h := range x.s.gs {
		if !h.done {
			h.wake <- true
			<-x.s.mainDone
		}
	}
	return r
}

func (x *Exec) gbody(g *G, f func(), isMain bool) {
	defer func() {
		r := recover()
		g.done = true
		if x.s.kill {
			x.s.mainDone <- nil
			return
		}
		if r != nil {
			x.s.kill = true
			x.s.mainDone <- r
			return
		}
		if isMain {
			x.s.mainDone <- nil
			return
		}
		// goroutine finished: hand the baton to somebody else
		defer func() {
			if r := recover(); r != nil {
				x.s.kill = true
				x.s.mainDone <- r
			}
		}()
		x.release(g)
		n := x.pickOther(g)
		x.cur = n
		n.wake <- true
	}()
	f()
}

func (x *Exec) spawn(parent *G, fn Value, args []Value, name string) {
	g := &G{id: len(x.s.gs), name: name, wake: make(chan bool, 1), vc: map[int]int{}}
	if x.initMode {
		panic(unsupported("goroutine in initialiser"))
	}
	if len(x.s.gs) > 1000 {
		panic(&pathAbort{"unwind", "goroutine bound 1000"})
	}
	for k, v := range parent.vc {
		g.vc[k] = v
	}
	g.vc[g.id] = 1
	parent.vc[parent.id]++
	x.s.gs = append(x.s.gs, g)
	go func() {
		<-g.wake
		if x.s.kill {
			g.done = true
			x.s.mainDone <- nil
			return
		}
		x.gbody(g, func() { x.callValue(g, nil, fn, args) }, false)
	}()
	x.yield(parent, "go")
}

func (x *Exec) isReady(h *G) bool { return !h.done && !h.dead && (h.ready == nil || h.ready()) }

// pickOther chooses the next goroutine when the current one cannot continue.
func (x *Exec) pickOther(cur *G) *G {
	for {
		var cand []*G
		for _, h := range x.s.gs {
			if x.isReady(h) {
				cand = append(cand, h)
			}
		}
		if x.timersRacy {
			// timers may also fire early: handled in yield
		}
		if len(cand) > 0 {
			if len(cand) > 1 && x.allSched {
				return cand[x.choose(len(cand), "sched")]
			}
			// default order: round robin after the current goroutine
			for _, h := range cand {
				if h.id > cur.id {
					return h
				}
			}
			return cand[0]
		}
		if !x.advance() {
			x.deadlock()
		}
	}
}

// advance fires the earliest timer; time passes only when nothing else can run.
func (x *Exec) advance() bool {
	best := -1
	for i, t := range x.s.timers {
		if !t.fired && (best < 0 || t.at < x.s.timers[best].at) {
			best = i
		}
	}
	if best < 0 {
		return false
	}
	t := x.s.timers[best]
	t.fired = true
	if t.at > x.s.clock {
		x.s.clock = t.at
	}
	t.fire()
	return true
}

func (x *Exec) deadlock() {
	msg := ""
	for _, h := range x.s.gs {
		if !h.done && !h.dead {
			msg += fmt.Sprintf(" [%s blocked: %s]", h.name, h.why)
		}
	}
	panic(&pathAbort{"deadlock", "all goroutines blocked:" + msg})
}

func (x *Exec) switchTo(cur, n *G) {
	if n == cur {
		return
	}
	x.s.switches++
	x.cur = n
	n.wake <- true
	<-cur.wake
	if x.s.kill {
		panic(&pathAbort{"kill", ""})
	}
	x.cur = cur
	if x.crash != nil && x.crash.fired && cur == x.crash.owner {
		panic(&crashUnwind{})
	}
}

// yield is a possible pre-emption point of a runnable goroutine.
func (x *Exec) yield(g *G, why string) {
	if x.initMode || !x.concurrent() {
		return
	}
	if x.s.preempts >= x.maxPreempt {
		return
	}
	var cand []*G
	for _, h := range x.s.gs {
		if h != g && x.isReady(h) {
			cand = append(cand, h)
		}
	}
	racyTimers := 0
	if x.timersRacy {
		for _, t := range x.s.timers {
			if !t.fired {
				racyTimers = 1
			}
		}
	}
	if len(cand)+racyTimers == 0 {
		return
	}
	n := x.choose(len(cand)+racyTimers+1, "preempt:"+why)
	if n == 0 {
		return
	}
	x.s.preempts++
	if n-1 < len(cand) {
		x.switchTo(g, cand[n-1])
		return
	}
	x.advance()
}

func (x *Exec) concurrent() bool {
	n := 0
	for _, h := range x.s.gs {
		if !h.done && !h.dead {
			n++
		}
	}
	return n > 1
}

// block waits until ready() holds.
func (x *Exec) block(g *G, why string, ready func() bool) {
	for !ready() {
		if x.initMode {
			panic(unsupported("blocking in initialiser: " + why))
		}
		g.ready = ready
		g.why = why + " at " + x.where()
		n := x.pickOther(g)
		g2 := g
		if n != g {
			x.switchTo(g2, n)
		}
	}
	g.ready = nil
	g.why = ""
}

// quiesce lets every other goroutine run until it finishes or blocks for good.
func (x *Exec) quiesce(g *G) {
	x.block(g, "quiesce", func() bool {
		for _, h := range x.s.gs {
			if h != g && x.isReady(h) {
				return false
			}
		}
		for _, t := range x.s.timers {
			if !t.fired {
				return false
			}
		}
		return true
	})
}

func (x *Exec) addTimer(d int64, fire func()) *timer {
	if d < 0 {
		d = 0
	}
	x.timerSeq++
	t := &timer{at: x.s.clock + d, fire: fire, seq: x.timerSeq}
	x.s.timers = append(x.s.timers, t)
	return t
}

// ---- happens-before

func (x *Exec) release(g *G) {}

func join(a, b map[int]int) {
	for k, v := range b {
		if a[k] < v {
			a[k] = v
		}
	}
}

func cloneVC(a map[int]int) map[int]int {
	o := make(map[int]int, len(a))
	for k, v := range a {
		o[k] = v
	}
	return o
}

// acq/rel on a synchronisation object's clock
func (x *Exec) acq(g *G, vc map[int]int) {
	join(g.vc, vc)
}
func (x *Exec) rel(g *G, vc map[int]int) {
	join(vc, g.vc)
	g.vc[g.id]++
}

type accInfo struct {
	w     map[int]int // last writes: g -> clock
	r     map[int]int
	site  map[int]string
	rsite map[int]string
}

// access records a heap access for race detection and pre-empts at known racy sites.
func (x *Exec) access(p Ptr, write bool) {
	if x.initMode || !x.raceOn || len(x.s.gs) < 2 {
		return
	}
	x.accessKey(p, write)
}

func (x *Exec) accessMap(m *MapV, write bool) {
	if x.initMode || !x.raceOn || len(x.s.gs) < 2 {
		return
	}
	x.accessKey(m, write)
}

func (x *Exec) accessRange(s Slice, write bool) {}

func (x *Exec) accessKey(p interface{}, write bool) {
	g := x.cur
	if g == nil || g.top == nil || g.top.cur == nil {
		return
	}
	site := x.siteOf(g)
	if x.w.eng.racySite(site) {
		x.yield(g, "race")
	}
	a := x.acc[p]
	if a == nil {
		a = &accInfo{w: map[int]int{}, r: map[int]int{}, site: map[int]string{}, rsite: map[int]string{}}
		x.acc[p] = a
	}
	_, isMap := p.(*MapV)
	for h, cl := range a.w {
		if h != g.id && g.vc[h] < cl {
			x.race(site, a.site[h])
			if isMap {
				x.mapRace(site, a.site[h])
			}
		}
	}
	if write {
		for h, cl := range a.r {
			if h != g.id && g.vc[h] < cl {
				x.race(site, a.rsite[h])
				if isMap {
					x.mapRace(site, a.rsite[h])
				}
			}
		}
		a.w[g.id] = g.vc[g.id]
		a.site[g.id] = site
	} else {
		a.r[g.id] = g.vc[g.id]
		a.rsite[g.id] = site
	}
}

func (x *Exec) siteOf(g *G) string {
	f := g.top
	p := x.w.eng.prog.Fset.Position(f.cur.Pos())
	if !f.cur.Pos().IsValid() {
		// find a nearby position
		for _, ins := range f.cur.Block().Instrs {
			if ins.Pos().IsValid() {
				p = x.w.eng.prog.Fset.Position(ins.Pos())
				break
			}
		}
	}
	return fmt.Sprintf("%s:%d", shortFile(p.Filename), p.Line)
}

// mapRace reports an unsynchronised map access: the Go runtime may end the process on it.
func (x *Exec) mapRace(a, b string) {
	if x.mapRaced {
		return
	}
	x.mapRaced = true
	x.schedChoice = true
	x.reportViolation("concurrent map access", "fatal error: concurrent map read and map write: "+a+" and "+b, "")
}

func (x *Exec) race(a, b string) {
	x.w.eng.addRace(x.h, a, b)
}

// ---- mutexes and wait groups (side tables keyed by address)

type mutex struct {
	locked  bool
	owner   *G
	readers int
	vc      map[int]int
}

func (x *Exec) mutexOf(p Value) *mutex {
	ptr := p.(Ptr)
	if ptr == nil {
		x.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	m := x.mutexes[ptr]
	if m == nil {
		m = &mutex{vc: map[int]int{}}
		x.mutexes[ptr] = m
	}
	return m
}

func (x *Exec) lock(g *G, p Value) {
	x.yield(g, "lock")
	m := x.mutexOf(p)
	x.block(g, "mutex", func() bool { return !m.locked && m.readers == 0 })
	m.locked = true
	m.owner = g
	x.acq(g, m.vc)
}

func (x *Exec) unlock(g *G, p Value) {
	m := x.mutexOf(p)
	if !m.locked {
		panic(&pathAbort{"crash", "fatal error: sync: unlock of unlocked mutex at " + x.where()})
	}
	m.locked = false
	m.owner = nil
	x.rel(g, m.vc)
}

func (x *Exec) rlock(g *G, p Value) {
	x.yield(g, "rlock")
	m := x.mutexOf(p)
	x.block(g, "rwmutex", func() bool { return !m.locked })
	m.readers++
	x.acq(g, m.vc)
}

func (x *Exec) runlock(g *G, p Value) {
	m := x.mutexOf(p)
	m.readers--
	x.rel(g, m.vc)
}

// ---- channels

func (x *Exec) chanSend(g *G, cv Value, v Value) {
	ch, _ := cv.(*Chan)
	x.yield(g, "send")
	if ch == nil {
		x.block(g, "send on nil channel", func() bool { return false })
	}
	if ch.closed {
		x.rtPanic("send on closed channel")
	}
	vc := x.chanVC(ch)
	if ch.cap > 0 {
		x.block(g, "channel send", func() bool { return len(ch.buf) < ch.cap || ch.closed })
		if ch.closed {
			x.rtPanic("send on closed channel")
		}
		ch.buf = append(ch.buf, copyVal(v))
		x.rel(g, vc)
		return
	}
	it := &sendItem{v: copyVal(v)}
	ch.pending = append(ch.pending, it)
	x.rel(g, vc)
	x.block(g, "channel send", func() bool { return it.done || ch.closed })
	if !it.done {
		x.rtPanic("send on closed channel")
	}
}

func (x *Exec) chanVC(ch *Chan) map[int]int {
	if x.chvc[ch] == nil {
		x.chvc[ch] = map[int]int{}
	}
	return x.chvc[ch]
}

func (x *Exec) chanReady(ch *Chan) bool {
	return ch != nil && (len(ch.buf) > 0 || len(ch.pending) > 0 || ch.closed)
}

func (x *Exec) chanTake(g *G, ch *Chan) (Value, bool) {
	x.acq(g, x.chanVC(ch))
	if len(ch.buf) > 0 {
		v := ch.buf[0]
		ch.buf = ch.buf[1:]
		return v, true
	}
	if len(ch.pending) > 0 {
		it := ch.pending[0]
		ch.pending = ch.pending[1:]
		it.done = true
		return it.v, true
	}
	return copyVal(ch.zero), false
}

func (x *Exec) chanRecv(g *G, cv Value) (Value, bool) {
	ch, _ := cv.(*Chan)
	x.yield(g, "recv")
	if ch != nil {
		ch.recvq++
	}
	x.block(g, "channel receive", func() bool { return x.chanReady(ch) })
	ch.recvq--
	return x.chanTake(g, ch)
}

func (x *Exec) chanClose(g *G, ch *Chan) {
	x.yield(g, "close")
	if ch == nil {
		x.rtPanic("close of nil channel")
	}
	if ch.closed {
		x.rtPanic("close of closed channel")
	}
	ch.closed = true
	x.rel(g, x.chanVC(ch))
}

func (x *Exec) doSelect(fr *Frame, i *ssa.Select) Value {
	g := fr.g
	type cs struct {
		ch   *Chan
		send bool
		v    Value
	}
	var cases []cs
	for _, st := range i.States {
		ch, _ := x.get(fr, st.Chan).(*Chan)
		c := cs{ch: ch, send: st.Dir == types.SendOnly}
		if c.send {
			c.v = x.get(fr, st.Send)
		}
		cases = append(cases, c)
	}
	x.yield(g, "select")
	ready := func() []int {
		var o []int
		for k, c := range cases {
			if c.ch == nil {
				continue
			}
			if c.send {
				if c.ch.closed || (c.ch.cap > 0 && len(c.ch.buf) < c.ch.cap) || (c.ch.cap == 0 && c.ch.recvq > len(c.ch.pending)) {
					o = append(o, k)
				}
			} else if x.chanReady(c.ch) {
				o = append(o, k)
			}
		}
		return o
	}
	rs := ready()
	if len(rs) == 0 {
		if !i.Blocking {
			return x.selResult(i, -1, nil, false)
		}
		for _, c := range cases {
			if c.ch != nil && !c.send {
				c.ch.recvq++
			}
		}
		x.block(g, "select", func() bool { return len(ready()) > 0 })
		for _, c := range cases {
			if c.ch != nil && !c.send {
				c.ch.recvq--
			}
		}
		rs = ready()
	}
	k := rs[0]
	if len(rs) > 1 {
		k = rs[x.choose(len(rs), "select")]
	}
	c := cases[k]
	if c.send {
		if c.ch.closed {
			x.rtPanic("send on closed channel")
		}
		if c.ch.cap > 0 {
			c.ch.buf = append(c.ch.buf, copyVal(c.v))
		} else {
			c.ch.pending = append(c.ch.pending, &sendItem{v: copyVal(c.v)})
		}
		x.rel(g, x.chanVC(c.ch))
		return x.selResult(i, k, nil, false)
	}
	v, ok := x.chanTake(g, c.ch)
	return x.selResult(i, k, v, ok)
}

func (x *Exec) selResult(i *ssa.Select, k int, v Value, ok bool) Value {
	r := Tuple{x.c.BV(64, uint64(int64(k))), x.c.Bool(ok)}
	for j, st := range i.States {
		if st.Dir == types.RecvOnly {
			if j == k {
				r = append(r, v)
			} else {
				r = append(r, zero(x.c, st.Chan.Type().Underlying().(*types.Chan).Elem()))
			}
		}
	}
	return r
}

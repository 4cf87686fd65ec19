package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

// G is an interpreted goroutine, run by a host goroutine holding the baton.
type G struct {
	id      int
	name    string
	wake    chan struct{}
	blocked func() bool // nil: runnable
	why     string
	done    bool
	started bool
	body    func()
	depth   int
	vc      vclock
}

type mutexState struct {
	locked  bool
	readers int
	owner   int
}

type onceState struct {
	done    bool
	running bool
}

func (e *Exec) newG(name string) *G {
	g := &G{id: len(e.gs), name: name, wake: make(chan struct{}, 1)}
	e.gs = append(e.gs, g)
	return g
}

func (e *Exec) startG(g *G, body func()) {
	e.wg.Add(1)
	go func() {
		defer e.wg.Done()
		<-g.wake
		if e.killed {
			return
		}
		defer func() {
			r := recover()
			if r == nil {
				g.done = true
				if g.id == 0 {
					e.finish(pathEnd{"done", ""})
					return
				}
				// hand the baton on
				func() {
					defer func() {
						if r := recover(); r != nil {
							e.gpanic(g, r)
						}
					}()
					e.passBaton()
				}()
				return
			}
			e.gpanic(g, r)
		}()
		body()
	}()
}

func (e *Exec) gpanic(g *G, r interface{}) {
	switch p := r.(type) {
	case killG:
		return
	case pathEnd:
		e.finish(p)
	case targetPanic:
		func() {
			defer func() {
				if r := recover(); r != nil {
					if pe, ok := r.(pathEnd); ok {
						e.finish(pe)
						return
					}
					panic(r)
				}
			}()
			e.fail(fmt.Sprintf("panic in goroutine %s: %s", g.name, e.panicText(p.v)), "")
		}()
	case engineBugT:
		e.finish(pathEnd{"engine", p.msg})
	case mergeAbort:
		e.finish(pathEnd{"engine", "mergeAbort escaped"})
	default:
		if os.Getenv("GOSYM_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, debug.Stack())
		}
		e.finish(pathEnd{"engine", fmt.Sprintf("%v", r)})
	}
}

func (e *Exec) runnable(g *G) bool {
	return !g.done && (g.blocked == nil || g.blocked())
}

// switchTo hands the baton to g and waits to get it back.
func (e *Exec) switchTo(g *G) {
	me := e.cur
	if g == me {
		return
	}
	e.cur = g
	e.switches++
	g.wake <- struct{}{}
	if me.done {
		return
	}
	<-me.wake
	if e.killed {
		panic(killG{})
	}
	e.cur = me
}

// passBaton is called when the current goroutine has finished.
func (e *Exec) passBaton() {
	if g := e.pick(false); g != nil {
		e.cur = g
		e.switches++
		g.wake <- struct{}{}
		return
	}
	e.deadlock()
}

// pick selects the next goroutine to run among the runnable ones.
func (e *Exec) pick(includeCur bool) *G {
	var cand []*G
	for _, g := range e.gs {
		if (g == e.cur && !includeCur) || !e.runnable(g) {
			continue
		}
		cand = append(cand, g)
	}
	if len(cand) == 0 {
		return nil
	}
	if e.concurrent && len(cand) > 1 {
		i := e.choose(len(cand), "schedule")
		e.schedTrace = append(e.schedTrace, fmt.Sprintf("block:%d->%d", e.cur.id, cand[i].id))
		return cand[i]
	}
	// background goroutines first, in creation order; main last
	for _, g := range cand {
		if g.id != 0 {
			return g
		}
	}
	return cand[0]
}

func (e *Exec) deadlock() {
	why := ""
	for _, g := range e.gs {
		if !g.done {
			why += fmt.Sprintf(" [%s: %s]", g.name, g.why)
		}
	}
	e.fail("deadlock: no goroutine can proceed:"+why, "")
}

// blockUntil suspends the current goroutine until cond holds.
func (e *Exec) blockUntil(cond func() bool, why string) {
	if cond() {
		return
	}
	if e.merging > 0 {
		panic(mergeAbort{})
	}
	g := e.cur
	for !cond() {
		g.blocked, g.why = cond, why
		n := e.pick(false)
		if n == nil {
			e.deadlock()
		}
		e.switchTo(n)
	}
	g.blocked, g.why = nil, ""
}

// idle lets every other goroutine run until none can.
func (e *Exec) idle() {
	g := e.cur
	for i := 0; i < 100000; i++ {
		var n *G
		if e.concurrent {
			g.blocked = func() bool { return false }
			n = e.pick(false)
			g.blocked = nil
		} else {
			for _, x := range e.gs {
				if x != g && e.runnable(x) {
					n = x
					break
				}
			}
		}
		if n == nil {
			return
		}
		// others run until they block; they come back to us only when
		// nothing else can run
		g.blocked, g.why = func() bool {
			for _, x := range e.gs {
				if x != g && e.runnable2(x, g) {
					return false
				}
			}
			return true
		}, "idle"
		e.switchTo(n)
		g.blocked, g.why = nil, ""
	}
}

func (e *Exec) runnable2(x, not *G) bool {
	if x.done {
		return false
	}
	if x.why == "idle" {
		return false
	}
	return x.blocked == nil || x.blocked()
}

// point is a scheduling point in concurrent mode.
func (e *Exec) point(what string) {
	if !e.concurrent || e.merging > 0 || e.preempts >= e.preemptMax {
		return
	}
	var cand []*G
	for _, g := range e.gs {
		if g != e.cur && e.runnable(g) {
			cand = append(cand, g)
		}
	}
	if len(cand) == 0 {
		return
	}
	i := e.choose(len(cand)+1, "preempt "+what)
	if i == 0 {
		return
	}
	e.preempts++
	e.schedTrace = append(e.schedTrace, fmt.Sprintf("%s:%d->%d", what, e.cur.id, cand[i-1].id))
	e.switchTo(cand[i-1])
}

// ---- channels

func (e *Exec) chanReadyRecv(c *ChanV) bool {
	if c == nil {
		return false
	}
	if len(c.buf) > 0 || c.closed {
		return true
	}
	for _, w := range c.sendWait {
		if !*w.done {
			return true
		}
	}
	return false
}

func (e *Exec) chanReadySend(c *ChanV) bool {
	if c == nil {
		return false
	}
	if c.closed || len(c.buf) < c.cap {
		return true
	}
	for _, w := range c.recvWait {
		if !*w.done {
			return true
		}
	}
	return false
}

func popWaiter(ws *[]*waiter) *waiter {
	for len(*ws) > 0 {
		w := (*ws)[0]
		*ws = (*ws)[1:]
		if !*w.done {
			return w
		}
	}
	return nil
}

// doRecv performs a receive that is known to be ready.
func (e *Exec) doRecv(c *ChanV) (Value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = append([]Value{}, c.buf[1:]...)
		if w := popWaiter(&c.sendWait); w != nil {
			c.buf = append(c.buf, w.val)
			*w.done = true
			*w.sel = w.idx
		}
		return v, true
	}
	if w := popWaiter(&c.sendWait); w != nil {
		*w.done = true
		*w.sel = w.idx
		return w.val, true
	}
	return nil, false // closed
}

func (e *Exec) doSend(c *ChanV, v Value) {
	if c.closed {
		panic(e.rtPanic("send on closed channel"))
	}
	if w := popWaiter(&c.recvWait); w != nil {
		w.val, w.ok = v, true
		*w.done = true
		*w.sel = w.idx
		return
	}
	c.buf = append(c.buf, v)
}

type selCase struct {
	send bool
	ch   *ChanV
	val  Value
}

// doSelect implements select; idx -1 means default.
func (e *Exec) doSelect(cases []selCase, blocking bool) (int, Value, bool) {
	e.point("select")
	for _, c := range cases {
		if c.send {
			e.rel(c.ch)
		}
	}
	var ready []int
	for i, c := range cases {
		if c.send && e.chanReadySend(c.ch) || !c.send && e.chanReadyRecv(c.ch) {
			ready = append(ready, i)
		}
	}
	if len(ready) == 0 {
		if !blocking {
			return -1, nil, false
		}
		done, sel := false, -1
		var ws []*waiter
		for i, c := range cases {
			w := &waiter{g: e.cur, val: c.val, done: &done, idx: i, sel: &sel}
			ws = append(ws, w)
			if c.ch == nil {
				continue
			}
			if c.send {
				c.ch.sendWait = append(c.ch.sendWait, w)
			} else {
				c.ch.recvWait = append(c.ch.recvWait, w)
			}
		}
		e.blockUntil(func() bool {
			if done {
				return true
			}
			for _, c := range cases {
				if c.ch != nil && c.ch.closed {
					return true
				}
			}
			return false
		}, "channel")
		if done {
			c := cases[sel]
			e.both(c.ch)
			if c.send {
				return sel, nil, false
			}
			return sel, ws[sel].val, ws[sel].ok
		}
		done = true // withdraw the waiters
		for i, c := range cases {
			if c.ch != nil && c.ch.closed {
				if c.send {
					panic(e.rtPanic("send on closed channel"))
				}
				e.acq(c.ch)
				return i, nil, false
			}
		}
	}
	k := ready[e.choose(len(ready), "select")]
	c := cases[k]
	e.both(c.ch)
	if c.send {
		e.doSend(c.ch, c.val)
		return k, nil, false
	}
	v, ok := e.doRecv(c.ch)
	return k, v, ok
}

func (e *Exec) chanClose(c *ChanV) {
	if c == nil {
		panic(e.rtPanic("close of nil channel"))
	}
	if c.closed {
		panic(e.rtPanic("close of closed channel"))
	}
	c.closed = true
	e.rel(c)
}

// ---- mutexes

func (e *Exec) mutex(p *Value) *mutexState {
	m := e.mutexes[p]
	if m == nil {
		m = &mutexState{owner: -1}
		e.mutexes[p] = m
	}
	return m
}

func (e *Exec) lock(p *Value) {
	e.point("lock")
	m := e.mutex(p)
	e.blockUntil(func() bool { return !m.locked && m.readers == 0 }, "mutex")
	m.locked = true
	m.owner = e.cur.id
	e.acq(m)
	if e.race != nil {
		e.cur.vc = e.cur.vc.join(e.race.rsyncs[m])
	}
}

func (e *Exec) unlock(p *Value) {
	m := e.mutex(p)
	if !m.locked {
		e.fail("fatal error: unlock of unlocked mutex", "")
	}
	m.locked = false
	m.owner = -1
	e.rel(m)
	e.point("unlock")
}

func (e *Exec) rlock(p *Value) {
	e.point("rlock")
	m := e.mutex(p)
	e.blockUntil(func() bool { return !m.locked }, "rwmutex")
	m.readers++
	e.acq(m)
}

func (e *Exec) runlock(p *Value) {
	m := e.mutex(p)
	if m.readers == 0 {
		e.fail("fatal error: RUnlock of unlocked RWMutex", "")
	}
	m.readers--
	if e.race != nil {
		e.race.rsyncs[m] = e.race.rsyncs[m].join(e.cur.vc)
		e.tick(e.cur)
	}
	e.point("runlock")
}

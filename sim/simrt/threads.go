package simrt

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"time"
)

// thread is a goroutine of a simulated process. One thread of a process runs at a time; which one is decided at every
// system call, synchronisation, and now and then between statements.
type thread struct {
	id     int
	resume chan struct{}
	ready  func() bool // nil when runnable
	done   bool
}

// Timer is a pending timer of a process.
type Timer struct {
	p      *Proc
	at     time.Duration
	fn     func()
	active bool
}

// Threads tells whether the process has more than one goroutine.
func (p *Proc) Threads() int { return len(p.threads) }

// Go starts a goroutine.
func (p *Proc) Go(f func()) {
	p.Spawn(f)
	p.Yield()
}

// Spawn starts a goroutine without letting it run yet.
func (p *Proc) Spawn(f func()) {
	if p.dead {
		runtime.Goexit()
	}
	if p.cur == nil {
		p.first()
	}
	p.nthr++
	t := &thread{id: p.nthr, resume: make(chan struct{})}
	p.threads = append(p.threads, t)
	go p.runThread(t, f)
}

// first makes the main program a thread.
func (p *Proc) first() {
	p.cur = &thread{resume: make(chan struct{})}
	p.mainT = p.cur
	p.threads = []*thread{p.cur}
	if p.thrR == nil {
		p.thrR = NewRNG(p.Cmd.Cfg.MapSeed, "thread")
	}
}

func (p *Proc) runThread(t *thread, f func()) {
	<-t.resume
	defer func() {
		if e := recover(); e != nil && !p.dead {
			p.panicked(e)
			p.dead = true
		}
		t.done = true
		for i := range p.threads {
			if p.threads[i] == t {
				p.threads = append(p.threads[:i:i], p.threads[i+1:]...)
				break
			}
		}
		switch {
		case p.reapc != nil:
			p.reapc <- struct{}{}
		case p.dead:
			p.hand(p.mainT)
		default:
			n := p.pick(nil, false)
			if n == nil {
				p.deadlock()
				n = p.mainT
			}
			p.hand(n)
		}
	}()
	if p.dead {
		return
	}
	f()
}

func (p *Proc) panicked(e any) {
	p.Status, p.Reason = 2, "panic"
	p.Detail = fmt.Sprint(e)
	if _, ok := e.(Unsupported); ok {
		p.Reason = "unsupported"
	}
	p.Stderr = append(p.Stderr, ("panic: " + p.Detail + "\n")...)
	if os.Getenv("SIMDEBUG") != "" {
		p.Stderr = append(p.Stderr, debug.Stack()...)
	}
}

func (p *Proc) deadlock() {
	p.panicked("all goroutines are asleep - deadlock!")
	p.dead = true
}

func (p *Proc) hand(t *thread) {
	p.cur = t
	t.resume <- struct{}{}
}

// reap ends the goroutines that are left when the process ends.
func (p *Proc) reap() {
	if p.cur == nil {
		return
	}
	p.reapc = make(chan struct{})
	for _, t := range append([]*thread{}, p.threads...) {
		if t != p.mainT && !t.done {
			t.resume <- struct{}{}
			<-p.reapc
		}
	}
}

// fire runs the timers that are due.
func (p *Proc) fire() {
	for again := true; again; {
		again = false
		for i, t := range p.timers {
			if t.at <= p.W.Mono && !p.dead {
				p.timers = append(p.timers[:i:i], p.timers[i+1:]...)
				t.active = false
				t.fn()
				again = true
				break
			}
		}
	}
}

// pick chooses the next thread; cur is the one running now, if it may go on.
func (p *Proc) pick(cur *thread, robin bool) *thread {
	for {
		p.fire()
		var c []*thread
		for _, t := range p.threads {
			if t.ready == nil || t.ready() {
				c = append(c, t)
			}
		}
		if len(c) > 0 {
			mode := p.Cmd.Cfg.MapMode
			if len(c) == 1 {
				return c[0]
			}
			if robin || mode == 0 {
				if !robin {
					for _, t := range c {
						if t == cur {
							return t
						}
					}
				}
				id := -1
				if p.cur != nil {
					id = p.cur.id
				}
				for _, t := range c {
					if t.id > id {
						return t
					}
				}
				return c[0]
			}
			if mode == 1 {
				return c[len(c)-1]
			}
			return c[p.thrR.N(len(c))]
		}
		// everyone waits: time passes until the next timer
		var n *Timer
		for _, t := range p.timers {
			if n == nil || t.at < n.at {
				n = t
			}
		}
		if n == nil {
			return nil
		}
		p.W.Now = p.W.Now.Add(n.at - p.W.Mono)
		p.W.Mono = n.at
	}
}

func (p *Proc) sched(ready func() bool, robin bool) {
	if p.dead {
		runtime.Goexit()
	}
	if p.cur == nil {
		if len(p.timers) > 0 {
			p.fire()
		}
		if ready == nil || ready() {
			return
		}
		p.first()
	}
	t := p.cur
	if ready == nil && len(p.threads) == 1 {
		return
	}
	t.ready = ready
	n := p.pick(t, robin)
	if n == nil {
		p.deadlock()
		n = p.mainT
		if n == t {
			runtime.Goexit()
		}
	}
	if n != t {
		p.Switches++
		p.hand(n)
		<-t.resume
		if p.dead {
			runtime.Goexit()
		}
	}
	t.ready = nil
}

// Yield is a scheduling point.
func (p *Proc) Yield() { p.sched(nil, false) }

// Gosched lets the other goroutines go first.
func (p *Proc) Gosched() { p.sched(nil, true) }

// Await blocks the goroutine until ready.
func (p *Proc) Await(ready func() bool) { p.sched(ready, false) }

// Preempt is called between statements when there is more than one goroutine.
func (p *Proc) Preempt(n int64) {
	if p.dead || len(p.threads) < 2 {
		return
	}
	if n%5000 == 0 {
		p.Gosched()
	} else if p.Cmd.Cfg.MapMode > 1 && p.thrR.N(24) == 0 {
		p.Yield()
	}
}

// Shuffled returns 0..n-1 in the order in which a select looks at its cases.
func (p *Proc) Shuffled(n int) []int {
	o := make([]int, n)
	for i := range o {
		o[i] = i
	}
	switch p.Cmd.Cfg.MapMode {
	case 1:
		for i := range o {
			o[i] = n - 1 - i
		}
	case 2, 3:
		if p.thrR == nil {
			p.thrR = NewRNG(p.Cmd.Cfg.MapSeed, "thread")
		}
		Shuffle(p.thrR, o)
	}
	return o
}

// AddTimer calls fn after d.
func (p *Proc) AddTimer(d time.Duration, fn func()) *Timer {
	if d < 0 {
		d = 0
	}
	t := &Timer{p: p, fn: fn}
	t.Reset(d)
	return t
}

func (t *Timer) Stop() bool {
	was := t.active
	t.active = false
	for i := range t.p.timers {
		if t.p.timers[i] == t {
			t.p.timers = append(t.p.timers[:i:i], t.p.timers[i+1:]...)
			break
		}
	}
	return was
}

func (t *Timer) Reset(d time.Duration) bool {
	was := t.Stop()
	t.at, t.active = t.p.W.Mono+d, true
	t.p.timers = append(t.p.timers, t)
	return was
}

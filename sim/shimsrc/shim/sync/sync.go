// Package sync is the synchronisation of simulated processes.
package sync

import "vsim/shimsrc/rt"

func wait(ready func() bool) {
	if rt.P != nil {
		rt.P.Await(ready)
	} else if !ready() {
		panic("deadlock")
	}
}

func yield() {
	if rt.P != nil {
		rt.P.Yield()
	}
}

type Locker interface {
	Lock()
	Unlock()
}

type Mutex struct{ locked bool }

func (m *Mutex) Lock() {
	yield()
	wait(func() bool { return !m.locked })
	m.locked = true
}
func (m *Mutex) TryLock() bool {
	yield()
	if m.locked {
		return false
	}
	m.locked = true
	return true
}
func (m *Mutex) Unlock() {
	if !m.locked {
		panic("sync: unlock of unlocked mutex")
	}
	m.locked = false
	yield()
}

type RWMutex struct {
	w bool
	r int
}

func (m *RWMutex) Lock() {
	yield()
	wait(func() bool { return !m.w && m.r == 0 })
	m.w = true
}
func (m *RWMutex) TryLock() bool {
	yield()
	if m.w || m.r > 0 {
		return false
	}
	m.w = true
	return true
}
func (m *RWMutex) Unlock() {
	if !m.w {
		panic("sync: Unlock of unlocked RWMutex")
	}
	m.w = false
	yield()
}
func (m *RWMutex) RLock() {
	yield()
	wait(func() bool { return !m.w })
	m.r++
}
func (m *RWMutex) TryRLock() bool {
	yield()
	if m.w {
		return false
	}
	m.r++
	return true
}
func (m *RWMutex) RUnlock() {
	if m.r == 0 {
		panic("sync: RUnlock of unlocked RWMutex")
	}
	m.r--
	yield()
}

type rlocker struct{ m *RWMutex }

func (l rlocker) Lock()   { l.m.RLock() }
func (l rlocker) Unlock() { l.m.RUnlock() }

func (m *RWMutex) RLocker() Locker { return rlocker{m} }

type WaitGroup struct{ n int }

func (g *WaitGroup) Add(d int) {
	g.n += d
	if g.n < 0 {
		panic("sync: negative WaitGroup counter")
	}
	yield()
}
func (g *WaitGroup) Done() { g.Add(-1) }
func (g *WaitGroup) Wait() {
	yield()
	wait(func() bool { return g.n == 0 })
}
func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	rt.P.Go(func() {
		defer g.Done()
		f()
	})
}

type Once struct{ started, done bool }

func (o *Once) Do(f func()) {
	yield()
	if o.started {
		wait(func() bool { return o.done })
		return
	}
	o.started = true
	defer func() { o.done = true }()
	f()
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}
func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}
func OnceValues[T, U any](f func() (T, U)) func() (T, U) {
	var o Once
	var v T
	var u U
	return func() (T, U) { o.Do(func() { v, u = f() }); return v, u }
}

type Cond struct {
	L Locker
	q []*bool
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }
func (c *Cond) Wait() {
	b := new(bool)
	c.q = append(c.q, b)
	c.L.Unlock()
	wait(func() bool { return *b })
	c.L.Lock()
}
func (c *Cond) Signal() {
	if len(c.q) > 0 {
		*c.q[0] = true
		c.q = c.q[1:]
	}
	yield()
}
func (c *Cond) Broadcast() {
	for _, b := range c.q {
		*b = true
	}
	c.q = nil
	yield()
}

type Map struct{ m map[any]any }

func (m *Map) set(k, v any) {
	if m.m == nil {
		m.m = map[any]any{}
	}
	m.m[k] = v
}
func (m *Map) Load(k any) (any, bool) { yield(); v, ok := m.m[k]; return v, ok }
func (m *Map) Store(k, v any)         { yield(); m.set(k, v) }
func (m *Map) LoadOrStore(k, v any) (any, bool) {
	yield()
	if o, ok := m.m[k]; ok {
		return o, true
	}
	m.set(k, v)
	return v, false
}
func (m *Map) LoadAndDelete(k any) (any, bool) {
	yield()
	v, ok := m.m[k]
	delete(m.m, k)
	return v, ok
}
func (m *Map) Delete(k any) { yield(); delete(m.m, k) }
func (m *Map) Swap(k, v any) (any, bool) {
	yield()
	o, ok := m.m[k]
	m.set(k, v)
	return o, ok
}
func (m *Map) CompareAndSwap(k, old, new any) bool {
	yield()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	m.set(k, new)
	return true
}
func (m *Map) CompareAndDelete(k, old any) bool {
	yield()
	if o, ok := m.m[k]; !ok || o != old {
		return false
	}
	delete(m.m, k)
	return true
}
func (m *Map) Range(f func(k, v any) bool) {
	for _, k := range rt.Keys(m.m) {
		if v, ok := m.m[k]; ok && !f(k, v) {
			return
		}
	}
}
func (m *Map) Clear() { m.m = nil }

type Pool struct {
	New func() any
	s   []any
}

func (p *Pool) Get() any {
	if n := len(p.s); n > 0 {
		v := p.s[n-1]
		p.s = p.s[:n-1]
		return v
	}
	if p.New == nil {
		return nil
	}
	return p.New()
}
func (p *Pool) Put(v any) {
	if v != nil {
		p.s = append(p.s, v)
	}
}

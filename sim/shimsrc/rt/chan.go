package rt

import (
	"iter"
	"reflect"
	"runtime"
)

// Channels of instrumented code are identities only: what they carry is kept here, so that the simulator decides who
// goes on. Channels made and filled by other code are polled.
type chanState struct {
	keep   any
	cap    int
	buf    []any
	closed bool
	recvq  []entry
	sendq  []entry
}

type waiter struct {
	done bool
	idx  int
	v    any
	ok   bool
}

type entry struct {
	w   *waiter
	idx int
	v   any
}

var chans map[uintptr]*chanState

func state(ch any, c int, ptr uintptr) *chanState {
	s := chans[ptr]
	if s == nil {
		if chans == nil {
			chans = map[uintptr]*chanState{}
		}
		s = &chanState{keep: ch, cap: c}
		chans[ptr] = s
	}
	return s
}

func pop(q *[]entry) *entry {
	for len(*q) > 0 {
		e := (*q)[0]
		*q = (*q)[1:]
		if !e.w.done {
			return &e
		}
	}
	return nil
}

func (s *chanState) trySend(v any) bool {
	if s.closed {
		panic("send on closed channel")
	}
	if e := pop(&s.recvq); e != nil {
		e.w.done, e.w.idx, e.w.v, e.w.ok = true, e.idx, v, true
		return true
	}
	if len(s.buf) < s.cap {
		s.buf = append(s.buf, v)
		return true
	}
	return false
}

func (s *chanState) tryRecv() (v any, ok, got bool) {
	if len(s.buf) > 0 {
		v = s.buf[0]
		s.buf = s.buf[1:]
		if e := pop(&s.sendq); e != nil {
			s.buf = append(s.buf, e.v)
			e.w.done, e.w.idx, e.w.ok = true, e.idx, true
		}
		return v, true, true
	}
	if e := pop(&s.sendq); e != nil {
		e.w.done, e.w.idx, e.w.ok = true, e.idx, true
		return e.v, true, true
	}
	if s.closed {
		return nil, false, true
	}
	return nil, false, false
}

// Case is one case of a select statement.
type Case interface {
	nilChan() bool
	try() bool // goes on at once
	enqueue(w *waiter, idx int)
	poll() bool
	fill(w *waiter)
}

type Receive[T any] struct {
	ch  <-chan T
	V   T
	OK  bool
	s   *chanState
	got bool
}

func RecvCase[T any](ch <-chan T) *Receive[T] {
	r := &Receive[T]{ch: ch}
	if ch != nil {
		r.s = state(ch, cap(ch), reflect.ValueOf(ch).Pointer())
	}
	return r
}

func (r *Receive[T]) nilChan() bool { return r.ch == nil }
func (r *Receive[T]) try() bool {
	if v, ok, got := r.s.tryRecv(); got {
		if ok {
			r.V, _ = v.(T)
		}
		r.OK = ok
		return true
	}
	return r.poll()
}
func (r *Receive[T]) poll() bool {
	if r.got {
		return true
	}
	select {
	case v, ok := <-r.ch:
		r.V, r.OK, r.got = v, ok, true
		return true
	default:
		return false
	}
}
func (r *Receive[T]) enqueue(w *waiter, idx int) {
	r.s.recvq = append(r.s.recvq, entry{w: w, idx: idx})
}
func (r *Receive[T]) fill(w *waiter) {
	if w.ok {
		r.V, _ = w.v.(T)
	}
	r.OK = w.ok
}

type sending[T any] struct {
	ch chan<- T
	v  T
	s  *chanState
}

func SendCase[T any](ch chan<- T) func(T) Case {
	return func(v T) Case {
		c := &sending[T]{ch: ch, v: v}
		if ch != nil {
			c.s = state(ch, cap(ch), reflect.ValueOf(ch).Pointer())
		}
		return c
	}
}

func (c *sending[T]) nilChan() bool              { return c.ch == nil }
func (c *sending[T]) try() bool                  { return c.s.trySend(c.v) }
func (c *sending[T]) poll() bool                 { return false }
func (c *sending[T]) enqueue(w *waiter, idx int) { c.s.sendq = append(c.s.sendq, entry{w, idx, c.v}) }
func (c *sending[T]) fill(w *waiter) {
	if !w.ok {
		panic("send on closed channel")
	}
}

// Select is a select statement: it returns the index of the case, or -1 for the default.
func Select(def bool, cases ...Case) int {
	if P == nil {
		panic("select outside of a process")
	}
	P.Yield()
	for _, i := range P.Shuffled(len(cases)) {
		if !cases[i].nilChan() && cases[i].try() {
			return i
		}
	}
	if def {
		return -1
	}
	w := &waiter{}
	for i, c := range cases {
		if !c.nilChan() {
			c.enqueue(w, i)
		}
	}
	P.Await(func() bool {
		if w.done {
			return true
		}
		for i, c := range cases {
			if !c.nilChan() && c.poll() {
				w.done, w.idx = true, i
				w.v = nil
				return true
			}
		}
		return false
	})
	if r, ok := cases[w.idx].(interface{ polled() bool }); !ok || !r.polled() {
		cases[w.idx].fill(w)
	}
	return w.idx
}

func (r *Receive[T]) polled() bool { return r.got }

func Send[T any](ch chan<- T) func(T) {
	f := SendCase(ch)
	return func(v T) { Select(false, f(v)) }
}

func Recv[T any](ch <-chan T) T {
	r := RecvCase(ch)
	Select(false, r)
	return r.V
}

func Recv2[T any](ch <-chan T) (T, bool) {
	r := RecvCase(ch)
	Select(false, r)
	return r.V, r.OK
}

func ChanRange[T any](ch <-chan T) iter.Seq[T] {
	return func(yield func(T) bool) {
		for {
			v, ok := Recv2(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

func Close[T any](ch chan<- T) {
	if ch == nil {
		panic("close of nil channel")
	}
	s := state(ch, cap(ch), reflect.ValueOf(ch).Pointer())
	if s.closed {
		panic("close of closed channel")
	}
	s.closed = true
	for e := pop(&s.recvq); e != nil; e = pop(&s.recvq) {
		e.w.done, e.w.idx = true, e.idx
	}
	for e := pop(&s.sendq); e != nil; e = pop(&s.sendq) {
		e.w.done, e.w.idx = true, e.idx
	}
	if P != nil {
		P.Yield()
	}
}

func Len[T any](ch <-chan T) int {
	if ch == nil {
		return 0
	}
	return len(state(ch, cap(ch), reflect.ValueOf(ch).Pointer()).buf) + len(ch)
}

// Put is for shims: a send that never blocks.
func Put[T any](ch chan T, v T) {
	if s := state(ch, cap(ch), reflect.ValueOf(ch).Pointer()); !s.closed {
		s.trySend(v)
	}
}

func start(f func()) {
	if P == nil {
		runtime.Goexit()
	}
	P.Go(f)
}

func Go0(f func()) func()                    { return func() { start(f) } }
func Go0r[R any](f func() R) func()          { return func() { start(func() { f() }) } }
func Go0rr[R, S any](f func() (R, S)) func() { return func() { start(func() { f() }) } }
func Go1[A any](f func(A)) func(A)           { return func(a A) { start(func() { f(a) }) } }
func Go1r[A, R any](f func(A) R) func(A)     { return func(a A) { start(func() { f(a) }) } }
func Go1rr[A, R, S any](f func(A) (R, S)) func(A) {
	return func(a A) { start(func() { f(a) }) }
}
func Go2[A, B any](f func(A, B)) func(A, B) { return func(a A, b B) { start(func() { f(a, b) }) } }
func Go2r[A, B, R any](f func(A, B) R) func(A, B) {
	return func(a A, b B) { start(func() { f(a, b) }) }
}
func Go2rr[A, B, R, S any](f func(A, B) (R, S)) func(A, B) {
	return func(a A, b B) { start(func() { f(a, b) }) }
}
func Go3[A, B, C any](f func(A, B, C)) func(A, B, C) {
	return func(a A, b B, c C) { start(func() { f(a, b, c) }) }
}
func Go3r[A, B, C, R any](f func(A, B, C) R) func(A, B, C) {
	return func(a A, b B, c C) { start(func() { f(a, b, c) }) }
}
func Go4[A, B, C, D any](f func(A, B, C, D)) func(A, B, C, D) {
	return func(a A, b B, c C, d D) { start(func() { f(a, b, c, d) }) }
}
func Go5[A, B, C, D, E any](f func(A, B, C, D, E)) func(A, B, C, D, E) {
	return func(a A, b B, c C, d D, e E) { start(func() { f(a, b, c, d, e) }) }
}
func GoF(f func()) { start(f) }

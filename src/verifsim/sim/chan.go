package sim

import (
	"reflect"
	"unsafe"
)

// Channels keep their Go type; their behaviour under simulation lives in a
// side table. Channels not made by instrumented code ("foreign", e.g. a
// context's Done channel) are polled natively.

type waiter struct {
	t    *Task
	val  any // value to send, or received
	ok   bool
	done *bool // shared by all cases of one select
	fire *int  // index of the case that fired
	idx  int
	vc   []uint32
}

type item struct {
	v  any
	vc []uint32
}

type schan struct {
	cap    int
	buf    []item
	recvq  []*waiter
	sendq  []*waiter
	closed bool
	vc     VC // released by receives and close (for buffered back-edges)
	closVC []uint32
	native bool
}

func chPtr(ch any) unsafe.Pointer {
	return reflect.ValueOf(ch).UnsafePointer()
}

func (w *World) ch(p unsafe.Pointer, capacity int, foreign bool) *schan {
	c := w.chans[p]
	if c == nil {
		c = &schan{cap: capacity, native: foreign}
		w.chans[p] = c
	}
	return c
}

// MkChan registers a channel made by instrumented code.
func MkChan[T any](ch chan T) chan T {
	if w := W; w != nil {
		w.ch(chPtr(ch), cap(ch), false)
	}
	return ch
}

func pop(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		x := (*q)[0]
		*q = (*q)[1:]
		if x.done == nil || !*x.done {
			if x.done != nil {
				*x.done = true
				*x.fire = x.idx
			}
			return x
		}
	}
	return nil
}

func hasWaiter(q []*waiter) bool {
	for _, x := range q {
		if x.done == nil || !*x.done {
			return true
		}
	}
	return false
}

func (w *World) snap() []uint32 {
	if !w.opt.Race {
		return nil
	}
	c := append([]uint32(nil), w.cur.vc...)
	w.cur.tickVC()
	return c
}

func (w *World) acq(vc []uint32) {
	if w.opt.Race {
		w.cur.vc = joinVC(w.cur.vc, vc)
	}
}

// trySend attempts the send without blocking.
func (w *World) trySend(c *schan, v any) bool {
	if c.closed {
		panic("send on closed channel")
	}
	if r := pop(&c.recvq); r != nil {
		r.val, r.ok = v, true
		if w.opt.Race {
			s := w.snap()
			r.vc = s
			// unbuffered: the receive happens before the send completes
			w.cur.vc = joinVC(w.cur.vc, r.t.vc)
			r.t.vc = joinVC(r.t.vc, s)
			r.t.tickVC()
		}
		w.makeReady(r.t)
		return true
	}
	if len(c.buf) < c.cap {
		c.vc.Acquire()
		c.buf = append(c.buf, item{v, w.snap()})
		return true
	}
	return false
}

func (w *World) tryRecv(c *schan) (v any, ok, done bool) {
	if len(c.buf) > 0 {
		it := c.buf[0]
		c.buf = c.buf[1:]
		w.acq(it.vc)
		c.vc.Release()
		if s := pop(&c.sendq); s != nil {
			c.buf = append(c.buf, item{s.val, s.vc})
			s.ok = true
			if w.opt.Race {
				s.t.vc = joinVC(s.t.vc, w.cur.vc)
			}
			w.makeReady(s.t)
		}
		return it.v, true, true
	}
	if s := pop(&c.sendq); s != nil {
		w.acq(s.vc)
		if w.opt.Race {
			s.t.vc = joinVC(s.t.vc, w.cur.vc)
			w.cur.tickVC()
		}
		s.ok = true
		w.makeReady(s.t)
		return s.val, true, true
	}
	if c.closed {
		w.acq(c.closVC)
		return nil, false, true
	}
	return nil, false, false
}

// Send returns the function performing ch <- v.
func Send[T any](ch chan<- T) func(T) {
	return func(v T) {
		w := W
		if w == nil {
			ch <- v
			return
		}
		if w.cur.exiting {
			return
		}
		SY(w.cur.site)
		if ch == nil {
			w.block("send on nil channel", 0, nil)
			return
		}
		c := w.ch(chPtr(ch), cap(ch), true)
		if w.trySend(c, v) {
			return
		}
		x := &waiter{t: w.cur, val: v}
		if w.opt.Race {
			x.vc = w.snap()
		}
		c.sendq = append(c.sendq, x)
		w.block("channel send", 0, nil)
		if w.cur.exiting {
			return
		}
		if !x.ok {
			panic("send on closed channel")
		}
	}
}

func fromAny[T any](v any) T {
	if v == nil {
		var z T
		return z
	}
	return v.(T)
}

// Recv performs <-ch.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

func nativeTry[T any](ch <-chan T) (v T, ok, done bool) {
	select {
	case v, ok = <-ch:
		return v, ok, true
	default:
		return
	}
}

// Recv2 performs v, ok := <-ch.
func Recv2[T any](ch <-chan T) (T, bool) {
	w := W
	var z T
	if w == nil {
		v, ok := <-ch
		return v, ok
	}
	if w.cur.exiting {
		return z, false
	}
	SY(w.cur.site)
	if ch == nil {
		w.block("receive from nil channel", 0, nil)
		return z, false
	}
	c := w.ch(chPtr(ch), cap(ch), true)
	if c.native {
		for {
			if v, ok, done := nativeTry(ch); done {
				return v, ok
			}
			if v, ok, done := w.tryRecv(c); done {
				return fromAny[T](v), ok
			}
			fired := false
			w.block("receive from external channel", 0, func() bool {
				if fired {
					return true
				}
				return len(ch) > 0 || closedNow(ch)
			})
			if w.cur.exiting {
				return z, false
			}
		}
	}
	if v, ok, done := w.tryRecv(c); done {
		return fromAny[T](v), ok
	}
	x := &waiter{t: w.cur}
	c.recvq = append(c.recvq, x)
	w.block("channel receive", 0, nil)
	if w.cur.exiting {
		return z, false
	}
	w.acq(x.vc)
	return fromAny[T](x.val), x.ok
}

// closedNow reports whether an empty native channel is closed. It may only be
// used on channels whose senders never block on it (closed-only channels such
// as Done).
func closedNow[T any](ch <-chan T) bool {
	select {
	case _, ok := <-ch:
		return !ok
	default:
		return false
	}
}

// Close performs close(ch).
func Close[T any](ch chan<- T) {
	w := W
	if w == nil {
		close(ch)
		return
	}
	if w.cur.exiting {
		return
	}
	SY(w.cur.site)
	if ch == nil {
		panic("close of nil channel")
	}
	c := w.ch(chPtr(ch), cap(ch), true)
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
	c.closVC = w.snap()
	if c.native {
		close(ch)
	}
	for {
		r := pop(&c.recvq)
		if r == nil {
			break
		}
		r.val, r.ok, r.vc = nil, false, c.closVC
		w.makeReady(r.t)
	}
	for {
		s := pop(&c.sendq)
		if s == nil {
			break
		}
		s.ok = false
		w.makeReady(s.t)
	}
}

// ChLen is len(ch).
func ChLen[T any](ch <-chan T) int {
	w := W
	if w == nil || ch == nil {
		return len(ch)
	}
	c := w.chans[chPtr(ch)]
	if c == nil || c.native {
		return len(ch)
	}
	return len(c.buf)
}

// Case is one communication clause of a select statement.
type Case interface {
	try(w *World) bool
	enqueue(w *World, done *bool, fire *int, idx int)
	finish(w *World)
	isNil() bool
	pollable() func() bool
	rcase() reflect.SelectCase
	set(v reflect.Value, ok bool)
}

// RCase is a receive clause.
type RCase[T any] struct {
	ch <-chan T
	V  T
	OK bool
	x  *waiter
}

// R makes a receive clause.
func R[T any](ch <-chan T) *RCase[T] { return &RCase[T]{ch: ch} }

func (r *RCase[T]) isNil() bool { return r.ch == nil }
func (r *RCase[T]) try(w *World) bool {
	c := w.ch(chPtr(r.ch), cap(r.ch), true)
	if c.native {
		if v, ok, done := nativeTry(r.ch); done {
			r.V, r.OK = v, ok
			return true
		}
	}
	v, ok, done := w.tryRecv(c)
	if done {
		r.V, r.OK = fromAny[T](v), ok
	}
	return done
}
func (r *RCase[T]) enqueue(w *World, done *bool, fire *int, idx int) {
	c := w.ch(chPtr(r.ch), cap(r.ch), true)
	r.x = &waiter{t: w.cur, done: done, fire: fire, idx: idx}
	c.recvq = append(c.recvq, r.x)
}
func (r *RCase[T]) finish(w *World) {
	w.acq(r.x.vc)
	r.V, r.OK = fromAny[T](r.x.val), r.x.ok
}
func (r *RCase[T]) pollable() func() bool {
	c := W.chans[chPtr(r.ch)]
	if c != nil && c.native {
		return func() bool { return len(r.ch) > 0 || closedNow(r.ch) }
	}
	return nil
}
func (r *RCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(r.ch)}
}
func (r *RCase[T]) set(v reflect.Value, ok bool) {
	r.OK = ok
	if ok {
		r.V, _ = v.Interface().(T)
	}
}

// SCase is a send clause.
type SCase[T any] struct {
	ch chan<- T
	v  T
	x  *waiter
}

// S makes a send clause.
func S[T any](ch chan<- T) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch: ch, v: v} }
}

func (s *SCase[T]) isNil() bool { return s.ch == nil }
func (s *SCase[T]) try(w *World) bool {
	return w.trySend(w.ch(chPtr(s.ch), cap(s.ch), true), s.v)
}
func (s *SCase[T]) enqueue(w *World, done *bool, fire *int, idx int) {
	c := w.ch(chPtr(s.ch), cap(s.ch), true)
	s.x = &waiter{t: w.cur, val: s.v, done: done, fire: fire, idx: idx}
	if w.opt.Race {
		s.x.vc = append([]uint32(nil), w.cur.vc...)
	}
	c.sendq = append(c.sendq, s.x)
}
func (s *SCase[T]) finish(w *World) {
	if !s.x.ok {
		panic("send on closed channel")
	}
	w.cur.tickVC()
}
func (s *SCase[T]) pollable() func() bool { return nil }
func (s *SCase[T]) rcase() reflect.SelectCase {
	return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(s.ch), Send: reflect.ValueOf(&s.v).Elem()}
}
func (s *SCase[T]) set(reflect.Value, bool) {}

// Select performs a select statement; it returns the index of the clause
// taken, or len(cases) for default.
func Select(hasDefault bool, cases ...Case) int {
	w := W
	if w == nil {
		var rc []reflect.SelectCase
		for _, c := range cases {
			rc = append(rc, c.rcase())
		}
		if hasDefault {
			rc = append(rc, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(rc)
		if i < len(cases) {
			cases[i].set(v, ok)
		}
		return i
	}
	if w.cur.exiting {
		runtimeGoexit()
	}
	SY(w.cur.site)
	for {
		for _, i := range w.Env.Perm(len(cases)) {
			if !cases[i].isNil() && cases[i].try(w) {
				w.cur.polls = 0
				return i
			}
		}
		if hasDefault {
			w.Polled()
			return len(cases)
		}
		done, fire := false, -1
		var polls []func() bool
		for i, c := range cases {
			if c.isNil() {
				continue
			}
			c.enqueue(w, &done, &fire, i)
			if p := c.pollable(); p != nil {
				polls = append(polls, p)
			}
		}
		var poll func() bool
		if len(polls) > 0 {
			poll = func() bool {
				for _, p := range polls {
					if p() {
						return true
					}
				}
				return false
			}
		}
		w.block("select", 0, poll)
		if w.cur.exiting {
			runtimeGoexit()
		}
		if fire >= 0 {
			cases[fire].finish(w)
			return fire
		}
		done = true // woken by poll: withdraw and retry
	}
}

package rt

import (
	"fmt"
	"reflect"
	"runtime"
	"sort"
)

// Channels keep their native values as identities; their queues live in a side
// table, so that the simulator alone decides who proceeds.
type chanState struct {
	ref    reflect.Value // keeps the channel alive, so its address is not reused
	buf    []interface{}
	cap    int
	closed bool
	recvq  []*waiter
	sendq  []*waiter
	bufVC  []VC // of the senders, as buf
	slotVC []VC // of the receivers that freed slots not yet used again
	sent   int
	endVC  VC // of the closer
}

type selWait struct {
	fired  int
	cases  []*Case
	panicS string
}
type waiter struct {
	t   *Task
	sw  *selWait
	idx int
}

// Case is one case of a select.
type Case struct {
	send bool
	ref  reflect.Value
	st   *chanState
	val  interface{}
	ok   bool
	vc   VC // of a sender or receiver that waits
}

func (s *Sim) state(ref reflect.Value) *chanState {
	if ref.IsNil() {
		return nil
	}
	p := ref.Pointer()
	st := s.chans[p]
	if st == nil {
		st = &chanState{ref: ref, cap: ref.Cap()}
		s.chans[p] = st
	}
	return st
}

func liveWaiter(q *[]*waiter) *waiter {
	for len(*q) > 0 {
		w := (*q)[0]
		if w.sw.fired >= 0 || w.t.killed || w.t.done {
			*q = (*q)[1:]
			continue
		}
		return w
	}
	return nil
}

func (s *Sim) caseReady(c *Case) bool {
	if c.st == nil {
		return false
	}
	if c.send {
		return c.st.closed || liveWaiter(&c.st.recvq) != nil || len(c.st.buf) < c.st.cap
	}
	if len(c.st.buf) > 0 || c.st.closed || liveWaiter(&c.st.sendq) != nil {
		return true
	}
	return s.nativeRecv(c)
}

// nativeRecv takes a value (or the closed state) that uninstrumented code left
// in the native channel.
func (s *Sim) nativeRecv(c *Case) bool {
	if c.ref.Type().ChanDir()&reflect.RecvDir == 0 {
		return false
	}
	v, ok := c.ref.TryRecv()
	if ok {
		c.st.buf = append(c.st.buf, v.Interface())
		c.st.bufVC = append(c.st.bufVC, s.everything())
		return true
	}
	if v.IsValid() { // closed natively
		c.st.closed = true
		c.st.endVC = s.everything()
		return true
	}
	return false
}

func (s *Sim) perform(c *Case) { s.performFor(s.cur, c) }

// performFor does a ready operation on behalf of task t (nil: the outside).
func (s *Sim) performFor(t *Task, c *Case) {
	st := c.st
	got := func(vc VC) {
		if t != nil && !t.killed {
			s.acquireFor(t, vc)
		}
	}
	mine := func() VC {
		if s.race == nil {
			return nil
		}
		if t != nil && t != s.cur {
			return nil
		}
		return Snapshot()
	}
	if c.send {
		if st.closed {
			panic("send on closed channel")
		}
		if w := liveWaiter(&st.recvq); w != nil {
			st.recvq = st.recvq[1:]
			wc := w.sw.cases[w.idx]
			wc.val, wc.ok = c.val, true
			w.sw.fired = w.idx
			if s.race != nil {
				s.acquireFor(w.t, mine())
				if st.cap == 0 {
					got(wc.vc)
				} else {
					st.slotVC = append(st.slotVC, wc.vc)
					st.sent++
					s.reuseSlot(t, st)
				}
			}
			s.ready(w.t)
			return
		}
		st.buf = append(st.buf, c.val)
		if s.race != nil {
			st.bufVC = append(st.bufVC, mine())
			st.sent++
			s.reuseSlot(t, st)
		}
		return
	}
	if len(st.buf) > 0 {
		c.val, c.ok = st.buf[0], true
		st.buf = st.buf[1:]
		if s.race != nil {
			if len(st.bufVC) > 0 {
				got(st.bufVC[0])
				st.bufVC = st.bufVC[1:]
			}
			st.slotVC = append(st.slotVC, mine())
		}
		if w := liveWaiter(&st.sendq); w != nil && len(st.buf) < st.cap {
			st.sendq = st.sendq[1:]
			st.buf = append(st.buf, w.sw.cases[w.idx].val)
			w.sw.fired = w.idx
			if s.race != nil {
				st.bufVC = append(st.bufVC, w.sw.cases[w.idx].vc)
				st.sent++
				s.reuseSlot(w.t, st)
			}
			s.ready(w.t)
		}
		return
	}
	if w := liveWaiter(&st.sendq); w != nil {
		st.sendq = st.sendq[1:]
		c.val, c.ok = w.sw.cases[w.idx].val, true
		w.sw.fired = w.idx
		if s.race != nil {
			got(w.sw.cases[w.idx].vc)
			s.acquireFor(w.t, mine())
		}
		s.ready(w.t)
		return
	}
	c.val, c.ok = nil, false // closed
	got(st.endVC)
}

// reuseSlot orders the receive that freed a slot before the send that uses it.
func (s *Sim) reuseSlot(t *Task, st *chanState) {
	if st.sent <= st.cap || len(st.slotVC) == 0 {
		return
	}
	if t != nil && !t.killed {
		s.acquireFor(t, st.slotVC[0])
	}
	st.slotVC = st.slotVC[1:]
}

// everything covers all that happened so far: for events that come from code
// the detector does not see.
func (s *Sim) everything() VC {
	if s.race == nil {
		return nil
	}
	v := s.race.finished.clone()
	for _, t := range s.live {
		v.join(t.vc)
		t.tick()
	}
	return v
}

func (s *Sim) selectOp(hasDefault bool, cases []*Case, why string) int {
	t := s.cur
	if t != nil {
		if t.killed {
			if hasDefault {
				return -1
			}
			runtime.Goexit()
		}
		s.yieldAt(2)
	}
	ready := make([]int, 0, 4)
	for i, c := range cases {
		if s.caseReady(c) {
			ready = append(ready, i)
		}
	}
	if len(ready) > 0 {
		k := 0
		if len(ready) > 1 {
			k = s.T.Intn(len(ready))
		}
		s.perform(cases[ready[k]])
		return ready[k]
	}
	if hasDefault {
		return -1
	}
	t = s.needTask(why)
	sw := &selWait{fired: -1, cases: cases}
	vc := Snapshot()
	for i, c := range cases {
		c.vc = vc
		if c.st == nil {
			continue
		}
		w := &waiter{t, sw, i}
		if c.send {
			c.st.sendq = append(c.st.sendq, w)
		} else {
			c.st.recvq = append(c.st.recvq, w)
		}
	}
	t.sel = sw
	if !t.polled {
		t.polled = true
		s.blockedSel = append(s.blockedSel, t)
	}
	for sw.fired < 0 {
		s.park(why)
	}
	t.sel = nil
	if sw.panicS != "" {
		panic(sw.panicS)
	}
	return sw.fired
}

// pollNative looks for channels made ready by uninstrumented code.
func (s *Sim) pollNative() bool {
	q := s.blockedSel[:0]
	hit := false
	for _, t := range s.blockedSel {
		if t.sel == nil || t.sel.fired >= 0 || t.done || t.killed {
			t.polled = false
			continue
		}
		q = append(q, t)
		for i, c := range t.sel.cases {
			if c.st == nil || c.send {
				continue
			}
			if len(c.st.buf) == 0 && !c.st.closed && s.nativeRecv(c) {
				s.performFor(t, c)
				t.sel.fired = i
				s.ready(t)
				hit = true
				break
			}
		}
	}
	s.blockedSel = q
	return hit
}

func chanRef(ch interface{}) reflect.Value { return reflect.ValueOf(ch) }

func newCase(s *Sim, ch interface{}, send bool, v interface{}) *Case {
	ref := chanRef(ch)
	return &Case{send: send, ref: ref, st: s.state(ref), val: v}
}

func as[T any](v interface{}) T {
	r, _ := v.(T)
	return r
}

// Send is ch <- v, as Send(ch)(v).
func Send[C ~chan T | ~chan<- T, T any](ch C) func(T) {
	return func(v T) {
		s := S
		if s == nil {
			reflect.ValueOf(ch).Send(valueOf[T](v))
			return
		}
		s.selectOp(false, []*Case{newCase(s, ch, true, v)}, "send")
	}
}

func valueOf[T any](v T) reflect.Value { return reflect.ValueOf(&v).Elem() }

// Recv is <-ch.
func Recv[C ~chan T | ~<-chan T, T any](ch C) T {
	v, _ := Recv2[C, T](ch)
	return v
}

// Recv2 is v, ok := <-ch.
func Recv2[C ~chan T | ~<-chan T, T any](ch C) (T, bool) {
	s := S
	if s == nil {
		v, ok := reflect.ValueOf(ch).Recv()
		if !ok {
			var z T
			return z, false
		}
		return as[T](v.Interface()), true
	}
	c := newCase(s, ch, false, nil)
	s.selectOp(false, []*Case{c}, "recv")
	return as[T](c.val), c.ok
}

// Close is close(ch).
func Close[C ~chan T | ~chan<- T, T any](ch C) {
	s := S
	if s == nil {
		reflect.ValueOf(ch).Close()
		return
	}
	if s.cur != nil {
		if s.cur.killed {
			return
		}
		s.yieldAt(3)
	}
	ref := chanRef(ch)
	if ref.IsNil() {
		panic("close of nil channel")
	}
	s.CloseChan(ch)
}

// CloseChan closes without a scheduling point.
func (s *Sim) CloseChan(ch interface{}) {
	st := s.state(chanRef(ch))
	if st.closed {
		panic("close of closed channel")
	}
	st.closed = true
	st.endVC = Snapshot()
	for w := liveWaiter(&st.recvq); w != nil; w = liveWaiter(&st.recvq) {
		st.recvq = st.recvq[1:]
		w.sw.cases[w.idx].val, w.sw.cases[w.idx].ok = nil, false
		w.sw.fired = w.idx
		s.acquireFor(w.t, st.endVC)
		s.ready(w.t)
	}
	for w := liveWaiter(&st.sendq); w != nil; w = liveWaiter(&st.sendq) {
		st.sendq = st.sendq[1:]
		w.sw.fired = w.idx
		w.sw.panicS = "send on closed channel"
		s.ready(w.t)
	}
}

// TrySend sends without blocking (also from outside tasks).
func (s *Sim) TrySend(ch interface{}, v interface{}) bool {
	c := newCase(s, ch, true, v)
	if !s.caseReady(c) {
		return false
	}
	s.perform(c)
	return true
}

// Closed reports whether ch was closed.
func (s *Sim) Closed(ch interface{}) bool { return s.state(chanRef(ch)).closed }

// Len is len(ch).
func Len(ch interface{}) int {
	s := S
	ref := chanRef(ch)
	if s == nil {
		return ref.Len()
	}
	if ref.IsNil() {
		return 0
	}
	if s.cur != nil && !s.cur.killed {
		s.yieldAt(4)
	}
	return len(s.state(ref).buf) + ref.Len()
}

// SendCase and RecvCase build the cases of a select.
func SendCase[C ~chan T | ~chan<- T, T any](ch C) func(T) *SCase[T] {
	return func(v T) *SCase[T] { return &SCase[T]{ch: ch, send: true, v: v} }
}
func RecvCase[C ~chan T | ~<-chan T, T any](ch C) *SCase[T] { return &SCase[T]{ch: ch} }

// SCase is a typed select case.
type SCase[T any] struct {
	ch   interface{}
	send bool
	v    T
	ok   bool
	c    *Case
}

func (c *SCase[T]) Val() T          { return c.v }
func (c *SCase[T]) Val2() (T, bool) { return c.v, c.ok }
func (c *SCase[T]) prep(s *Sim) *Case {
	if c.send {
		c.c = newCase(s, c.ch, true, c.v)
	} else {
		c.c = newCase(s, c.ch, false, nil)
	}
	return c.c
}
func (c *SCase[T]) fin() {
	if !c.send {
		c.v, c.ok = as[T](c.c.val), c.c.ok
	}
}
func (c *SCase[T]) native() reflect.SelectCase {
	if c.send {
		return reflect.SelectCase{Dir: reflect.SelectSend, Chan: reflect.ValueOf(c.ch), Send: valueOf[T](c.v)}
	}
	return reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(c.ch)}
}
func (c *SCase[T]) setNative(v reflect.Value, ok bool) {
	if !c.send && ok {
		c.v = as[T](v.Interface())
	}
	c.ok = ok
}

// AnyCase is a case of any element type.
type AnyCase interface {
	prep(*Sim) *Case
	fin()
	native() reflect.SelectCase
	setNative(reflect.Value, bool)
}

// Select chooses a case; -1 is the default case.
func Select(hasDefault bool, cases ...AnyCase) int {
	s := S
	if s == nil {
		var ncs []reflect.SelectCase
		for _, c := range cases {
			ncs = append(ncs, c.native())
		}
		if hasDefault {
			ncs = append(ncs, reflect.SelectCase{Dir: reflect.SelectDefault})
		}
		i, v, ok := reflect.Select(ncs)
		if i == len(cases) {
			return -1
		}
		cases[i].setNative(v, ok)
		return i
	}
	cs := make([]*Case, len(cases))
	for i, c := range cases {
		cs[i] = c.prep(s)
	}
	i := s.selectOp(hasDefault, cs, "select")
	if i >= 0 {
		cases[i].fin()
	}
	return i
}

// ChanIter is for v := range ch.
type ChanIter[T any] struct {
	recv func() (T, bool)
}

func RangeChan[C ~chan T | ~<-chan T, T any](ch C) (*ChanIter[T], T) {
	var z T
	return &ChanIter[T]{func() (T, bool) { return Recv2[C, T](ch) }}, z
}
func (it *ChanIter[T]) Next(v *T) bool {
	x, ok := it.recv()
	if ok && v != nil {
		*v = x
	}
	return ok
}

// MapIter is for k, v := range m with an order chosen by the simulator.
type MapIter[K comparable, V any] struct {
	m    map[K]V
	keys []K
	i    int
}

func RangeMap[M ~map[K]V, K comparable, V any](m M) (*MapIter[K, V], K, V) {
	it := &MapIter[K, V]{m: m}
	RdM[M, K, V](m)
	for k := range m {
		it.keys = append(it.keys, k)
	}
	s := S
	if s != nil {
		sortKeys(it.keys)
		if s.mapMode != 0 {
			for i := len(it.keys) - 1; i > 0; i-- {
				j := s.mapRng.Intn(i + 1)
				it.keys[i], it.keys[j] = it.keys[j], it.keys[i]
			}
		}
	}
	var k K
	var v V
	return it, k, v
}

func (it *MapIter[K, V]) Next(k *K, v *V) bool {
	for it.i < len(it.keys) {
		key := it.keys[it.i]
		it.i++
		val, ok := RdM[map[K]V, K, V](it.m)[key]
		if !ok && key == key {
			continue
		}
		if k != nil {
			*k = key
		}
		if v != nil {
			*v = val
		}
		return true
	}
	return false
}

func sortKeys[K comparable](keys []K) {
	switch ks := interface{}(keys).(type) {
	case []uint64:
		sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	case []int:
		sort.Ints(ks)
	case []string:
		sort.Strings(ks)
	default:
		sort.Slice(keys, func(i, j int) bool { return fmt.Sprint(keys[i]) < fmt.Sprint(keys[j]) })
	}
}

package rt

import (
	"container/heap"
	"fmt"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
)

// Config bounds and shapes one run.
type Config struct {
	MaxYields int // limit on instrumented statements executed
	MaxSteps  int // limit on task switches
	Gap       int // mean-ish distance between forced preemptions (0: none)
	StallPct  int // chance in percent that a forced preemption stalls the task
	StallMax  time.Duration
	Tracing   bool
}

// Violation is what a run found.
type Violation struct {
	Class string
	Msg   string
}

// Proc is a simulated OS process.
type Proc struct {
	ID         int
	Name       string
	Dead       bool
	Exit       int // exit code once Dead, -1 when killed
	AllowPanic bool
	PanicMsg   string
	Env        map[string]string
	tasks      []*Task
	doneQ      WaitQ
	OnKill     []func()
	Data       map[string]any
}

// Task is one simulated goroutine: a real one, parked except when chosen.
type Task struct {
	ID       int
	Name     string
	Proc     *Proc
	wake     chan struct{}
	killed   bool
	done     bool
	blocked  string
	sel      *selWait
	waiting  *qwait
	kyields  int
	inQ      bool
	Died     bool // ended by kill
	doneQ    WaitQ
	lastSite uint32
	timed    bool
	vc       VC
	polled   bool // is in blockedSel
	site     uint32
}

type timer struct {
	at   time.Duration
	seq  uint64
	fn   func()
	dead bool
	idx  int
	vc   VC
}
type timerHeap []*timer

func (h timerHeap) Len() int { return len(h) }
func (h timerHeap) Less(i, j int) bool {
	if h[i].at != h[j].at {
		return h[i].at < h[j].at
	}
	return h[i].seq < h[j].seq
}
func (h timerHeap) Swap(i, j int)       { h[i], h[j] = h[j], h[i]; h[i].idx = i; h[j].idx = j }
func (h *timerHeap) Push(x interface{}) { t := x.(*timer); t.idx = len(*h); *h = append(*h, t) }
func (h *timerHeap) Pop() interface{} {
	o := *h
	t := o[len(o)-1]
	*h = o[:len(o)-1]
	return t
}

// Sim is one run.
type Sim struct {
	T          *Tape
	Cfg        Config
	now        time.Duration
	cur        *Task
	runq       []*Task
	live       []*Task
	back       chan struct{}
	timers     timerHeap
	seq        uint64
	nTask      int
	nProc      int
	gap        int
	noGap      bool
	yields     int
	steps      int
	chans      map[uintptr]*chanState
	Hash       uint64 // of all events
	SHash      uint64 // of the schedule (task, site) at switches
	Trace      []string
	Viol       *Violation
	Stats      map[string]int
	rnd        Rng
	rndInit    bool
	mapRng     Rng
	mapMode    int
	Root       *Proc
	blockedSel []*Task
	stopping   bool
	Switches   int
	Preempts   int
	Net        map[string]any
	OnStep     func()
	Seqno      uint64
	race       *Race
	firedVC    VC // what happened before the timer now firing was set
}

// S is the current run; nil outside one (instrumented code then runs natively).
var S *Sim

// NewSim starts a run.
func NewSim(t *Tape, cfg Config) *Sim {
	s := &Sim{T: t, Cfg: cfg, back: make(chan struct{}), chans: map[uintptr]*chanState{}, Stats: map[string]int{}, Hash: 1469598103934665603, SHash: 1469598103934665603, Net: map[string]any{}}
	if s.Cfg.MaxYields == 0 {
		s.Cfg.MaxYields = 400000000
	}
	if s.Cfg.MaxSteps == 0 {
		s.Cfg.MaxSteps = 2000000
	}
	s.Root = s.NewProc("harness")
	S = s
	return s
}

func (s *Sim) NewProc(name string) *Proc {
	s.nProc++
	return &Proc{ID: s.nProc, Name: name, Env: map[string]string{}, Data: map[string]any{}}
}

// SetMapMode chooses the order of map iteration in instrumented code:
// 0 sorted, otherwise shuffled from the seed.
func (s *Sim) SetMapMode(seed int) { s.mapMode = seed; s.mapRng.Seed(seed) }

func (s *Sim) Now() time.Duration { return s.now }
func (s *Sim) Cur() *Task         { return s.cur }
func (s *Sim) Tick() uint64       { s.Seqno++; return s.Seqno }

// Ev logs an event; it must not draw or read a real clock.
func (s *Sim) Ev(kind string, args ...interface{}) {
	h := s.Hash
	for i := 0; i < len(kind); i++ {
		h = (h ^ uint64(kind[i])) * 1099511628211
	}
	for _, a := range args {
		switch v := a.(type) {
		case int:
			h = (h ^ uint64(v)) * 1099511628211
		case uint64:
			h = (h ^ v) * 1099511628211
		case int64:
			h = (h ^ uint64(v)) * 1099511628211
		case uint32:
			h = (h ^ uint64(v)) * 1099511628211
		case bool:
			if v {
				h++
			}
			h *= 1099511628211
		case string:
			for i := 0; i < len(v); i++ {
				h = (h ^ uint64(v[i])) * 1099511628211
			}
		case time.Duration:
			h = (h ^ uint64(v)) * 1099511628211
		case error:
			if v != nil {
				m := v.Error()
				for i := 0; i < len(m); i++ {
					h = (h ^ uint64(m[i])) * 1099511628211
				}
			}
		case nil:
			h *= 31
		default:
			m := fmt.Sprint(v)
			for i := 0; i < len(m); i++ {
				h = (h ^ uint64(m[i])) * 1099511628211
			}
		}
	}
	s.Hash = h
	if s.Cfg.Tracing && len(s.Trace) < 4000 {
		who := "-"
		if s.cur != nil {
			who = fmt.Sprintf("%s/%s#%d", s.cur.Proc.Name, s.cur.Name, s.cur.ID)
		}
		line := fmt.Sprintf("t=%v %s %s", s.now, who, kind)
		for _, a := range args {
			line += " " + fmt.Sprint(a)
		}
		s.Trace = append(s.Trace, line)
	}
}

// Stat counts something that happened.
func (s *Sim) Stat(name string) { s.Stats[name]++ }

// Fail records the first violation of the run.
func (s *Sim) Fail(class, format string, args ...interface{}) {
	if s.Viol == nil && !s.stopping {
		s.Viol = &Violation{class, fmt.Sprintf(format, args...)}
		s.Ev("VIOLATION", class, s.Viol.Msg)
	}
}

// GoProc starts a task in a process.
func (s *Sim) GoProc(p *Proc, name string, f func()) *Task {
	s.nTask++
	t := &Task{ID: s.nTask, Name: name, Proc: p, wake: make(chan struct{})}
	if s.race != nil {
		t.vc = Snapshot().clone()
		t.tick()
	}
	if p.Dead {
		t.done, t.Died = true, true
		return t
	}
	p.tasks = append(p.tasks, t)
	s.live = append(s.live, t)
	go s.taskMain(t, f)
	s.ready(t)
	return t
}

func (s *Sim) taskMain(t *Task, f func()) {
	<-t.wake
	normal := false
	defer func() {
		r := recover()
		if !normal && r != nil && !t.killed {
			msg := fmt.Sprint(r)
			st := string(debug.Stack())
			s.Ev("panic", msg)
			t.Proc.PanicMsg = msg
			if !t.Proc.AllowPanic {
				s.Fail("panic", "panic in %s/%s: %s\n%s", t.Proc.Name, t.Name, msg, trimStack(st))
			}
			// A panic ends a Go process.
			s.killProc(t.Proc, 2)
		} else if !normal {
			t.Died = true
		}
		t.done = true
		if s.race != nil {
			s.race.finished.join(t.vc)
		}
		s.wakeAll(&t.doneQ)
		s.back <- struct{}{}
	}()
	if !t.killed {
		f()
	} else {
		runtime.Goexit()
	}
	normal = true
}

func trimStack(st string) string {
	if len(st) > 3000 {
		st = st[:3000]
	}
	return st
}

func (s *Sim) ready(t *Task) {
	if t.inQ || t.done {
		return
	}
	t.blocked = ""
	t.inQ = true
	s.runq = append(s.runq, t)
}

// Run schedules until nothing can happen any more, a violation is found, or a
// limit is hit. It is called outside tasks.
func (s *Sim) Run() {
	for s.Viol == nil {
		if len(s.runq) == 0 {
			if s.pollNative() {
				continue
			}
			if !s.advance() {
				return
			}
			continue
		}
		s.steps++
		if s.steps > s.Cfg.MaxSteps {
			s.Fail("nontermination", "run exceeded %d task switches", s.Cfg.MaxSteps)
			return
		}
		i := 0
		if len(s.runq) > 1 {
			i = s.T.Intn(len(s.runq))
			s.Switches++
		}
		t := s.runq[i]
		s.runq = append(s.runq[:i], s.runq[i+1:]...)
		t.inQ = false
		if t.done {
			continue
		}
		s.SHash = (s.SHash ^ uint64(t.ID)<<32 ^ uint64(t.lastSite)) * 1099511628211
		s.resume(t)
		if s.OnStep != nil {
			s.OnStep()
		}
	}
}

func (s *Sim) resume(t *Task) {
	prev := s.cur
	s.cur = t
	t.wake <- struct{}{}
	<-s.back
	s.cur = prev
	if t.done {
		s.forget(t)
	}
}

func (s *Sim) forget(t *Task) {
	for i, x := range s.live {
		if x == t {
			s.live = append(s.live[:i], s.live[i+1:]...)
			break
		}
	}
	for i, x := range t.Proc.tasks {
		if x == t {
			t.Proc.tasks = append(t.Proc.tasks[:i], t.Proc.tasks[i+1:]...)
			break
		}
	}
}

func (s *Sim) advance() bool {
	for len(s.timers) > 0 {
		tm := heap.Pop(&s.timers).(*timer)
		if tm.dead {
			continue
		}
		tm.dead = true
		if tm.at > s.now {
			s.now = tm.at
		}
		s.firedVC = tm.vc
		tm.fn()
		s.firedVC = nil
		return true
	}
	return false
}

// After schedules fn (run by the scheduler, not in a task).
func (s *Sim) After(d time.Duration, fn func()) *timer {
	if d < 0 {
		d = 0
	}
	s.seq++
	tm := &timer{at: s.now + d, seq: s.seq, fn: fn, vc: Snapshot()}
	heap.Push(&s.timers, tm)
	return tm
}

// Timer is a cancellable timer.
type Timer struct{ t *timer }

func (s *Sim) AfterTimer(d time.Duration, fn func()) *Timer { return &Timer{s.After(d, fn)} }

// Stop reports whether the timer was still pending.
func (t *Timer) Stop() bool {
	if t.t == nil || t.t.dead {
		return false
	}
	t.t.dead = true
	return true
}

// park gives up the processor until something readies the task.
func (s *Sim) park(why string) {
	t := s.cur
	t.blocked = why
	s.back <- struct{}{}
	<-t.wake
	if t.killed {
		runtime.Goexit()
	}
}

func (s *Sim) needTask(op string) *Task {
	if s.cur == nil {
		panic("rt: " + op + " would block outside a task")
	}
	return s.cur
}

// Yield is inserted before every statement of the instrumented code.
func Yield(site uint32) {
	s := S
	if s == nil || s.cur == nil {
		return
	}
	s.yieldAt(site)
}

func (s *Sim) yieldAt(site uint32) {
	t := s.cur
	if site >= 100 {
		t.site = site
	}
	if t.killed {
		t.kyields++
		if t.kyields > 200000 {
			runtime.Goexit()
		}
		return
	}
	s.yields++
	if s.yields > s.Cfg.MaxYields {
		s.Fail("nontermination", "run executed more than %d statements", s.Cfg.MaxYields)
		s.park("stopped")
		return
	}
	if s.Cfg.Gap == 0 || t.Proc == s.Root && t.Name == "driver" {
		return
	}
	if s.gap == 0 {
		if s.noGap {
			return
		}
		s.drawGap()
		if s.noGap {
			return
		}
	}
	s.gap--
	if s.gap > 0 {
		return
	}
	s.Preempts++
	t.lastSite = site
	if s.Cfg.StallPct > 0 && s.T.Chance(s.Cfg.StallPct, 100) {
		d := s.Cfg.StallMax * time.Duration(1+s.T.Intn(16)) / 16
		s.Stat("fault.stall")
		s.Ev("stall", d)
		s.sleep(d)
		return
	}
	if len(s.runq) > 0 {
		s.ready(t)
		s.park("preempted")
	}
}

func (s *Sim) drawGap() {
	v := s.T.Intn(1 << 20)
	if v == 0 {
		s.noGap = true
		return
	}
	s.gap = 1 + v%s.Cfg.Gap
}

func (s *Sim) sleep(d time.Duration) {
	t := s.needTask("sleep")
	if t.killed {
		return
	}
	s.After(d, func() { s.ready(t) })
	s.park("sleep")
}

// Sleep is time.Sleep.
func Sleep(d time.Duration) {
	s := S
	if s == nil || s.cur == nil {
		if s == nil {
			time.Sleep(d)
		}
		return
	}
	if s.cur.killed {
		return
	}
	s.sleep(d)
}

// Go starts a task in the current process.
func Go(f func()) {
	s := S
	if s == nil {
		go f()
		return
	}
	if s.cur != nil && s.cur.killed {
		return
	}
	p := s.Root
	if s.cur != nil {
		p = s.cur.Proc
	}
	s.GoProc(p, "go", f)
	Yield(1)
}

// WaitQ is a queue of parked tasks.
type WaitQ struct{ q []*qwait }

type qwait struct {
	t     *Task
	woken bool
}

func (s *Sim) wake(w *qwait) {
	w.woken = true
	if w.t.waiting == w && !w.t.done {
		s.ready(w.t)
	}
}

func (s *Sim) wakeAll(q *WaitQ) {
	ws := q.q
	q.q = nil
	for _, w := range ws {
		s.wake(w)
	}
}

// Wait parks the current task until it is woken. Callers loop on their condition.
func (q *WaitQ) Wait(why string) { q.WaitUnlocked(why, nil) }

// WaitUnlocked joins the queue, then runs unlock, then waits.
func (q *WaitQ) WaitUnlocked(why string, unlock func()) {
	s := S
	t := s.needTask(why)
	if t.killed {
		runtime.Goexit()
	}
	w := &qwait{t: t}
	q.q = append(q.q, w)
	if unlock != nil {
		unlock()
	}
	for !w.woken {
		t.waiting = w
		s.park(why)
		t.waiting = nil
	}
}

// WakeAll wakes every waiter.
func (q *WaitQ) WakeAll() {
	if S != nil {
		S.wakeAll(q)
	}
}

// WakeOne wakes one waiter, chosen by the tape.
func (q *WaitQ) WakeOne() {
	s := S
	live := q.q[:0]
	for _, w := range q.q {
		if !w.t.done && !w.t.killed {
			live = append(live, w)
		}
	}
	q.q = live
	if len(live) == 0 {
		return
	}
	i := 0
	if len(live) > 1 {
		i = s.T.Intn(len(live))
	}
	w := live[i]
	q.q = append(live[:i:i], live[i+1:]...)
	s.wake(w)
}

// Gosched gives way to the other tasks, or lets time pass if there are none.
func Gosched() {
	s := S
	if s == nil || s.cur == nil || s.cur.killed {
		return
	}
	if len(s.runq) == 0 {
		s.sleep(time.Microsecond)
		return
	}
	s.ready(s.cur)
	s.park("gosched")
}

var resets []func()

// RegisterReset registers the function that gives a package's variables their
// initial values.
func RegisterReset(f func()) { resets = append(resets, f) }

// ResetGlobals makes the package variables what they are in a fresh process.
func ResetGlobals() {
	for _, f := range resets {
		f()
	}
}

// Join waits until the task ended.
func (t *Task) Join() {
	for !t.done {
		t.doneQ.Wait("join")
	}
	Acquire(t.vc)
}
func (t *Task) Done() bool      { return t.done }
func (t *Task) Blocked() string { return t.blocked }
func (t *Task) Killed() bool    { return t.killed }

// Killed reports whether the current task is being unwound after its process died.
func Killed() bool { return S != nil && S.cur != nil && S.cur.killed }

// CurProc is the process of the current task.
func CurProc() *Proc {
	if S == nil || S.cur == nil {
		return nil
	}
	return S.cur.Proc
}

func (s *Sim) killProc(p *Proc, code int) {
	if p.Dead {
		return
	}
	p.Dead = true
	p.Exit = code
	for _, t := range p.tasks {
		if !t.done {
			t.killed = true
		}
	}
	for _, f := range p.OnKill {
		f()
	}
	s.wakeAll(&p.doneQ)
	s.reapLater(p)
}

func (s *Sim) reapLater(p *Proc) {
	for _, t := range append([]*Task(nil), p.tasks...) {
		if !t.done && t != s.cur && !t.inQ {
			t.inQ = true
			s.runq = append(s.runq, t) // resumes only to unwind
		}
	}
}

// Kill ends a process at once: only what it wrote to the file system survives.
func (s *Sim) Kill(p *Proc) {
	s.Ev("kill", p.Name)
	s.killProc(p, -1)
	if s.cur != nil && s.cur.Proc == p {
		runtime.Goexit()
	}
}

// Exit ends the current process.
func Exit(code int) {
	s := S
	if s == nil || s.cur == nil {
		panic(fmt.Sprintf("exit(%d) outside the simulation", code))
	}
	if s.cur.killed {
		runtime.Goexit()
	}
	s.Ev("exit", code)
	s.killProc(s.cur.Proc, code)
	runtime.Goexit()
}

// WaitExit parks the current task until the process is dead.
func (p *Proc) WaitExit() {
	for !p.Dead {
		p.doneQ.Wait("waitexit")
	}
}

// Reap waits until every task of a dead process has been unwound.
func (p *Proc) Reap() {
	for len(p.tasks) > 0 {
		Gosched()
	}
}

// Live reports the tasks of a process that have not ended.
func (p *Proc) Live() []*Task {
	var r []*Task
	for _, t := range p.tasks {
		if !t.done && !t.killed {
			r = append(r, t)
		}
	}
	return r
}

// Drive runs f as the driver task of the harness and schedules until all is
// quiet. It reports whether f completed.
func (s *Sim) Drive(f func()) bool {
	t := s.GoProc(s.Root, "driver", f)
	s.Run()
	return t.done && !t.Died
}

// Close unwinds everything that is left.
func (s *Sim) Close() {
	s.stopping = true
	for n := 0; len(s.live) > 0 && n < 100000; n++ {
		t := s.live[0]
		t.killed = true
		t.Proc.Dead = true
		if t.done {
			s.forget(t)
			continue
		}
		s.resume(t)
	}
	S = nil
}

// Call runs f in a new task of process p and waits for it; it reports whether
// f returned normally (false: the process died).
func (s *Sim) Call(p *Proc, name string, f func()) bool {
	if p.Dead {
		return false
	}
	ok := false
	t := s.GoProc(p, name, func() { f(); ok = true })
	t.Join()
	return ok
}

// Steps returns how many task switches happened.
func (s *Sim) Steps() int  { return s.steps }
func (s *Sim) Yields() int { return s.yields }

// BlockedReport lists the tasks still blocked.
func (s *Sim) BlockedReport() string {
	var r []string
	for _, t := range s.live {
		if !t.done && !t.killed {
			r = append(r, fmt.Sprintf("%s/%s#%d:%s", t.Proc.Name, t.Name, t.ID, t.blocked))
		}
	}
	sort.Strings(r)
	return fmt.Sprint(r)
}

// Random is the run's stream for code that asks for random numbers.
func Random() uint64 {
	s := S
	if s == nil {
		return 4
	}
	if !s.rndInit {
		s.rndInit = true
		s.rnd.Seed(s.T.Intn(1 << 16))
	}
	return s.rnd.Uint64()
}

// allocLimit is the memory of the simulated machine.
const allocLimit = 512 << 20

// Alloc stands in front of an allocation of n elements: more than the
// simulated machine has ends the process, as running out of memory does.
func Alloc[T interface {
	~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64 | ~uintptr
}](n T, elem int64) T {
	if f := float64(n) * float64(elem); f > allocLimit {
		panic(fmt.Sprintf("fatal error: out of memory: allocating %.0f bytes", f))
	}
	return n
}

package main

import (
	"fmt"
	"syscall"
	"time"

	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simnet"
	"recengine/internal/zzsim/simos"
)

// Prop is one property's simulation.
type Prop struct {
	ID       string
	Run      func(h *H)
	Quick    int // runs
	Thorough int
	Rule     string
	States   string
	Real     []string
	Stub     []string
	Assume   []string
	Only     string // the class of violation that counts (others end the run)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// H is what a scenario sees of one run.
type H struct {
	S          *rt.Sim
	T          *rt.Tape
	FS         *simos.FS
	Net        *simnet.Net
	Tier       string
	sample     string
	nontrivial bool
	keys       []uint64
	boots      int
	F          *Faults
}

// Result is the outcome of one run.
type Result struct {
	Class, Msg    string
	Hash, SHash   uint64
	Yields, Steps int
	Switches      int
	Preempts      int
	Now           time.Duration
	Stats         map[string]int
	Nontrivial    bool
	Sample        string
	Vals          []int
	Spans         []rt.Span
	Trace         []string
	Keys          []uint64
}

func runOne(p *Prop, tape *rt.Tape, tracing bool) *Result {
	s := rt.NewSim(tape, rt.Config{Tracing: tracing})
	fs := simos.NewFS()
	simos.Cur = fs
	simnet.Cur = simnet.New()
	rt.ResetGlobals()
	h := &H{S: s, T: tape, FS: fs, Net: simnet.Cur, Tier: *fTier}
	h.F = newFaults(h)
	fs.Hook = h.F.hook
	done := s.Drive(func() { p.Run(h) })
	if s.Viol == nil && !done {
		s.Fail("stuck", "the run cannot make progress: %s", s.BlockedReport())
	}
	r := &Result{Hash: s.Hash, SHash: s.SHash, Yields: s.Yields(), Steps: s.Steps(), Switches: s.Switches, Preempts: s.Preempts,
		Now: s.Now(), Stats: s.Stats, Nontrivial: h.nontrivial, Sample: h.sample}
	if s.Viol != nil && p.Only != "" && s.Viol.Class != p.Only {
		s.Stats["ended-by."+s.Viol.Class]++
	} else if s.Viol != nil {
		r.Class, r.Msg = s.Viol.Class, s.Viol.Msg
	}
	s.Close()
	r.Trace, r.Vals, r.Spans, r.Keys = s.Trace, tape.Vals, tape.Spans, h.keys
	return r
}

// Fail reports a violation and ends the driver.
func (h *H) Fail(class, format string, args ...interface{}) { h.S.Fail(class, format, args...) }

// Failed reports whether the run has a violation already.
func (h *H) Failed() bool { return h.S.Viol != nil }

// Stat counts something.
func (h *H) Stat(name string) { h.S.Stat(name) }

// Note records an event.
func (h *H) Note(kind string, args ...interface{}) { h.S.Ev(kind, args...) }

// Key records a reached state by the property's measure.
func (h *H) Key(parts ...interface{}) {
	k := uint64(14695981039346656037)
	for _, c := range []byte(fmt.Sprint(parts...)) {
		k = (k ^ uint64(c)) * 1099511628211
	}
	h.keys = append(h.keys, k)
}

// Boot starts a fresh process: package variables have their initial values.
func (h *H) Boot(name string) *rt.Proc {
	h.boots++
	rt.ResetGlobals()
	p := h.S.NewProc(fmt.Sprintf("%s%d", name, h.boots))
	for k, v := range h.FS.Env {
		p.Env[k] = v
	}
	return p
}

// Call runs f as a task of p and reports whether it returned (false: p died).
func (h *H) Call(p *rt.Proc, name string, f func()) bool {
	ok := h.S.Call(p, name, f)
	if !ok {
		p.Reap()
		h.FS.DropProc(p)
	}
	return ok
}

// Kill ends a process and waits until it is gone.
func (h *H) Kill(p *rt.Proc) {
	if !p.Dead {
		h.S.Stat("fault.crash")
		h.FS.DropProc(p)
		h.S.Kill(p)
	}
	p.Reap()
}

// Retire ends a process that has nothing left to do.
func (h *H) Retire(p *rt.Proc) {
	if !p.Dead {
		h.FS.DropProc(p)
		h.S.Kill(p)
	}
	p.Reap()
}

// Faults decides what happens to file system operations.
type Faults struct {
	h      *H
	rng    rt.Rng
	seeded bool
	// crash point: the process dies in the CrashIn-th mutating or any operation.
	CrashIn int
	// error: the ErrIn-th operation matching ErrKinds fails.
	ErrIn    int
	ErrKinds map[string]bool
	ErrN     int // how many consecutive matching operations fail (default 1)
	ErrPath  string
	ErrOnly  func(path string) bool // only files of these names
	LastErr  *simos.Op
	Errs     []*simos.Op // all operations that failed so
	Injected int
	Crashed  bool
	Slow     time.Duration
	Short    bool // legal short reads
	Ops      int
	Obs      func(op *simos.Op) // sees every operation first
	Free     bool               // no faults now
	LateLoss bool               // written data may be lost when closing fails
}

func newFaults(h *H) *Faults { return &Faults{h: h} }

// What an operation may fail with; the first ones are common to all.
var errnos = []error{syscall.EIO, syscall.ENOSPC, syscall.EIO, syscall.EDQUOT}

// kindErrnos are further errors of certain operations.
var kindErrnos = map[string][]error{
	"open":   {syscall.EACCES, syscall.EMFILE, syscall.EPERM, syscall.ENFILE, syscall.EINTR, syscall.ETIMEDOUT, syscall.ESTALE, syscall.ELOOP},
	"create": {syscall.EACCES, syscall.EMFILE, syscall.EPERM, syscall.EROFS, syscall.ESTALE},
	"mkdir":  {syscall.EACCES, syscall.EROFS},
	"stat":   {syscall.EACCES, syscall.ESTALE},
	"read":   {syscall.ESTALE, syscall.ETIMEDOUT, syscall.EPERM},
	"write":  {syscall.EFBIG, syscall.EPERM, syscall.ESTALE},
	"sync":   {syscall.ESTALE},
	"rename": {syscall.EACCES, syscall.EBUSY, syscall.EPERM},
	"remove": {syscall.EACCES, syscall.EBUSY, syscall.EPERM},
}

func drawErrno(t *rt.Tape, kind string) error {
	more := kindErrnos[kind]
	k := t.Intn(len(errnos) + len(more))
	if k < len(errnos) {
		return errnos[k]
	}
	return more[k-len(errnos)]
}

func (f *Faults) hook(op *simos.Op) {
	if f.Obs != nil {
		f.Obs(op)
	}
	if f.Free || op.Proc == nil || op.Proc == f.h.S.Root {
		return
	}
	f.Ops++
	t := f.h.T
	if op.Kind == "read" && f.Short && op.N > 1 {
		if !f.seeded {
			f.seeded = true
			f.rng.Seed(t.Intn(1 << 16))
		}
		if f.rng.Intn(3) == 0 {
			op.Chunk = 1 + f.rng.Intn(op.N)
			f.h.S.Stats["fault.short-read"]++
		}
	}
	if f.Slow > 0 {
		if !f.seeded {
			f.seeded = true
			f.rng.Seed(t.Intn(1 << 16))
		}
		if f.rng.Intn(4) == 0 {
			op.Delay = f.Slow * time.Duration(1+f.rng.Intn(8)) / 8
		}
	}
	if f.CrashIn > 0 {
		f.CrashIn--
		if f.CrashIn == 0 {
			op.Crash = true
			f.Crashed = true
			if op.Kind == "write" {
				op.Part = drawPart(t, op.N)
				if op.Part == op.N {
					op.Part = -1
				}
			}
			return
		}
	}
	if f.ErrIn > 0 && (f.ErrKinds == nil || f.ErrKinds[op.Kind]) && (f.ErrPath == "" || f.ErrPath == op.Path) && (f.ErrOnly == nil || f.ErrOnly(op.Path)) {
		f.ErrIn--
		if f.ErrIn == 0 {
			op.Err = drawErrno(t, op.Kind)
			if op.Kind == "write" { // a failing read(2) transfers nothing
				op.Part = drawPart(t, op.N)
				if op.Part == op.N && op.N > 0 {
					op.Part = op.N - 1
				}
			}
			if op.Kind == "close" && f.LateLoss && op.N > 0 {
				op.Lose, op.Part = true, t.Intn(op.N)
			}
			f.LastErr, f.Errs = op, append(f.Errs, op)
			f.Injected++
			if f.ErrN > 1 {
				f.ErrN--
				f.ErrIn = 1
			}
		}
	}
}

// drawPart picks how many of n bytes got through: often none or all.
func drawPart(t *rt.Tape, n int) int {
	switch t.Pick(3, 3, 2, 2) {
	case 0:
		return 0
	case 1:
		return t.Intn(n + 1)
	case 2:
		return n
	default:
		if n > 4 {
			return n - 1 - t.Intn(4)
		}
		return n / 2
	}
}

// Clear disarms all faults.
func (f *Faults) Clear() {
	f.ErrOnly, f.Errs = nil, nil
	f.CrashIn, f.ErrIn, f.ErrN, f.ErrKinds, f.ErrPath, f.LastErr, f.Crashed, f.Injected = 0, 0, 0, nil, "", nil, false, 0
}

// Pos draws a fault position: mostly within the first few operations.
func (h *H) Pos() int {
	return 1 + h.T.Intn([]int{3, 8, 24, 80, 400}[h.T.Pick(4, 5, 4, 2, 1)])
}

// More decides whether to generate another of at most max operations.
func (h *H) More(i, max int) bool {
	if i >= max || h.Failed() {
		return false
	}
	return h.T.Intn(max+2) != 0
}

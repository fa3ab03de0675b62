package main

import (
	"context"
	"fmt"
	"os"
	"sort"
	"strings"
	"syscall"
	"time"

	"recengine/internal/api/shard"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simcontext"
	"recengine/internal/zzsim/simhttp"
	"recengine/internal/zzsim/simnet"
	"recengine/internal/zzsim/simos"
	"recengine/internal/zzsim/simsignal"
)

func init() {
	register(&Prop{ID: "C25", Run: runC25, Quick: 24000, Thorough: 700000,
		Rule:   "one process that works through three stretches of the same kind of work: registry changes with I/O errors, invalid, broken and given-up requests; namespaces that fail to start, start, serve and stop; storages opened, failing to open, recovered and closed; or the application run, failing to listen and shut down; after each stretch everything rests for ten minutes and what is left is counted; non-trivial: something failed",
		States: "(kind of work, units of work, failures, what is left)",
		Real:   []string{"main's parts: internal/api/shard, internal/domain, internal/infra/delta, internal/infra/index", "gin router (not instrumented)"},
		Stub:   []string{"goroutine scheduler (every goroutine of the code is a known task)", "file system (every open file is known)", "network, net/http server, signals, clock", "LikeStorageFactory (the repository has none)"},
		Assume: []string{"growth is three or more goroutines, open files or stray files, gained in both of the later stretches: less may be something made once, late", "errors in closing a storage that is used without a namespace are not injected: a delta storage whose close failed stays open to be closed again"}})
}

// residue is what a process at rest holds.
type residue struct {
	handles []string
	tasks   []string
	files   []string
}

func (h *H) residue(p *rt.Proc) residue {
	r := residue{handles: h.FS.OpenHandles(p)}
	for _, f := range h.FS.List() {
		switch strings.TrimPrefix(f, "/work/") {
		case "a.delta", "b.delta", "a.index", "b.index", "namespaces.json", ".env", "ns.delta", "ns.index", "ns.recdb", "/cwd/.env":
		default:
			r.files = append(r.files, f)
		}
	}
	for _, t := range p.Live() {
		if t.Name == "go" || strings.HasPrefix(t.Name, "http ") {
			r.tasks = append(r.tasks, fmt.Sprintf("%s#%d:%s", t.Name, t.ID, t.Blocked()))
		}
	}
	sort.Strings(r.tasks)
	return r
}

// leakWork is a kind of work and the process that does it.
type leakWork struct {
	p      *rt.Proc
	unit   func()      // some work
	settle func()      // brings it to an end
	max    int         // units per stretch
	failed func() int  // how much of the work failed
	ready  func() bool // false: nothing can be said
}

func runC25(h *H) {
	t := h.T
	kind := t.Pick(4, 4, 3, 2)
	var k *leakWork
	switch kind {
	case 0:
		k = h.serviceWork()
	case 1:
		k = h.namespaceWork()
	case 2:
		k = h.storageWork()
	case 3:
		k = h.appWork()
	}
	if k == nil || h.Failed() {
		return
	}
	units := 3 + t.Intn(k.max-2)
	var base, mid, now residue
	for s := 0; s < 3; s++ {
		for u := 0; u < units; u++ {
			t.Begin()
			k.unit()
			h.F.Clear()
			t.End()
			if h.Failed() {
				return
			}
		}
		h.F.Clear()
		h.F.Slow = 0
		if k.settle != nil {
			k.settle()
		}
		rt.Sleep(10 * time.Minute)
		if h.Failed() {
			return
		}
		if k.p.Dead {
			h.Fail("died", "the process died: %v", k.p.Data["fatal"])
			return
		}
		now = h.residue(k.p)
		switch s {
		case 0:
			base = now
		case 1:
			mid = now
		}
		h.Note("residue", s, len(now.handles), len(now.tasks), len(now.files))
	}
	for _, c := range []struct {
		what         string
		was, mid, is []string
	}{{"open files", base.handles, mid.handles, now.handles}, {"goroutines", base.tasks, mid.tasks, now.tasks}, {"stray files", base.files, mid.files, now.files}} {
		if len(c.is)-len(c.was) >= 3 && len(c.mid) > len(c.was) && len(c.is) > len(c.mid) {
			show := c.is
			if len(show) > 12 {
				show = show[:12]
			}
			h.Fail("growth", "at rest after %d units of work the process had %d %s, after %d it has %d: %v", units, len(c.was), c.what, 3*units, len(c.is), show)
			return
		}
	}
	f := k.failed()
	h.nontrivial = f > 0
	h.Key("C25", kind, units, f, len(now.handles), len(now.tasks), len(now.files))
	h.sample = fmt.Sprintf("%s, %d units, %d failures, left %v %v %v", []string{"service", "namespaces", "storages", "application"}[kind], 3*units, f, now.handles, now.tasks, now.files)
}

// serviceWork is registry changes over HTTP and directly.
func (h *H) serviceWork() *leakWork {
	t := h.T
	w := newRegWorld(h)
	h.schedule(true)
	if !w.boot(false) {
		if !h.Failed() {
			h.Fail("start", "the service does not start: %v", w.p.Data["fatal"])
		}
		return nil
	}
	w.netLat = []int{0, 5, 40}[t.Intn(3)]
	w.invalid = t.Intn(2) == 1
	w.lose = []int{0, 0, 40}[t.Intn(3)]
	errs := t.Intn(2) == 1
	broken := t.Intn(3) == 1
	h.slowDisk()
	slow := h.F.Slow
	fails := 0
	k := &leakWork{p: w.p, max: 8, failed: func() int { return fails }}
	k.unit = func() {
		w.ops = nil
		h.F.Slow = slow
		if errs && t.Intn(3) != 0 {
			h.F.ErrIn = 1 + t.Intn(6)
			h.F.ErrN = []int{1, 3, 1000}[t.Intn(3)]
			h.F.ErrKinds = map[string]bool{"write": true, "open": true, "create": true, "close": true, "rename": true, "sync": true, "truncate": true}
		}
		w.concurrent(1+t.Intn(3), 1+t.Intn(2), t.Intn(2) == 1)
		for n := 0; broken && n < 1+t.Intn(2) && !h.Failed(); n++ {
			body := `{"name":"abc","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`
			up := simhttp.Upload{Cut: t.Intn(3) != 0, CutAt: t.Intn(len(body)), Piece: t.Intn(20), Gap: time.Duration(t.Intn(3)) * 40 * time.Millisecond}
			patience := w.patient
			if t.Intn(3) == 1 { // the client gives up in the middle
				patience = time.Duration(1+t.Intn(50)) * time.Millisecond
			}
			h.S.Call(w.client, "broken", func() {
				resp, err := simhttp.Do(w.addr, "POST", "/api/v1/namespaces", []byte(body), 0, false, false, patience, up)
				if err != nil || resp.Status >= 400 {
					fails++
				}
			})
		}
		for _, o := range w.ops {
			if !o.ok {
				fails++
			}
		}
	}
	k.settle = func() {
		w.ops = nil
		rt.Sleep(time.Minute)
		for _, n := range w.names {
			o := &regOp{kind: opDelete, name: n, service: true}
			w.issueFromDriver(o)
		}
	}
	return k
}

// namespaceWork is namespaces that come and go.
func (h *H) namespaceWork() *leakWork {
	t := h.T
	w := newNSWorld(h, "C25")
	h.schedule(true)
	w.real = t.Intn(3) == 1
	w.delayMax = []time.Duration{0, 0, 60 * time.Millisecond}[t.Intn(3)]
	w.failPct = []int{0, 30}[t.Intn(2)]
	w.errPct = []int{0, 0, 20}[t.Intn(3)]
	w.p = h.Boot("shard")
	var root context.Context
	h.Call(w.p, "root", func() { root, _ = simcontext.WithCancel(context.Background()) })
	faulty, own := t.Intn(2) == 1, t.Intn(3)
	fails := 0
	k := &leakWork{p: w.p, max: 7, failed: func() int { return fails }}
	k.unit = func() {
		w.stopCall = false
		ctx, cancel := root, func() {}
		if own == 1 || own == 2 && t.Intn(2) == 1 {
			h.Call(w.p, "ctx", func() { ctx, cancel = wrapCancel(root) })
		}
		if faulty {
			switch t.Pick(2, 3, 2, 1) {
			case 1:
				h.F.ErrIn = h.Pos()
			case 2:
				w.failStart = true
			case 3:
				w.failStart = true
				h.F.ErrIn = h.Pos()
			}
			h.F.ErrN = []int{1, 1, 3, 1000}[t.Intn(4)]
		}
		var err error
		h.Call(w.p, "start", func() {
			w.ns = w.create()
			err = w.ns.Start(ctx)
		})
		h.F.Clear()
		w.failStart = false
		if err != nil {
			fails++
			if t.Intn(2) == 1 {
				h.Call(w.p, "start", func() { err = w.ns.Start(ctx) })
			}
			if err != nil {
				cancel()
				return
			}
		}
		ns := w.ns
		var ts []*rt.Task
		for c := t.Intn(5); c > 0; c-- {
			per, kind := 1+t.Intn(3), t.Intn(numKinds)
			pause := time.Duration(t.Intn(4)) * 25 * time.Millisecond
			ts = append(ts, h.S.GoProc(w.p, "client", func() {
				for j := 0; j < per; j++ {
					r := w.request((kind + j) % numKinds)
					if r.err != nil {
						fails++
					}
					rt.Sleep(pause)
				}
			}))
		}
		rt.Sleep(time.Duration(t.Intn(200)) * time.Millisecond)
		if faulty && t.Intn(3) == 1 { // the storages do not close well
			h.F.ErrIn = 1 + t.Intn(6)
			h.F.ErrN = []int{1, 2, 1000}[t.Intn(3)]
			h.F.ErrKinds = map[string]bool{"write": true, "seek": true, "close": true, "sync": true, "truncate": true}
			fails++
		}
		h.Call(w.p, "stopper", func() {
			w.stopCall = true
			if ctx != root && t.Intn(2) == 1 {
				cancel()
				if t.Intn(2) == 1 {
					ns.Stop()
				}
				return
			}
			ns.Stop()
		})
		w.wait(time.Minute, func() bool { return w.terminated() && allDone(ts) })
		h.F.Clear()
		if t.Intn(3) == 1 { // requests to a stopped namespace
			w.wait(time.Minute, func() bool { return allDone(ts) })
			late := h.S.GoProc(w.p, "late", func() { w.request(t.Intn(numKinds)) })
			w.wait(time.Minute, late.Done)
		}
	}
	return k
}

func wrapCancel(root context.Context) (context.Context, func()) {
	c, f := simcontext.WithCancel(root)
	return c, f
}

// storageWork is storages opened and closed.
func (h *H) storageWork() *leakWork {
	t := h.T
	h.FS.Mkdir("/work")
	h.schedule(false)
	p := h.Boot("shard")
	df, xf := delta.NewStorageFactory(), index.NewStorageFactory()
	fails := 0
	k := &leakWork{p: p, max: 12, failed: func() int { return fails }}
	k.unit = func() {
		isIndex := t.Intn(2) == 1
		path := []string{"/work/a.", "/work/b."}[t.Intn(2)] + map[bool]string{true: "index", false: "delta"}[isIndex]
		switch t.Pick(4, 1, 1) {
		case 1: // damage
			if b, ok := h.FS.Peek(path); ok && len(b) > 0 {
				b = append([]byte(nil), b...)
				b[t.Intn(len(b))] ^= byte(1 + t.Intn(255))
				h.FS.Put(path, b[:len(b)-t.Intn(2)*t.Intn(len(b))])
				h.Stat("fault.damage")
			}
		case 2:
			h.FS.Delete(path)
		}
		if t.Intn(3) != 0 {
			h.F.ErrIn = h.Pos()
		}
		how, n := t.Intn(3), t.Intn(30)
		h.Call(p, "storage", func() {
			if isIndex {
				st, err := openIndex(xf, path, how)
				h.F.Clear()
				if err != nil {
					fails++
					return
				}
				for i := 0; i < n; i++ {
					st.Put(uint64(1+i), uint64(i))
				}
				st.Close()
				return
			}
			f, err := simos.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
			if err != nil {
				fails++
				return
			}
			var st domain.DeltaStorage
			switch how {
			case 0:
				st, err = df.Open(f)
			case 1:
				st, err = df.OpenMaybeRecover(f)
			default:
				if err = df.Recover(f); err == nil {
					st, err = df.Open(f)
				}
			}
			h.F.Clear()
			if err != nil {
				fails++
				f.Close() // the caller's, if the storage does not take it
				return
			}
			for i := 0; i < n; i++ {
				st.Add(domain.DeltaOpAdd, uint64(i%3), uint64(i))
			}
			st.Close()
		})
	}
	return k
}

func openIndex(xf domain.IndexStorageFactory, path string, how int) (domain.IndexStorage, error) {
	if how == 0 {
		f, err := simos.OpenFile(path, os.O_RDWR|os.O_CREATE, 0644)
		if err != nil {
			return nil, err
		}
		st, err := xf.Open(f, f)
		if err != nil {
			f.Close()
		}
		return st, err
	}
	return xf.OpenFile(path)
}

// appWork is the application run again and again.
func (h *H) appWork() *leakWork {
	t := h.T
	w := newRegWorld(h)
	h.schedule(true)
	p := h.Boot("shard")
	w.p = p
	h.Call(p, "service", func() {
		ctx, _ := simcontext.WithCancel(context.Background())
		w.svc = domain.NewNamespaceService(ctx, delta.NewStorageFactory(), index.NewStorageFactory())
	})
	fails := 0
	k := &leakWork{p: p, max: 5, failed: func() int { return fails }}
	k.unit = func() {
		var err error
		refuse := t.Intn(3) == 1
		simnet.Cur.ListenErr = nil
		if refuse {
			simnet.Cur.ListenErr = func(*rt.Proc, string) error { return syscall.EADDRINUSE }
		}
		run := h.S.GoProc(p, "main", func() {
			err = shard.NewApplication(&shard.ApplicationDto{Config: shard.NewConfigFromEnv(nil), NsService: w.svc}).Run()
		})
		if h.wait(time.Minute, func() bool { return run.Done() || w.serving() }); run.Done() || p.Dead {
			fails++
			return
		}
		w.ops = nil
		slow := []time.Duration{0, time.Second, 9 * time.Second}[t.Intn(3)]
		h.F.Obs = func(op *simos.Op) {
			if op.Proc == p && op.Kind == "create" && slow > 0 {
				op.Delay = slow
				h.Stat("fault.slow-disk")
			}
		}
		var ts []*rt.Task
		for n := t.Intn(4); n > 0; n-- {
			o := &regOp{kind: opUpdate, name: "abc", to: "abc", val: w.drawVal()}
			if n%2 == 1 {
				o.kind = opCreate
			}
			ts = append(ts, h.S.GoProc(w.client, "client", func() { w.do(o) }))
		}
		broke := t.Intn(4) == 1
		rt.Sleep(time.Duration(t.Intn(3000)) * time.Millisecond)
		if l := simnet.Cur.Bound[simnet.Canon(w.addr)]; broke && l != nil && !run.Done() {
			l.Close()
			h.Stat("fault.listener-broken")
		}
		for n := 0; n < 60 && !run.Done() && !p.Dead; n++ {
			if simsignal.Caught(p, syscall.SIGTERM) {
				h.Stat("signal.terminated")
				simsignal.Deliver(p, syscall.SIGTERM)
			}
			h.wait(time.Second, run.Done)
		}
		if err != nil {
			fails++
		}
		h.wait(time.Minute, func() bool { return allDone(ts) })
		h.F.Obs = nil
	}
	return k
}

package main

import (
	"context"
	"fmt"
	"sort"
	"time"

	"recengine/internal/domain"
	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simcontext"
	"recengine/internal/zzsim/simos"
)

func init() {
	register(&Prop{ID: "C15", Run: runC15, Quick: 40000, Thorough: 1500000,
		Rule:   "up to 12 incarnations of one namespace: start (with a crash point, I/O errors, a failing like storage or none), batches that add, flush and index, stop or crash anywhere; non-trivial: at least one crash or I/O error and a start after it",
		States: "(incarnations, crashes, errors, acknowledged operations, index entries)",
		Real:   []string{"internal/domain like namespace and its worker", "internal/infra/delta storage and recovery", "internal/infra/index storage"},
		Stub:   []string{"goroutine scheduler", "clock", "file system (in memory: crash points, errors, partial writes)", "LikeStorageFactory (the repository has none)", "process"},
		Assume: []string{"process crashes only: data handed to the file system survives"}})
}

func runC15(h *H) {
	t := h.T
	w := newNSWorld(h, "C15")
	h.S.Cfg.Gap = schedGaps[t.Pick(4, 2, 2, 2, 1)]
	h.F.Short = t.Intn(4) == 1
	w.flushPct = []int{30, 0, 100}[t.Intn(3)]
	w.bulkPct = []int{0, 40}[t.Intn(2)]

	added := map[pair]domain.DeltaOp{}
	acked := map[pair]bool{}
	session := []pair{} // added in this session
	running := false    // the start of this session succeeded
	w.onAdd = func(u, i uint64, op domain.DeltaOp) {
		added[pair{u, i}] = op
		session = append(session, pair{u, i})
	}
	w.onFlush = func() {
		for _, k := range session {
			acked[k] = true
		}
	}
	cur := imap{}       // the index of this session
	legal := []imap{{}} // whole sessions a start may find
	exact := true       // it was closed cleanly: exactly legal[0]
	everPut := map[uint64]bool{}
	w.onPut = func(id, v uint64) { cur[id] = v; everPut[id] = true }
	w.onIndexClose = func(ended bool, err error) {
		if !running {
			return
		}
		if !ended {
			legal, exact = append(legal, cur.clone()), false
		} else if err == nil {
			legal, exact = []imap{cur.clone()}, true
		}
	}
	crashes, errs, starts, resets := 0, 0, 0, 0
	for i := 0; h.More(i, 12); i++ {
		t.Begin()
		w.p = h.Boot("shard")
		var ctx context.Context
		h.F.Clear()
		kind := t.Pick(3, 3, 3, 1)
		if i > 0 && i%4 == 0 {
			kind = 0
		}
		switch kind {
		case 1:
			h.F.CrashIn = h.Pos()
		case 2:
			h.F.ErrIn = h.Pos()
		case 3:
			w.failStart = true
			if t.Intn(2) == 1 {
				h.F.ErrIn = h.Pos()
			}
		}
		if h.F.ErrIn > 0 {
			h.F.ErrN = []int{1, 1, 2, 4, 1000}[t.Intn(5)]
		}
		var err error
		start := func() bool {
			return h.Call(w.p, "start", func() {
				if ctx == nil {
					ctx, _ = simcontext.WithCancel(context.Background())
				}
				if w.ns == nil || t.Intn(2) == 1 {
					w.ns = w.create()
				}
				err = w.ns.Start(ctx)
			})
		}
		w.ns, running, session = nil, false, nil
		before := legal
		ok := start()
		for try := 0; ok && err != nil && !h.Failed(); try++ {
			inj, failed := h.F.Injected, h.F.Errs
			if kind == 3 {
				inj++
			}
			errs += inj
			h.F.Clear()
			w.failStart = false
			h.Note("start failed", err, inj)
			if try > 0 || inj == 0 {
				h.Fail("start", "the namespace does not start although I/O works: %v", err)
				return
			}
			for _, n := range h.FS.OpenHandles(w.p) {
				h.Fail("handle", "%s is still open after a failed start (%v)", n, err)
				return
			}
			// The index is as it was, unless changing it was what failed: it
			// may be left locked then.
			if lockFailed(failed) {
				exact = false
			}
			if t.Intn(2) == 1 {
				break
			}
			ok = start()
		}
		if h.Failed() {
			return
		}
		if !ok || err != nil {
			if !ok {
				crashes++
				exact = false
				h.Note("crashed while starting")
			} else {
				h.Retire(w.p)
			}
			h.F.Clear()
			w.failStart = false
			t.End()
			continue
		}
		if kind >= 2 {
			errs += h.F.Injected
			if lockFailed(h.F.Errs) {
				exact = false
			}
			h.F.Clear() // the errors are about starting
		}
		starts++
		// What the start found.
		got, gotIx := map[pair]string{}, imap{}
		ids := map[uint64]bool{0: true, 1: true}
		for id := range everPut {
			ids[id] = true
		}
		alive := h.Call(w.p, "read", func() {
			for _, k := range sortedPairs(added) {
				op, ok := w.delta.Get(k.u, k.i)
				if ok {
					got[k] = string([]byte{byte(op)})
				}
			}
			for _, id := range sortedIDs(ids) {
				if v, ok := w.index.Get(id); ok {
					gotIx[id] = v
				}
			}
		})
		if !alive {
			h.Fail("died", "the process died while reading from memory")
			return
		}
		for _, k := range sortedPairs(added) {
			g, have := got[k]
			if acked[k] && !have {
				h.Fail("delta", "start %d: the flushed operation %q on %v is gone", starts, added[k], k)
				return
			}
			if have && g != string([]byte{byte(added[k])}) {
				h.Fail("delta", "start %d: %v has operation %q instead of %q", starts, k, g, added[k])
				return
			}
			if !have {
				delete(added, k)
			} else {
				acked[k] = true // it has been shown
			}
		}
		match, why := false, ""
		for _, l := range before {
			if d := gotIx.diff(l); d == "" {
				match = true
			} else {
				why = d
			}
		}
		if !match && !exact && len(gotIx) == 0 {
			match = true
			resets++
		}
		if !match {
			h.Fail("index", "start %d: the index has contents of no session closed properly (%d entries, %d candidates, cleanly closed: %v): %s", starts, len(gotIx), len(before), exact, why)
			return
		}
		cur = gotIx.clone()
		legal, exact, running = []imap{cur.clone()}, false, true
		// Work.
		died := false
		var cl []*rt.Task
		for k := t.Intn(5); k > 0 && w.p != nil && !w.p.Dead; k-- {
			kind := t.Intn(numKinds)
			if t.Intn(2) == 1 {
				kind = kLike
			}
			cl = append(cl, h.S.GoProc(w.p, "client", func() { w.request(kind) }))
			if t.Intn(3) == 1 {
				rt.Sleep(time.Duration(1+t.Intn(3)) * 40 * time.Millisecond)
			}
		}
		if t.Intn(4) != 1 {
			h.wait(time.Minute, func() bool { return w.p.Dead || allDone(cl) })
		}
		if !w.p.Dead {
			switch t.Pick(4, 2) {
			case 0:
				if kind != 1 && t.Intn(3) == 1 {
					h.F.CrashIn = h.Pos()
				}
				h.S.GoProc(w.p, "stopper", func() { w.ns.Stop() })
				h.wait(time.Minute, func() bool { return w.p.Dead || w.terminated() })
				if !w.p.Dead && !w.terminated() {
					h.Fail("stop", "the namespace does not terminate: %s", h.S.BlockedReport())
					return
				}
			case 1:
				h.Kill(w.p)
				died = true
			}
		}
		died = died || h.F.Crashed
		h.F.Clear()
		if died {
			crashes++
		}
		h.Retire(w.p)
		h.Key("C15", i, crashes, errs, len(acked), len(cur))
		t.End()
	}
	h.nontrivial = crashes+errs > 0 && starts > 0
	h.sample = fmt.Sprintf("%d starts, %d crashes, %d I/O errors, %d index resets, %d flushed operations, %d index entries", starts, crashes, errs, resets, len(acked), len(cur))
}

func sortedPairs(m map[pair]domain.DeltaOp) []pair {
	r := make([]pair, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(a, b int) bool { return r[a].u < r[b].u || r[a].u == r[b].u && r[a].i < r[b].i })
	return r
}

func sortedIDs(m map[uint64]bool) []uint64 {
	r := make([]uint64, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(a, b int) bool { return r[a] < r[b] })
	return r
}

// lockFailed tells whether one of the errors was in changing the index file.
func lockFailed(ops []*simos.Op) bool {
	for _, op := range ops {
		if op.Path == "/work/ns.index" && op.Kind != "read" && op.Kind != "open" {
			return true
		}
	}
	return false
}

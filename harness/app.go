package main

import (
	"encoding/json"
	"fmt"
	"os"
	"syscall"
	"time"

	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simnet"
	"recengine/internal/zzsim/simos"
	"recengine/internal/zzsim/simsignal"
)

func init() {
	register(&Prop{ID: "C19", Run: runC19, Quick: 200000, Thorough: 2000000,
		Rule:   "the application run directly or through main with listen failures, a listener that breaks, a signal at a drawn instant, requests in flight on a slow disk, or nothing at all for minutes; non-trivial: a failure or a signal",
		States: "(scenario, requests in flight, outcome, seconds to return)",
		Real:   []string{"main", "internal/api/shard application and endpoints", "internal/domain namespace service", "gin router (not instrumented)"},
		Stub:   []string{"net/http server (listening, in-flight requests, Shutdown with its polling, Close)", "signals", "clock", "scheduler, channels, context", "file system", "network"},
		Assume: []string{"promptly: within one second of simulated time without stalls", "requests that finish within 100 ms of the grace period's end are not judged"}})
}

const grace = 5 * time.Second

type appReq struct {
	op      *regOp
	sent    time.Duration
	began   bool
	end     time.Duration
	ended   bool
	refused bool
}

func runC19(h *H) {
	t := h.T
	w := newRegWorld(h)
	h.S.Cfg.Gap = schedGaps[t.Pick(2, 3, 3, 2, 1)]
	scenario := t.Pick(2, 2, 2, 12, 1) // listen failure, broken listener, nothing, signal, both
	throughMain := t.Intn(3) == 1
	stalls := h.S.Cfg.Gap > 0 && t.Intn(8) == 1
	if stalls {
		h.S.Cfg.StallPct, h.S.Cfg.StallMax = 5, 200*time.Millisecond
	}
	sig := []syscall.Signal{syscall.SIGINT, syscall.SIGTERM}[t.Intn(2)]
	if scenario == 0 || scenario == 4 {
		if t.Intn(2) == 1 {
			// The port is taken by another process.
			p := h.S.NewProc("other")
			h.S.Call(p, "bind", func() { simnet.Listen("tcp", regAddr) })
			h.Stat("fault.port-taken")
		} else {
			e := []syscall.Errno{syscall.EADDRINUSE, syscall.EACCES, syscall.EADDRNOTAVAIL, syscall.EMFILE}[t.Intn(4)]
			simnet.Cur.ListenErr = func(p *rt.Proc, addr string) error { return e }
		}
	}
	// A slow disk makes creations take time.
	slow := []time.Duration{0, 100 * time.Millisecond, 2 * time.Second, 8 * time.Second}[t.Pick(2, 2, 4, 4)]
	h.F.Obs = func(op *simos.Op) {
		if slow > 0 && op.Proc == w.p && op.Kind == "create" {
			op.Delay = slow * time.Duration(1+t.Intn(16)) / 16
			h.Stat("fault.slow-disk")
		}
	}

	p := h.Boot("shard")
	w.p = p
	var returned bool
	var returnAt time.Duration
	var runErr error
	h.S.GoProc(p, "main", func() {
		err := w.runApp(throughMain)
		if rt.Killed() {
			return
		}
		runErr, returned, returnAt = err, true, h.S.Now()
		h.Note("returned", err)
		// The process ends when main returns.
		h.FS.DropProc(p)
		h.S.Kill(p)
	})
	over := func() bool { return returned || p.Dead }
	// log.Fatal ends the process with an error.
	failedOut := func() (bool, string) {
		if returned {
			if runErr != nil {
				return true, runErr.Error()
			}
			return false, ""
		}
		if f, ok := p.Data["fatal"]; ok {
			return true, fmt.Sprint(f)
		}
		return false, fmt.Sprintf("process ended with status %d %v", p.Exit, p.Data["signalled"])
	}
	var end time.Duration
	p.OnKill = append(p.OnKill, func() { end = h.S.Now() })

	slack := time.Second
	if stalls {
		slack += 20 * time.Second
	}
	outcome := ""
	var reqs []*appReq
	var tasks []*rt.Task
	request := func(at time.Duration, op *regOp) {
		r := &appReq{op: op}
		reqs = append(reqs, r)
		tasks = append(tasks, h.S.GoProc(w.client, "client", func() {
			rt.Sleep(at)
			r.sent, r.began = h.S.Now(), true
			w.do(op)
			r.end, r.ended = h.S.Now(), true
			r.refused = op.err == syscall.ECONNREFUSED
		}))
	}
	serve := func() bool { return h.wait(30*time.Second, func() bool { return over() || w.serving() }) && !over() }
	drawReqs := func(span time.Duration) {
		n := t.Intn(6)
		for k := 0; k < n; k++ {
			op := &regOp{kind: opCreate, name: fmt.Sprintf("n%d", k), val: w.drawVal()}
			if t.Intn(4) == 1 {
				op = &regOp{kind: opList}
			}
			request(time.Duration(t.Intn(1000))*span/1000, op)
		}
	}

	// Signals that have nothing to do with stopping.
	if t.Intn(3) == 1 {
		n, every := 1+t.Intn(5), []time.Duration{time.Millisecond, 40 * time.Millisecond, 700 * time.Millisecond}[t.Intn(3)]
		h.S.GoProc(h.S.Root, "noise", func() {
			for ; n > 0 && !over(); n-- {
				rt.Sleep(every * time.Duration(1+n%3))
				if !over() {
					s := []syscall.Signal{syscall.SIGWINCH, syscall.SIGCHLD, syscall.SIGURG, syscall.SIGUSR1}[n%4]
					h.Note("unrelated signal", s.String())
					h.Stat("signal.unrelated")
					simsignal.Deliver(p, os.Signal(s))
				}
			}
		})
	}

	switch scenario {
	case 0:
		h.wait(slack, over)
		if h.Failed() {
			return
		}
		if !over() {
			h.Fail("listen", "listening failed and the application has not returned %v later: %s", h.S.Now(), h.S.BlockedReport())
			return
		}
		if bad, _ := failedOut(); !bad {
			h.Fail("listen", "listening failed and the application reported success")
			return
		}
		outcome = "refused to start"
	case 1:
		if !serve() {
			h.Fail("start", "the application does not serve")
			return
		}
		drawReqs(2 * time.Second)
		rt.Sleep(time.Duration(t.Intn(3000)) * time.Millisecond)
		if over() {
			_, why := failedOut()
			h.Fail("returned", "the application returned for no reason: %s", why)
			return
		}
		h.Stat("fault.listener-broken")
		at := h.S.Now()
		l := simnet.Cur.Bound[simnet.Canon(regAddr)]
		l.Close()
		h.wait(slack, over)
		if h.Failed() {
			return
		}
		if !over() {
			h.Fail("listen", "the listener broke at %v and the application has not returned by %v: %s", at, h.S.Now(), h.S.BlockedReport())
			return
		}
		if bad, _ := failedOut(); !bad {
			h.Fail("listen", "the listener broke and the application reported success")
			return
		}
		outcome = "listener broke"
	case 2:
		if !serve() {
			h.Fail("start", "the application does not serve")
			return
		}
		drawReqs(time.Minute)
		rt.Sleep(10 * time.Minute)
		if over() {
			_, why := failedOut()
			h.Fail("returned", "the application returned for no reason: %s", why)
			return
		}
		for _, r := range reqs {
			if !r.ended || !r.op.done {
				h.Fail("response", "%v was not answered: %v", r.op, r.op.err)
				return
			}
		}
		outcome = "ran on"
	case 3, 4:
		// Signals count from when they are handled.
		caught := func() bool { return simsignal.Caught(p, sig) }
		if t.Intn(4) != 1 && scenario == 3 {
			if !serve() {
				h.Fail("start", "the application does not serve")
				return
			}
			drawReqs([]time.Duration{3 * time.Second, 50 * time.Millisecond}[t.Intn(2)])
			rt.Sleep(time.Duration(t.Intn([]int{3000, 300}[t.Intn(2)])) * time.Millisecond)
		}
		for k := 0; !caught() && !over() && k < 100000; k++ {
			rt.Gosched()
			if k > 300 {
				rt.Sleep(time.Millisecond)
			}
		}
		if over() && scenario == 4 {
			if bad, _ := failedOut(); !bad {
				h.Fail("listen", "listening failed and the application reported success")
				return
			}
			outcome = "failed before the signal"
			break
		}
		if !caught() {
			h.Fail("signal", "the application serves without handling %v", sig)
			return
		}
		for k := t.Intn(12); k > 0; k-- {
			rt.Gosched() // some statements later
		}
		if over() {
			if scenario == 4 {
				outcome = "failed before the signal"
				break
			}
			_, why := failedOut()
			h.Fail("returned", "the application returned for no reason: %s", why)
			return
		}
		at := h.S.Now()
		h.Note("signal", sig.String())
		h.Stat("signal." + sig.String())
		simsignal.Deliver(p, os.Signal(sig))
		// Requests made later, which must be refused.
		for k := t.Intn(3); k > 0; k-- {
			request(slack+time.Duration(t.Intn(3000))*time.Millisecond, &regOp{kind: opList})
		}
		h.wait(grace+slack, over)
		if h.Failed() {
			return
		}
		if p.Data["signalled"] != nil && scenario == 4 {
			// It was returning already and no longer handled signals.
			outcome = "killed while failing"
			break
		}
		if p.Data["signalled"] != nil {
			h.Fail("signal", "the application was killed by %v although it handles it", sig)
			return
		}
		if !over() {
			h.Fail("shutdown", "%v after the signal at %v the application has not returned: %s", h.S.Now()-at, at, h.S.BlockedReport())
			return
		}
		if !returned {
			returnAt = end
		}
		took := returnAt - at
		bad, why := failedOut()
		if scenario == 4 {
			outcome = "failed with a signal"
			break
		}
		if took > grace+100*time.Millisecond && !stalls {
			h.Fail("shutdown", "the application returned %v after the signal", took)
			return
		}
		h.wait(time.Minute, func() bool { return allDone(tasks) })
		// Every request in flight at the signal that could finish must have its answer.
		inflight, late, close := 0, 0, 0
		for _, r := range reqs {
			if !r.began || r.sent >= at {
				if r.began && r.sent > at+slack && !r.refused && !stalls {
					h.Fail("accept", "a request made %v after the signal was accepted: %v", r.sent-at, r.op)
					return
				}
				if r.began && r.sent >= at && !r.refused {
					close++ // about at the same time: may or may not have been accepted
				}
				continue
			}
			if r.refused {
				if stalls {
					continue
				}
				h.Fail("accept", "a request made %v before the signal was refused", at-r.sent)
				return
			}
			if r.ended && r.end < at {
				if !r.op.done {
					h.Fail("response", "%v was not answered before the signal: %v", r.op, r.op.err)
					return
				}
				continue
			}
			inflight++
			if r.op.done {
				if r.op.kind == opCreate && !r.op.ok {
					h.Fail("response", "%v failed", r.op)
					return
				}
				var v interface{}
				if json.Unmarshal([]byte(r.op.body), &v) != nil {
					h.Fail("response", "%v has the incomplete response %q", r.op, r.op.body)
					return
				}
				if r.end > at+grace-700*time.Millisecond {
					close++ // the server may not have noticed in time
				}
			} else {
				late++
			}
		}
		if late > 0 && !stalls {
			if took < grace-10*time.Millisecond {
				h.Fail("shutdown", "the application returned %v after the signal and cut %d of %d requests in flight", took, late, inflight)
				return
			}
			if !bad {
				h.Fail("shutdown", "the application reported success and cut %d of %d requests in flight", late, inflight)
				return
			}
		}
		if late == 0 && close == 0 && bad && !stalls {
			h.Fail("shutdown", "every request in flight had finished, the application failed: %s", why)
			return
		}
		outcome = fmt.Sprintf("stopped by %v after %v with %d requests in flight, %d cut, failed %v", sig, took.Round(time.Millisecond), inflight, late, bad)
		h.Key("C19", scenario, throughMain, inflight, late, int(took/time.Second), bad)
	}
	if h.Failed() {
		return
	}
	h.Key("C19", scenario, throughMain, len(reqs), slow)
	h.nontrivial = scenario != 2
	h.sample = fmt.Sprintf("scenario %d, through main %v, %d requests, disk %v: %s", scenario, throughMain, len(reqs), slow, outcome)
}

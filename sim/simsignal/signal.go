// Package simsignal delivers simulated signals to simulated processes.
package simsignal

import (
	"context"
	"os"
	"syscall"

	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simcontext"
)

type sub struct {
	c    chan<- os.Signal
	sigs []os.Signal // empty: all
	not  []os.Signal // but these
}

func (b *sub) takes(s os.Signal) bool {
	for _, x := range b.not {
		if x == s {
			return false
		}
	}
	return match(b.sigs, s)
}

type table struct {
	subs    []*sub
	ignored []os.Signal
}

func of(p *rt.Proc) *table {
	t, _ := p.Data["signals"].(*table)
	if t == nil {
		t = &table{}
		p.Data["signals"] = t
	}
	return t
}

// Notify is signal.Notify.
func Notify(c chan<- os.Signal, sigs ...os.Signal) {
	rt.Yield(41)
	if rt.Killed() {
		return
	}
	t := of(rt.CurProc())
	for _, b := range t.subs {
		if b.c == c { // the channel's set grows
			if len(sigs) == 0 || len(b.sigs) == 0 {
				b.sigs, b.not = nil, nil
			} else {
				b.sigs = append(b.sigs[:len(b.sigs):len(b.sigs)], sigs...)
			}
			return
		}
	}
	t.subs = append(t.subs, &sub{c: c, sigs: sigs})
}

// Stop is signal.Stop.
func Stop(c chan<- os.Signal) {
	if rt.Killed() {
		return
	}
	t := of(rt.CurProc())
	var r []*sub
	for _, s := range t.subs {
		if s.c != c {
			r = append(r, s)
		}
	}
	t.subs = r
}

// Reset is signal.Reset.
func Reset(sigs ...os.Signal) {
	t := of(rt.CurProc())
	if len(sigs) == 0 {
		t.subs, t.ignored = nil, nil
		return
	}
	drop := func(l []os.Signal) (r []os.Signal) {
		for _, s := range l {
			if !match(sigs, s) {
				r = append(r, s)
			}
		}
		return r
	}
	t.ignored = drop(t.ignored)
	var subs []*sub
	for _, s := range t.subs {
		if len(s.sigs) == 0 { // every signal but these
			s.not = append(s.not, sigs...)
		} else if s.sigs = drop(s.sigs); len(s.sigs) == 0 {
			continue
		}
		subs = append(subs, s)
	}
	t.subs = subs
}

// Ignored is signal.Ignored.
func Ignored(s os.Signal) bool {
	for _, i := range of(rt.CurProc()).ignored {
		if i == s {
			return true
		}
	}
	return false
}

// Ignore is signal.Ignore.
func Ignore(sigs ...os.Signal) { t := of(rt.CurProc()); t.ignored = append(t.ignored, sigs...) }

// NotifyContext is signal.NotifyContext.
func NotifyContext(parent context.Context, sigs ...os.Signal) (context.Context, context.CancelFunc) {
	c, cancel := simcontext.WithCancel(parent)
	ch := make(chan os.Signal, 1)
	Notify(ch, sigs...)
	rt.Go(func() {
		if rt.Select(false, rt.RecvCase(ch), rt.RecvCase(c.Done())) == 0 {
			cancel()
		}
	})
	return c, func() { cancel(); Stop(ch) }
}

func match(sigs []os.Signal, s os.Signal) bool {
	if len(sigs) == 0 {
		return true
	}
	for _, x := range sigs {
		if x == s {
			return true
		}
	}
	return false
}

// Deliver sends a signal to a process, as kill(2) would. It reports whether
// some channel took it or it killed the process (false: dropped, because a
// channel was not ready).
func Deliver(p *rt.Proc, s os.Signal) bool {
	if p.Dead {
		return false
	}
	t := of(p)
	caught, sent := false, false
	for _, b := range t.subs {
		if b.takes(s) {
			caught = true
			if rt.S.TrySend(b.c, s) {
				sent = true
			}
		}
	}
	if caught {
		return sent
	}
	for _, x := range t.ignored {
		if x == s {
			return true
		}
	}
	if s == syscall.SIGINT || s == syscall.SIGTERM || s == syscall.SIGKILL || s == syscall.SIGHUP {
		rt.S.Ev("killed by signal", s.String())
		p.Data["signalled"] = s.String()
		rt.S.Kill(p)
		return true
	}
	return false
}

// Caught reports whether the process handles the signal now.
func Caught(p *rt.Proc, s os.Signal) bool {
	for _, b := range of(p).subs {
		if b.takes(s) {
			return true
		}
	}
	return false
}

package main

import (
	"errors"
	"fmt"
	"io"
	"os"
	"path"
	"reflect"
	"sort"
	"strings"
	"time"
	"unsafe"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simos"
)

func init() {
	register(&Prop{ID: "C26", Run: runC26, Quick: 100000, Thorough: 2000000,
		Rule:   "a service with 1 to 4 registered namespaces that is started, with or without one that fails to start; clients of every namespace and one or two clients that create, update, rename and delete namespaces over HTTP and through the service, with I/O errors in saving the registry; ended by its context, a crash or the deletion of everything, and started again up to twice; non-trivial: a change that succeeded and one namespace that served a request afterwards",
		States: "(namespaces, deleted, refused, crashed, lives)",
		Real:   []string{"internal/domain namespace service and like namespaces", "internal/infra/delta, index", "internal/api/shard application and endpoints", "gin router (not instrumented)"},
		Stub:   []string{"goroutine scheduler", "channels, select, sync, context", "clock and timers", "file system (in memory)", "network and net/http server", "LikeStorageFactory (the repository has none): a reference like storage, put into the namespaces the service makes"},
		Assume: []string{"a namespace that was created or failed to start in this life of the process is not running and gets no requests", "two clients never change the same names at the same time (C16 covers that)"}})
}

// reach visits every value of the domain that v reaches.
func reach(v reflect.Value, seen map[uintptr]bool, visit func(reflect.Value)) {
	visit(v)
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			reach(v.Elem(), seen, visit)
		}
	case reflect.Ptr:
		if v.IsNil() || seen[v.Pointer()] || !strings.Contains(v.Type().Elem().PkgPath(), "internal/domain") {
			return
		}
		seen[v.Pointer()] = true
		reach(v.Elem(), seen, visit)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			reach(v.Field(i), seen, visit)
		}
	case reflect.Slice, reflect.Array:
		if k := v.Type().Elem().Kind(); k != reflect.Interface && k != reflect.Ptr && k != reflect.Struct {
			return
		}
		for i := 0; i < v.Len(); i++ {
			reach(v.Index(i), seen, visit)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			reach(v.MapIndex(k), seen, visit)
		}
	}
}

// inject gives the like storage factory to every namespace that x reaches.
func inject(x interface{}, fac domain.LikeStorageFactory) int {
	want := reflect.TypeOf((*domain.LikeStorageFactory)(nil)).Elem()
	n := 0
	reach(reflect.ValueOf(x), map[uintptr]bool{}, func(v reflect.Value) {
		if v.Kind() == reflect.Interface && v.Type() == want && v.IsNil() && v.CanAddr() {
			reflect.NewAt(want, unsafe.Pointer(v.UnsafeAddr())).Elem().Set(reflect.ValueOf(fac))
			n++
		}
	})
	return n
}

// running returns the namespaces themselves that x reaches, which may have
// been handed out in a wrapping without their requests.
func running(x interface{}) map[string]likeNS {
	type named interface {
		likeNS
		GetName() valueobjects.NamespaceName
	}
	want := reflect.TypeOf((*named)(nil)).Elem()
	r := map[string]likeNS{}
	reach(reflect.ValueOf(x), map[uintptr]bool{}, func(v reflect.Value) {
		if v.Kind() == reflect.Ptr && !v.IsNil() && v.Type().Implements(want) {
			ns := reflect.NewAt(v.Type().Elem(), unsafe.Pointer(v.Pointer())).Interface().(named)
			r[ns.GetName().Value()] = ns
		}
	})
	return r
}

// svcNS is one namespace from the start of the process to its end.
type svcNS struct {
	*nsWorld
	started string // the name it started with
	now     string
	running bool
	mayStop bool // somebody may have stopped it
	deleted bool
	file    map[pair]domain.DeltaOp // in its delta file
	served  int
	later   int // served after a change succeeded
	fails   bool
}

// svcWorld is a service that runs its namespaces.
type svcWorld struct {
	*regWorld
	all     map[string]*svcNS // by the name of their files
	files   map[string]map[pair]domain.DeltaOp
	lost    map[string]bool // what a file holds is not known exactly
	changes int
	ending  bool // its context may have ended
	cancel  func()
}

func fileNS(f interface{}) string {
	n, ok := f.(interface{ Name() string })
	if !ok {
		return ""
	}
	b := path.Base(n.Name())
	return strings.TrimSuffix(b, path.Ext(b))
}

func (w *svcWorld) of(f interface{}) *nsWorld {
	if ns := w.all[fileNS(f)]; ns != nil {
		return ns.nsWorld
	}
	return nil
}

type svcDelta struct {
	domain.DeltaStorageFactory
	w *svcWorld
}

func (f *svcDelta) Open(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	if ns := f.w.of(file); ns != nil {
		return (&deltaFactory{f.DeltaStorageFactory, ns}).Open(file)
	}
	return f.DeltaStorageFactory.Open(file)
}
func (f *svcDelta) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	if ns := f.w.of(file); ns != nil {
		return (&deltaFactory{f.DeltaStorageFactory, ns}).OpenMaybeRecover(file)
	}
	return f.DeltaStorageFactory.OpenMaybeRecover(file)
}

type svcIndex struct {
	domain.IndexStorageFactory
	w *svcWorld
}

func (f *svcIndex) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	if ns := f.w.of(file); ns != nil {
		return (&indexFactory{f.IndexStorageFactory, ns}).Open(file, closer)
	}
	return f.IndexStorageFactory.Open(file, closer)
}

type svcLike struct{ w *svcWorld }

func (f *svcLike) Recover(domain.RandomAccessFile) error { return nil }
func (f *svcLike) Open(file domain.RandomAccessFile, d domain.DeltaStorage, ix domain.IndexStorage) (domain.LikeStorage, error) {
	ns := f.w.of(file)
	if ns == nil {
		return nil, errors.New("no such namespace")
	}
	return (&likeFactory{ns}).Open(file, d, ix)
}
func (f *svcLike) OpenMaybeRecover(file domain.RandomAccessFile, d domain.DeltaStorage, ix domain.IndexStorage) (domain.LikeStorage, error) {
	return f.Open(file, d, ix)
}

// live starts the service on its registry; false: nothing more to do.
func (w *svcWorld) live() bool {
	h, t := w.h, w.h.T
	w.all = map[string]*svcNS{}
	w.dfac = &svcDelta{delta.NewStorageFactory(), w}
	w.ifac = &svcIndex{index.NewStorageFactory(), w}
	ill := t.Pick(3, 1, 1)
	injected := 0
	w.prepare = func(svc *domain.NamespaceService, cancel func()) {
		w.cancel = cancel
		injected = inject(svc, &svcLike{w})
		have := running(svc)
		var names []string
		for name := range have {
			names = append(names, name)
		}
		sort.Strings(names)
		for _, name := range names {
			n := &svcNS{nsWorld: newNSWorld(h, "C26"), started: name, running: true}
			n.now = n.started
			n.nsWorld.ns = have[name]
			n.flushPct = 20 * t.Intn(3)
			n.file = w.files[n.started]
			if n.file == nil {
				n.file = map[pair]domain.DeltaOp{}
				w.files[n.started] = n.file
			}
			n.onAdd = func(u, i uint64, op domain.DeltaOp) { n.file[pair{u, i}] = op }
			w.all[n.started] = n
		}
		if len(names) > 0 && ill > 0 {
			n := w.all[names[t.Intn(len(names))]]
			n.fails = true
			if ill == 1 {
				n.failStart = true
			} else {
				file := n.started + []string{".delta", ".index", ".recdb"}[t.Intn(3)]
				h.F.ErrOnly = func(p string) bool { return path.Base(p) == file }
				h.F.ErrIn = 1 + t.Intn(4)
				h.F.ErrKinds = map[string]bool{"open": true, "create": true, "read": true, "write": true, "seek": true}
				h.F.ErrN = []int{1, 1, 1000}[t.Intn(3)]
			}
		}
	}
	if !w.boot(false) {
		if !h.Failed() {
			h.Fail("start", "the service does not start: %v", w.p.Data["fatal"])
		}
		return false
	}
	hit := h.F.Injected > 0
	h.F.Clear()
	for _, name := range w.sorted() {
		n := w.all[name]
		n.p = w.p
		if n.fails && ill == 2 && !hit {
			n.fails = false
		}
		if !n.fails {
			continue
		}
		n.running = false
		w.lost[name] = true
		for _, open := range h.FS.OpenHandles(w.p) {
			if b := path.Base(open); strings.TrimSuffix(b, path.Ext(b)) == name && b != "namespaces.json" {
				h.Fail("handle", "%s is still open although namespace %s failed to start", open, name)
				return false
			}
		}
	}
	return injected > 0
}

func (w *svcWorld) sorted() []string {
	var r []string
	for n := range w.all {
		r = append(r, n)
	}
	sort.Strings(r)
	return r
}

// ask makes one request and judges the answer.
func (w *svcWorld) ask(n *svcNS, kind int) {
	h, p := w.h, w.p
	was := n.mayStop
	changes := w.changes
	r := n.request(kind)
	if rt.Killed() || p.Dead {
		return
	}
	if r.wrong != "" {
		h.Fail("answer", "%s: %v was answered with %s", n.now, r, r.wrong)
	}
	if was || n.mayStop {
		return
	}
	if r.err != nil && !sameError(r.err, r.answer) {
		h.Fail("refused", "%s: %v failed although the namespace has been neither deleted nor ended: %v", n.now, r, r.err)
		return
	}
	if d := r.retAt - r.callAt; d > time.Second && n.delayMax == 0 && h.F.Slow == 0 {
		h.Fail("delayed", "%s: %v took %v", n.now, r, d)
	}
	n.served++
	if changes > 0 {
		n.later++
	}
}

// admin changes the names it is given.
func (w *svcWorld) admin(names []string, ops []*regOp, pauses []time.Duration, errs []int) {
	h, p := w.h, w.p
	at := map[string]*svcNS{} // running, by present name
	exists := map[string]bool{}
	for _, m := range names {
		if n := w.all[m]; n != nil {
			exists[m] = true
			at[m] = n
		}
	}
	for k, o := range ops {
		rt.Sleep(pauses[k])
		if rt.Killed() || p.Dead {
			return
		}
		n := at[o.name]
		if o.kind == opDelete && n != nil {
			n.mayStop = true
		}
		if errs[k] > 0 {
			h.F.ErrIn = errs[k]
			h.F.ErrOnly = func(p string) bool {
				e := path.Ext(p)
				return e != ".delta" && e != ".index" && e != ".recdb"
			}
			h.F.ErrKinds = map[string]bool{"write": true, "open": true, "create": true, "close": true, "rename": true, "sync": true}
		}
		w.issue(o)
		h.F.Clear()
		if rt.Killed() || p.Dead {
			return
		}
		if !o.done {
			h.Fail("unanswered", "%v was not answered", o)
			return
		}
		if o.ok {
			w.changes++
		}
		switch {
		case o.kind == opDelete && n != nil && !o.ok:
			// It must go on.
			n.mayStop = n.deleted || w.ending
			h.Stat("delete.failed")
			if n.running && !n.mayStop {
				w.ask(n, int(o.call)%numKinds)
			}
		case o.kind == opDelete && o.ok:
			exists[o.name] = false
			delete(at, o.name)
			if n != nil {
				n.deleted = true
				h.Stat("delete.running")
				w.ended(n, "its deletion was acknowledged")
			}
		case o.kind == opCreate && o.ok:
			exists[o.name] = true
		case o.kind == opUpdate && o.ok && o.to != o.name:
			exists[o.name], exists[o.to] = false, true
			delete(at, o.name)
			if n != nil {
				at[o.to], n.now = n, o.to
				h.Stat("renamed.running")
				if got := running(w.svc)[o.to]; got != nil {
					n.nsWorld.ns = got
				}
			}
		case o.kind == opUpdate && !o.ok && n != nil && n.running && !n.mayStop:
			w.ask(n, int(o.call)%numKinds)
		}
		if h.Failed() {
			return
		}
	}
}

// ended waits until the namespace has terminated.
func (w *svcWorld) ended(n *svcNS, why string) {
	h := w.h
	limit := 10*time.Second + 2*n.delayMax
	from := h.S.Now()
	for !n.terminated() && h.S.Now()-from < limit && !rt.Killed() && !w.p.Dead {
		rt.Sleep(20 * time.Millisecond)
	}
	if rt.Killed() || w.p.Dead {
		return
	}
	if !n.terminated() {
		h.Fail("not-stopped", "namespace %s has not closed its storages %v after %s", n.now, limit, why)
	}
}

// readBack compares the delta files that were closed with what was put there.
func (w *svcWorld) readBack() {
	h := w.h
	p := h.Boot("reader")
	h.Call(p, "read", func() {
		for _, name := range w.sorted() {
			n := w.all[name]
			if !n.running || w.lost[name] {
				continue
			}
			f, err := simos.OpenFile("/work/"+name+".delta", os.O_RDWR, 0644)
			if err != nil {
				h.Fail("data", "the delta file of namespace %s is not there: %v", name, err)
				return
			}
			st, err := delta.NewStorageFactory().Open(f)
			if err != nil {
				h.Fail("data", "the delta file of namespace %s is not cleanly closed: %v", name, err)
				return
			}
			want, have := map[uint64]bool{}, st.GetUserCount()
			for pr, op := range n.file {
				want[pr.u] = true
				got, ok := st.Get(pr.u, pr.i)
				if !ok || got != op {
					h.Fail("data", "pair (%d,%d) of namespace %s is %s in its file, should be %c", pr.u, pr.i, name, opStr(got, ok), op)
					return
				}
			}
			if have != len(want) {
				h.Fail("data", "the delta file of namespace %s has %d users, its requests had %d", name, have, len(want))
				return
			}
			st.Close()
		}
	})
	h.Retire(p)
}

func runC26(h *H) {
	t := h.T
	h.schedule(false)
	w := &svcWorld{regWorld: newRegWorld(h), files: map[string]map[pair]domain.DeltaOp{}, lost: map[string]bool{}}
	w.names = []string{"abc", "b2", "zz", "x9"}[:1+t.Intn(4)]
	w.netLat = []int{0, 5, 40}[t.Intn(3)]
	// A first life registers the namespaces.
	if !w.boot(false) {
		if !h.Failed() {
			h.Fail("start", "the service does not start: %v", w.p.Data["fatal"])
		}
		return
	}
	for _, n := range w.names {
		o := &regOp{kind: opCreate, name: n, to: n, val: w.drawVal(), service: true}
		w.issueFromDriver(o)
		if !o.ok && !h.Failed() {
			h.Fail("create", "%v", o)
		}
	}
	h.Retire(w.p)
	if h.Failed() {
		return
	}
	lives, deleted, failedOps, crashes, good := 0, 0, 0, 0, 0
	for lives < 3 && (lives == 0 || t.Intn(2) == 1) && !h.Failed() {
		lives++
		t.Begin()
		w.ops, w.changes, w.ending = nil, 0, false
		if !w.live() {
			return
		}
		if t.Intn(3) == 1 {
			for _, name := range w.sorted() {
				n := w.all[name]
				n.delayMax = []time.Duration{0, 300 * time.Millisecond, 3 * time.Second}[t.Intn(3)]
				n.failPct = []int{0, 0, 30}[t.Intn(3)]
				n.closeErr = t.Intn(4) == 1
			}
		}
		var tasks []*rt.Task
		done := false
		scale := 1
		if t.Intn(6) == 1 {
			scale = []int{100, 3600, 24 * 3600, 100 * 24 * 3600}[t.Intn(4)] // it lasts
		}
		for _, name := range w.sorted() {
			n := w.all[name]
			if !n.running {
				continue
			}
			for c := 1 + t.Intn(2); c > 0; c-- {
				var rng rt.Rng
				rng.Seed(t.Intn(1 << 16))
				per := 2 + t.Intn(6)
				pause := []int{10, 200, 1000}[t.Intn(3)] * scale
				tasks = append(tasks, h.S.GoProc(w.p, "client", func() {
					for j := 0; j < per && !rt.Killed() && !h.Failed(); j++ {
						w.ask(n, rng.Intn(numKinds))
						rt.Sleep(time.Duration(rng.Intn(pause)) * time.Millisecond)
					}
				}))
			}
		}
		// The names are divided among those who change them.
		admins := 1 + t.Intn(2)
		for a := 0; a < admins; a++ {
			var mine []string
			for k, nm := range w.sorted() {
				if k%admins == a {
					mine = append(mine, nm)
				}
			}
			own := len(mine)
			mine = append(mine, fmt.Sprintf("n%d%d", lives, a), fmt.Sprintf("m%d%d", lives, a))
			var ops []*regOp
			var pauses []time.Duration
			var errs []int
			var gone []string
			last := ""
			for k := t.Intn(7); k > 0; k-- {
				o := &regOp{name: mine[t.Intn(len(mine))], val: w.drawVal()}
				if own > 0 && t.Intn(2) == 1 {
					o.name = mine[t.Intn(own)]
				}
				if last != "" && t.Intn(2) == 1 {
					o.name = last
				}
				o.to = o.name
				o.kind = t.Pick(2, 3, 3)
				o.service = o.kind == opDelete || t.Intn(2) == 1
				if o.kind == opUpdate && t.Intn(2) == 1 {
					o.to = mine[t.Intn(len(mine))]
					if len(gone) > 0 && t.Intn(2) == 1 {
						o.to = gone[t.Intn(len(gone))]
					}
				}
				if o.kind <= opUpdate && t.Intn(5) == 1 {
					o.unset, o.val.Max = 1+t.Intn(2), 0
				}
				if o.kind == opDelete {
					gone = append(gone, o.name)
				} else if o.kind == opUpdate && t.Intn(3) == 1 {
					last = o.to
				}
				e := 0
				if admins == 1 && t.Intn(3) == 1 {
					e = 1 + t.Intn(4)
				}
				ops, errs = append(ops, o), append(errs, e)
				pauses = append(pauses, time.Duration(t.Intn(4)*t.Intn(100)*scale)*time.Millisecond)
			}
			tasks = append(tasks, h.S.GoProc(w.client, "admin", func() { w.admin(mine, ops, pauses, errs) }))
		}
		end := t.Pick(3, 2, 1)
		if end != 0 {
			at := h.instant() * time.Duration((1+t.Intn(6))*scale)
			p := w.p
			h.S.GoProc(h.S.Root, "ender", func() {
				rt.Sleep(at)
				if p.Dead || done {
					return
				}
				if end == 1 {
					w.ending = true
					for _, n := range w.all {
						n.mayStop = true
					}
					h.Stat("cancel")
					h.S.Call(p, "cancel", w.cancel)
					return
				}
				h.S.Stat("fault.crash")
				h.FS.DropProc(p)
				h.S.Kill(p)
			})
		}
		h.wait(1000*time.Duration(scale)*time.Minute, func() bool { return allDone(tasks) || w.p.Dead })
		done = true
		if h.Failed() {
			return
		}
		for _, o := range w.ops {
			failedOps += btoi(!o.ok)
		}
		if w.p.Dead {
			crashes++
			h.F.Clear()
			w.p.Reap()
			// Those who were changing it notice.
			var left []*rt.Task
			for _, task := range tasks {
				if task.Proc == w.client {
					left = append(left, task)
				}
			}
			h.wait(time.Hour, func() bool { return allDone(left) })
			for name := range w.all {
				w.lost[name] = true
			}
			h.Key("C26", len(w.all), lives, "crash")
			t.End()
			continue
		}
		if !allDone(tasks) {
			h.Fail("stuck", "requests or changes do not end: %s", h.S.BlockedReport())
			return
		}
		for _, name := range w.sorted() {
			n := w.all[name]
			good += n.later
			deleted += btoi(n.deleted)
			if n.deleted && n.running || !n.running || n.mayStop {
				continue
			}
			// What was not deleted still serves.
			h.Call(w.p, "last", func() { w.ask(n, t.Intn(numKinds)) })
			if h.Failed() {
				return
			}
		}
		for _, n := range w.all {
			n.mayStop = true
		}
		h.Call(w.p, "cancel", w.cancel)
		for _, name := range w.sorted() {
			if n := w.all[name]; n.running && !h.Failed() {
				n := n
				h.Call(h.S.NewProc("watch"), "watch", func() { w.ended(n, "the end of the context") })
			}
		}
		if h.Failed() {
			return
		}
		h.Retire(w.p)
		w.readBack()
		h.Key("C26", len(w.all), lives, deleted, failedOps)
		t.End()
	}
	h.nontrivial = good > 0
	h.sample = fmt.Sprintf("%d namespaces at first, %d lives, %d deleted, %d changes refused or failed, %d crashes", len(w.names), lives, deleted, failedOps, crashes)
}

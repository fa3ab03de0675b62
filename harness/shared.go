package main

import (
	"context"
	"encoding/binary"
	"fmt"
	"os"
	"time"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simcontext"
	"recengine/internal/zzsim/simos"
)

func init() {
	register(&Prop{ID: "C24", Run: runC24, Quick: 60000, Thorough: 1200000,
		Rule:   "2 to 5 tasks in one process, each with its own delta, index or database file, sharing one delta factory, one index factory and one database protocol, preempted between statements, on a slow disk, some with I/O errors on one of the files, ended by a crash or not; or two to three running namespaces; non-trivial: two tasks that each did something",
		States: "(kinds of storages, operations, crash)",
		Real:   []string{"internal/infra/delta, index, recdb (all)", "internal/helpers", "internal/domain like namespace"},
		Stub:   []string{"goroutine scheduler", "clock", "file system (in memory)", "process", "LikeStorageFactory (the repository has none)"},
		Assume: []string{"one storage is used by one task at a time: each namespace has one worker"}})
}

// shared is what namespaces of one process have in common.
type shared struct {
	h       *H
	p       *rt.Proc
	dfac    domain.DeltaStorageFactory
	ifac    domain.IndexStorageFactory
	proto   recdb.Protocol
	ops     int
	errs    int
	tenants []*tenant
}

// marks tells whether a byte is what follows the data of another tenant's records.
func (s *shared) marks(b byte, but *tenant) bool {
	for _, t := range s.tenants {
		if t != but && t.mark != 0 && t.mark == b {
			return true
		}
	}
	return false
}

func (s *shared) revive() {
	h := s.h
	s.p = h.Boot("shard")
	h.Call(s.p, "init", func() {
		s.dfac, s.ifac = delta.NewStorageFactory(), index.NewStorageFactory()
		s.proto = recdb.NewProtocol(recdb.NewLikeProtocol())
	})
}

// tenant is one storage with its user and its model.
type tenant struct {
	s    *shared
	name string
	kind int
	rng  rt.Rng
	n    int
	bad  string // first discrepancy
	did  int
	// delta
	d     domain.DeltaStorage
	m     map[pair]*hist
	order []pair
	// index
	x     domain.IndexStorage
	im    imap
	legal []imap
	clean bool
	// database
	rs   []*rrec
	img  []byte
	it   recdb.Iterator
	pos  int
	torn int  // record being rewritten, or -1
	mark byte // what follows the data of its records, or 0
}

func (t *tenant) path() string {
	return "/work/" + t.name + []string{".delta", ".index", ".recdb"}[t.kind]
}

func (t *tenant) fail(format string, args ...interface{}) {
	if t.bad == "" && !rt.Killed() {
		t.bad = fmt.Sprintf(format, args...)
		t.s.h.Fail("interference", "%s: %s", t.path(), t.bad)
	}
}

// work is the life of the tenant in one process.
func (t *tenant) work(n int) {
	for k := 0; k < n && t.bad == "" && !rt.Killed(); k++ {
		t.s.ops++
		t.did++
		if t.rng.Intn(10) == 0 {
			t.junk()
			continue
		}
		switch t.kind {
		case 0:
			t.workDelta()
		case 1:
			t.workIndex()
		default:
			t.workDB()
		}
		if t.rng.Intn(4) == 0 {
			rt.Yield(85)
		}
		if t.rng.Intn(12) == 0 {
			rt.Sleep(time.Duration(t.rng.Intn(3000)) * time.Microsecond)
		}
	}
}

// junk opens a file of its own that is locked, damaged or cut short, with what
// all the storages share.
func (t *tenant) junk() {
	var b []byte
	k := 1 + t.rng.Intn(30)
	locked := byte(t.rng.Intn(3) / 2)
	switch t.kind {
	case 0:
		var rs []drec
		for j := 0; j < k; j++ {
			rs = append(rs, drec{'+', uint64(t.rng.Intn(8)), uint64(t.rng.Intn(8))})
		}
		b = encodeDelta(locked, uint32(k+t.rng.Intn(2)*9), rs)
	case 1:
		b = append([]byte("RECIDX"), 1, locked)
		b = binary.BigEndian.AppendUint32(b, uint32(k+t.rng.Intn(2)*9))
		for j := 0; j < k; j++ {
			b = binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint64(b, uint64(t.rng.Intn(40))), 666)
		}
	default:
		b = append([]byte("RECDB"), 1)
		b = append(append(b, "LIKE    "...), locked)
		b = binary.BigEndian.AppendUint32(b, 3)
		for j := 0; j < k; j++ {
			b = append(b, 0, 0, 0, 60, 0, 0, 0, 0, 0, 0, 0, 2, 154, 0, 0, 0, byte(t.rng.Intn(9)))
			b = append(b, make([]byte, 42)...)
		}
	}
	switch t.rng.Intn(3) {
	case 0:
		b = b[:t.rng.Intn(len(b))]
	case 1:
		b[t.rng.Intn(len(b))] ^= byte(1 + t.rng.Intn(255))
	}
	h := t.s.h
	path := t.path() + ".junk"
	h.FS.Put(path, b)
	f, err := simos.OpenFile(path, os.O_RDWR, 0644)
	if rt.Killed() || err != nil {
		return
	}
	h.Stat("junk")
	switch t.kind {
	case 0:
		d, err := t.s.dfac.Open(f)
		if rt.Killed() {
			return
		}
		if err == nil {
			d.Close()
		} else if t.rng.Intn(2) == 1 {
			t.s.dfac.Recover(f)
		}
	case 1:
		if x, err := t.s.ifac.Open(f, f); err == nil && !rt.Killed() {
			x.Close()
		}
	default:
		it, err := recdb.NewIterator(f, t.s.proto)
		for err == nil && !rt.Killed() && it.HasNext() {
			_, err = it.Next()
		}
	}
	if !rt.Killed() {
		f.Close()
	}
}

// ---- delta ----

func (t *tenant) openDelta() {
	f, err := simos.OpenFile(t.path(), os.O_RDWR|os.O_CREATE, 0644)
	if rt.Killed() {
		return
	}
	if err != nil {
		t.fail("open: %v", err)
		return
	}
	d, err := t.s.dfac.OpenMaybeRecover(f)
	if rt.Killed() {
		return
	}
	if err != nil {
		t.fail("opening the delta storage failed: %v", err)
		return
	}
	t.d = d
	// Adopt what a recovery may show.
	for _, pr := range t.order {
		hi := t.m[pr]
		op, ok := d.Get(pr.u, pr.i)
		if rt.Killed() {
			return
		}
		legal := !ok && hi.acked == 0
		if ok {
			from := hi.acked - 1
			if from < 0 {
				from = 0
			}
			for _, o := range hi.ops[from:] {
				legal = legal || o == op
			}
		}
		if !legal {
			t.fail("pair (%d,%d) reads back %s after opening; %s", pr.u, pr.i, opStr(op, ok), hi.describe())
			return
		}
		if ok {
			hi.ops, hi.acked = []domain.DeltaOp{op}, 1
		} else {
			hi.ops, hi.acked = nil, 0
		}
	}
	t.checkUsers()
}

func (t *tenant) checkUsers() {
	us := map[uint64]bool{}
	for pr, hi := range t.m {
		if len(hi.ops) > 0 {
			us[pr.u] = true
		}
	}
	if n := t.d.GetUserCount(); n != len(us) && !rt.Killed() {
		t.fail("%d users are reported, %d were added", n, len(us))
	}
}

func (t *tenant) workDelta() {
	if t.d == nil {
		t.openDelta()
		return
	}
	switch t.rng.Intn(12) {
	case 0, 1, 2, 3, 4, 5:
		pr := pair{uint64(1 + t.rng.Intn(6)), uint64(1 + t.rng.Intn(8))}
		op := []domain.DeltaOp{domain.DeltaOpAdd, domain.DeltaOpRemove}[t.rng.Intn(2)]
		hi := t.m[pr]
		if hi == nil {
			hi = &hist{}
			t.m[pr] = hi
			t.order = append(t.order, pr)
		}
		hi.ops = append(hi.ops, op) // before: a crash may find it or not
		t.d.Add(op, pr.u, pr.i)
	case 6, 7, 8:
		if err := t.d.Flush(); !rt.Killed() {
			t.acked(err, "flush")
		}
	case 9:
		err := t.d.Close()
		if !rt.Killed() {
			t.acked(err, "close")
			t.d = nil
		}
	default:
		for _, pr := range t.order {
			op, ok := t.d.Get(pr.u, pr.i)
			if rt.Killed() {
				return
			}
			hi := t.m[pr]
			want := len(hi.ops) > 0
			if ok != want || ok && op != hi.ops[len(hi.ops)-1] {
				t.fail("pair (%d,%d) reads back %s, %s", pr.u, pr.i, opStr(op, ok), hi.describe())
				return
			}
		}
		t.checkUsers()
	}
}

func (t *tenant) acked(err error, what string) {
	if err != nil {
		t.fail("%s failed: %v", what, err)
		return
	}
	for _, hi := range t.m {
		hi.acked = len(hi.ops)
	}
}

// ---- index ----

func (t *tenant) readIndex() imap {
	got := imap{}
	for id := uint64(0); id < 40; id++ {
		if v, ok := t.x.Get(id); ok {
			got[id] = v
		}
		if rt.Killed() {
			return nil
		}
	}
	return got
}

func (t *tenant) workIndex() {
	if t.x == nil {
		was := t.clean
		t.clean = false // a crash may leave it locked
		x, err := t.s.ifac.OpenFile(t.path())
		if rt.Killed() {
			return
		}
		if err != nil {
			if was {
				t.fail("opening a cleanly closed index failed: %v", err)
				return
			}
			// Not closed cleanly: start over, as a namespace does.
			t.legal = append(t.legal, imap{})
			simos.WriteFile(t.path(), nil, 0644)
			if rt.Killed() {
				return
			}
			t.legal, t.clean = []imap{{}}, true
			return
		}
		t.x = x
		got := t.readIndex()
		if rt.Killed() {
			return
		}
		why := ""
		for _, l := range t.legal {
			if why = got.diff(l); why == "" {
				t.im = l.clone()
				break
			}
		}
		if why != "" {
			t.fail("after opening, %s", why)
			return
		}
		t.legal = []imap{t.im.clone()}
		return
	}
	switch t.rng.Intn(10) {
	case 0, 1, 2, 3:
		id, v := uint64(t.rng.Intn(40)), t.rng.Uint64()>>uint(t.rng.Intn(64))
		if err := t.x.Put(id, v); err != nil {
			t.fail("put failed: %v", err)
		}
		t.im[id] = v
	case 4, 5:
		id := uint64(t.rng.Intn(40))
		if err := t.x.Remove(id); err != nil {
			t.fail("remove failed: %v", err)
		}
		delete(t.im, id)
	case 6, 7:
		if got := t.readIndex(); got != nil {
			if d := got.diff(t.im); d != "" {
				t.fail("%s", d)
			}
		}
	default:
		t.legal = append(t.legal, t.im.clone())
		err := t.x.Close()
		if rt.Killed() {
			return
		}
		if err != nil {
			t.fail("close failed: %v", err)
			return
		}
		t.x, t.clean = nil, true
		t.legal = []imap{t.im.clone()}
	}
}

// ---- database ----

func (t *tenant) buildDB() {
	n := 1 + t.rng.Intn(6)
	for k := 0; k < n; k++ {
		r := &rrec{cap: uint32(21 + t.rng.Intn(120))}
		if t.rng.Intn(8) == 0 {
			r.cap += 4000
		}
		t.fillRec(r)
		t.rs = append(t.rs, r)
	}
	t.img = encodeRecdb(0, t.rs)
}

func (t *tenant) fillRec(r *rrec) {
	room := (int(r.cap) - 21) / 8
	n := t.rng.Intn(room + 1)
	a := t.rng.Intn(n + 1)
	r.likes, r.dis = drawItems(&t.rng, a), drawItems(&t.rng, n-a)
	r.user, r.deleted = t.rng.Uint64(), drawDeleted(&t.rng)
}

func (t *tenant) createDB() {
	t.buildDB()
	f, err := simos.OpenFile(t.path(), os.O_RDWR|os.O_CREATE, 0644)
	if err == nil {
		_, err = t.s.proto.WritePrefix(f)
	}
	if err == nil {
		_, err = t.s.proto.WriteHeader(&recdb.Header{Version: 1, EntryType: [8]byte{'L', 'I', 'K', 'E', ' ', ' ', ' ', ' '}, NumEntries: uint32(len(t.rs))}, f)
	}
	for _, r := range t.rs {
		if err == nil {
			_, err = t.s.proto.WriteEntry(r.entry(), f)
		}
	}
	if rt.Killed() {
		return
	}
	if err != nil {
		t.fail("writing a database failed: %v", err)
		return
	}
	f.Close()
	if rt.Killed() {
		return
	}
	t.clean = true
	t.checkDB("after it was written")
	if t.rng.Intn(3) == 0 { // as another program may leave what follows the data
		t.mark = t.name[1] + 0x80
		for _, r := range t.rs {
			for i := r.off + r.size(); i < r.off+int(r.cap); i++ {
				t.img[i] = t.mark
			}
		}
		t.s.h.FS.Put(t.path(), t.img)
	}
}

// checkDB compares the file with the model, outside a record being rewritten.
func (t *tenant) checkDB(when string) {
	data, _ := t.s.h.FS.Peek(t.path())
	if len(data) != len(t.img) {
		t.fail("%s the file has %d bytes instead of %d", when, len(data), len(t.img))
		return
	}
	for i := range data {
		if data[i] != t.img[i] {
			if t.torn >= 0 {
				if r := t.rs[t.torn]; i >= r.off && i < r.off+int(r.cap) {
					continue
				}
			}
			for _, r := range t.rs { // what follows a record's data is not specified
				if i >= r.off+r.size() && i < r.off+int(r.cap) && !t.s.marks(data[i], t) {
					t.img[i] = data[i]
				}
			}
			if data[i] == t.img[i] {
				continue
			}
			t.fail("%s byte %d is not what was written", when, i)
			return
		}
	}
}

func (t *tenant) workDB() {
	if !t.clean {
		simos.WriteFile(t.path(), nil, 0644)
		t.rs, t.it = nil, nil
		if !rt.Killed() {
			t.createDB()
		}
		return
	}
	if t.it == nil {
		f, err := simos.OpenFile(t.path(), os.O_RDWR, 0644)
		var it recdb.Iterator
		if err == nil {
			it, err = recdb.NewIterator(f, t.s.proto)
		}
		if rt.Killed() {
			return
		}
		if err != nil {
			t.fail("iterating the database failed: %v", err)
			return
		}
		t.it, t.pos = it, 0
		return
	}
	switch t.rng.Intn(10) {
	case 0, 1, 2, 3, 4:
		if t.pos == len(t.rs) {
			if t.it.HasNext() && !rt.Killed() {
				t.fail("there is a record after the last")
			}
			return
		}
		e, err := t.it.Next()
		if rt.Killed() {
			return
		}
		if err != nil {
			t.fail("reading record %d failed: %v", t.pos, err)
			return
		}
		if t.torn != t.pos {
			if d := t.rs[t.pos].differs(e); d != "" {
				t.fail("record %d: %s", t.pos, d)
			}
		}
		t.pos++
	case 5, 6, 7, 8:
		if t.pos == 0 {
			return
		}
		r := t.rs[t.pos-1]
		c := *r
		t.torn = t.pos - 1
		t.fillRec(&c)
		err := t.it.SetPrevious(c.entry())
		if rt.Killed() {
			return
		}
		if err != nil {
			t.fail("rewriting record %d failed: %v", t.pos-1, err)
			return
		}
		*r = c
		copy(t.img[r.off:], r.encode())
		t.torn = -1
		t.checkDB(fmt.Sprintf("after record %d was rewritten", t.pos-1))
	default:
		err := t.it.Rewind()
		if rt.Killed() {
			return
		}
		if err != nil {
			t.fail("rewind failed: %v", err)
			return
		}
		t.pos = 0
	}
}

// settle checks the tenant alone, in a quiet process, after everything else.
func (t *tenant) settle(crashed bool) {
	h := t.s.h
	switch t.kind {
	case 0:
		t.d = nil
		t.openDelta()
		if t.d != nil {
			t.acked(t.d.Close(), "close")
		}
	case 1:
		t.x = nil
		t.workIndex()
		if t.x == nil && t.bad == "" {
			t.workIndex()
		}
		if t.x != nil && t.bad == "" {
			if err := t.x.Close(); err != nil {
				t.fail("close failed: %v", err)
			}
			t.legal, t.clean = []imap{t.im.clone()}, true
			t.x = nil
		}
	default:
		if !t.clean {
			return
		}
		t.checkDB("in the end")
		t.it = nil
		t.workDB()
		for t.bad == "" && t.it != nil && t.pos < len(t.rs) {
			if t.pos == t.torn { // half rewritten: nothing is promised about it
				break
			}
			e, err := t.it.Next()
			if err != nil {
				t.fail("reading record %d in the end failed: %v", t.pos, err)
				break
			}
			if d := t.rs[t.pos].differs(e); d != "" {
				t.fail("record %d in the end: %s", t.pos, d)
			}
			t.pos++
		}
		if t.torn >= 0 { // repair it
			data, _ := h.FS.Peek(t.path())
			r := t.rs[t.torn]
			copy(data[r.off:], r.encode())
			h.FS.Put(t.path(), data)
			t.img = append([]byte(nil), data...)
			t.torn = -1
		}
		t.it = nil
	}
}

func runC24(h *H) {
	t := h.T
	h.FS.Mkdir("/work")
	if t.Intn(4) == 3 {
		c24namespaces(h)
		return
	}
	h.S.Cfg.Gap = schedGaps[t.Pick(1, 4, 4, 3, 2)]
	h.F.Short = t.Intn(4) == 1
	s := &shared{h: h}
	var ts []*tenant
	kinds := ""
	n := 2 + t.Intn(4)
	one := t.Intn(5) // often all of one kind
	for k := 0; k < n; k++ {
		x := &tenant{s: s, name: fmt.Sprintf("t%d", k), kind: t.Intn(3), m: map[pair]*hist{}, im: imap{}, legal: []imap{{}}, torn: -1}
		if one < 3 {
			x.kind = one
		}
		x.clean = x.kind == 1
		x.rng.Seed(t.Intn(1 << 16))
		kinds += fmt.Sprint(x.kind)
		ts = append(ts, x)
		s.tenants = ts
	}
	crashes := 0
	for life := 0; life < 3 && (life == 0 || t.Intn(2) == 1); life++ {
		s.revive()
		if t.Intn(2) == 1 {
			h.F.Slow = []time.Duration{time.Millisecond, 20 * time.Millisecond}[t.Intn(2)]
		}
		crash := t.Intn(3) == 1
		if crash {
			h.F.CrashIn = 1 + t.Intn([]int{20, 100, 400}[t.Intn(3)])
		}
		var tasks []*rt.Task
		for _, x := range ts {
			x := x
			x.d, x.x, x.it = nil, nil, nil
			if x.kind == 2 && x.torn >= 0 {
				x.torn = -1
			}
			work := 1 + t.Intn([]int{6, 20, 60}[t.Intn(3)])
			tasks = append(tasks, h.S.GoProc(s.p, "tenant", func() { x.work(work) }))
		}
		h.wait(time.Hour, func() bool { return allDone(tasks) || s.p.Dead })
		if h.Failed() {
			return
		}
		if !s.p.Dead && !allDone(tasks) {
			h.Fail("stuck", "operations on separate storages do not end: %s", h.S.BlockedReport())
			return
		}
		died := s.p.Dead
		crashes += btoi(died)
		h.F.Clear()
		h.F.Slow = 0
		if died {
			h.FS.DropProc(s.p)
			s.p.Reap()
		} else {
			h.Retire(s.p) // whatever is open is not closed
		}
		// Each of them alone.
		gap := h.S.Cfg.Gap
		h.S.Cfg.Gap = 0
		s.revive()
		for _, x := range ts {
			x := x
			h.Call(s.p, "settle", func() { x.settle(died) })
			if h.Failed() {
				return
			}
		}
		h.Retire(s.p)
		h.S.Cfg.Gap = gap
	}
	busy := 0
	for _, x := range ts {
		busy += btoi(x.did > 1)
	}
	h.nontrivial = busy > 1
	h.Key("C24", kinds, s.ops, crashes)
	h.sample = fmt.Sprintf("storages %s (0 delta, 1 index, 2 database), %d operations, %d crashes", kinds, s.ops, crashes)
}

// c24namespaces runs namespaces that share the factories.
func c24namespaces(h *H) {
	t := h.T
	h.schedule(false)
	p := h.Boot("shard")
	n := 2 + t.Intn(2)
	var ws []*nsWorld
	dfac, ifac := delta.NewStorageFactory(), index.NewStorageFactory()
	type made struct {
		d map[pair]domain.DeltaOp
		x imap
	}
	var ms []*made
	bad := false
	h.Call(p, "start", func() {
		ctx, _ := simcontext.WithCancel(context.Background())
		for k := 0; k < n; k++ {
			w := newNSWorld(h, "C24")
			w.p = p
			w.flushPct = 20 * t.Intn(3)
			m := &made{map[pair]domain.DeltaOp{}, imap{}}
			w.onAdd = func(u, i uint64, op domain.DeltaOp) { m.d[pair{u, i}] = op }
			w.onPut = func(id, v uint64) { m.x[id] = v }
			name, _ := valueobjects.ParseNamespaceName(fmt.Sprintf("ns%d", k))
			ns := domain.NewLikeNamespace(&domain.LikeNamespaceDto{Name: name, MaxSimilarProfiles: 100, DislikeFactor: 1, BasePath: "/work/",
				DeltaStorageFactory: &deltaFactory{dfac, w}, LikeStorageFactory: &likeFactory{w}, IndexStorageFactory: &indexFactory{ifac, w}})
			w.ns = ns
			if err := ns.Start(ctx); err != nil {
				h.Fail("start", "namespace %d does not start: %v", k, err)
				bad = true
				return
			}
			ws, ms = append(ws, w), append(ms, m)
		}
	})
	if bad || h.Failed() || len(ws) < n {
		return
	}
	// The storage of one namespace may be slow or fail; the others are not
	// concerned.
	ill := -1
	if t.Intn(2) == 1 {
		ill = t.Intn(n)
		ws[ill].delayMax = []time.Duration{0, 2 * time.Second, 20 * time.Second}[t.Intn(3)]
		if t.Intn(2) == 1 {
			ws[ill].failPct = 10 + t.Intn(60)
		}
	}
	var cl []*rt.Task
	for k, w := range ws {
		k, w := k, w
		for c := 1 + t.Intn(4); c > 0; c-- {
			var rng rt.Rng
			rng.Seed(t.Intn(1 << 16))
			per := 1 + t.Intn(5)
			cl = append(cl, h.S.GoProc(p, "client", func() {
				for j := 0; j < per; j++ {
					r := w.request(rng.Intn(numKinds))
					if rt.Killed() {
						return
					}
					if r.wrong != "" {
						h.Fail("interference", "%v was answered with %s", r, r.wrong)
					}
					if d := r.retAt - r.callAt; k != ill && d > time.Second {
						h.Fail("interference", "%v took %v although the storage of its namespace is responsive (ill: namespace %d)", r, d, ill)
					}
					if r.err != nil && !w.stopCall && !sameError(r.err, r.answer) {
						h.Fail("interference", "%v failed although nobody stopped its namespace: %v", r, r.err)
					}
					if rng.Intn(3) == 1 {
						rt.Sleep(time.Duration(rng.Intn(100)) * time.Millisecond)
					}
				}
			}))
		}
	}
	// One namespace may be stopped early; the others go on.
	if t.Intn(2) == 1 {
		k, at := t.Intn(n), h.instant()
		cl = append(cl, h.S.GoProc(p, "stopper", func() {
			rt.Sleep(at)
			ws[k].stopCall = true
			h.Stat("stop.one")
			ws[k].ns.Stop()
		}))
	}
	h.wait(time.Hour, func() bool { return allDone(cl) })
	if h.Failed() {
		return
	}
	if !allDone(cl) {
		h.Fail("stuck", "requests to separate namespaces do not end: %s", h.S.BlockedReport())
		return
	}
	total := 0
	for _, w := range ws {
		w := w
		total += len(w.reqs)
		h.S.GoProc(p, "stopper", func() { w.stopCall = true; w.ns.Stop() })
	}
	h.wait(time.Hour, func() bool {
		for _, w := range ws {
			if !w.terminated() {
				return false
			}
		}
		return true
	})
	for k, w := range ws {
		if !w.terminated() && !h.Failed() {
			h.Fail("stuck", "namespace %d does not terminate: %s", k, h.S.BlockedReport())
			return
		}
	}
	h.Retire(p)
	p = h.Boot("reader")
	h.Call(p, "read", func() {
		for k, m := range ms {
			f, err := simos.OpenFile(fmt.Sprintf("/work/ns%d.delta", k), os.O_RDWR, 0644)
			var st domain.DeltaStorage
			if err == nil {
				st, err = delta.NewStorageFactory().Open(f)
			}
			if err != nil {
				h.Fail("interference", "the delta file of namespace %d does not open: %v", k, err)
				return
			}
			data, _ := h.FS.Peek(fmt.Sprintf("/work/ns%d.delta", k))
			for _, r := range decodeAll(data) {
				if want, ok := m.d[pair{r.u, r.i}]; !ok || byte(want) != r.op && st.GetTotalItemCount() == len(m.d) {
					h.Fail("interference", "the delta file of namespace %d has %c(%d,%d), its own operations say %q %v", k, r.op, r.u, r.i, want, ok)
					return
				}
			}
			for id := uint64(1); id <= uint64(len(ws[k].reqs)); id++ {
				pr := pair{id, id*3 + 1}
				want, has := m.d[pr]
				got, ok := st.Get(pr.u, pr.i)
				if ok != has || got != want && has {
					h.Fail("interference", "namespace %d: pair (%d,%d) is %s in the delta file, should be %s", k, pr.u, pr.i, opStr(got, ok), opStr(want, has))
					return
				}
			}
			ix, err := index.NewStorageFactory().OpenFile(fmt.Sprintf("/work/ns%d.index", k))
			if err != nil {
				h.Fail("interference", "the index file of namespace %d does not open: %v", k, err)
				return
			}
			for id := uint64(1); id <= uint64(len(ws[k].reqs))+40; id++ {
				want, has := m.x[id]
				got, ok := ix.Get(id)
				if ok != has || got != want && has {
					h.Fail("interference", "namespace %d: id %d is %s in the index file, should be %s", k, id, idxStr(got, ok), idxStr(want, has))
					return
				}
			}
		}
	})
	h.nontrivial = total > 3
	h.Key("C24ns", n, total)
	h.sample = fmt.Sprintf("%d namespaces, %d requests, slow or failing: %d", n, total, ill)
}

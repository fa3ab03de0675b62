package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"sort"

	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simos"
)

type pair struct{ u, i uint64 }

// hist is what may be stored for a pair: the operations added, oldest first, of
// which the first acked are acknowledged (all but the last of those are
// history nobody can see).
type hist struct {
	ops    []domain.DeltaOp
	acked  int
	ghosts []domain.DeltaOp // left by failed writes, since the last success
}

// deltaWorld is one delta file, the process using it and the reference model.
type deltaWorld struct {
	h      *H
	ghosts bool // an operation that was not acknowledged may come back later
	path   string
	p      *rt.Proc
	st     domain.DeltaStorage
	m      map[pair]*hist
	// exact counts while they are known
	known   bool
	flushed int           // records in the file
	batch   map[pair]bool // unflushed
	visible map[pair]domain.DeltaOp
	ids     func(*rt.Tape) pair
	pairs   []pair
	fac     domain.DeltaStorageFactory
	next    uint64
	bulks   int
	next2   int
	tail    bool // a failed write may have left bytes behind the last record
}

func newDeltaWorld(h *H, path string) *deltaWorld {
	return &deltaWorld{h: h, path: path, m: map[pair]*hist{}, batch: map[pair]bool{}, visible: map[pair]domain.DeltaOp{}, known: true, ids: wildIDs, next: 1000}
}

var extremes = []uint64{1, 2, 0, 255, 256, 1 << 32, 1<<63 - 1, 1 << 63, ^uint64(0), 43, 45}

func wildIDs(t *rt.Tape) pair {
	return pair{extremes[t.Intn(len(extremes))], extremes[t.Intn(6)]}
}

// safeIDs avoids byte sums that coincide when two records are spliced.
func safeIDs(t *rt.Tape) pair {
	return pair{uint64(16 * (1 + t.Intn(4))), uint64(1 + t.Intn(5))}
}

func (w *deltaWorld) boot() {
	w.p = w.h.Boot("shard")
	w.st = nil
}

// live reports whether the process is still there.
func (w *deltaWorld) live() bool { return w.p != nil && !w.p.Dead }

// do runs f in the process; false means it died.
func (w *deltaWorld) do(name string, f func()) bool {
	if !w.live() {
		return false
	}
	return w.h.Call(w.p, name, f)
}

func (w *deltaWorld) file() (*simos.File, error) {
	return simos.OpenFile(w.path, os.O_RDWR|os.O_CREATE, 0644)
}

const (
	openPlain = iota
	openMaybe
	openRecoverFirst
)

// open opens the storage; died is true if the process crashed meanwhile.
func (w *deltaWorld) open(how int) (err error, died bool) {
	var st domain.DeltaStorage
	var f *simos.File
	ok := w.do("open", func() {
		if w.fac == nil || true {
			w.fac = delta.NewStorageFactory()
		}
		f, err = w.file()
		if err != nil {
			return
		}
		switch how {
		case openPlain:
			st, err = w.fac.Open(f)
		case openMaybe:
			st, err = w.fac.OpenMaybeRecover(f)
		case openRecoverFirst:
			if err = w.fac.Recover(f); err == nil {
				st, err = w.fac.Open(f)
			}
		}
		if err != nil {
			f.Close()
		}
	})
	if !ok {
		return nil, true
	}
	w.h.Note("delta.open", how, err)
	if err == nil {
		w.st = st
		w.batch = map[pair]bool{}
		w.setVisible()
	}
	return err, false
}

func (w *deltaWorld) setVisible() {
	w.visible = map[pair]domain.DeltaOp{}
	for pr, hi := range w.m {
		if len(hi.ops) > 0 {
			w.visible[pr] = hi.ops[len(hi.ops)-1]
		}
	}
}

func (w *deltaWorld) add(op domain.DeltaOp, pr pair) bool {
	ok := w.do("add", func() { w.st.Add(op, pr.u, pr.i) })
	if !ok {
		return false
	}
	w.h.Note("delta.add", int(op), pr.u, pr.i)
	hi := w.m[pr]
	if hi == nil {
		hi = &hist{}
		w.m[pr] = hi
		w.pairs = append(w.pairs, pr)
	}
	hi.ops = append(hi.ops, op)
	w.batch[pr] = true
	w.visible[pr] = op
	return true
}

func (w *deltaWorld) ack() {
	for _, hi := range w.m {
		if hi.acked < len(hi.ops) {
			hi.ghosts = nil
		}
		hi.acked = len(hi.ops)
	}
	w.flushed += len(w.batch)
	w.batch = map[pair]bool{}
}

// check compares everything visible with the model (exact in-session state).
func (w *deltaWorld) check(when string) {
	h := w.h
	type ans struct {
		op domain.DeltaOp
		ok bool
	}
	got := make([]ans, len(w.pairs))
	var users, items int
	var size uint64
	probe := w.probes()
	pgot := make([]ans, len(probe))
	stride, first := 1, 0
	if len(w.pairs) > 10000 && when != "after the final open" {
		stride = 1 + len(w.pairs)/5000
		first = w.next2 % stride
		w.next2++
	}
	if !w.do("check", func() {
		for i := first; i < len(w.pairs); i += stride {
			got[i].op, got[i].ok = w.st.Get(w.pairs[i].u, w.pairs[i].i)
		}
		for i, pr := range probe {
			pgot[i].op, pgot[i].ok = w.st.Get(pr.u, pr.i)
		}
		users, items, size = w.st.GetUserCount(), w.st.GetTotalItemCount(), w.st.GetFileSize()
	}) {
		return
	}
	for i := first; i < len(w.pairs); i += stride {
		pr := w.pairs[i]
		want, ok := w.visible[pr]
		if got[i].ok != ok || ok && got[i].op != want {
			h.Fail("lookup", "%s: pair (%d,%d): got %s, want %s", when, pr.u, pr.i, opStr(got[i].op, got[i].ok), opStr(want, ok))
			return
		}
	}
	for i, pr := range probe {
		if pgot[i].ok {
			h.Fail("phantom", "%s: pair (%d,%d) was never added but is found as %c", when, pr.u, pr.i, pgot[i].op)
			return
		}
	}
	us := map[uint64]bool{}
	for pr := range w.visible {
		us[pr.u] = true
	}
	if users != len(us) {
		h.Fail("user-count", "%s: reported %d users, want %d", when, users, len(us))
		return
	}
	if w.known && items != w.flushed+len(w.batch) {
		h.Fail("item-count", "%s: reported %d items, want %d", when, items, w.flushed+len(w.batch))
		return
	}
	if !w.known && items < len(w.visible) {
		h.Fail("item-count", "%s: reported %d items, but %d pairs are present", when, items, len(w.visible))
		return
	}
	if len(w.batch) == 0 && w.known {
		if data, ok := h.FS.Peek(w.path); ok && (uint64(len(data)) < size || !w.tail && uint64(len(data)) > size) {
			h.Fail("file-size", "%s: reported file size %d, the file has %d bytes", when, size, len(data))
		}
	}
}

// probes are pairs that were never added, near those that were.
func (w *deltaWorld) probes() []pair {
	var r []pair
	for _, pr := range w.pairs {
		for _, c := range []pair{{pr.i, pr.u}, {pr.u, pr.i + 1}, {pr.u + 1, pr.i}, {pr.u ^ 1<<32, pr.i}} {
			if w.m[c] == nil {
				r = append(r, c)
			}
		}
		if len(r) > 40 {
			break
		}
	}
	return append(r, pair{777, 777})
}

func opStr(op domain.DeltaOp, ok bool) string {
	if !ok {
		return "not found"
	}
	return string(rune(op))
}

// adopt checks what a recovery shows against what may be there and makes it the
// new baseline.
func (w *deltaWorld) adopt(when string) {
	h := w.h
	type ans struct {
		op domain.DeltaOp
		ok bool
	}
	got := make([]ans, len(w.pairs))
	var items int
	if !w.do("readback", func() {
		for i, pr := range w.pairs {
			got[i].op, got[i].ok = w.st.Get(pr.u, pr.i)
		}
		items = w.st.GetTotalItemCount()
	}) {
		return
	}
	for i, pr := range w.pairs {
		hi := w.m[pr]
		g := got[i]
		legal := false
		if !g.ok {
			legal = hi.acked == 0
		} else {
			from := hi.acked - 1
			if from < 0 {
				from = 0
			}
			for _, op := range append(hi.ghosts, hi.ops[from:]...) {
				if op == g.op {
					legal = true
				}
			}
		}
		if !legal {
			h.Fail("lost", "%s: pair (%d,%d) reads back %s; acknowledged and later operations: %s", when, pr.u, pr.i, opStr(g.op, g.ok), hi.describe())
			return
		}
		if w.ghosts {
			hi.ghosts = append(hi.ghosts, hi.ops[hi.acked:]...)
		}
		if g.ok {
			hi.ops, hi.acked = []domain.DeltaOp{g.op}, 1
		} else {
			hi.ops, hi.acked = nil, 0
		}
	}
	w.flushed, w.known = items, true
	w.batch = map[pair]bool{}
	w.setVisible()
	w.check(when)
}

func (hi *hist) describe() string {
	if hi.acked == 0 {
		return fmt.Sprintf("none acknowledged, added %q", hi.ops)
	}
	return fmt.Sprintf("acknowledged %q, later %q", hi.ops[hi.acked-1], hi.ops[hi.acked:])
}

func (w *deltaWorld) drawOp() domain.DeltaOp {
	if w.h.T.Intn(2) == 1 {
		return domain.DeltaOpRemove
	}
	return domain.DeltaOpAdd
}

// again adds operations to many pairs that were added before, old and recent.
func (w *deltaWorld) again(n int) {
	if len(w.pairs) == 0 || len(w.pairs) > 3000 {
		return
	}
	first, step := w.h.T.Intn(len(w.pairs)), 1+w.h.T.Intn(3)
	ops := []domain.DeltaOp{domain.DeltaOpAdd, domain.DeltaOpRemove}
	var prs []pair
	for k := 0; k < n && k < len(w.pairs); k++ {
		prs = append(prs, w.pairs[(first+k*step)%len(w.pairs)])
	}
	flip := w.h.T.Intn(2)
	if !w.do("again", func() {
		for k, pr := range prs {
			w.st.Add(ops[(k/3+flip)%2], pr.u, pr.i)
		}
	}) {
		return
	}
	for k, pr := range prs {
		op := ops[(k/3+flip)%2]
		w.m[pr].ops = append(w.m[pr].ops, op)
		w.batch[pr] = true
		w.visible[pr] = op
	}
	w.h.Note("delta.again", first, step, len(prs))
}

// safeBulk adds more operations than one buffer holds. Splicing any two of their
// records, or one of them and one of safeIDs, never gives a third with a
// matching checksum: their users differ by less than 256 in steps of 16 and
// their items in the last byte only.
func (w *deltaWorld) safeBulk(n int) {
	op := w.drawOp()
	first := w.h.T.Intn(11 * 256)
	var prs []pair
	for k := 0; k < n; k++ {
		x := uint64(first+k) % (11 * 256)
		prs = append(prs, pair{80 + x/256*16, x % 256})
	}
	if !w.do("bulk", func() {
		for _, pr := range prs {
			w.st.Add(op, pr.u, pr.i)
		}
	}) {
		return
	}
	for _, pr := range prs {
		hi := w.m[pr]
		if hi == nil {
			hi = &hist{}
			w.m[pr] = hi
			w.pairs = append(w.pairs, pr)
		}
		hi.ops = append(hi.ops, op)
		w.batch[pr] = true
		w.visible[pr] = op
	}
	w.h.Note("delta.bulk", n)
}

// bulk adds many operations of fresh pairs in one go.
func (w *deltaWorld) bulk(n int) {
	users, deep := uint64(1+w.h.T.Intn(20)+n/50), uint64(0)
	switch w.h.T.Pick(8, 1, 1) {
	case 1:
		users = uint64(1 + n/700) // many items each
		if n > 10000 {            // thousands for three users
			users, deep = uint64(n/300), 3
		}
	case 2:
		users = uint64(1 + n/2) // few items each
		if users > 7000 {
			users = 7000
		}
	}
	if w.bulks++; w.bulks > 4 {
		n = 3
	}
	user := func(k uint64) uint64 {
		if deep > 0 && k%8 == 0 {
			return 5000 + k/8%deep
		}
		return 5000 + deep + k%users
	}
	op := w.drawOp()
	for k := 0; k < n && w.live(); k++ {
		w.next++
		pr := pair{user(w.next), w.next}
		hi := &hist{}
		w.m[pr] = hi
		w.pairs = append(w.pairs, pr)
		hi.ops = append(hi.ops, op)
		w.batch[pr] = true
		w.visible[pr] = op
	}
	first := w.next - uint64(n) + 1
	w.do("bulk", func() {
		for k := first; k <= w.next; k++ {
			w.st.Add(op, user(k), k)
		}
	})
	w.h.Note("delta.bulk", n)
}

func (w *deltaWorld) drawBulk() int {
	return []int{7, 60, 226, 228, 460, 1000}[w.h.T.Pick(6, 4, 2, 2, 2, 1)]
}

// ---- independent decoder of the file format ----

type drec struct {
	op   byte
	u, i uint64
}

const dHeader = 14
const dEntry = 18

// decodeDelta lists the records whose stored checksum matches their contents.
func decodeDelta(b []byte) []drec {
	var r []drec
	if len(b) < dHeader || !bytes.Equal(b[:8], []byte("RECDELTA")) {
		return nil
	}
	for o := dHeader; o+dEntry <= len(b); o += dEntry {
		e := b[o : o+dEntry]
		var sum byte
		for _, x := range e[:17] {
			sum += x
		}
		if sum == e[17] {
			r = append(r, drec{e[0], binary.BigEndian.Uint64(e[1:]), binary.BigEndian.Uint64(e[9:])})
		}
	}
	return r
}

func encodeDelta(locked byte, count uint32, recs []drec) []byte {
	b := append([]byte("RECDELTA"), 1, locked)
	b = binary.BigEndian.AppendUint32(b, count)
	for _, r := range recs {
		e := []byte{r.op}
		e = binary.BigEndian.AppendUint64(e, r.u)
		e = binary.BigEndian.AppendUint64(e, r.i)
		var sum byte
		for _, x := range e {
			sum += x
		}
		b = append(append(b, e...), sum)
	}
	return b
}

func foldRecs(rs []drec) map[pair]domain.DeltaOp {
	m := map[pair]domain.DeltaOp{}
	for _, r := range rs {
		m[pair{r.u, r.i}] = domain.DeltaOp(r.op)
	}
	return m
}

// ---- C01 ----

func runC01(h *H) {
	t := h.T
	h.F.Short = t.Intn(3) == 1
	h.S.SetMapMode(t.Intn(1 << 10))
	n := 1 + t.Pick(3, 1)
	var ws []*deltaWorld
	for k := 0; k < n; k++ {
		ws = append(ws, newDeltaWorld(h, fmt.Sprintf("/work/d%d.delta", k)))
	}
	h.FS.Mkdir("/work")
	proc := h.Boot("shard")
	for _, w := range ws {
		w.p = proc
	}
	flushes, reopens, adds := 0, 0, 0
	steps, giant := 40, 0
	if t.Intn(1000) == 1 {
		// More entries than fit 16 bits, in a short history.
		steps, giant = 9, 1+t.Intn(4)
	}
	for i := 0; h.More(i, steps); i++ {
		t.Begin()
		w := ws[t.Intn(n)]
		if w.st == nil {
			how := t.Intn(3)
			if err, _ := w.open(how); err != nil {
				h.Fail("open", "opening a cleanly closed delta file (way %d) failed: %v", how, err)
				return
			}
			reopens++
			w.check("after open")
			t.End()
			continue
		}
		if giant > 0 {
			if giant--; giant == 0 {
				w.bulk(66000)
				h.Stat("giant")
			}
		}
		switch t.Pick(20, 8, 6, 4, 2, 2, 1) {
		case 6:
			// Many short batches, sometimes sessions, in a row.
			again := t.Intn(3) == 1
			var rng rt.Rng
			rng.Seed(t.Intn(1 << 16))
			for k := []int{5, 30, 90}[t.Pick(2, 2, 1)]; k > 0 && !h.Failed(); k-- {
				for j := rng.Intn(4); j > 0; j-- {
					w.add([]domain.DeltaOp{domain.DeltaOpAdd, domain.DeltaOpRemove}[rng.Intn(2)], pair{extremes[rng.Intn(len(extremes))], uint64(rng.Intn(40))})
				}
				if !again {
					w.doFlush()
					continue
				}
				w.doClose()
				w.st = nil
				if err, _ := w.open(openPlain); err != nil && !h.Failed() {
					h.Fail("open", "opening a cleanly closed delta file failed: %v", err)
					return
				}
			}
			if !h.Failed() {
				w.check("after many batches")
			}
		case 0:
			w.add(w.drawOp(), w.ids(t))
			adds++
			if t.Intn(4) == 1 {
				w.check("after add")
			}
		case 1:
			w.doFlush()
			flushes++
			w.check("after flush")
		case 2:
			w.doClose()
			w.st = nil
		case 3:
			w.check("in session")
		case 4:
			if t.Intn(3) == 2 {
				w.again(w.drawBulk())
			} else {
				w.bulk(w.drawBulk())
			}
			w.check("after bulk add")
		case 5:
			// The process ends right after a flush: everything is durable.
			for _, x := range ws {
				if x.st != nil {
					x.doFlush()
				}
			}
			h.Kill(proc)
			proc = h.Boot("shard")
			for _, x := range ws {
				was := x.st != nil
				x.p, x.st = proc, nil
				if was {
					if err, _ := x.open(openMaybe + t.Intn(2)); err != nil {
						h.Fail("open", "recovering a fully flushed delta file failed: %v", err)
						return
					}
					x.check("after recovery of a flushed file")
				}
			}
		}
		t.End()
	}
	for _, w := range ws {
		if h.Failed() {
			return
		}
		if w.st != nil {
			w.check("at the end")
			w.doClose()
		}
		if h.Failed() {
			return
		}
		if err, _ := w.open(openPlain); err != nil {
			h.Fail("open", "final open failed: %v", err)
			return
		}
		w.check("after the final open")
		h.Key("C01", len(w.visible), w.flushed, flushes, reopens)
	}
	h.nontrivial = flushes > 0 && reopens > 0 && adds > 1
	h.sample = fmt.Sprintf("%d files, %d single adds, %d flushes, %d opens, %d pairs", n, adds, flushes, reopens, len(ws[0].pairs))
}

func (w *deltaWorld) doFlush() {
	var err error
	if !w.do("flush", func() { err = w.st.Flush() }) {
		return
	}
	w.h.Note("delta.flush", err)
	if err != nil {
		w.h.Fail("flush", "flush without faults failed: %v", err)
		return
	}
	w.ack()
}

func (w *deltaWorld) doClose() {
	var err error
	if !w.do("close", func() { err = w.st.Close() }) {
		return
	}
	w.h.Note("delta.close", err)
	if err != nil {
		w.h.Fail("close", "close without faults failed: %v", err)
		return
	}
	w.ack()
	if data, ok := w.h.FS.Peek(w.path); w.known && (!ok || len(data) != dHeader+dEntry*w.flushed) {
		w.h.Fail("file-size", "after close the file has %d bytes, its %d operations need %d", len(data), w.flushed, dHeader+dEntry*w.flushed)
	}
	for _, n := range w.h.FS.OpenHandles(w.p) {
		if n == w.path {
			w.h.Fail("handle", "file still open after close")
		}
	}
}

// ---- C02 ----

func runC02(h *H) {
	t := h.T
	h.FS.Mkdir("/work")
	h.F.Short = t.Intn(4) == 1
	w := newDeltaWorld(h, "/work/a.delta")
	lives, crashes, opens := 0, 0, 0
	steps, giant := 9, 0
	if t.Intn(400) == 1 {
		// More records than fit 16 bits, in a short history.
		steps, giant = 3, 1
	}
	for i := 0; h.More(i, steps); i++ {
		t.Begin()
		h.S.SetMapMode(t.Intn(1 << 10))
		w.boot()
		lives++
		h.F.Clear()
		if t.Intn(5) != 0 {
			h.F.CrashIn = h.Pos()
		}
		how := openMaybe
		err, died := w.open(how)
		if died {
			crashes++
			h.Key("crash-in-open", w.flushed, len(w.pairs))
			t.End()
			continue
		}
		if err != nil {
			h.Fail("open", "reopening with recovery failed after a crash: %v", err)
			t.End()
			return
		}
		opens++
		w.adopt(fmt.Sprintf("life %d after open", lives))
		if giant > 0 && w.live() {
			giant--
			w.bulk(66000)
			h.Stat("giant")
		}
		for j := 0; w.live() && h.More(j, 12); j++ {
			t.Begin()
			switch t.Pick(8, 4, 2, 1) {
			case 0:
				w.add(w.drawOp(), w.ids(t))
			case 1:
				var err error
				if w.do("flush", func() { err = w.st.Flush() }) {
					if err != nil {
						h.Fail("flush", "flush without I/O errors failed: %v", err)
					}
					w.ack()
					h.Note("acked")
				}
			case 2:
				if t.Intn(3) == 2 {
					w.again(w.drawBulk())
				} else {
					w.bulk(w.drawBulk())
				}
			case 3:
				var err error
				if w.do("close", func() { err = w.st.Close() }) {
					if err != nil {
						h.Fail("close", "close without I/O errors failed: %v", err)
					}
					w.ack()
					h.Kill(w.p)
				}
			}
			t.End()
		}
		if w.live() {
			h.Kill(w.p) // between operations
		}
		crashes++
		h.Key("crash", w.flushed, len(w.batch), opens)
		t.End()
	}
	if h.Failed() {
		return
	}
	h.F.Clear()
	w.boot()
	if err, _ := w.open(openMaybe); err != nil {
		h.Fail("open", "the last reopening with recovery failed: %v", err)
		return
	}
	w.adopt("after the last crash")
	if h.Failed() {
		return
	}
	w.doClose()
	w.st = nil
	if err, _ := w.open(openPlain); err != nil {
		h.Fail("open", "plain open after recovery and close failed: %v", err)
		return
	}
	w.check("after recovery, close and open")
	h.nontrivial = crashes > 0 && len(w.pairs) > 0
	h.sample = fmt.Sprintf("%d lives, %d crashes, %d pairs, %d records at the end", lives, crashes, len(w.pairs), w.flushed)
}

// ---- C03 ----

func runC03(h *H) {
	t := h.T
	h.FS.Mkdir("/work")
	h.F.Short = t.Intn(3) == 1
	const path = "/work/a.delta"
	var img []byte
	n := t.Intn([]int{4, 12, 300, 2000}[t.Pick(6, 6, 2, 1)])
	fromCode := t.Intn(2) == 1
	if t.Intn(600) == 1 {
		// More records than fit 16 bits.
		n, fromCode = 66000, false
		h.Stat("giant")
	}
	var rng rt.Rng
	rng.Seed(t.Intn(1 << 16))
	if fromCode {
		w := newDeltaWorld(h, path)
		w.boot()
		h.S.SetMapMode(t.Intn(1 << 10))
		if err, _ := w.open(openMaybe); err != nil {
			h.Fail("open", "creating a delta file failed: %v", err)
			return
		}
		w.do("fill", func() {
			for k := 0; k < n; k++ {
				op := domain.DeltaOpAdd
				if rng.Intn(2) == 0 {
					op = domain.DeltaOpRemove
				}
				w.st.Add(op, extremes[rng.Intn(len(extremes))]+uint64(rng.Intn(3)), uint64(rng.Intn(6)))
				if rng.Intn(5) == 0 {
					w.st.Flush()
				}
			}
			w.st.Flush()
		})
		h.Kill(w.p)
		img, _ = h.FS.Peek(path)
	} else {
		var rs []drec
		for k := 0; k < n; k++ {
			rs = append(rs, drec{[]byte{'+', '-'}[rng.Intn(2)], extremes[rng.Intn(len(extremes))] + uint64(rng.Intn(3)), uint64(rng.Intn(6))})
		}
		img = encodeDelta(1, uint32(n), rs)
	}
	// Damage.
	damage := 0
	for i := 0; h.More(i, 8); i++ {
		t.Begin()
		damage++
		switch t.Pick(5, 3, 2, 2, 1) {
		case 0: // flip bits of a record byte
			if len(img) > dHeader {
				img[dHeader+t.Intn(len(img)-dHeader)] ^= byte(1 + t.Intn(255))
			}
		case 1: // cut
			if t.Intn(3) == 0 {
				img = img[:t.Intn(len(img)+1)]
			} else {
				cut := t.Intn(40)
				if cut > len(img) {
					cut = len(img)
				}
				img = img[:len(img)-cut]
			}
		case 2: // stored count
			if len(img) >= dHeader {
				binary.BigEndian.PutUint32(img[10:], []uint32{0, 1, uint32(n + 1), uint32(n / 2), 1 << 31, ^uint32(0)}[t.Intn(6)])
			}
		case 3: // overwrite a range of records
			if len(img) > dHeader {
				a := dHeader + t.Intn(len(img)-dHeader)
				b := a + 1 + t.Intn(60)
				fill := []byte{0, 0xff, '+'}[t.Intn(3)]
				for k := a; k < b && k < len(img); k++ {
					img[k] = fill
				}
			}
		case 4: // garbage after the end
			for k := t.Intn(50); k >= 0; k-- {
				img = append(img, byte(rng.Intn(256)))
			}
		}
		t.End()
	}
	if len(img) > 9 && img[9] == 0 {
		img[9] = 1
	}
	want := decodeDelta(img)
	wantMap := foldRecs(want)
	h.FS.Put(path, img)
	h.Note("image", len(img), len(want), n, damage)
	legal := map[drec]bool{}
	for _, r := range want {
		legal[r] = true
	}
	// Interrupted recoveries.
	crashes := 0
	for i := 0; h.More(i, 3); i++ {
		t.Begin()
		w := newDeltaWorld(h, path)
		w.boot()
		h.F.Clear()
		h.F.CrashIn = 1 + t.Intn(14) + t.Intn(2)*len(want)*4
		_, died := w.open(openMaybe)
		if died {
			crashes++
		} else {
			h.Kill(w.p)
		}
		h.F.Clear()
		t.End()
		now, _ := h.FS.Peek(path)
		for _, r := range decodeDelta(now) {
			if !legal[r] {
				// The eight-bit checksum of a record half overwritten by another
				// happened to match: what is in the file is then "a record whose
				// checksum matches", so there is nothing left to compare with.
				h.Stat("splice-collision")
				h.nontrivial = false
				return
			}
		}
	}
	if h.Failed() {
		return
	}
	w := newDeltaWorld(h, path)
	w.boot()
	err, _ := w.open(openMaybe)
	if err != nil {
		h.Fail("recover", "recovering a damaged, not properly closed file failed: %v", err)
		return
	}
	check := func(when string) {
		got := map[pair]domain.DeltaOp{}
		var items int
		probes := map[pair]bool{}
		for _, r := range decodeAll(img) {
			probes[pair{r.u, r.i}] = true
		}
		var pl []pair
		for pr := range probes {
			pl = append(pl, pr)
		}
		sort.Slice(pl, func(a, b int) bool { return pl[a].u < pl[b].u || pl[a].u == pl[b].u && pl[a].i < pl[b].i })
		w.do("read", func() {
			for _, pr := range pl {
				if op, ok := w.st.Get(pr.u, pr.i); ok {
					got[pr] = op
				}
			}
			items = w.st.GetTotalItemCount()
		})
		for _, pr := range pl {
			a, ok1 := got[pr]
			b, ok2 := wantMap[pr]
			if ok1 != ok2 || a != b {
				h.Fail("recovered", "%s: pair (%d,%d) is %s, the undamaged records say %s", when, pr.u, pr.i, opStr(a, ok1), opStr(b, ok2))
				return
			}
		}
		if crashes == 0 && items != len(want) {
			h.Fail("count", "%s: %d records reported, %d undamaged ones were in the file", when, items, len(want))
			return
		}
		us := map[uint64]bool{}
		for pr := range wantMap {
			us[pr.u] = true
		}
		users := 0
		w.do("users", func() { users = w.st.GetUserCount() })
		if users != len(us) {
			h.Fail("count", "%s: %d users reported, %d are in undamaged records", when, users, len(us))
		}
		if crashes == 0 {
			now, _ := h.FS.Peek(path)
			if recs := decodeDelta(now); fmt.Sprint(recs) != fmt.Sprint(want) || len(now) != dHeader+dEntry*len(want) {
				h.Fail("order", "%s: the file holds %d records in %d bytes instead of the %d undamaged ones in order", when, len(recs), len(now), len(want))
			}
		}
	}
	check("after recovery")
	if h.Failed() {
		return
	}
	var cerr error
	w.do("close", func() { cerr = w.st.Close() })
	if cerr != nil {
		h.Fail("close", "closing the recovered file failed: %v", cerr)
		return
	}
	w.st = nil
	if err, _ := w.open(openPlain); err != nil {
		h.Fail("open", "the recovered and closed file does not open: %v", err)
		return
	}
	check("after recovery, close and open")
	h.nontrivial = damage > 0 && len(decodeAll(img)) > 0
	h.Key("C03", len(want), len(img), crashes)
	h.sample = fmt.Sprintf("%d records written, %d damages, %d interrupted recoveries, %d records kept", n, damage, crashes, len(want))
}

// decodeAll lists all slots, valid or not.
func decodeAll(b []byte) []drec {
	var r []drec
	for o := dHeader; o+dEntry <= len(b); o += dEntry {
		e := b[o : o+dEntry]
		r = append(r, drec{e[0], binary.BigEndian.Uint64(e[1:]), binary.BigEndian.Uint64(e[9:])})
	}
	return r
}

// ---- C04 ----

var ioKinds = map[string]bool{"read": true, "write": true, "seek": true, "truncate": true}

func runC04(h *H) {
	t := h.T
	h.FS.Mkdir("/work")
	h.F.Short = t.Intn(4) == 1
	w := newDeltaWorld(h, "/work/a.delta")
	w.ids = safeIDs
	w.ghosts = true
	fails, oks, bulks := 0, 0, 0
	sawFault := false
	arm := func() {
		h.F.Clear()
		if t.Intn(2) == 1 {
			h.F.ErrIn = h.Pos()
			h.F.ErrKinds = ioKinds
			switch t.Pick(4, 1, 1, 1) {
			case 1:
				h.F.ErrKinds = map[string]bool{"write": true}
			case 2:
				h.F.ErrKinds = map[string]bool{"seek": true}
			case 3:
				h.F.ErrKinds = map[string]bool{"read": true}
			}
			if t.Intn(4) == 1 {
				h.F.ErrN = 1 + t.Intn(6)
			}
		}
	}
	w.boot()
	for i := 0; h.More(i, 30); i++ {
		t.Begin()
		h.S.SetMapMode(t.Intn(64))
		if w.st == nil {
			arm()
			how := openMaybe
			err, _ := w.open(how)
			inj := h.F.Injected
			h.F.Clear()
			if err == nil && inj > 0 {
				h.Fail("unreported", "an open met an I/O error and reported success")
				return
			}
			if err != nil && inj == 0 {
				h.Fail("open", "an open without an I/O error failed: %v", err)
				return
			}
			if err != nil {
				fails++
				w.st = nil
				h.Kill(w.p)
				w.boot()
			} else {
				w.adopt("after open")
				oks++
			}
			t.End()
			continue
		}
		switch t.Pick(8, 6, 2, 1, 1) {
		case 0:
			if bulks < 3 && t.Intn(8) == 7 {
				bulks++
				w.safeBulk([]int{30, 226, 230, 500}[t.Intn(4)])
				break
			}
			for k := 1 + t.Intn(4); k > 0; k-- {
				w.add(w.drawOp(), w.ids(t))
			}
		case 1, 2:
			closing := t.Intn(4) == 1
			arm()
			var err error
			w.do("flush", func() {
				if closing {
					err = w.st.Close()
				} else {
					err = w.st.Flush()
				}
			})
			inj := h.F.Injected
			h.F.Clear()
			h.Note("flushed", closing, err, inj)
			w.known = false
			if err == nil && inj > 0 {
				h.Fail("unreported", "a flush or close met an I/O error and reported success")
				return
			}
			if err != nil && inj == 0 {
				h.Fail("flush", "a flush or close without an I/O error failed: %v", err)
				return
			}
			if err == nil {
				w.ack()
				oks++
			} else {
				fails++
				sawFault, w.tail = true, true
			}
			if closing && err == nil {
				w.st = nil
				w.known = true
				h.Kill(w.p)
				w.boot()
				break
			}
			w.check("in the session after a flush")
			if closing && err != nil && t.Intn(2) == 1 {
				w.st = nil
				h.Kill(w.p)
				w.boot()
			}
		case 3:
			w.check("in the session")
		case 4: // the process ends between operations
			w.st = nil
			h.Kill(w.p)
			w.boot()
		}
		t.End()
	}
	if h.Failed() {
		return
	}
	h.F.Clear()
	if w.st != nil {
		w.check("at the end")
		if t.Intn(2) == 1 {
			var err error
			w.do("flush", func() { err = w.st.Flush() })
			if err != nil {
				h.Fail("flush", "a flush without an I/O error failed: %v", err)
				return
			}
			w.ack()
		}
		h.Kill(w.p)
		w.boot()
	}
	if err, _ := w.open(openMaybe); err != nil {
		h.Fail("open", "the last open, without faults, failed: %v", err)
		return
	}
	w.adopt("after the last open")
	h.nontrivial = fails > 0 && len(w.pairs) > 0
	h.Key("C04", fails, oks, w.flushed)
	h.sample = fmt.Sprintf("%d failed and %d successful calls, %d pairs, flush faults: %v", fails, oks, len(w.pairs), sawFault)
}

func init() {
	real := []string{"internal/infra/delta (all)", "internal/helpers"}
	stub := []string{"file system (in memory: inodes, partial writes, errors, process crashes)", "process"}
	assume := []string{"a completed write survives a process crash (no power loss: the file interface has no sync)", "within one write call a crash leaves a prefix of the bytes"}
	register(&Prop{ID: "C01", Run: runC01, Quick: 24000, Thorough: 900000, Rule: "random histories of add/flush/close/open/recover on one or two files; non-trivial: at least one flush, one reopen and two adds", States: "(pairs, records, flushes, opens) tuples", Real: real, Stub: stub, Assume: assume})
	register(&Prop{ID: "C02", Run: runC02, Quick: 40000, Thorough: 900000, Rule: "lives of a process over one file, each ended by a crash at a drawn file operation (writes torn at a drawn byte); non-trivial: at least one crash and one added pair", States: "(records acknowledged, unflushed, opens) at crashes", Real: real, Stub: stub, Assume: assume})
	register(&Prop{ID: "C03", Run: runC03, Quick: 32000, Thorough: 900000, Rule: "file images made by the code or by an independent encoder, damaged, recovered with interruptions; non-trivial: at least one damage and one record slot", States: "(records kept, image size, interruptions)", Real: real, Stub: stub, Assume: append(assume, "runs where a record spliced from two by an interrupted recovery matches its 8-bit checksum by chance are discarded")})
	register(&Prop{ID: "C04", Run: runC04, Quick: 32000, Thorough: 900000, Rule: "sessions with I/O errors (with partial writes and bursts) armed on open, recovery, flush and close; non-trivial: at least one failed call and one added pair", States: "(failed, successful calls, records)", Real: real, Stub: stub, Assume: assume})
}

package main

import (
	"fmt"
	"os"
	"sort"

	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simos"
)

type imap map[uint64]uint64

func (m imap) clone() imap {
	c := imap{}
	for k, v := range m {
		c[k] = v
	}
	return c
}

// indexWorld is one index file, the process using it and the reference model.
type indexWorld struct {
	h    *H
	path string
	p    *rt.Proc
	st   domain.IndexStorage
	m    imap
	ids  map[uint64]bool // ever used
	next uint64
	ops  int
}

func newIndexWorld(h *H, path string) *indexWorld {
	return &indexWorld{h: h, path: path, m: imap{}, ids: map[uint64]bool{}, next: 10000}
}

func (w *indexWorld) live() bool { return w.p != nil && !w.p.Dead }

func (w *indexWorld) do(name string, f func()) bool {
	if !w.live() {
		return false
	}
	return w.h.Call(w.p, name, f)
}

func (w *indexWorld) boot() {
	w.p = w.h.Boot("shard")
	w.st = nil
}

// open opens the storage, by name or on an open file.
func (w *indexWorld) open(byName bool) (err error, died bool) {
	var st domain.IndexStorage
	ok := w.do("open", func() {
		fac := index.NewStorageFactory()
		if byName {
			st, err = fac.OpenFile(w.path)
			return
		}
		f, e := simos.OpenFile(w.path, os.O_RDWR|os.O_CREATE, 0644)
		if e != nil {
			err = e
			return
		}
		st, err = fac.Open(f, f)
	})
	if !ok {
		return nil, true
	}
	w.h.Note("index.open", byName, err)
	if err == nil {
		w.st = st
	}
	return err, false
}

func (w *indexWorld) close() (err error, died bool) {
	if !w.do("close", func() { err = w.st.Close() }) {
		return nil, true
	}
	w.h.Note("index.close", err)
	w.st = nil
	return err, false
}

func (w *indexWorld) id() uint64 {
	t := w.h.T
	if t.Intn(3) == 2 {
		return extremes[t.Intn(len(extremes))]
	}
	return uint64(1 + t.Intn(6))
}

// bulk puts n fresh ids.
func (w *indexWorld) bulk(n int) (err error, live bool) {
	t := w.h.T
	first := w.next
	w.next += uint64(n)
	add := uint64(t.Intn(3)) << 40
	if !w.do("bulk", func() {
		for k := first; k < first+uint64(n); k++ {
			if e := w.st.Put(k, k+add); e != nil {
				err = e
			}
		}
	}) {
		return nil, false
	}
	for k := first; k < first+uint64(n); k++ {
		w.m[k] = k + add
		w.ids[k] = true
	}
	w.h.Note("index.bulk", n)
	return err, true
}

// mutate does one random change.
func (w *indexWorld) mutate() {
	t := w.h.T
	var err error
	switch t.Pick(10, 5, 2, 1) {
	case 0:
		id, v := w.id(), w.id()
		if !w.do("put", func() { err = w.st.Put(id, v) }) {
			return
		}
		w.h.Note("index.put", id, v, err)
		w.m[id] = v
		w.ids[id] = true
	case 1:
		id := w.id()
		if !w.do("remove", func() { err = w.st.Remove(id) }) {
			return
		}
		w.h.Note("index.remove", id, err)
		delete(w.m, id)
		w.ids[id] = true
	case 2:
		var live bool
		if err, live = w.bulk([]int{5, 40, 254, 256, 258, 600}[t.Pick(6, 4, 2, 2, 2, 1)]); !live {
			return
		}
	case 3:
		// Remove every k-th of the entries.
		k := 1 + t.Intn(4)
		var gone []uint64
		for id := range w.m {
			if int(id)%k == 0 {
				gone = append(gone, id)
			}
		}
		sort.Slice(gone, func(a, b int) bool { return gone[a] < gone[b] })
		if !w.do("bulkremove", func() {
			for _, id := range gone {
				if e := w.st.Remove(id); e != nil {
					err = e
				}
			}
		}) {
			return
		}
		for _, id := range gone {
			delete(w.m, id)
		}
		w.h.Note("index.bulkremove", len(gone))
	}
	w.ops++
	if err != nil {
		w.h.Fail("op", "changing an open index failed: %v", err)
	}
}

// contents reads back every id ever used and some that never were.
func (w *indexWorld) contents() (imap, bool) {
	got := imap{}
	ids := make([]uint64, 0, len(w.ids)+8)
	seen := map[uint64]bool{}
	for id := range w.ids {
		for _, c := range []uint64{id, id + 1, id ^ 1<<32} {
			if !seen[c] {
				seen[c] = true
				ids = append(ids, c)
			}
		}
	}
	for _, v := range w.m {
		if !seen[v] {
			seen[v] = true
			ids = append(ids, v)
		}
	}
	for _, c := range append([]uint64{0}, extremes...) {
		if !seen[c] {
			seen[c] = true
			ids = append(ids, c)
		}
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	ok := w.do("read", func() {
		for _, id := range ids {
			if v, ok := w.st.Get(id); ok {
				got[id] = v
			}
		}
	})
	return got, ok
}

// diff describes the first difference, or is empty.
func (m imap) diff(want imap) string {
	var ids []uint64
	for id := range m {
		ids = append(ids, id)
	}
	for id := range want {
		if _, ok := m[id]; !ok {
			ids = append(ids, id)
		}
	}
	sort.Slice(ids, func(a, b int) bool { return ids[a] < ids[b] })
	for _, id := range ids {
		a, ok1 := m[id]
		b, ok2 := want[id]
		if ok1 != ok2 || a != b {
			return fmt.Sprintf("id %d is %s, should be %s", id, idxStr(a, ok1), idxStr(b, ok2))
		}
	}
	return ""
}

func idxStr(v uint64, ok bool) string {
	if !ok {
		return "absent"
	}
	return fmt.Sprint(v)
}

func (w *indexWorld) check(when string) {
	got, ok := w.contents()
	if !ok {
		return
	}
	if d := got.diff(w.m); d != "" {
		w.h.Fail("lookup", "%s: %s", when, d)
	}
}

// ---- C06 ----

func runC06(h *H) {
	t := h.T
	h.FS.Mkdir("/work")
	h.F.Short = t.Intn(3) == 1
	h.S.SetMapMode(t.Intn(1 << 10))
	n := 1 + t.Pick(3, 1)
	var ws []*indexWorld
	proc := h.Boot("shard")
	for k := 0; k < n; k++ {
		w := newIndexWorld(h, fmt.Sprintf("/work/i%d.index", k))
		w.p = proc
		ws = append(ws, w)
	}
	opens, shrinks := 0, 0
	last := make([]int, n)
	steps, giant := 40, 0
	if t.Intn(800) == 1 {
		// More entries than fit 16 bits, in a short history.
		steps, giant = 9, 1+t.Intn(4)
	}
	for i := 0; h.More(i, steps); i++ {
		t.Begin()
		k := t.Intn(n)
		w := ws[k]
		if giant > 0 && w.st != nil {
			if giant--; giant == 0 {
				h.Stat("giant")
				if err, _ := w.bulk(66000); err != nil {
					h.Fail("op", "changing an open index failed: %v", err)
					return
				}
			}
		}
		if w.st == nil {
			if err, _ := w.open(t.Intn(2) == 1); err != nil {
				h.Fail("open", "opening a cleanly closed index failed: %v", err)
				return
			}
			opens++
			w.check("after open")
			t.End()
			continue
		}
		switch t.Pick(12, 3, 2, 1) {
		case 0:
			w.mutate()
		case 1:
			if err, _ := w.close(); err != nil {
				h.Fail("close", "close without faults failed: %v", err)
				return
			}
			if len(w.m) < last[k] {
				shrinks++
			}
			last[k] = len(w.m)
		case 2:
			w.check("in session")
		case 3: // restart with everything closed
			for _, x := range ws {
				if x.st != nil {
					if err, _ := x.close(); err != nil {
						h.Fail("close", "close without faults failed: %v", err)
						return
					}
				}
			}
			h.Kill(proc)
			proc = h.Boot("shard")
			for _, x := range ws {
				x.p = proc
			}
		}
		t.End()
	}
	if h.Failed() {
		return
	}
	total := 0
	for _, w := range ws {
		if w.st != nil {
			w.check("at the end")
			if err, _ := w.close(); err != nil {
				h.Fail("close", "close without faults failed: %v", err)
				return
			}
		}
	}
	for _, w := range ws {
		if err, _ := w.open(true); err != nil {
			h.Fail("open", "the final open failed: %v", err)
			return
		}
		opens++
		w.check("after the final open")
		total += w.ops
		h.Key("C06", len(w.m), len(w.ids), opens, shrinks)
	}
	h.nontrivial = total > 1 && opens > 1
	h.sample = fmt.Sprintf("%d files, %d changes, %d opens, %d closes that shrank, %d entries", n, total, opens, shrinks, len(ws[0].m))
}

// ---- C07 ----

func runC07(h *H) {
	t := h.T
	h.FS.Mkdir("/work")
	h.F.Short = t.Intn(4) == 1
	h.F.LateLoss = t.Intn(2) == 1
	w := newIndexWorld(h, "/work/a.index")
	legal := []imap{{}}
	mustOpen := true // nothing but faults may make the next open fail
	crashes, errs, refused, oks := 0, 0, 0, 0
	arm := func() {
		h.F.Clear()
		switch t.Pick(4, 3, 4) {
		case 1:
			h.F.CrashIn = h.Pos()
		case 2:
			h.F.ErrIn = h.Pos()
			switch t.Pick(3, 2, 1, 1, 1) {
			case 0:
				h.F.ErrKinds = map[string]bool{"read": true, "write": true, "seek": true, "open": true, "create": true, "close": true, "truncate": true}
			case 1:
				h.F.ErrKinds = map[string]bool{"read": true}
			case 2:
				h.F.ErrKinds = map[string]bool{"write": true}
			case 3:
				h.F.ErrKinds = map[string]bool{"seek": true}
			case 4:
				h.F.ErrKinds = map[string]bool{"close": true}
			}
			if t.Intn(4) == 1 {
				h.F.ErrN = 1 + t.Intn(5)
			}
		}
	}
	released := func(when string) {
		for _, n := range h.FS.OpenHandles(w.p) {
			if n == w.path {
				h.Fail("handle", "%s the file handle has not been released", when)
			}
		}
	}
	for i := 0; h.More(i, 16); i++ {
		t.Begin()
		h.S.SetMapMode(t.Intn(64))
		w.boot()
		before, _ := h.FS.Peek(w.path)
		arm()
		if i > 0 && i%4 == 0 {
			h.F.Clear()
		}
		err, died := w.open(t.Intn(2) == 1)
		inj := h.F.Injected
		readOnly := inj > 0 && len(h.F.ErrKinds) == 1 && h.F.ErrKinds["read"]
		h.F.Clear()
		if died {
			crashes++
			mustOpen = false
			t.End()
			continue
		}
		if err != nil {
			released("after a failed open")
			if inj == 0 && mustOpen {
				h.Fail("open", "an index that was closed properly does not open: %v", err)
				return
			}
			if readOnly {
				if after, _ := h.FS.Peek(w.path); string(after) != string(before) {
					h.Fail("changed", "an open that failed on a read error changed the file")
					return
				}
			} else if inj > 0 {
				mustOpen = false
			}
			errs += inj
			if inj == 0 {
				// Refused after a fault: start over.
				refused++
				h.FS.Delete(w.path)
				legal, mustOpen = []imap{{}}, true
			}
			h.Kill(w.p)
			t.End()
			continue
		}
		// Opened: the contents must be those of one whole session.
		oks++
		for _, l := range legal {
			for id := range l {
				w.ids[id] = true
			}
		}
		got, _ := w.contents()
		match := -1
		why := ""
		for k, l := range legal {
			if d := got.diff(l); d == "" {
				match = k
			} else if why == "" || k == len(legal)-1 {
				why = d
			}
		}
		if match < 0 {
			h.Fail("contents", "a reopened index has contents of no whole session (%d candidates): %s", len(legal), why)
			return
		}
		w.m = legal[match].clone()
		legal = []imap{legal[match]}
		mustOpen = false
		for j := 0; h.More(j, 10); j++ {
			w.mutate()
		}
		w.check("in session")
		if h.Failed() {
			return
		}
		if t.Intn(5) == 1 {
			h.Kill(w.p) // crash between operations
			crashes++
			t.End()
			continue
		}
		arm()
		err, died = w.close()
		inj = h.F.Injected
		h.F.Clear()
		errs += inj
		if died {
			crashes++
			legal = append(legal, w.m.clone())
			t.End()
			continue
		}
		released("after closing")
		if err == nil {
			legal, mustOpen = []imap{w.m.clone()}, true
		} else {
			if inj == 0 {
				h.Fail("close", "close without faults failed: %v", err)
				return
			}
			legal = append(legal, w.m.clone())
		}
		h.Kill(w.p)
		h.Key("C07", len(w.m), crashes, errs)
		t.End()
	}
	h.nontrivial = crashes+errs > 0 && oks > 0
	h.sample = fmt.Sprintf("%d opens, %d crashes, %d I/O errors, %d times refused and reset, %d entries", oks, crashes, errs, refused, len(w.m))
}

// ---- C05 ----

type image struct {
	data  []byte
	phase string // opening, open, closing, closed
	a, b  int    // numbers of the contents before and after the session
	what  string
}

// imager collects every state of a file.
type imager struct {
	h     *H
	path  string
	phase string
	a, b  int
	list  []image
	seen  map[string]bool
	rng   rt.Rng
	cap   int
}

func (g *imager) add(data []byte, what string) {
	key := g.phase + fmt.Sprint(g.a, ",", g.b, ":") + string(data)
	if g.seen[key] {
		return
	}
	g.seen[key] = true
	if len(g.list) >= g.cap {
		// Keep a fair sample.
		if k := g.rng.Intn(len(g.seen)); k < g.cap {
			g.list[k] = image{append([]byte(nil), data...), g.phase, g.a, g.b, what}
		}
		return
	}
	g.list = append(g.list, image{append([]byte(nil), data...), g.phase, g.a, g.b, what})
}

func (g *imager) now(what string) {
	if data, ok := g.h.FS.Peek(g.path); ok {
		g.add(data, what)
	}
}

func (g *imager) obs(op *simos.Op) {
	if op.Path != g.path || g.phase == "" {
		return
	}
	switch op.Kind {
	case "write":
		data, _ := g.h.FS.Peek(g.path)
		end := int(op.Off) + op.N
		full := make([]byte, end)
		copy(full, data)
		if len(data) > end {
			full = append(full[:end], data[end:]...)
		}
		step := 1
		if op.N > 24 {
			step = 1 + op.N/8
		}
		for k := 0; k <= op.N; k += step {
			if step > 1 && k > 0 {
				k -= g.rng.Intn(step)
			}
			img := append([]byte(nil), data...)
			for len(img) < int(op.Off)+k {
				img = append(img, 0)
			}
			copy(img[op.Off:], op.Data[:k])
			g.add(img, fmt.Sprintf("after %d of %d bytes of a write at %d", k, op.N, op.Off))
		}
		copy(full[op.Off:], op.Data)
		g.add(full, fmt.Sprintf("after a write of %d bytes at %d", op.N, op.Off))
	case "truncate":
		g.now("before a truncate")
		data, _ := g.h.FS.Peek(g.path)
		for int64(len(data)) < op.Off {
			data = append(data, 0)
		}
		g.add(data[:op.Off], fmt.Sprintf("after a truncate to %d", op.Off))
	default:
		g.now("at a " + op.Kind)
	}
}

func runC05(h *H) {
	t := h.T
	h.FS.Mkdir("/work")
	h.S.SetMapMode(t.Intn(1 << 10))
	g := &imager{h: h, seen: map[string]bool{}, cap: 160}
	g.rng.Seed(t.Intn(1 << 16))
	if t.Intn(2) == 0 {
		c05delta(h, g)
	} else {
		c05index(h, g)
	}
}

func c05delta(h *H, g *imager) {
	t := h.T
	w := newDeltaWorld(h, "/work/a.delta")
	w.ids = safeIDs
	g.path = w.path
	var contents []map[pair]domain.DeltaOp
	snap := func() int {
		m := map[pair]domain.DeltaOp{}
		for pr, op := range w.visible {
			m[pr] = op
		}
		contents = append(contents, m)
		return len(contents) - 1
	}
	clean := true
	closes, sessions, errs := 0, 0, 0
	h.F.Obs = g.obs
	for i := 0; h.More(i, 4); i++ {
		t.Begin()
		h.F.Clear()
		w.boot()
		if clean {
			w.setVisible()
		} else {
			data, _ := h.FS.Peek(w.path)
			w.visible = foldRecs(decodeDelta(data))
		}
		// The contents before: what a recovery of the file would keep.
		g.a, g.b, g.phase = snap(), -1, "opening"
		how := openMaybe
		if clean && t.Intn(2) == 1 {
			how = openPlain
		}
		err, _ := w.open(how)
		if err != nil {
			h.Fail("open", "opening without faults failed: %v", err)
			return
		}
		if !clean {
			w.m = map[pair]*hist{}
			w.visible = map[pair]domain.DeltaOp{}
			for pr, op := range contents[g.a] {
				w.m[pr] = &hist{ops: []domain.DeltaOp{op}, acked: 1}
				w.visible[pr] = op
			}
		}
		sessions++
		g.phase = "open"
		g.now("just opened")
		clean = false
		for j := 0; h.More(j, 8); j++ {
			t.Begin()
			switch t.Pick(6, 4, 1) {
			case 0:
				w.add(w.drawOp(), w.ids(t))
			case 1:
				h.F.Clear()
				if t.Intn(4) == 1 {
					h.F.ErrIn, h.F.ErrKinds = h.Pos(), map[string]bool{"write": true, "seek": true}
				}
				w.do("flush", func() { err = w.st.Flush() })
				errs += h.F.Injected
				h.Note("flush", err)
			case 2:
				w.bulk([]int{3, 30, 250}[t.Pick(5, 3, 1)])
			}
			t.End()
			h.F.Clear()
			g.now("in session")
		}
		if h.Failed() {
			return
		}
		switch t.Pick(4, 1, 1) {
		case 0:
			g.b = snap()
			g.phase = "closing"
			w.do("close", func() { err = w.st.Close() })
			if err != nil {
				h.Fail("close", "close without faults failed: %v", err)
				return
			}
			g.phase = "closed"
			g.now("just closed")
			clean = true
			closes++
			w.ack()
		case 1: // a close that fails
			g.b = snap()
			g.phase = "closing"
			h.F.ErrIn, h.F.ErrKinds = h.Pos(), map[string]bool{"write": true, "seek": true}
			w.do("close", func() { err = w.st.Close() })
			errs += h.F.Injected
			h.F.Clear()
			if err == nil {
				g.phase = "closed"
				g.now("just closed")
				clean = true
				closes++
				w.ack()
			}
		}
		g.phase = ""
		h.Kill(w.p)
		t.End()
	}
	h.F.Obs = nil
	h.F.Clear()
	for _, im := range g.list {
		if h.Failed() {
			return
		}
		p := h.Boot("inspector")
		h.FS.Put("/copy/x.delta", im.data)
		var st domain.DeltaStorage
		var err error
		h.Call(p, "inspect", func() {
			file, e := simos.OpenFile("/copy/x.delta", os.O_RDWR, 0644)
			if e != nil {
				err = e
				return
			}
			st, err = delta.NewStorageFactory().Open(file)
		})
		h.S.Stat("image." + im.phase)
		if err != nil {
			if im.phase == "closed" {
				h.Fail("refused", "a cleanly closed file does not open: %v", err)
			}
			h.Kill(p)
			continue
		}
		if im.phase == "open" {
			h.Fail("accepted", "a plain open of a copy made while the storage was open (%s) is not refused", im.what)
			return
		}
		want := contents[im.a]
		if im.phase != "opening" {
			want = contents[im.b]
		}
		var pl []pair
		for pr := range w.m {
			pl = append(pl, pr)
		}
		for pr := range want {
			if w.m[pr] == nil {
				pl = append(pl, pr)
			}
		}
		sort.Slice(pl, func(a, b int) bool { return pl[a].u < pl[b].u || pl[a].u == pl[b].u && pl[a].i < pl[b].i })
		bad := ""
		h.Call(p, "compare", func() {
			for _, pr := range pl {
				op, ok := st.Get(pr.u, pr.i)
				wop, wok := want[pr]
				if (ok != wok || ok && op != wop) && bad == "" {
					bad = fmt.Sprintf("pair (%d,%d) is %s instead of %s", pr.u, pr.i, opStr(op, ok), opStr(wop, wok))
				}
			}
			if n := st.GetTotalItemCount(); n < len(want) && bad == "" {
				bad = fmt.Sprintf("%d operations instead of at least %d", n, len(want))
			}
			us := map[uint64]bool{}
			for pr := range want {
				us[pr.u] = true
			}
			if n := st.GetUserCount(); n != len(us) && bad == "" {
				bad = fmt.Sprintf("%d users instead of %d", n, len(us))
			}
		})
		if bad != "" {
			h.Fail("contents", "a plain open of a copy made while %s (%s) succeeds with wrong contents: %s", im.phase, im.what, bad)
		}
		h.Kill(p)
	}
	h.nontrivial = len(g.list) > 4 && sessions > 0
	h.Key("C05d", len(g.list), sessions, closes, len(w.m))
	h.sample = fmt.Sprintf("delta: %d sessions, %d closes, %d I/O errors, %d distinct file states opened as copies", sessions, closes, errs, len(g.list))
}

func c05index(h *H, g *imager) {
	t := h.T
	w := newIndexWorld(h, "/work/a.index")
	g.path = w.path
	var contents []imap
	snap := func() int {
		contents = append(contents, w.m.clone())
		return len(contents) - 1
	}
	sessions, closes, errs := 0, 0, 0
	h.F.Obs = g.obs
	for i := 0; h.More(i, 4); i++ {
		t.Begin()
		h.F.Clear()
		w.boot()
		g.a, g.b, g.phase = snap(), -1, "opening"
		err, _ := w.open(t.Intn(2) == 1)
		if err != nil {
			h.Fail("open", "opening without faults failed: %v", err)
			return
		}
		sessions++
		g.phase = "open"
		g.now("just opened")
		for j := 0; h.More(j, 8); j++ {
			w.mutate()
			g.now("in session")
		}
		if h.Failed() {
			return
		}
		clean := false
		switch t.Pick(5, 1, 1) {
		case 0:
			g.b, g.phase = snap(), "closing"
			if err, _ = w.close(); err != nil {
				h.Fail("close", "close without faults failed: %v", err)
				return
			}
			clean = true
		case 1:
			g.b, g.phase = snap(), "closing"
			h.F.ErrIn, h.F.ErrKinds = h.Pos(), map[string]bool{"write": true, "seek": true}
			err, _ = w.close()
			errs += h.F.Injected
			h.F.Clear()
			clean = err == nil
		}
		if clean {
			g.phase = "closed"
			g.now("just closed")
			closes++
		}
		g.phase = ""
		h.Kill(w.p)
		if !clean {
			h.FS.Delete(w.path)
			w.m = imap{}
		}
		t.End()
	}
	h.F.Obs = nil
	h.F.Clear()
	all := w.ids
	for _, im := range g.list {
		if h.Failed() {
			return
		}
		h.FS.Put("/copy/x.index", im.data)
		x := newIndexWorld(h, "/copy/x.index")
		x.ids = all
		x.boot()
		h.S.Stat("image." + im.phase)
		err, _ := x.open(true)
		if err != nil {
			if im.phase == "closed" {
				h.Fail("refused", "a cleanly closed index does not open: %v", err)
			}
			h.Kill(x.p)
			continue
		}
		if im.phase == "open" {
			h.Fail("accepted", "a plain open of a copy made while the index was open (%s) is not refused", im.what)
			return
		}
		want := contents[im.a]
		if im.phase != "opening" {
			want = contents[im.b]
		}
		x.m = want
		got, _ := x.contents()
		if d := got.diff(want); d != "" {
			h.Fail("contents", "a plain open of a copy made while %s (%s) succeeds with wrong contents: %s", im.phase, im.what, d)
		}
		h.Kill(x.p)
	}
	h.nontrivial = len(g.list) > 4 && sessions > 0
	h.Key("C05i", len(g.list), sessions, closes, len(w.m))
	h.sample = fmt.Sprintf("index: %d sessions, %d closes, %d I/O errors, %d distinct file states opened as copies", sessions, closes, errs, len(g.list))
}

func init() {
	stub := []string{"file system (in memory: inodes, partial writes, errors, process crashes)", "process"}
	assume := []string{"a completed write survives a process crash (no power loss: the file interface has no sync)", "within one write call a crash leaves a prefix of the bytes"}
	register(&Prop{ID: "C05", Run: runC05, Quick: 20000, Thorough: 500000, Rule: "sessions on one delta or index file; the file's state before, after and at byte boundaries inside every write and truncate is copied and opened plainly; non-trivial: more than four distinct states", States: "(file states, sessions, closes, entries)", Real: []string{"internal/infra/delta (all)", "internal/infra/index (all)", "internal/helpers"}, Stub: stub, Assume: assume})
	register(&Prop{ID: "C06", Run: runC06, Quick: 30000, Thorough: 500000, Rule: "random histories of put/remove/get, bulk growth and shrinkage, close, reopen and restart on one or two index files; non-trivial: at least two changes and two opens", States: "(entries, ids used, opens, shrinking closes)", Real: []string{"internal/infra/index (all)"}, Stub: stub, Assume: assume})
	register(&Prop{ID: "C07", Run: runC07, Quick: 16000, Thorough: 900000, Rule: "lives of a process over one index file with a crash or I/O errors armed on opening and closing; non-trivial: at least one fault and one successful open", States: "(entries, crashes, errors)", Real: []string{"internal/infra/index (all)"}, Stub: stub, Assume: assume})
}

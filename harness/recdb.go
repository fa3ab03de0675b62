package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"runtime"
	"sort"

	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simos"
)

const rHeader = 5 + 14

// rrec is a record of a like database as the reference model sees it.
type rrec struct {
	cap     uint32
	deleted byte
	user    uint64
	likes   []uint64
	dis     []uint64
	off     int
	torn    bool
}

func (r *rrec) size() int { return 5 + 8 + 4 + 8*len(r.likes) + 4 + 8*len(r.dis) }

func (r *rrec) entry() *recdb.Entry {
	p := &domain.Profile{UserID: r.user, Likes: append([]uint64{}, r.likes...), Dislikes: append([]uint64{}, r.dis...)}
	return &recdb.Entry{Capacity: r.cap, Deleted: r.deleted, Data: p}
}

func (r *rrec) encode() []byte {
	b := binary.BigEndian.AppendUint32(nil, r.cap)
	b = append(b, r.deleted)
	b = binary.BigEndian.AppendUint64(b, r.user)
	b = binary.BigEndian.AppendUint32(b, uint32(len(r.likes)))
	for _, x := range r.likes {
		b = binary.BigEndian.AppendUint64(b, x)
	}
	b = binary.BigEndian.AppendUint32(b, uint32(len(r.dis)))
	for _, x := range r.dis {
		b = binary.BigEndian.AppendUint64(b, x)
	}
	for len(b) < int(r.cap) {
		b = append(b, 0)
	}
	return b
}

// differs describes how an entry differs from the record, or is empty.
func (r *rrec) differs(e *recdb.Entry) string {
	if e == nil {
		return "no record"
	}
	if e.Capacity != r.cap || e.Deleted != r.deleted {
		return fmt.Sprintf("capacity %d deleted %d instead of %d %d", e.Capacity, e.Deleted, r.cap, r.deleted)
	}
	p, ok := e.Data.(*domain.Profile)
	if !ok || p == nil {
		return fmt.Sprintf("data of type %T", e.Data)
	}
	if p.UserID != r.user {
		return fmt.Sprintf("user %d instead of %d", p.UserID, r.user)
	}
	eq := func(a, b []uint64) bool {
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	}
	if !eq(p.Likes, r.likes) || !eq(p.Dislikes, r.dis) {
		return fmt.Sprintf("other items: %d likes, %d dislikes; should be %d, %d", len(p.Likes), len(p.Dislikes), len(r.likes), len(r.dis))
	}
	return ""
}

func encodeRecdbHeader(locked byte, n uint32) []byte {
	b := append([]byte("RECDB"), 1)
	b = append(b, "LIKE    "...)
	b = append(b, locked)
	return binary.BigEndian.AppendUint32(b, n)
}

func drawItems(rng *rt.Rng, n int) []uint64 {
	r := make([]uint64, n)
	for i := range r {
		r[i] = rng.Uint64()
		if rng.Intn(3) == 0 {
			r[i] = uint64(rng.Intn(50))
		}
	}
	return r
}

func drawDeleted(rng *rt.Rng) byte {
	if rng.Intn(10) == 0 {
		return byte(rng.Intn(256))
	}
	return byte(rng.Intn(2))
}

// garble puts garbage where nothing is specified, behind the data of records.
func garble(rng *rt.Rng, img []byte, rs []*rrec) {
	for _, r := range rs {
		for i := r.off + r.size(); i < r.off+int(r.cap); i++ {
			img[i] = byte(rng.Intn(256))
		}
	}
}

// fill gives the record data that fits its capacity.
func (r *rrec) fill(t *rt.Tape, rng *rt.Rng) {
	r.fillN(rng, t.Intn(3))
}

func (r *rrec) fillN(rng *rt.Rng, how int) {
	room := (int(r.cap) - 5 - 16) / 8
	n := room
	switch how {
	case 0:
		n = rng.Intn(room + 1)
	case 1:
		n = 0
	}
	a := rng.Intn(n + 1)
	b := n - a
	switch rng.Intn(16) {
	case 1:
		a, b = n, 0
	case 2:
		a, b = 0, n
	case 3, 4:
		a, b = n/2, n/2
	}
	r.likes, r.dis = drawItems(rng, a), drawItems(rng, b)
	if a == b && rng.Intn(3) == 0 {
		copy(r.dis, r.likes)
	}
	r.user = rng.Uint64()
	r.deleted = drawDeleted(rng)
}

func drawRecs(t *rt.Tape, rng *rt.Rng, max int) []*rrec {
	n := t.Intn(max + 1)
	var rs []*rrec
	for k := 0; k < n; k++ {
		r := &rrec{}
		switch t.Pick(5, 3, 1, 1) {
		case 0:
			r.cap = uint32(21 + rng.Intn(80))
		case 1:
			r.cap = uint32(21 + rng.Intn(700))
		case 2:
			r.cap = uint32(3900 + rng.Intn(500))
		case 3:
			r.cap = uint32(4096 + rng.Intn(9000))
		}
		r.fill(t, rng)
		rs = append(rs, r)
	}
	return rs
}

func encodeRecdb(locked byte, rs []*rrec) []byte {
	b := encodeRecdbHeader(locked, uint32(len(rs)))
	for _, r := range rs {
		r.off = len(b)
		b = append(b, r.encode()...)
	}
	return b
}

// iterWorld is one database file with an iterator and the reference model.
type iterWorld struct {
	h    *H
	p    *rt.Proc
	path string
	rs   []*rrec
	img  []byte
	pos  int
	it   recdb.Iterator
	rng  rt.Rng
	f    *simos.File
}

func (w *iterWorld) build() {
	h, t := w.h, w.h.T
	h.FS.Mkdir("/work")
	w.path = "/work/a.recdb"
	w.rng.Seed(t.Intn(1 << 16))
	w.rs = drawRecs(t, &w.rng, []int{4, 12, 30}[t.Intn(3)])
	switch t.Pick(150, 2, 1) {
	case 1: // many records
		for k := []int{100, 700, 4000}[t.Pick(4, 2, 1)]; k > 0; k-- {
			r := &rrec{cap: uint32(21 + w.rng.Intn(50))}
			r.fillN(&w.rng, w.rng.Intn(3))
			w.rs = append(w.rs, r)
		}
		h.Stat("many-records")
	case 2: // a record of many items
		r := &rrec{cap: uint32([]int{40000, 140000, 700000}[t.Pick(4, 2, 1)] + w.rng.Intn(1000))}
		r.fillN(&w.rng, []int{2, 2, 0, 1}[w.rng.Intn(4)])
		k := t.Intn(len(w.rs) + 1)
		w.rs = append(w.rs[:k:k], append([]*rrec{r}, w.rs[k:]...)...)
		h.Stat("big-record")
	}
	w.img = encodeRecdb(0, w.rs)
	if t.Intn(3) == 1 { // the file is written by the code itself
		w.p = h.Boot("builder")
		ok := h.Call(w.p, "build", func() {
			proto := recdb.NewProtocol(recdb.NewLikeProtocol())
			f, err := simos.OpenFile(w.path, os.O_RDWR|os.O_CREATE, 0644)
			if err == nil {
				_, err = proto.WritePrefix(f)
			}
			if err == nil {
				_, err = proto.WriteHeader(&recdb.Header{Version: 1, EntryType: [8]byte{'L', 'I', 'K', 'E', ' ', ' ', ' ', ' '}, NumEntries: uint32(len(w.rs))}, f)
			}
			for _, r := range w.rs {
				if err == nil {
					_, err = proto.WriteEntry(r.entry(), f)
				}
			}
			f.Close()
			if err != nil {
				h.Fail("build", "writing a database without faults failed: %v", err)
			}
		})
		if !ok || h.Failed() {
			return
		}
		if data, _ := h.FS.Peek(w.path); !bytes.Equal(data, w.img) {
			h.Fail("build", "a database of %d records was written as %d bytes that differ from the documented layout (%d bytes)", len(w.rs), len(data), len(w.img))
			return
		}
	} else {
		for k := t.Intn(2) * t.Intn(60); k > 0; k-- { // something after the last record
			w.img = append(w.img, byte(w.rng.Intn(256)))
		}
		if t.Intn(4) == 1 {
			garble(&w.rng, w.img, w.rs)
		}
		h.FS.Put(w.path, w.img)
	}
	w.p = h.Boot("shard")
}

func (w *iterWorld) openFile() error {
	var err error
	w.h.Call(w.p, "openfile", func() { w.f, err = simos.OpenFile(w.path, os.O_RDWR, 0644) })
	return err
}

func (w *iterWorld) newIter() (err error) {
	var it recdb.Iterator
	w.h.Call(w.p, "newiter", func() { it, err = recdb.NewIterator(w.f, recdb.NewProtocol(recdb.NewLikeProtocol())) })
	w.h.Note("iter.new", err)
	if err == nil {
		w.it, w.pos = it, 0
	}
	return err
}

func (w *iterWorld) hasNext() {
	var got bool
	w.h.Call(w.p, "hasnext", func() { got = w.it.HasNext() })
	if got != (w.pos < len(w.rs)) {
		w.h.Fail("hasnext", "HasNext is %v at record %d of %d", got, w.pos, len(w.rs))
	}
}

func (w *iterWorld) next() (e *recdb.Entry, err error) {
	w.h.Call(w.p, "next", func() { e, err = w.it.Next() })
	w.h.Note("iter.next", w.pos, err)
	return
}

func (w *iterWorld) rewind() (err error) {
	w.h.Call(w.p, "rewind", func() { err = w.it.Rewind() })
	w.h.Note("iter.rewind", err)
	return
}

func (w *iterWorld) set(e *recdb.Entry) (err error) {
	w.h.Call(w.p, "setprevious", func() { err = w.it.SetPrevious(e) })
	w.h.Note("iter.set", w.pos-1, err)
	return
}

// compareFile checks every byte outside record k (-1: all bytes).
func (w *iterWorld) compareFile(k int, when string) {
	data, _ := w.h.FS.Peek(w.path)
	if len(data) != len(w.img) {
		w.h.Fail("damage", "%s the file has %d bytes instead of %d", when, len(data), len(w.img))
		return
	}
	for i := range data {
		if data[i] != w.img[i] {
			if k >= 0 && i >= w.rs[k].off && i < w.rs[k].off+int(w.rs[k].cap) {
				continue
			}
			w.h.Fail("damage", "%s byte %d of the file changed (record being rewritten: %d)", when, i, k)
			return
		}
	}
	w.img = data
}

// slotHolds checks that the bytes of record k decode to it.
func (w *iterWorld) slotHolds(k int) {
	r := w.rs[k]
	data, _ := w.h.FS.Peek(w.path)
	if !bytes.Equal(data[r.off:r.off+r.size()], r.encode()[:r.size()]) {
		w.h.Fail("rewrite", "record %d does not hold what it was rewritten with", k)
	}
}

// badSet tries a rewrite that must be refused.
func (w *iterWorld) badSet() {
	t := w.h.T
	if w.pos == 0 {
		r := &rrec{cap: 50}
		r.fill(t, &w.rng)
		if len(w.rs) > 0 {
			r.cap = w.rs[0].cap
			r.likes, r.dis = nil, nil
		}
		if err := w.set(r.entry()); err == nil {
			w.h.Fail("accepted", "a rewrite without a previous record is not refused")
		}
	} else {
		prev := w.rs[w.pos-1]
		r := &rrec{cap: prev.cap}
		if t.Intn(2) == 0 {
			r.fill(t, &w.rng)
			r.cap += uint32(1 + t.Intn(8))
			if t.Intn(2) == 1 && prev.cap > 60 {
				r.cap = prev.cap - uint32(1+t.Intn(8))
				r.likes, r.dis = nil, nil
			}
			if err := w.set(r.entry()); err == nil {
				w.h.Fail("accepted", "a rewrite of a record of capacity %d with capacity %d is not refused", prev.cap, r.cap)
			}
		} else {
			room := (int(r.cap) - 21) / 8
			n := room + 1 + t.Intn(3)
			a := t.Intn(n + 1)
			r.likes, r.dis = drawItems(&w.rng, a), drawItems(&w.rng, n-a)
			r.user = w.rng.Uint64()
			if err := w.set(r.entry()); err == nil {
				w.h.Fail("accepted", "data of %d bytes is not refused for a record of capacity %d", r.size(), r.cap)
			}
		}
	}
	w.compareFile(-1, "after a refused rewrite")
}

func runC08(h *H) {
	t := h.T
	h.F.Short = t.Intn(2) == 1
	w := &iterWorld{h: h}
	w.build()
	if h.Failed() {
		return
	}
	if err := w.openFile(); err != nil {
		h.Fail("open", "%v", err)
		return
	}
	if err := w.newIter(); err != nil {
		h.Fail("open", "iterating an unlocked database failed: %v", err)
		return
	}
	sets, nexts, rewinds := 0, 0, 0
	for i := 0; h.More(i, 70); i++ {
		t.Begin()
		w.hasNext()
		switch t.Pick(24, 12, 4, 4, 2, 1) {
		case 5:
			every := []int{0, 1, 2, 64, 256}[t.Intn(5)] // how often one is rewritten too
			for k := t.Intn([]int{200, 800}[t.Intn(2)]); k > 0 && w.pos < len(w.rs) && !h.Failed(); k-- {
				e, err := w.next()
				nexts++
				if err != nil {
					h.Fail("next", "reading record %d of %d failed: %v", w.pos, len(w.rs), err)
				} else if d := w.rs[w.pos].differs(e); d != "" {
					h.Fail("record", "record %d: %s", w.pos, d)
				}
				w.pos++
				if every == 0 || w.pos%every != 0 || h.Failed() {
					continue
				}
				r := w.rs[w.pos-1]
				r.fill(t, &w.rng)
				if err := w.set(r.entry()); err != nil {
					h.Fail("set", "rewriting record %d (capacity %d, %d bytes) failed: %v", w.pos-1, r.cap, r.size(), err)
					break
				}
				sets++
				w.compareFile(w.pos-1, "after a rewrite")
				if !h.Failed() {
					w.slotHolds(w.pos - 1)
				}
			}
		case 0:
			e, err := w.next()
			nexts++
			if w.pos >= len(w.rs) {
				if err == nil {
					h.Fail("end", "a record is returned after the last one")
				}
				break
			}
			if err != nil {
				h.Fail("next", "reading record %d of %d failed: %v", w.pos, len(w.rs), err)
				break
			}
			if d := w.rs[w.pos].differs(e); d != "" {
				h.Fail("record", "record %d: %s", w.pos, d)
				break
			}
			w.pos++
		case 1:
			if w.pos == 0 {
				w.badSet()
				break
			}
			r := w.rs[w.pos-1]
			r.fill(t, &w.rng)
			if err := w.set(r.entry()); err != nil {
				h.Fail("set", "rewriting record %d (capacity %d, %d bytes) failed: %v", w.pos-1, r.cap, r.size(), err)
				break
			}
			sets++
			w.compareFile(w.pos-1, "after a rewrite")
			if !h.Failed() {
				w.slotHolds(w.pos - 1)
			}
		case 2:
			if err := w.rewind(); err != nil {
				h.Fail("rewind", "rewind without faults failed: %v", err)
			}
			rewinds++
			w.pos = 0
		case 3:
			w.badSet()
		case 4:
			if err := w.newIter(); err != nil {
				h.Fail("open", "a second iterator failed: %v", err)
			}
		}
		t.End()
	}
	// A last pass over everything, with a fresh iterator.
	if !h.Failed() {
		if err := w.newIter(); err != nil {
			h.Fail("open", "the last iterator failed: %v", err)
			return
		}
		for w.pos < len(w.rs) && !h.Failed() {
			e, err := w.next()
			if err != nil {
				h.Fail("next", "last pass: reading record %d failed: %v", w.pos, err)
			} else if d := w.rs[w.pos].differs(e); d != "" {
				h.Fail("record", "last pass: record %d: %s", w.pos, d)
			}
			w.pos++
		}
		w.hasNext()
		w.compareFile(-1, "after the last pass")
	}
	h.nontrivial = len(w.rs) > 1 && sets > 0 && nexts > 1
	h.Key("C08", len(w.img), sets, nexts, rewinds)
	h.sample = fmt.Sprintf("%d records in %d bytes, %d reads, %d rewrites, %d rewinds", len(w.rs), len(w.img), nexts, sets, rewinds)
}

func runC09(h *H) {
	t := h.T
	w := &iterWorld{h: h}
	w.build()
	if h.Failed() {
		return
	}
	h.F.Short = t.Intn(3) == 1
	if err := w.openFile(); err != nil {
		h.Fail("open", "%v", err)
		return
	}
	faults, calls, repairs := 0, 0, 0
	arm := func() {
		h.F.Clear()
		if t.Intn(2) == 1 {
			h.F.ErrIn = 1 + t.Intn([]int{2, 5, 20}[t.Pick(3, 2, 1)])
			h.F.ErrKinds = map[string]bool{"read": true, "write": true, "seek": true}
			if t.Intn(4) == 1 {
				h.F.ErrN = 1 + t.Intn(4)
			}
		}
	}
	// outcome judges a call that may have met a fault.
	outcome := func(what string, err error) bool {
		inj := h.F.Injected
		h.F.Clear()
		faults += inj
		calls++
		if err == nil && inj > 0 {
			h.Fail("unreported", "%s met an I/O error and reported success", what)
		}
		if err != nil && inj == 0 {
			h.Fail("unexpected", "%s failed without an I/O error: %v", what, err)
		}
		return err == nil
	}
	for k := 0; w.it == nil && !h.Failed(); k++ {
		if k < 3 {
			arm()
		}
		outcome("opening an iterator", w.newIter())
	}
	for i := 0; h.More(i, 60); i++ {
		t.Begin()
		w.hasNext()
		switch t.Pick(10, 6, 2, 1) {
		case 0:
			if w.pos >= len(w.rs) {
				break
			}
			r := w.rs[w.pos]
			if r.torn { // nobody repaired it: anything goes for this one record
				if _, err := w.next(); err != nil {
					if w.rewind() != nil {
						h.Fail("unexpected", "rewind without an I/O error failed")
					}
					w.pos = 0
					i = 1000
					break
				}
				w.pos++
				break
			}
			arm()
			e, err := w.next()
			if !outcome("reading a record", err) {
				break
			}
			if d := r.differs(e); d != "" {
				h.Fail("record", "record %d: %s", w.pos, d)
			}
			w.pos++
		case 1:
			if w.pos == 0 {
				break
			}
			k := w.pos - 1
			r := w.rs[k]
			r.fill(t, &w.rng)
			e := r.entry()
			for try := 0; ; try++ {
				if try < 3 {
					arm()
				}
				ok := outcome("rewriting a record", w.set(e))
				if h.Failed() {
					break
				}
				w.compareFile(k, "after a rewrite that met an I/O error or not")
				if h.Failed() {
					break
				}
				if ok {
					w.slotHolds(k)
					r.torn = false
					break
				}
				repairs++
				r.torn = true
				if t.Intn(4) == 1 {
					break // leave it for now
				}
			}
		case 2:
			arm()
			if outcome("rewinding", w.rewind()) {
				w.pos = 0
			}
		case 3:
			// A failed one has moved the file, so the old iterator needs it to succeed.
			for k := 0; !h.Failed(); k++ {
				if k < 3 {
					arm()
				}
				if outcome("opening an iterator", w.newIter()) {
					break
				}
			}
		}
		t.End()
	}
	h.F.Clear()
	h.nontrivial = faults > 0 && calls > 1
	h.Key("C09", len(w.img), faults, repairs, calls)
	h.sample = fmt.Sprintf("%d records, %d calls, %d I/O errors, %d failed rewrites", len(w.rs), calls, faults, repairs)
}

// ---- C10 ----

func damageBytes(t *rt.Tape, rng *rt.Rng, img []byte, fields []int) []byte {
	for i := 0; i == 0 || i < 6 && t.Intn(2) == 1; i++ {
		t.Begin()
		switch t.Pick(4, 4, 3, 2, 1, 1) {
		case 0:
			if len(img) > 0 {
				img[t.Intn(len(img))] ^= byte(1 << uint(t.Intn(8)))
			}
		case 1: // a four-byte field
			if len(fields) > 0 {
				o := fields[t.Intn(len(fields))]
				if o+4 <= len(img) {
					v := []uint32{0, 1, 4, 5, 20, uint32(len(img)), uint32(2 * len(img)), 1 << 16, 1 << 20, 1 << 24, 1<<24 + 5, 1 << 27, 1 << 29, 1<<31 - 1, 1 << 31, ^uint32(0), ^uint32(0) - 4}[t.Intn(17)]
					binary.BigEndian.PutUint32(img[o:], v)
				}
			}
		case 2:
			img = img[:t.Intn(len(img)+1)]
		case 3:
			if len(img) > 0 {
				a := t.Intn(len(img))
				n := 1 + t.Intn(40)
				v := []byte{0, 0xff, 1, 'R'}[t.Intn(4)]
				for k := a; k < a+n && k < len(img); k++ {
					img[k] = v
				}
			}
		case 4:
			for k := 1 + t.Intn(100); k > 0; k-- {
				img = append(img, byte(rng.Intn(256)))
			}
		case 5: // the first bytes
			for k := 0; k < 20 && k < len(img); k++ {
				if rng.Intn(4) == 0 {
					img[k] = byte(rng.Intn(256))
				}
			}
		}
		t.End()
	}
	return img
}

func firstDiff(a, b []byte) int {
	for i := range a {
		if i >= len(b) || a[i] != b[i] {
			return i
		}
	}
	return len(a)
}

// measured runs f in a fresh process and returns how much it allocated.
func (h *H) measured(p *rt.Proc, f func()) (uint64, bool) {
	var a, b runtime.MemStats
	runtime.ReadMemStats(&a)
	ok := h.Call(p, "open", f)
	runtime.ReadMemStats(&b)
	return b.TotalAlloc - a.TotalAlloc, ok
}

// storedDelta are the entries of an unlocked delta file (nil if it is none or
// is too short for them), whether their checksums are right or not.
func storedDelta(b []byte) []drec {
	if len(b) == 0 {
		return []drec{}
	}
	if len(b) < dHeader || !bytes.Equal(b[:8], []byte("RECDELTA")) || b[9] != 0 {
		return nil
	}
	n := int64(binary.BigEndian.Uint32(b[10:]))
	if int64(len(b)) < dHeader+n*dEntry {
		return nil
	}
	r := make([]drec, 0, n)
	for e := b[dHeader:]; int64(len(r)) < n; e = e[dEntry:] {
		r = append(r, drec{e[0], binary.BigEndian.Uint64(e[1:]), binary.BigEndian.Uint64(e[9:])})
	}
	return r
}

// storedIndex are the entries of an unlocked index file (nil if it is none or
// is too short for them).
func storedIndex(b []byte) map[uint64]uint64 {
	if len(b) == 0 {
		return map[uint64]uint64{}
	}
	if len(b) < 12 || !bytes.Equal(b[:6], []byte("RECIDX")) || b[7] != 0 {
		return nil
	}
	n := int64(binary.BigEndian.Uint32(b[8:]))
	if int64(len(b)) < 12+n*16 {
		return nil
	}
	r := map[uint64]uint64{}
	for e := b[12:]; n > 0; n, e = n-1, e[16:] {
		r[binary.BigEndian.Uint64(e)] = binary.BigEndian.Uint64(e[8:])
	}
	return r
}

func runC10(h *H) {
	t := h.T
	if t.Intn(12) == 1 {
		h.damagedRegistry()
		return
	}
	h.FS.Mkdir("/work")
	h.S.Cfg.MaxYields = 60000000
	h.F.Short = t.Intn(4) == 1
	var rng rt.Rng
	rng.Seed(t.Intn(1 << 16))
	kind := t.Intn(3)
	n := t.Intn([]int{3, 12, 120, 3000}[t.Pick(120, 90, 30, 1)] + 1)
	if kind == 2 && n > 120 {
		n = 120
	}
	var orig []byte
	var fields []int
	var rs []*rrec
	path := "/work/x"
	switch kind {
	case 0:
		var ds []drec
		for k := 0; k < n; k++ {
			ds = append(ds, drec{[]byte{'+', '-'}[rng.Intn(2)], uint64(rng.Intn(9)), rng.Uint64()})
		}
		orig = encodeDelta(byte(t.Intn(2)), uint32(n), ds)
		fields = []int{10}
	case 1:
		orig = append([]byte("RECIDX"), 1, byte(t.Pick(3, 1)))
		orig = binary.BigEndian.AppendUint32(orig, uint32(n))
		for k := 0; k < n; k++ {
			orig = binary.BigEndian.AppendUint64(orig, uint64(k+1))
			orig = binary.BigEndian.AppendUint64(orig, rng.Uint64())
		}
		fields = []int{8}
	case 2:
		rs = drawRecs(t, &rng, n)
		if t.Intn(100) == 1 {
			r := &rrec{cap: uint32(40000 + 12000*rng.Intn(60))}
			r.fillN(&rng, 2)
			k := t.Intn(len(rs) + 1)
			rs = append(rs[:k:k], append([]*rrec{r}, rs[k:]...)...)
		}
		orig = encodeRecdb(0, rs)
		fields = []int{15}
		for _, r := range rs {
			fields = append(fields, r.off, r.off+13, r.off+17+8*len(r.likes))
		}
	}
	img := damageBytes(t, &rng, append([]byte(nil), orig...), fields)
	h.FS.Put(path, img)
	h.Note("image", kind, n, len(orig), len(img))
	limit := uint64(4<<20) + 400*uint64(len(img))
	p := h.Boot("shard")
	var alloc uint64
	var outcome string
	var refused bool
	switch kind {
	case 0:
		how := t.Intn(3)
		var err error
		alloc, _ = h.measured(p, func() {
			f, e := simos.OpenFile(path, os.O_RDWR, 0644)
			if e != nil {
				return
			}
			fac := delta.NewStorageFactory()
			var st domain.DeltaStorage
			switch how {
			case 0:
				st, err = fac.Open(f)
			case 1:
				st, err = fac.OpenMaybeRecover(f)
			case 2:
				if err = fac.Recover(f); err == nil {
					st, err = fac.Open(f)
				}
			}
			if err == nil {
				for u := uint64(0); u < 9; u++ {
					st.Get(u, 1)
				}
				st.GetUserCount()
				want := storedDelta(img)
				if how != 0 {
					// What C03 says of a recovery is not repeated here.
					want = nil
				} else if want == nil {
					h.Fail("opened", "a delta file of %d bytes that is locked, of another format or shorter than its entry count says was opened", len(img))
					return
				}
				if want != nil {
					m := foldRecs(want)
					if n := st.GetTotalItemCount(); n != len(want) {
						h.Fail("contents", "a file with %d entries was opened with %d", len(want), n)
						return
					}
					for _, k := range sortedPairs(m) {
						if op, ok := st.Get(k.u, k.i); !ok || op != m[k] {
							h.Fail("contents", "a damaged file was opened but its entry (%d,%d) %q reads %q %v", k.u, k.i, m[k], op, ok)
							return
						}
					}
				}
				err = st.Close()
			} else if how == 0 {
				refused = true
			}
		})
		outcome = fmt.Sprint(how, err)
	case 1:
		var err error
		alloc, _ = h.measured(p, func() {
			var st domain.IndexStorage
			st, err = index.NewStorageFactory().OpenFile(path)
			refused = err != nil
			if err == nil {
				for k := uint64(0); k < 9; k++ {
					st.Get(k)
				}
				want := storedIndex(img)
				if want == nil {
					h.Fail("opened", "an index file of %d bytes that is locked, of another format or shorter than its entry count says was opened", len(img))
					return
				}
				for k := uint64(0); k < uint64(n)+9; k++ {
					v, ok := st.Get(k)
					if w, has := want[k]; ok != has || v != w {
						h.Fail("contents", "a damaged index was opened but %d reads %d %v; stored is %d %v", k, v, ok, w, has)
						return
					}
				}
				err = st.Close()
			}
		})
		outcome = fmt.Sprint(err)
	case 2:
		var got []*recdb.Entry
		var err error
		ended := false
		again := t.Intn(2) == 1
		alloc, _ = h.measured(p, func() {
			f, e := simos.OpenFile(path, os.O_RDWR, 0644)
			if e != nil {
				return
			}
			var it recdb.Iterator
			it, err = recdb.NewIterator(f, recdb.NewProtocol(recdb.NewLikeProtocol()))
			if err != nil {
				return
			}
			for len(got) < len(rs)+3 && it.HasNext() {
				var e *recdb.Entry
				e, err = it.Next()
				if err != nil {
					break
				}
				got = append(got, e)
			}
			ended = err == nil && !it.HasNext()
			if again {
				it.HasNext()
				it.Next()
			}
		})
		outcome = fmt.Sprint(len(got), err)
		if ended {
			if c := binary.BigEndian.Uint32(img[rHeader-4:]); uint64(c) != uint64(len(got)) {
				h.Fail("ended", "a damaged file that says it has %d records ended without an error after %d", c, len(got))
				return
			}
		}
		fd := firstDiff(orig, img)
		if fd == len(orig) && len(img) > len(orig) {
			fd = len(img)
		}
		intact := 0
		if fd >= rHeader {
			for _, r := range rs {
				if r.off+int(r.cap) <= fd {
					intact++
				}
			}
		}
		for k, e := range got {
			if prof, ok := e.Data.(*domain.Profile); !ok || int64(5+16+8*(len(prof.Likes)+len(prof.Dislikes))) > int64(e.Capacity) {
				h.Fail("capacity", "record %d of a damaged file holds more data than its capacity %d", k, e.Capacity)
				return
			}
			if k < intact {
				if d := rs[k].differs(e); d != "" {
					h.Fail("record", "record %d lies before the first damaged byte %d but is returned differently: %s", k, fd, d)
					return
				}
			}
		}
		if len(got) < intact {
			h.Fail("record", "%d records lie before the first damaged byte %d but only %d are returned: %v", intact, fd, len(got), err)
			return
		}
	}
	if now, _ := h.FS.Peek(path); (refused || kind == 2) && !bytes.Equal(now, img) {
		what := "refusing to open it"
		if kind == 2 {
			what = "reading it"
		}
		h.Fail("changed", "%s changed a damaged file of %d bytes from byte %d on", what, len(img), firstDiff(img, now))
		return
	}
	if alloc > limit {
		h.Fail("allocation", "opening and reading a damaged file of %d bytes allocated more than %d bytes", len(img), limit)
		return
	}
	for _, live := range p.Live() {
		if !live.Done() {
			h.Fail("hang", "opening a damaged file does not end")
		}
	}
	h.nontrivial = !bytes.Equal(orig, img)
	h.Key("C10", kind, len(img), firstDiff(orig, img), outcome == "")
	h.sample = fmt.Sprintf("format %d, %d bytes, damaged from byte %d to %d bytes: %.60s", kind, len(orig), firstDiff(orig, img), len(img), outcome)
}

// ---- C11 ----

// eofReader returns the last bytes together with io.EOF, as readers may.
type eofReader struct{ b []byte }

func (r *eofReader) Read(p []byte) (int, error) {
	n := copy(p, r.b)
	r.b = r.b[n:]
	if len(r.b) == 0 {
		return n, io.EOF
	}
	return n, nil
}

// createByName lets the database protocol make a missing file, or open one that
// is there.
func createByName(h *H, p *rt.Proc, rp recdb.Protocol) {
	c, ok := rp.(interface {
		OpenOrCreateFile(string) (*simos.File, error)
	})
	if !ok {
		return
	}
	t := h.T
	const path = "/work/made"
	h.FS.Delete(path)
	want := encodeRecdbHeader(0, 0)
	there := t.Intn(3) == 1
	if there {
		h.FS.Put(path, want)
	}
	h.F.Clear()
	if t.Intn(2) == 1 {
		h.F.ErrIn, h.F.ErrKinds = 1+t.Intn(3), map[string]bool{"write": true, "create": true, "open": true}
	}
	var f *simos.File
	var err error
	var got []byte
	h.Call(p, "make", func() { f, err = c.OpenOrCreateFile(path) })
	inj := h.F.Injected
	h.F.Clear()
	h.Note("made", there, err, inj)
	after, is := h.FS.Peek(path)
	switch {
	case inj > 0 && err == nil:
		h.Fail("unreported", "creating a database file met an error and reported success")
	case inj == 0 && err != nil:
		h.Fail("unexpected", "creating a database file failed without a fault: %v", err)
	case err == nil && (!is || !bytes.Equal(after, want)):
		h.Fail("incomplete", "creating a database file reported success but the file holds %d bytes, should hold %d", len(after), len(want))
	case err == nil:
		h.Call(p, "read", func() {
			got, err = io.ReadAll(f)
			f.Close()
		})
		if err != nil || !bytes.Equal(got, want) {
			h.Fail("readback", "a new database file reads back as %d bytes (%v), should have %d", len(got), err, len(want))
		}
	case f != nil:
		h.Call(p, "close", func() { f.Close() })
	}
}

func runC11(h *H) {
	t := h.T
	h.FS.Mkdir("/work")
	h.F.Short = t.Intn(3) == 1
	var rng rt.Rng
	rng.Seed(t.Intn(1 << 16))
	p := h.Boot("shard")
	dp, ip, rp := delta.NewProtocol(), index.NewProtocol(), recdb.NewProtocol(recdb.NewLikeProtocol())
	const path = "/work/x"
	h.FS.Put(path, nil)
	var f *simos.File
	h.Call(p, "open", func() { f, _ = simos.OpenFile(path, os.O_RDWR, 0644) })
	if f == nil {
		h.Fail("open", "cannot open the scratch file")
		return
	}
	oks, fails, refused := 0, 0, 0
	for i := 0; h.More(i, 24); i++ {
		t.Begin()
		before, _ := h.FS.Peek(path)
		var off int64
		h.Call(p, "pos", func() { off, _ = f.Seek(0, io.SeekCurrent) })
		var want []byte
		var write func() error
		var read func(r io.Reader) string // reads back and describes a difference
		what := ""
		mustRefuse := false
		lock := 0
		fault := t.Intn(2) == 1
		switch op := t.Intn(16); op {
		case 15:
			createByName(h, p, rp)
		case 0:
			what, want = "delta prefix", []byte("RECDELTA")
			write = func() error { return dp.WritePrefix(f) }
			read = func(r io.Reader) string { return errStr(dp.ReadPrefix(r)) }
		case 1:
			hd := delta.Header{Version: byte(rng.Intn(256)), Locked: byte(rng.Intn(2)), NumEntries: uint32(rng.Uint64())}
			what, want = "delta header", binary.BigEndian.AppendUint32([]byte{hd.Version, hd.Locked}, hd.NumEntries)
			write = func() error { return dp.WriteHeader(&hd, f) }
			read = func(r io.Reader) string {
				var x delta.Header
				if err := dp.ReadHeader(&x, r); err != nil || x != hd {
					return fmt.Sprint(x, err)
				}
				return ""
			}
		case 2, 3:
			e := delta.Entry{Op: domain.DeltaOp([]byte{'+', '-'}[rng.Intn(2)]), UserID: rng.Uint64(), ItemID: rng.Uint64() >> uint(rng.Intn(60))}
			img := encodeDelta(0, 0, []drec{{byte(e.Op), e.UserID, e.ItemID}})
			what, want = "delta entry", img[dHeader:]
			write = func() error { return dp.WriteEntry(&e, f) }
			read = func(r io.Reader) string {
				var x delta.Entry
				if err := dp.ReadEntry(&x, r); err != nil || x.Op != e.Op || x.UserID != e.UserID || x.ItemID != e.ItemID || !dp.ValidateEntryChecksum(&x) {
					return fmt.Sprint(x, err)
				}
				return ""
			}
		case 4:
			what, want = "index prefix", []byte("RECIDX")
			write = func() error { _, err := ip.WritePrefix(f); return err }
			read = func(r io.Reader) string { _, err := ip.ReadPrefix(r); return errStr(err) }
		case 5:
			hd := index.Header{Version: byte(rng.Intn(256)), Locked: byte(rng.Intn(2)), NumEntries: uint32(rng.Uint64())}
			what, want = "index header", binary.BigEndian.AppendUint32([]byte{hd.Version, hd.Locked}, hd.NumEntries)
			write = func() error { _, err := ip.WriteHeader(&hd, f); return err }
			read = func(r io.Reader) string {
				var x index.Header
				if _, err := ip.ReadHeader(&x, r); err != nil || x != hd {
					return fmt.Sprint(x, err)
				}
				return ""
			}
		case 6:
			e := index.Entry{ID: rng.Uint64(), Index: rng.Uint64() >> uint(rng.Intn(60))}
			what, want = "index entry", binary.BigEndian.AppendUint64(binary.BigEndian.AppendUint64(nil, e.ID), e.Index)
			write = func() error { _, err := ip.WriteEntry(&e, f); return err }
			read = func(r io.Reader) string {
				var x index.Entry
				if _, err := ip.ReadEntry(&x, r); err != nil || x != e {
					return fmt.Sprint(x, err)
				}
				return ""
			}
		case 7:
			what, want = "database prefix", []byte("RECDB")
			write = func() error { _, err := rp.WritePrefix(f); return err }
			read = func(r io.Reader) string { _, err := rp.ReadPrefix(r); return errStr(err) }
		case 8:
			hd := recdb.Header{Version: byte(rng.Intn(256)), Locked: byte(rng.Intn(2)), NumEntries: uint32(rng.Uint64())}
			for k := range hd.EntryType {
				hd.EntryType[k] = byte(rng.Intn(256))
			}
			what = "database header"
			want = append([]byte{hd.Version}, hd.EntryType[:]...)
			want = binary.BigEndian.AppendUint32(append(want, hd.Locked), hd.NumEntries)
			write = func() error { _, err := rp.WriteHeader(&hd, f); return err }
			read = func(r io.Reader) string {
				var x recdb.Header
				if _, err := rp.ReadHeader(&x, r); err != nil || x != hd {
					return fmt.Sprint(x, err)
				}
				return ""
			}
		case 9, 10:
			rec := &rrec{cap: uint32(21 + rng.Intn([]int{60, 900, 9000, 150000}[t.Pick(8, 8, 8, 1)]))}
			rec.fill(t, &rng)
			what, want = "database record", rec.encode()
			e := rec.entry()
			write = func() error { _, err := rp.WriteEntry(e, f); return err }
			read = func(r io.Reader) string {
				var x recdb.Entry
				if _, err := rp.ReadEntry(&x, r); err != nil {
					return err.Error()
				}
				return rec.differs(&x)
			}
		case 11:
			rec := &rrec{cap: uint32(21 + rng.Intn(200))}
			m := (int(rec.cap)-21)/8 + 1 + t.Intn(2)*t.Intn(40)
			a := rng.Intn(m + 1)
			rec.likes, rec.dis = drawItems(&rng, a), drawItems(&rng, m-a)
			if t.Intn(4) == 1 {
				rec.cap = uint32(t.Intn(21))
			}
			e := rec.entry()
			what, mustRefuse, fault = fmt.Sprintf("database record of %d bytes into capacity %d", rec.size(), rec.cap), true, false
			write = func() error { _, err := rp.WriteEntry(e, f); return err }
		case 12:
			what, want = "database creation", encodeRecdbHeader(0, 0)
			write = func() error { return rp.Create(f) }
			read = func(r io.Reader) string {
				var x recdb.Header
				if _, err := rp.ReadPrefix(r); err != nil {
					return err.Error()
				}
				_, err := rp.ReadHeader(&x, r)
				return errStr(err)
			}
		case 13, 14:
			lock = 1 + t.Intn(3)
			what = "lock flag"
		}
		if len(want) > 0 || mustRefuse {
			writes := 0
			h.F.Clear()
			h.F.Obs = func(op *simos.Op) {
				if op.Kind == "write" && op.N > 0 {
					writes++
				}
			}
			if fault {
				h.F.ErrIn, h.F.ErrKinds = 1+t.Intn([]int{1, 3, 8}[t.Intn(3)]), map[string]bool{"write": true}
			}
			var err error
			h.Call(p, "write", func() { err = write() })
			h.F.Obs = nil
			inj := h.F.Injected
			h.F.Clear()
			h.Note("wrote", what, err, inj)
			after, _ := h.FS.Peek(path)
			switch {
			case mustRefuse:
				refused++
				if err == nil || writes > 0 || !bytes.Equal(before, after) {
					h.Fail("oversize", "%s: error %v, %d writes reached the file", what, err, writes)
				}
			case inj > 0 && err == nil:
				h.Fail("unreported", "writing a %s met a write error and reported success", what)
			case inj == 0 && err != nil:
				h.Fail("unexpected", "writing a %s failed without a fault: %v", what, err)
			case err == nil:
				oks++
				if int64(len(after)) < off+int64(len(want)) || !bytes.Equal(after[off:off+int64(len(want))], want) {
					h.Fail("incomplete", "writing a %s reported success but the file does not hold its %d bytes", what, len(want))
					break
				}
				d := ""
				h.Call(p, "read", func() {
					f.Seek(off, io.SeekStart)
					d = read(f)
				})
				if d == "" {
					h.Call(p, "read", func() { d = read(&eofReader{append([]byte(nil), want...)}) })
				}
				if d != "" {
					h.Fail("readback", "a %s reads back differently: %s", what, d)
				}
				h.Call(p, "seek", func() { f.Seek(off+int64(len(want)), io.SeekStart) })
			default:
				fails++
				h.Call(p, "seek", func() { f.Seek(off, io.SeekStart) })
			}
		}
		if lock > 0 {
			// A file of its own, long enough to have a lock flag.
			h.Call(p, "prepare", func() {})
			lp := "/work/lock"
			img := make([]byte, 20+t.Intn(60))
			for k := range img {
				img[k] = byte(rng.Intn(256))
			}
			at := []int{9, 7, 14}[lock-1]
			img[at] = byte(t.Intn(2))
			h.FS.Put(lp, img)
			pos := int64(t.Intn(len(img) + 1))
			set := t.Intn(2) == 1
			var g *simos.File
			var err error
			h.Call(p, "open", func() {
				g, err = simos.OpenFile(lp, os.O_RDWR, 0644)
				if err == nil {
					_, err = g.Seek(pos, io.SeekStart)
				}
			})
			if err != nil {
				h.Fail("open", "%v", err)
				return
			}
			h.F.Clear()
			if fault {
				h.F.ErrIn, h.F.ErrKinds = 1+t.Intn(4), map[string]bool{"write": true, "seek": true, "read": true}
			}
			check := t.Intn(2) == 1
			var locked bool
			h.Call(p, "lock", func() {
				switch {
				case check && lock == 1:
					locked, err = dp.IsLocked(g)
				case check && lock == 2:
					locked, err = ip.IsLocked(g)
				case check:
					locked, err = rp.IsLocked(g)
				case lock == 1:
					err = dp.WriteLocked(set, g)
				case lock == 2:
					err = ip.WriteLocked(set, g)
				default:
					err = rp.WriteLocked(set, g)
				}
			})
			inj := h.F.Injected
			h.F.Clear()
			var now int64
			h.Call(p, "pos", func() { now, _ = g.Seek(0, io.SeekCurrent); g.Close() })
			after, _ := h.FS.Peek(lp)
			h.Note("lock", lock, check, set, err, inj)
			exp := append([]byte(nil), img...)
			if !check {
				exp[at] = 0
				if set {
					exp[at] = 1
				}
			}
			switch {
			case inj > 0 && err == nil:
				h.Fail("unreported", "a lock operation of format %d met an I/O error and reported success", lock)
			case inj == 0 && err != nil:
				h.Fail("unexpected", "a lock operation of format %d failed without a fault: %v", lock, err)
			case err == nil && now != pos:
				h.Fail("position", "a lock operation of format %d moved the file position from %d to %d", lock, pos, now)
			case err == nil && !bytes.Equal(after, exp):
				h.Fail("lock", "setting the lock flag of format %d to %v left other bytes than expected", lock, set)
			case err == nil && check && locked != (img[at] != 0):
				h.Fail("lock", "the lock flag of format %d is %d but reported as %v", lock, img[at], locked)
			case err != nil:
				fails++
				for k := range after {
					if k != at && after[k] != img[k] {
						h.Fail("lock", "a failed lock operation changed byte %d", k)
						break
					}
				}
			default:
				oks++
			}
		}
		h.Key("C11", what, len(want), fault, lock)
		t.End()
	}
	h.nontrivial = oks+fails > 1
	h.sample = fmt.Sprintf("%d writes and lock operations succeeded, %d failed as they should, %d refused", oks, fails, refused)
}

func errStr(err error) string {
	if err != nil {
		return err.Error()
	}
	return ""
}

func init() {
	_ = sort.Ints
	stub := []string{"file system (in memory: short reads, errors with partial writes)", "process"}
	register(&Prop{ID: "C08", Run: runC08, Quick: 60000, Thorough: 700000, Rule: "database files (written by the code or by an independent encoder) iterated, rewound and rewritten at random; non-trivial: two records, a rewrite and two reads", States: "(file size, rewrites, reads, rewinds)", Real: []string{"internal/infra/recdb iterator, protocol, like protocol", "internal/helpers"}, Stub: stub})
	register(&Prop{ID: "C09", Run: runC09, Quick: 60000, Thorough: 900000, Rule: "iteration with read, write and seek errors (writes possibly partial, bursts) armed on every call; non-trivial: at least one error and two calls", States: "(file size, errors, failed rewrites, calls)", Real: []string{"internal/infra/recdb iterator, protocol, like protocol", "internal/helpers"}, Stub: stub, Assume: []string{"a failing read transfers no bytes, as read(2)"}})
	register(&Prop{ID: "C10", Run: runC10, Quick: 200000, Thorough: 2000000, Rule: "valid files of the three formats, and registries, with up to six damages (bit flips, extreme counts and lengths, cuts, overwrites, garbage, other JSON values); non-trivial: the bytes differ", States: "(format, size, first damaged byte, outcome)", Real: []string{"internal/infra/delta, index, recdb (all)", "internal/helpers", "main and domain.NamespaceService (registries)"}, Stub: stub, Assume: []string{"allocation is judged against 4 MiB + 400 bytes per file byte"}})
	register(&Prop{ID: "C11", Run: runC11, Quick: 100000, Thorough: 900000, Rule: "protocol writes and lock operations on a file, half of them with a fault at a drawn byte; non-trivial: two operations", States: "(operation, encoded size, fault, format)", Real: []string{"internal/infra/delta, index, recdb protocols", "internal/helpers"}, Stub: stub})
}

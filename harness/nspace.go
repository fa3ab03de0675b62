package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"time"

	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/infra/recdb"
	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simcontext"
)

func init() {
	nsReal := []string{"internal/domain like namespace and its worker", "internal/infra/delta storage", "internal/infra/index storage", "internal/infra/recdb like storage (in a third of the runs)"}
	nsStub := []string{"goroutine scheduler", "channels, select, sync, context", "clock and timers", "file system (in memory)", "LikeStorageFactory (the repository has none): a reference like storage over the real delta and index storages", "process"}
	register(&Prop{ID: "C12", Run: func(h *H) { runNS(h, "C12") }, Quick: 80000, Thorough: 3000000,
		Rule:   "1 to 330 clients of one namespace with drawn think times, storage delays and failures, repeated stops and cancellation at drawn instants, stalls, preemption at drawn statements; non-trivial: at least two clients and a request still open when another was made or when the namespace was stopped",
		States: "(clients, requests, batches, stopped requests)", Real: nsReal, Stub: nsStub,
		Assume: []string{"a like storage answers every action of a batch unless it fails the batch", "the one-second bound is checked when neither storage delays, failures nor stalls were injected"}})
	register(&Prop{ID: "C13", Run: func(h *H) { runNS(h, "C13") }, Quick: 80000, Thorough: 3000000,
		Rule:   "as C12; the like storage records what it was handed; non-trivial: at least two batches or a request refused because of a stop",
		States: "(clients, requests, batches, stopped requests)", Real: nsReal, Stub: nsStub})
	register(&Prop{ID: "C14", Run: func(h *H) { runNS(h, "C14") }, Quick: 80000, Thorough: 3000000,
		Rule:   "as C12, with clients that never pause around the stop; the storages count their closes, and the files are read back by a fresh process; non-trivial: stopped with at least one batch processed",
		States: "(clients, requests, batches, stopped requests)", Real: nsReal, Stub: nsStub})
}

type likeNS interface {
	Start(ctx context.Context) error
	Stop()
	DeleteProfile(user uint64) error
	GetProfile(user uint64) (*domain.Profile, error)
	Like(user uint64, item uint64) error
	Dislike(user uint64, item uint64) error
	DeleteItem(user uint64, item uint64) error
	GetSimilarProfiles(user uint64) (*[]domain.SimilarProfile, error)
	RecommendItems(user uint64) (*[]domain.RecItem, error)
}

const (
	kDeleteProfile = iota
	kGetProfile
	kLike
	kDislike
	kDeleteItem
	kSimilar
	kRecommend
	numKinds
)

var kindNames = []string{"DeleteProfile", "GetProfile", "Like", "Dislike", "DeleteItem", "GetSimilarProfiles", "RecommendItems"}

// nsReq is one request and what became of it.
type nsReq struct {
	id           uint64
	kind         int
	call, ret    uint64
	callAt       time.Duration
	retAt        time.Duration
	done         bool
	err          error
	wrong        string // an answer of somebody else
	handed       int
	handedAt     uint64
	answer       error // the error the storage gave, if it did
	beforeStop   bool  // returned before anybody stopped the namespace
	answeredNil  bool  // the storage gave a result
	batchErr     error // the batch failed after the storage gave a result
	batchAnswers int
	user         uint64   // the id of the first request with this payload
	group        []*nsReq // of the first: all requests with this payload, if there are more
	handings     []uint64 // of the first
}

func (r *nsReq) String() string { return fmt.Sprintf("%s(%d)", kindNames[r.kind], r.user) }
func (r *nsReq) item() uint64   { return r.user*3 + 1 }

// nsWorld is one namespace and its clients.
type nsWorld struct {
	h         *H
	prop      string
	max       uint // settings of the namespace
	setMax    bool
	factor    float32
	p         *rt.Proc
	ns        likeNS
	reqs      []*nsReq
	store     *refStore
	delta     *countedDelta
	index     *countedIndex
	opened    []*closes
	batches   int
	stopCall  bool
	stopAt    time.Duration
	real      bool
	delayMax  time.Duration
	failPct   int // of batches
	errPct    int // of actions
	failStart bool
	maxBatch  int
	flushPct  int
	closeErr  bool   // the like storage reports an error when it is closed
	badClose  string // the file whose closing meets I/O errors
	onFlush   func()
	onAdd     func(u, i uint64, op domain.DeltaOp)
	onPut     func(id, v uint64)

	onIndexClose func(ended bool, err error)
	bulkPct      int
	repeat       int // how many requests may have the same payload
	last         [numKinds]*nsReq
	bulk         uint64
}

// closes counts the closing of one storage.
type closes struct {
	name  string
	n     int
	ended int
}

func (w *nsWorld) closing(c *closes) {
	c.n++
	w.h.Note("close", c.name, c.n)
	if w.prop != "C14" && w.prop != "C26" {
		return
	}
	if c.n > 1 {
		w.h.Fail("closed-twice", "the %s storage was closed %d times", c.name, c.n)
	}
	if w.store != nil && w.store.active > 0 {
		w.h.Fail("closed-early", "the %s storage was closed while a batch was being processed", c.name)
	}
}

type deltaFactory struct {
	domain.DeltaStorageFactory
	w *nsWorld
}
type countedDelta struct {
	domain.DeltaStorage
	w *nsWorld
	closes
}

func (c *countedDelta) Close() error {
	c.w.closing(&c.closes)
	err := c.DeltaStorage.Close()
	if rt.Killed() {
		return err
	}
	if err == nil && c.w.onFlush != nil {
		c.w.onFlush()
	}
	c.ended++
	return err
}

func (f *deltaFactory) wrap(s domain.DeltaStorage, err error) (domain.DeltaStorage, error) {
	if err != nil || s == nil {
		return s, err
	}
	c := &countedDelta{s, f.w, closes{name: "delta"}}
	f.w.delta = c
	f.w.opened = append(f.w.opened, &c.closes)
	return c, nil
}
func (f *deltaFactory) Open(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	return f.wrap(f.DeltaStorageFactory.Open(file))
}
func (f *deltaFactory) OpenMaybeRecover(file domain.RandomAccessFile) (domain.DeltaStorage, error) {
	return f.wrap(f.DeltaStorageFactory.OpenMaybeRecover(file))
}

type indexFactory struct {
	domain.IndexStorageFactory
	w *nsWorld
}
type countedIndex struct {
	domain.IndexStorage
	w *nsWorld
	closes
}

func (c *countedIndex) Close() error {
	c.w.closing(&c.closes)
	if c.w.onIndexClose != nil && !rt.Killed() {
		c.w.onIndexClose(false, nil)
	}
	err := c.IndexStorage.Close()
	if rt.Killed() {
		return err
	}
	if c.w.onIndexClose != nil {
		c.w.onIndexClose(true, err)
	}
	c.ended++
	return err
}
func (f *indexFactory) wrap(s domain.IndexStorage, err error) (domain.IndexStorage, error) {
	if err != nil || s == nil {
		return s, err
	}
	c := &countedIndex{s, f.w, closes{name: "index"}}
	f.w.index = c
	f.w.opened = append(f.w.opened, &c.closes)
	return c, nil
}
func (f *indexFactory) OpenFile(path string) (domain.IndexStorage, error) {
	return f.wrap(f.IndexStorageFactory.OpenFile(path))
}
func (f *indexFactory) Open(file io.ReadWriteSeeker, closer io.Closer) (domain.IndexStorage, error) {
	return f.wrap(f.IndexStorageFactory.Open(file, closer))
}

// likeFactory stands in for the missing implementation.
type likeFactory struct{ w *nsWorld }

var errLikeOpen = errors.New("injected: the like storage does not open")
var errLikeClose = errors.New("injected: the like storage does not close properly")

func (f *likeFactory) Recover(domain.RandomAccessFile) error { return nil }
func (f *likeFactory) Open(file domain.RandomAccessFile, d domain.DeltaStorage, ix domain.IndexStorage) (domain.LikeStorage, error) {
	if f.w.failStart {
		f.w.failStart = false
		f.w.h.Stat("fault.like-open")
		return nil, errLikeOpen
	}
	s := &refStore{w: f.w, file: file, d: d, ix: ix, closes: closes{name: "like"}}
	if f.w.real {
		s.real = recdb.NewLikeStorage()
	}
	f.w.store = s
	f.w.opened = append(f.w.opened, &s.closes)
	return s, nil
}
func (f *likeFactory) OpenMaybeRecover(file domain.RandomAccessFile, d domain.DeltaStorage, ix domain.IndexStorage) (domain.LikeStorage, error) {
	return f.Open(file, d, ix)
}

// refStore is the reference like storage.
type refStore struct {
	w      *nsWorld
	file   domain.RandomAccessFile
	d      domain.DeltaStorage
	ix     domain.IndexStorage
	real   domain.LikeStorage
	active int
	closes
}

func (s *refStore) Close() error {
	s.w.closing(&s.closes)
	defer func() { s.ended++ }()
	if s.real != nil {
		if err := s.real.Close(); err != nil {
			return err
		}
	}
	err := s.file.Close()
	if s.w.closeErr && err == nil {
		s.w.h.Stat("fault.like-close")
		return errLikeClose
	}
	return err
}

// user is the request an action belongs to.
func user(a domain.Action) (uint64, int) {
	switch p := a.Payload.(type) {
	case domain.DeleteProfilePayload:
		return p.UserID, kDeleteProfile
	case domain.GetProfilePayload:
		return p.UserID, kGetProfile
	case domain.GetSimilarProfilesPayload:
		return p.UserID, kSimilar
	case domain.RecommendItemsPayload:
		return p.UserID, kRecommend
	case domain.LikePayload:
		switch a.ActionType {
		case domain.ActionLike:
			return p.UserID, kLike
		case domain.ActionDislike:
			return p.UserID, kDislike
		case domain.ActionDeleteItem:
			return p.UserID, kDeleteItem
		}
	}
	return 0, -1
}

func (s *refStore) ProcessActions(actions []domain.Action) error {
	w, h := s.w, s.w.h
	if rt.Killed() {
		return nil
	}
	w.batches++
	if len(actions) > w.maxBatch {
		w.maxBatch = len(actions)
	}
	h.Note("batch", w.batches, len(actions))
	if w.prop == "C13" && s.active > 0 {
		h.Fail("concurrent", "batch %d was handed over while another one is being processed", w.batches)
	}
	if w.prop == "C14" || w.prop == "C26" {
		for _, c := range w.opened {
			if c.n > 0 {
				h.Fail("closed-early", "a batch was handed over after the %s storage had been closed", c.name)
			}
		}
	}
	s.active++
	defer func() { s.active-- }()
	rt.Yield(81)
	var rs []*nsReq
	for _, a := range actions {
		id, kind := user(a)
		if id == 0 || id > uint64(len(w.reqs)) || w.reqs[id-1].kind != kind {
			if w.prop == "C13" {
				h.Fail("unknown", "the storage was handed an action nobody requested: type %d, payload %v", a.ActionType, id)
			}
			rs = append(rs, &nsReq{id: id, user: id, kind: kind})
			continue
		}
		r := w.reqs[id-1]
		if r.group != nil {
			r.handings = append(r.handings, h.S.Tick())
			if w.prop == "C13" && len(r.handings) > len(r.group) {
				h.Fail("twice", "%v was requested %d times and handed to the storage %d times", r, len(r.group), len(r.handings))
			}
			rs = append(rs, &nsReq{id: id, user: id, kind: kind})
			continue
		}
		r.handed++
		r.handedAt = h.S.Tick()
		if w.prop == "C13" && r.handed > 1 {
			h.Fail("twice", "%v was handed to the storage %d times", r, r.handed)
		}
		rs = append(rs, r)
	}
	fail, cut := false, len(actions)
	if w.failPct > 0 && h.T.Chance(w.failPct, 100) {
		fail = true
		cut = h.T.Intn(len(actions) + 1)
		h.Stat("fault.batch-error")
	}
	if w.delayMax > 0 && h.T.Intn(3) == 1 {
		h.Stat("fault.slow-storage")
		rt.Sleep(w.delayMax * time.Duration(1+h.T.Intn(8)) / 8)
	}
	for i := range actions[:cut] {
		r := rs[i]
		if len(actions) < 20 || i%8 == 0 {
			rt.Yield(82)
		}
		var op domain.DeltaOp
		switch r.kind {
		case kLike:
			op = domain.DeltaOpAdd
		case kDislike, kDeleteItem:
			op = domain.DeltaOpRemove
		}
		if op != 0 {
			s.d.Add(op, r.user, r.item())
			if w.onAdd != nil {
				w.onAdd(r.user, r.item(), op)
			}
			if r.user%2 == 0 {
				if err := s.ix.Put(r.user, r.item()); err == nil && w.onPut != nil {
					w.onPut(r.user, r.item())
				}
			}
		}
	}
	if w.bulkPct > 0 && h.T.Chance(w.bulkPct, 100) {
		for n := 1 + h.T.Intn([]int{20, 400}[h.T.Intn(2)]); n > 0 && !rt.Killed(); n-- {
			w.bulk++
			s.d.Add(domain.DeltaOpAdd, 1<<40+w.bulk%7, w.bulk)
			w.onAdd(1<<40+w.bulk%7, w.bulk, domain.DeltaOpAdd)
			if w.bulk%3 == 0 && s.ix.Put(1<<40+w.bulk, w.bulk) == nil {
				w.onPut(1<<40+w.bulk, w.bulk)
			}
		}
	}
	if w.flushPct > 0 && h.T.Chance(w.flushPct, 100) {
		if err := s.d.Flush(); err == nil && w.onFlush != nil && !rt.Killed() {
			w.onFlush()
		}
	}
	if s.real != nil {
		for i := range rs[:cut] {
			rs[i].batchAnswers++
			rs[i].answeredNil = true
		}
		if err := s.real.ProcessActions(actions[:cut]); err != nil {
			return err
		}
	} else {
		for i, a := range actions[:cut] {
			s.answer(rs[i], a)
		}
	}
	if fail {
		err := fmt.Errorf("injected: batch %d failed", w.batches)
		for _, r := range rs[cut:] {
			r.answer = err
		}
		// A result waiting for its reader when the batch fails may be
		// replaced by the batch's error.
		for _, r := range rs[:cut] {
			if r.answeredNil && (r.kind == kGetProfile || r.kind == kSimilar || r.kind == kRecommend) {
				r.batchErr = err
			}
		}
		return err
	}
	return nil
}

func (s *refStore) answer(r *nsReq, a domain.Action) {
	w, h := s.w, s.w.h
	rt.Yield(83)
	r.batchAnswers++
	if w.errPct > 0 && h.T.Chance(w.errPct, 100) {
		h.Stat("fault.action-error")
		r.answer = fmt.Errorf("injected: request %d failed", r.id)
		rt.Send(a.Error)(r.answer)
		return
	}
	r.answeredNil = true
	switch p := a.Payload.(type) {
	case domain.GetProfilePayload:
		rt.Send(p.Profile)(domain.NewProfile(r.user))
	case domain.GetSimilarProfilesPayload:
		rt.Send(p.Profiles)(&[]domain.SimilarProfile{{Profile: domain.NewProfile(r.user), Similarity: 50}})
	case domain.RecommendItemsPayload:
		rt.Send(p.Items)(&[]domain.RecItem{{ItemID: r.item(), Relevance: 1}})
	default:
		rt.Send(a.Error)(nil)
	}
}

// ---- the namespace and its clients ----

func newNSWorld(h *H, prop string) *nsWorld {
	h.FS.Mkdir("/work")
	return &nsWorld{h: h, prop: prop, max: []uint{100, 0, 1, ^uint(0)}[h.T.Intn(4)], factor: []float32{1, 0, 0.5}[h.T.Intn(3)], setMax: h.T.Intn(2) == 1}
}

// create makes the namespace in process w.p; it must be called in one of its tasks.
func (w *nsWorld) create() likeNS {
	name, err := valueobjects.ParseNamespaceName("ns")
	if err != nil {
		panic(err)
	}
	w.opened, w.store, w.delta, w.index = nil, nil, nil, nil
	ns := domain.NewLikeNamespace(&domain.LikeNamespaceDto{
		Name:                name,
		MaxSimilarProfiles:  w.max,
		DislikeFactor:       w.factor,
		BasePath:            "/work/",
		DeltaStorageFactory: &deltaFactory{delta.NewStorageFactory(), w},
		LikeStorageFactory:  &likeFactory{w},
		IndexStorageFactory: &indexFactory{index.NewStorageFactory(), w},
	})
	if w.setMax { // as a registry that was loaded does
		ns.SetMaxSimilarProfiles(w.max)
	}
	return ns
}

// request issues one request in the current task.
func (w *nsWorld) request(kind int) *nsReq {
	h := w.h
	r := &nsReq{id: uint64(len(w.reqs) + 1), kind: kind, call: h.S.Tick(), callAt: h.S.Now()}
	w.reqs = append(w.reqs, r)
	r.user = r.id
	if first := w.last[kind]; w.repeat > 0 && first != nil && len(first.group) < w.repeat {
		r.user = first.id
		first.group = append(first.group, r)
	} else {
		w.last[kind] = r
		if w.repeat > 0 {
			r.group = []*nsReq{r}
		}
	}
	h.Note("request", r.id, kind, r.user)
	var err error
	switch kind {
	case kDeleteProfile:
		err = w.ns.DeleteProfile(r.user)
	case kGetProfile:
		var p *domain.Profile
		if p, err = w.ns.GetProfile(r.user); err == nil && !w.real && (p == nil || p.UserID != r.user) {
			r.wrong = fmt.Sprintf("profile %v", p)
		}
	case kLike:
		err = w.ns.Like(r.user, r.item())
	case kDislike:
		err = w.ns.Dislike(r.user, r.item())
	case kDeleteItem:
		err = w.ns.DeleteItem(r.user, r.item())
	case kSimilar:
		var ps *[]domain.SimilarProfile
		if ps, err = w.ns.GetSimilarProfiles(r.user); err == nil && (ps == nil || !w.real && (len(*ps) != 1 || (*ps)[0].Profile.UserID != r.user)) {
			r.wrong = fmt.Sprintf("similar profiles %v", ps)
		}
	case kRecommend:
		var is *[]domain.RecItem
		if is, err = w.ns.RecommendItems(r.user); err == nil && (is == nil || !w.real && (len(*is) != 1 || (*is)[0].ItemID != r.item())) {
			r.wrong = fmt.Sprintf("recommendations %v", is)
		}
	}
	if rt.Killed() {
		return r
	}
	if err != nil && r.batchErr != nil && sameError(err, r.batchErr) {
		r.answer = err
	}
	r.err, r.done, r.ret, r.retAt = err, true, h.S.Tick(), h.S.Now()
	r.beforeStop = !w.stopCall
	h.Note("answer", r.id, err)
	if w.prop == "C12" {
		if r.beforeStop && err != nil && !sameError(err, r.answer) {
			h.Fail("refused", "%v failed although the namespace runs and the storage did not fail it: %v", r, err)
		}
	}
	if w.prop == "C13" && r.wrong != "" {
		h.Fail("answer", "%v was answered with %s", r, r.wrong)
	}
	return r
}

// sameError tells whether err is the storage's error, possibly wrapped.
func sameError(err, given error) bool {
	return given != nil && (errors.Is(err, given) || strings.Contains(err.Error(), given.Error()))
}

var schedGaps = []int{0, 4, 15, 60, 300}

// schedule draws how the scheduler behaves.
func (h *H) schedule(stalls bool) {
	t := h.T
	h.S.Cfg.Gap = schedGaps[t.Pick(3, 3, 3, 3, 2)]
	if stalls && h.S.Cfg.Gap > 0 && t.Intn(4) == 1 {
		h.S.Cfg.StallPct = 1 + t.Intn(10)
		h.S.Cfg.StallMax = []time.Duration{20 * time.Millisecond, 100 * time.Millisecond, time.Second}[t.Intn(3)]
	}
}

// instant draws a point in time near the interesting ones.
func (h *H) instant() time.Duration {
	t := h.T
	switch t.Pick(3, 3, 3, 1) {
	case 0:
		return time.Duration(t.Intn(5)) * 50 * time.Millisecond
	case 1:
		return time.Duration(t.Intn(200)) * time.Millisecond
	case 2:
		return time.Duration(t.Intn(60)) * 10 * time.Microsecond
	default:
		return time.Duration(t.Intn(40)) * 50 * time.Millisecond
	}
}

func runNS(h *H, prop string) {
	t := h.T
	w := newNSWorld(h, prop)
	h.schedule(true)
	w.real = t.Intn(3) == 1
	if t.Intn(4) == 1 {
		w.delayMax = []time.Duration{time.Millisecond, 60 * time.Millisecond, time.Second}[t.Intn(3)]
	}
	switch t.Pick(6, 1, 1) {
	case 1:
		w.failPct = 10 + t.Intn(60)
	case 2:
		w.errPct = 5 + t.Intn(50)
	}
	if prop != "C14" && !w.real && w.failPct == 0 && w.errPct == 0 && t.Intn(5) == 1 {
		w.repeat = 2 + t.Intn(12)
	}
	clients := []int{1 + t.Intn(4), 2 + t.Intn(18), 21 + t.Intn(80), 101 + t.Intn(30)}[t.Pick(8, 5, 2, 1)]
	per := 1 + t.Intn([]int{6, 4, 2, 2}[t.Pick(4, 3, 2, 1)])
	// Sometimes the namespace lives for long.
	idle := time.Duration(0)
	switch t.Pick(200, 8, 1) {
	case 1:
		idle = []time.Duration{2 * time.Minute, 90 * time.Minute, 49 * time.Hour, 100 * 24 * time.Hour}[t.Intn(4)]
		h.Stat("long-idle")
	case 2:
		clients, per = 1+t.Intn(3), 300+t.Intn(900)
		h.Stat("long-service")
	}
	burst := t.Intn(2) == 1
	// Sometimes many more clients than the queue has room for wait for a
	// storage that takes its time.
	if clients > 100 && t.Intn(2) == 1 {
		clients += t.Intn(200)
		w.delayMax = []time.Duration{3 * time.Second, 20 * time.Second, 3 * time.Minute}[t.Intn(3)]
		h.Stat("congestion")
	}
	pump := t.Intn([]int{10, 10, 3}[map[string]int{"C12": 0, "C13": 1, "C14": 2}[prop]]) == 1
	if pump {
		clients = 1 + clients%6
		if h.S.Cfg.StallMax > 100*time.Millisecond {
			h.S.Cfg.StallMax = 100 * time.Millisecond
		}
	}
	// Arrivals one after another instead of around a few instants.
	trickle := time.Duration(0)
	if t.Intn(8) == 1 {
		trickle = time.Duration(1+t.Intn(60)) * time.Millisecond
		if clients < 100 && t.Intn(2) == 1 {
			clients = 30 + t.Intn(71)
		}
	}
	// Sometimes requests keep coming for seconds, without a gap, no faster than
	// they can be served.
	sustained, together := prop == "C12" && t.Intn(400) == 1, 1
	if sustained {
		clients, per, pump, idle = 1200+t.Intn(1500), 1, false, 0
		trickle = time.Duration(700+t.Intn(600)) * time.Microsecond
		if t.Intn(2) == 1 {
			// In step with what the worker waits for
			clients, trickle, together = 2*clients, time.Millisecond, 2
		}
		h.Stat("sustained-load")
	}
	responsive := (clients <= 100 || sustained) && w.delayMax == 0 && w.failPct == 0 && h.S.Cfg.StallPct == 0

	w.p = h.Boot("shard")
	var ctx context.Context
	var cancel context.CancelFunc
	var err error
	h.Call(w.p, "start", func() {
		ctx, cancel = simcontext.WithCancel(context.Background())
		w.ns = w.create()
		err = w.ns.Start(ctx)
	})
	if h.Failed() {
		return
	}
	if err != nil {
		h.Fail("start", "the namespace does not start: %v", err)
		return
	}
	if prop == "C14" {
		w.closeErr = t.Intn(6) == 1
		if t.Intn(8) == 1 {
			w.badClose = []string{"/work/ns.delta", "/work/ns.index"}[t.Intn(2)]
		}
	}
	badFirst, badAll := 1, false
	if w.badClose != "" {
		badFirst, badAll = 1+t.Intn([]int{2, 12}[t.Intn(2)]), t.Intn(2) == 1
	}
	stopping := func(why string) {
		if !w.stopCall {
			w.stopAt = h.S.Now()
			if w.badClose != "" {
				h.F.ErrPath, h.F.ErrIn = w.badClose, badFirst
				h.F.ErrKinds = map[string]bool{"write": true, "close": true, "sync": true, "truncate": true}
				if badAll {
					h.F.ErrN = 1000
				}
			}
		}
		w.stopCall = true
		h.Note("stop", why)
		h.Stat("stop." + why)
	}
	var others, cl []*rt.Task
	// Stop calls and cancellation at drawn instants.
	stops := t.Pick(3, 4, 2, 1)
	if pump && stops == 0 {
		stops = 1
	}
	for k := 0; k < stops; k++ {
		at, how := h.instant(), t.Intn(3)
		others = append(others, h.S.GoProc(w.p, "stopper", func() {
			rt.Sleep(at)
			if how == 1 {
				stopping("cancel")
				cancel()
			} else {
				stopping("stop")
				w.ns.Stop()
			}
			if how == 2 {
				rt.Yield(84)
				w.ns.Stop()
			}
		}))
	}
	open, overlap := 0, false
	ended := false
	for k := 0; k < clients; k++ {
		var rng rt.Rng
		rng.Seed(t.Intn(1 << 16))
		first := time.Duration(0)
		if trickle > 0 {
			first = time.Duration(k/together) * trickle
		} else if !burst {
			first = h.instant()
		}
		cl = append(cl, h.S.GoProc(w.p, "client", func() {
			if first > 0 {
				rt.Sleep(first)
			}
			for j := 0; j < per || pump && !ended; j++ {
				if idle > 0 && j == per/2 {
					rt.Sleep(idle)
				}
				open++
				if open > 1 || w.stopCall {
					overlap = true
				}
				r := w.request(rng.Intn(numKinds))
				open--
				if pump {
					if j >= per && r.err != nil && w.stopCall {
						break
					}
					if r.err != nil {
						rt.Sleep(time.Millisecond)
					}
					continue
				}
				switch rng.Intn(4) {
				case 1:
					rt.Sleep(50 * time.Millisecond)
				case 2:
					rt.Sleep(time.Duration(rng.Intn(120)) * time.Millisecond)
				}
			}
		}))
	}
	// Everything planned takes less than this, unless something hangs.
	// Simulated time is cheap: the bound is generous.
	total := clients*per + 8
	limit := 60*time.Second + idle + time.Duration(total)*(w.delayMax+150*time.Millisecond)
	if h.S.Cfg.StallPct > 0 {
		limit += 100 * h.S.Cfg.StallMax * time.Duration(1+per)
	}
	w.wait(limit, func() bool {
		if pump && w.stopCall {
			return w.terminated()
		}
		return allDone(cl) && allDone(others)
	})
	ended = true
	if h.Failed() {
		return
	}
	if !w.stopCall {
		w.hung("before any stop")
		h.S.GoProc(w.p, "stopper", func() {
			stopping("stop")
			w.ns.Stop()
		})
	}
	w.wait(limit, func() bool { return allDone(cl) && allDone(others) && w.stopCall && w.terminated() })
	if h.Failed() {
		return
	}
	w.hung("after the namespace was stopped")
	if !allDone(others) && !h.Failed() {
		if prop == "C12" || prop == "C14" {
			h.Fail("hang", "a stop call has not returned: %s", h.S.BlockedReport())
		}
		return
	}
	// Requests and stops after the end.
	var late []*rt.Task
	for k := 1 + t.Intn(4); k > 0; k-- {
		kind := t.Intn(numKinds + 1)
		late = append(late, h.S.GoProc(w.p, "late", func() {
			if kind == numKinds {
				w.ns.Stop()
				return
			}
			w.request(kind)
		}))
	}
	w.wait(limit, func() bool { return allDone(late) })
	if h.Failed() {
		return
	}
	w.hung("made after the namespace had stopped")
	if !allDone(late) && !h.Failed() && prop == "C12" {
		h.Fail("hang", "a stop call after the end has not returned: %s", h.S.BlockedReport())
	}
	if h.Failed() {
		return
	}
	refused := 0
	for _, r := range w.reqs {
		if r.done && r.err != nil && !sameError(r.err, r.answer) {
			refused++
		}
	}
	switch prop {
	case "C12":
		if responsive {
			for _, r := range w.reqs {
				if d := r.retAt - r.callAt; r.done && d > time.Second {
					h.Fail("slow", "%v took %v with %d concurrent clients and responsive storage (%d batches, the largest of %d)", r, d, clients, w.batches, w.maxBatch)
				}
			}
		}
		h.nontrivial = clients > 1 && overlap
	case "C13":
		w.checkOrder()
		h.nontrivial = w.batches > 1 || refused > 0
	case "C14":
		w.checkEnd()
		h.nontrivial = w.batches > 0
	}
	h.Key(prop, clients, len(w.reqs), w.batches, refused, stops)
	h.sample = fmt.Sprintf("%d clients, %d requests in %d batches (largest %d), %d refused, %d planned stops, gap %d, stalls %d%%", clients, len(w.reqs), w.batches, w.maxBatch, refused, stops, h.S.Cfg.Gap, h.S.Cfg.StallPct)
}

func allDone(ts []*rt.Task) bool {
	for _, x := range ts {
		if !x.Done() {
			return false
		}
	}
	return true
}

// wait lets simulated time pass until cond holds, at most d.
func (w *nsWorld) wait(d time.Duration, cond func() bool) { w.h.wait(d, cond) }

func (h *H) wait(d time.Duration, cond func() bool) bool {
	end := h.S.Now() + d
	step, most := 10*time.Millisecond, time.Second
	if most < d/3600 {
		most = d / 3600
	}
	for !cond() && h.S.Now() < end && !h.Failed() {
		rt.Sleep(step)
		if step < most {
			step += step / 4
		}
	}
	h.S.AcquireFinished()
	return cond()
}

// terminated: all storages have been closed.
func (w *nsWorld) terminated() bool {
	for _, c := range w.opened {
		if c.ended == 0 {
			return false
		}
	}
	return true
}

// hung fails C12 if a request is still open.
func (w *nsWorld) hung(when string) {
	if w.h.Failed() {
		return
	}
	n := 0
	var first *nsReq
	for _, r := range w.reqs {
		if !r.done {
			n++
			if first == nil {
				first = r
			}
		}
	}
	if n == 0 {
		return
	}
	if w.prop == "C12" {
		w.h.Fail("hang", "%d of %d requests %s never returned, the first is %v made at %v (handed over %d times); now %v; %s", n, len(w.reqs), when, first, first.callAt, first.handed, w.h.S.Now(), w.h.S.BlockedReport())
	}
}

// match decides which of the requests with the same payload each handing over
// was of: one that was open and that was not refused, the one that returned
// first. If any assignment exists, this one does.
func (w *nsWorld) match(first *nsReq) {
	for _, at := range first.handings {
		var best *nsReq
		for _, r := range first.group {
			if r.handed > 0 || r.call > at || r.done && (r.ret < at || r.err != nil) {
				continue
			}
			if best == nil || r.done && (!best.done || r.ret < best.ret) {
				best = r
			}
		}
		if best == nil {
			w.h.Fail("twice", "%v was handed to the storage more often than it was requested (%d times of %d)", first, len(first.handings), len(first.group))
			return
		}
		best.handed, best.handedAt, best.answeredNil = 1, at, true
	}
}

// checkOrder is the history check of C13.
func (w *nsWorld) checkOrder() {
	h := w.h
	var hs []*nsReq
	for _, r := range w.reqs {
		if r.group != nil && !h.Failed() {
			w.match(r)
		}
	}
	for _, r := range w.reqs {
		if h.Failed() {
			return
		}
		if r.handed > 0 {
			hs = append(hs, r)
		}
		if !r.done {
			continue
		}
		switch {
		case r.err == nil:
			if r.handed != 1 || !r.answeredNil {
				h.Fail("unhandled", "%v was answered with a result but was handed to the storage %d times (answered by it: %v)", r, r.handed, r.answeredNil)
			}
		case sameError(r.err, r.answer):
			if r.handed != 1 {
				h.Fail("unhandled", "%v was answered with a storage error but was handed over %d times", r, r.handed)
			}
		default:
			if r.handed != 0 {
				h.Fail("handled", "%v was answered with %q but it was handed to the storage", r, r.err)
			}
		}
		if r.batchAnswers > 0 && r.err != nil && r.answer == nil {
			h.Fail("lost", "%v was answered by the storage with a result, the requester got %q", r, r.err)
		}
	}
	// Real-time order: handed over in the order of non-overlapping requests.
	sort.Slice(hs, func(a, b int) bool { return hs[a].handedAt < hs[b].handedAt })
	// minRet[k]: the earliest return among hs[k:].
	var best *nsReq
	for k := len(hs) - 1; k >= 0 && !h.Failed(); k-- {
		r := hs[k]
		if best != nil && best.done && best.ret < r.call {
			h.Fail("order", "%v returned before %v was made, but was handed to the storage after it", best, r)
		}
		if r.done && (best == nil || r.ret < best.ret) {
			best = r
		}
	}
}

// checkEnd is the check of C14 after everything has come to rest.
func (w *nsWorld) checkEnd() {
	h := w.h
	for _, c := range w.opened {
		if c.n != 1 {
			h.Fail("closes", "%v after the stop at %v the %s storage has been closed %d times", h.S.Now()-w.stopAt, w.stopAt, c.name, c.n)
			return
		}
	}
	bad := ""
	if h.F.Injected > 0 {
		bad = w.badClose
	}
	h.F.Clear()
	for _, n := range h.FS.OpenHandles(w.p) {
		h.Fail("handle", "%s is still open after the namespace stopped", n)
		return
	}
	for _, r := range w.reqs {
		if !r.done {
			return // C12
		}
	}
	h.Retire(w.p)
	p := h.Boot("reader")
	h.Call(p, "read", func() {
		// What met an I/O error is the business of C04 and C07.
		var st domain.DeltaStorage
		var ix domain.IndexStorage
		if bad != "/work/ns.delta" {
			d := &deltaWorld{h: h, path: "/work/ns.delta"}
			f, err := d.file()
			if err != nil {
				h.Fail("delta", "the delta file cannot be opened: %v", err)
				return
			}
			st, err = delta.NewStorageFactory().Open(f)
			if err != nil {
				h.Fail("delta", "the delta file is not cleanly closed: %v", err)
				return
			}
		}
		if bad != "/work/ns.index" {
			var err error
			ix, err = index.NewStorageFactory().OpenFile("/work/ns.index")
			if err != nil {
				h.Fail("index", "the index file is not cleanly closed: %v", err)
				return
			}
		}
		n := 0
		for _, r := range w.reqs {
			var op domain.DeltaOp
			switch r.kind {
			case kLike:
				op = domain.DeltaOpAdd
			case kDislike, kDeleteItem:
				op = domain.DeltaOpRemove
			}
			if op == 0 || r.batchAnswers == 0 {
				continue
			}
			n++
			if bad == "/work/ns.delta" {
			} else if got, ok := st.Get(r.user, r.item()); !ok || got != op {
				h.Fail("delta", "the operation of %v is not in the delta file: %q %v", r, got, ok)
				return
			}
			if r.user%2 == 0 && bad != "/work/ns.index" {
				if v, ok := ix.Get(r.user); !ok || v != r.item() {
					h.Fail("index", "the entry of %v is not in the index file: %d %v", r, v, ok)
					return
				}
			}
		}
		if bad != "/work/ns.delta" && st.GetTotalItemCount() < n {
			h.Fail("delta", "the delta file has %d of at least %d operations", st.GetTotalItemCount(), n)
		}
	})
}

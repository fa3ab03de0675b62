package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"
	"syscall"
	"time"

	recmain "recengine"
	"recengine/internal/api/shard"
	"recengine/internal/domain"
	"recengine/internal/domain/valueobjects"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simcontext"
	"recengine/internal/zzsim/simhttp"
	"recengine/internal/zzsim/simnet"
)

func init() {
	real := []string{"internal/domain namespace service and namespaces", "internal/api/shard endpoints, DTOs, application", "gin router and validator (not instrumented)"}
	stub := []string{"goroutine scheduler, mutexes, channels", "clock", "network and net/http server (delays, lost messages)", "file system (in memory)", "process"}
	register(&Prop{ID: "C16", Run: runC16, Quick: 90000, Thorough: 1500000,
		Rule:   "2 to 6 concurrent clients over HTTP and through the service on two or three names, drawn delays, slow disk, stalls, uploads that stall and lost responses; limits given and left out; the history is checked for linearizability against a sequential registry; non-trivial: overlapping changes of which one succeeded",
		States: "(operations, overlaps, successes, final registry)", Real: real, Stub: stub,
		Assume: []string{"delete is exercised through the service: the HTTP API has no route for it", "a lost response leaves the outcome open"}})
	register(&Prop{ID: "C17", Run: runC17, Quick: 60000, Thorough: 1500000,
		Rule:   "up to 6 incarnations of the service (also through main), concurrent changes, a crash at a drawn point of a file operation or anywhere, restart; acknowledged changes and the loaded registry are checked for linearizability; non-trivial: a crash after or during a change",
		States: "(incarnations, crashes, changes, registry)", Real: append([]string{"main"}, real...), Stub: stub,
		Assume: []string{"process crashes only: data handed to the file system survives, rename is atomic"}})
	register(&Prop{ID: "C18", Run: runC18, Quick: 40000, Thorough: 1500000,
		Rule:   "histories of changes, sequential and concurrent, with file errors and short writes on the registry; running service, stored registry and restarted service are compared with a model; non-trivial: a change failed because of an injected error",
		States: "(operations, failed changes, registry)", Real: real, Stub: stub})
}

type regEntry struct {
	Max uint
	Dis float32 // not shown over HTTP
	Any bool    // the limit was left to the service, whose answer is unknown
}
type registry map[string]regEntry

func (m registry) clone() registry {
	r := registry{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (m registry) String() string {
	var r []string
	for k, v := range m {
		if v.Any {
			r = append(r, fmt.Sprintf("%s:?/%g", k, v.Dis))
			continue
		}
		r = append(r, fmt.Sprintf("%s:%d/%g", k, v.Max, v.Dis))
	}
	sort.Strings(r)
	return "{" + strings.Join(r, " ") + "}"
}

// is reports whether o can be the registry m.
func (m registry) is(o registry) bool {
	if len(m) != len(o) {
		return false
	}
	for k, v := range m {
		e, has := o[k]
		if !has || e.Dis != v.Dis || !v.Any && e.Max != v.Max {
			return false
		}
	}
	return true
}

type listed struct {
	Name               string `json:"name"`
	Type               string `json:"type"`
	MaxSimilarProfiles uint   `json:"maxSimilarProfiles"`
}

const (
	opCreate = iota
	opUpdate
	opDelete
	opGet
	opList
	opBad // a create or update request that is invalid or was cut short
)

var opNames = []string{"create", "update", "delete", "get", "list", "invalid"}

// regOp is one operation on the registry.
type regOp struct {
	kind       int
	name, to   string
	val        regEntry
	service    bool
	call, ret  uint64
	done       bool // answered
	open       bool // outcome unknown
	ok         bool
	list       []listed
	status     int
	body       string
	err        error
	faulty     bool // an I/O error was injected during it
	free       bool // may fail for no reason
	unset      int  // no limit is given: left out, zero
	hiddenDis  bool // the observer could not see dislike factors
	withDis    map[string]float32
	unanswered bool
	bad        badReq
	vet        *vetReq
}

type badReq struct{ method, path, body string }

func (o *regOp) String() string {
	s := fmt.Sprintf("%s(%s", opNames[o.kind], o.name)
	if o.kind == opUpdate && o.to != o.name {
		s += "->" + o.to
	}
	if o.kind <= opUpdate {
		s += fmt.Sprintf(" %d/%g", o.val.Max, o.val.Dis)
		if o.unset != 0 {
			s += " (no limit given)"
		}
	}
	if o.kind == opBad {
		s += fmt.Sprintf(" %s %s %q", o.bad.method, o.bad.path, o.bad.body)
	}
	s += ")"
	if o.service {
		s += "@service"
	}
	switch {
	case !o.done:
		s += "=?"
	case o.ok && o.kind >= opGet:
		s += fmt.Sprintf("=%v", o.list)
	case o.ok:
		s += "=ok"
	default:
		s += fmt.Sprintf("=failed(%d %v %s)", o.status, o.err, strings.TrimSpace(o.body))
	}
	return fmt.Sprintf("%s[%d,%d]", s, o.call, o.ret)
}

// apply runs the operation on the model: whether its answer is right, and the
// state afterwards.
func (o *regOp) apply(m registry) (bool, registry) {
	known := o.done && !o.open
	switch o.kind {
	case opCreate, opUpdate, opDelete:
		_, has := m[o.name]
		can := has
		if o.kind == opCreate {
			can = !has
		}
		if o.kind == opUpdate && o.to != o.name {
			if _, taken := m[o.to]; taken {
				can = false
			}
		}
		if known && !o.ok {
			return !can || o.free || o.faulty, m
		}
		if !can {
			return !known, m
		}
		n := m.clone()
		val := o.val
		val.Any = o.unset != 0 && !known
		switch o.kind {
		case opCreate:
			n[o.name] = val
		case opUpdate:
			delete(n, o.name)
			n[o.to] = val
		case opDelete:
			delete(n, o.name)
		}
		return true, n
	case opBad:
		return !known || !o.ok, m
	case opGet:
		e, has := m[o.name]
		if !known {
			return true, m
		}
		if !o.ok {
			return !has, m
		}
		if !has || len(o.list) != 1 {
			return false, m
		}
		if e.Any {
			e.Max = o.list[0].MaxSimilarProfiles
		}
		return o.list[0] == listed{o.name, "like", e.Max}, m
	case opList:
		if !known {
			return true, m
		}
		if len(o.list) != len(m) {
			return false, m
		}
		for _, l := range o.list {
			e, has := m[l.Name]
			if !has || l.Type != "like" || !e.Any && l.MaxSimilarProfiles != e.Max {
				return false, m
			}
			if d, ok := o.withDis[l.Name]; ok && d != e.Dis {
				return false, m
			}
		}
		return true, m
	}
	return false, m
}

// linearizable searches a sequential order; limited reports that it gave up.
func linearizable(ops []*regOp, init registry) (ok, limited bool) {
	if len(ops) > 60 {
		return true, true
	}
	type key struct {
		left  uint64
		state string
	}
	seen := map[key]bool{}
	nodes := 0
	var all uint64
	for i := range ops {
		all |= 1 << uint(i)
	}
	var dfs func(left uint64, m registry) bool
	dfs = func(left uint64, m registry) bool {
		nodes++
		if nodes > 300000 {
			limited = true
			return false
		}
		minRet := ^uint64(0)
		rest := false
		for i, o := range ops {
			if left&(1<<uint(i)) != 0 && o.done && !o.open {
				rest = true
				if o.ret < minRet {
					minRet = o.ret
				}
			}
		}
		if !rest {
			return true
		}
		k := key{left, m.String()}
		if seen[k] {
			return false
		}
		seen[k] = true
		for i, o := range ops {
			if left&(1<<uint(i)) == 0 || o.call > minRet {
				continue
			}
			good, n := o.apply(m)
			if good && dfs(left&^(1<<uint(i)), n) {
				return true
			}
			if limited {
				return false
			}
		}
		return false
	}
	ok = dfs(all, init)
	return ok || limited, limited
}

// regWorld is the service and its clients.
type regWorld struct {
	h       *H
	p       *rt.Proc
	client  *rt.Proc
	svc     *domain.NamespaceService
	svcVC   rt.VC // of its construction
	ops     []*regOp
	main    *rt.Task
	runErr  error
	exited  bool
	netLat  int
	lose    int
	names   []string
	patient time.Duration
	spent   time.Duration
	invalid bool                       // some requests are invalid
	dfac    domain.DeltaStorageFactory // instead of the usual one
	ifac    domain.IndexStorageFactory
	prepare func(*domain.NamespaceService, func()) // before the service starts
	addr    string
}

const regAddr = "localhost:8080"
const regFile = "/work/namespaces.json"

func newRegWorld(h *H) *regWorld {
	h.FS.Mkdir("/work")
	h.FS.Put("/work/.env", nil)
	h.FS.Env["REC_PATH"] = []string{"/work", "/work/"}[h.T.Intn(2)]
	if h.T.Intn(3) == 1 {
		h.FS.Cwd = "/cwd"
		h.FS.Mkdir("/cwd")
		h.FS.Put("/cwd/.env", nil)
	}
	h.FS.Env["REC_HOST"] = "localhost"
	h.FS.Env["REC_PORT"] = "8080"
	w := &regWorld{h: h, client: h.S.NewProc("client"), patient: 20 * time.Minute, addr: regAddr}
	w.names = []string{"abc", "b2", "zz"}[:2+h.T.Intn(2)]
	return w
}

var plainName = regexp.MustCompile(`^[a-z][a-z0-9]*$`)

// moreNames lets the service itself be asked for names that the HTTP API does
// not accept for new namespaces.
func (w *regWorld) moreNames() {
	t := w.h.T
	if t.Intn(4) == 1 {
		w.names = append(w.names, []string{"ABC", "Zz", "a_b", "a-b", "B2", "abcabcabcabcabcabcabcabcabcabcabcabcabcabcabcabc"}[t.Intn(6)])
		if t.Intn(2) == 1 {
			w.names = append(w.names, "Abc")
		}
	}
	if t.Intn(4) == 1 { // names that begin alike
		base := w.names[t.Intn(len(w.names))]
		if t.Intn(2) == 1 {
			base = base[:1]
			w.names = append(w.names, base)
		}
		w.names = append(w.names, base+[]string{"-x", "0", "a", "_x", "-"}[t.Pick(3, 2, 2, 1, 1)])
	}
}

// longNames adds a long name.
func (w *regWorld) longNames() {
	t := w.h.T
	if t.Intn(12) == 1 {
		w.names = append(w.names, strings.Repeat("a", []int{65, 130, 260, 4000}[t.Pick(4, 3, 3, 1)]-1)+"0")
	}
}

// populate registers namespaces and returns the registry; some of them take
// part in what follows.
func (w *regWorld) populate() registry {
	h, t := w.h, w.h.T
	m := registry{}
	if t.Intn(6) != 1 {
		return m
	}
	n := 3 + t.Intn([]int{6, 40, 120, 300}[t.Pick(16, 8, 4, 1)])
	churn := 0
	if t.Intn(8) == 1 {
		n = 3 + n%8
		churn = []int{64, 128, 256, 512}[t.Pick(1, 2, 4, 1)] - n + t.Intn(3) - 1
	}
	// Long names make a file that no buffer holds at once.
	stem := "n"
	if churn == 0 && t.Intn(4) == 1 {
		stem += strings.Repeat("a", 30+t.Intn(210))
	} else if n > 100 {
		n, stem = n+150, stem+strings.Repeat("b", 200+t.Intn(40))
	}
	if !w.boot(false) {
		if !h.Failed() {
			h.Fail("start", "the service does not start: %v", w.p.Data["fatal"])
		}
		return m
	}
	w.h.S.Call(w.p, "populate", func() {
		for i := 0; i < n && !h.Failed(); i++ {
			o := &regOp{kind: opCreate, name: fmt.Sprintf("%s%d", stem, i), val: regEntry{Max: uint(1 + i%7), Dis: 0.5}, service: true}
			w.direct(o)
			if !o.ok {
				h.Fail("create", "%v with healthy I/O", o)
			}
			m[o.name] = o.val
		}
		for i := 0; i < churn && !h.Failed(); i++ {
			name := fmt.Sprintf("%s%d", stem, i%n)
			o := &regOp{kind: opUpdate, name: name, to: name, val: regEntry{Max: uint(2 + i), Dis: 0.25}, service: true}
			w.direct(o)
			if !o.ok {
				h.Fail("update", "%v with healthy I/O", o)
			}
			m[name] = o.val
		}
	})
	h.Stat("populated")
	for k := 1 + t.Intn(3); k > 0; k-- {
		w.names = append(w.names, fmt.Sprintf("%s%d", stem, []int{0, t.Intn(n), n - 1}[t.Intn(3)]))
	}
	h.Retire(w.p)
	return m
}

// boot starts a service process; it reports whether it serves.
func (w *regWorld) boot(throughMain bool) bool {
	h := w.h
	p := h.Boot("shard")
	w.p, w.svc, w.exited = p, nil, false
	simnet.Cur.Bound = map[string]*simnet.Listener{}
	w.main = h.S.GoProc(p, "main", func() {
		w.runErr = w.runApp(throughMain)
		w.exited = true
	})
	h.wait(10*time.Minute, func() bool { return p.Dead || w.main.Done() || w.serving() })
	rt.Acquire(w.svcVC)
	return !p.Dead && w.serving()
}

// runApp is the service until it ends; it runs in its process.
func (w *regWorld) runApp(throughMain bool) error {
	if throughMain {
		recmain.Main()
		return nil
	}
	p := w.p
	ctx, cancel := simcontext.WithCancel(context.Background())
	dfac, ifac := w.dfac, w.ifac
	if dfac == nil {
		dfac, ifac = delta.NewStorageFactory(), index.NewStorageFactory()
	}
	svc := domain.NewNamespaceService(ctx, dfac, ifac)
	if err := svc.LoadNamespaces(); err != nil && w.registryExists() {
		p.Data["fatal"] = err.Error()
		rt.Exit(1)
	}
	if w.prepare != nil {
		w.prepare(svc, cancel)
	}
	if err := svc.Start(ctx); err != nil {
		p.Data["fatal"] = err.Error()
		rt.Exit(1)
	}
	w.svc = svc
	w.svcVC = rt.Snapshot()
	app := shard.NewApplication(&shard.ApplicationDto{Config: shard.NewConfigFromEnv(nil), NsService: svc})
	return app.Run()
}

func (w *regWorld) registryExists() bool {
	_, ok := w.h.FS.Peek(regFile)
	return ok
}

func (w *regWorld) serving() bool {
	l := simnet.Cur.Bound[simnet.Canon(w.addr)]
	return l != nil && !l.Closed && l.Accept_ != nil
}

// do performs the operation; it must be called in a task (of the client process
// for HTTP, of the service process otherwise).
func (w *regWorld) do(o *regOp) {
	h := w.h
	w.ops = append(w.ops, o)
	o.call = h.S.Tick()
	h.Note("op", opNames[o.kind], o.name, o.to, fmt.Sprint(o.val), o.service)
	f0 := h.F.Injected
	if o.service {
		w.direct(o)
	} else {
		w.http(o)
	}
	if rt.Killed() {
		return
	}
	o.faulty = h.F.Injected > f0
	o.ret = h.S.Tick()
	h.Note("op.end", opNames[o.kind], o.name, o.done, o.ok, o.status, o.err, o.body)
}

func entryOf(ns domain.Namespace) listed {
	return listed{ns.GetName().Value(), ns.GetType().Value(), ns.GetMaxSimilarProfiles()}
}

func mustName(s string) valueobjects.NamespaceName {
	n, err := valueobjects.ParseNamespaceName(s)
	if err != nil {
		panic(err)
	}
	return n
}

func (w *regWorld) direct(o *regOp) {
	svc := w.svc
	var got domain.Namespace
	switch o.kind {
	case opCreate:
		got, o.err = svc.CreateNamespace(&domain.NamespaceCreateRequest{Name: mustName(o.name), Type: valueobjects.MakeLikeNamespaceType(), MaxSimilarProfiles: o.val.Max, DislikeFactor: o.val.Dis})
	case opUpdate:
		got, o.err = svc.UpdateNamespace(mustName(o.name), &domain.NamespaceUpdateRequest{Name: mustName(o.to), MaxSimilarProfiles: o.val.Max, DislikeFactor: o.val.Dis})
	case opDelete:
		o.err = svc.DeleteNamespace(mustName(o.name))
	case opGet:
		got = svc.GetNamespaceByName(mustName(o.name))
		if got == nil {
			o.err = errors.New("nil")
		}
	case opList:
		for _, ns := range svc.GetNamespaces() {
			o.list = append(o.list, entryOf(ns))
		}
	}
	if rt.Killed() {
		return
	}
	o.done, o.ok = true, o.err == nil
	if o.ok && got != nil && o.kind == opGet {
		o.list = []listed{entryOf(got)}
	}
	if o.ok && got != nil && o.unset != 0 {
		o.val.Max = got.GetMaxSimilarProfiles()
	}
}

func (w *regWorld) http(o *regOp) {
	h := w.h
	var method, path string
	var body []byte
	path = "/api/v1/namespaces"
	b := map[string]interface{}{"maxSimilarProfiles": o.val.Max, "dislikeFactor": o.val.Dis}
	switch o.kind {
	case opCreate:
		method = "POST"
		b["name"], b["type"] = o.name, "like"
		if o.unset == 1 {
			delete(b, "maxSimilarProfiles")
		}
		body, _ = json.Marshal(b)
	case opUpdate:
		method, path = "PUT", path+"/"+o.name
		b["name"] = o.to
		if o.unset == 1 {
			delete(b, "maxSimilarProfiles")
		}
		body, _ = json.Marshal(b)
	case opGet:
		method, path = "GET", path+"/"+o.name
	case opList:
		method = "GET"
	case opBad:
		method, path, body = o.bad.method, o.bad.path, []byte(o.bad.body)
	default:
		panic("no route")
	}
	var how []simhttp.Upload
	if v := o.vet; v != nil && o.bad.method != "" {
		body = []byte(o.bad.body)
		if v.hasUp {
			how = append(how, v.up)
		}
	}
	var delay time.Duration
	if w.netLat > 0 {
		delay = time.Duration(h.T.Intn(w.netLat)) * time.Millisecond
	}
	loseReq, loseResp := false, false
	if w.lose > 0 && h.T.Chance(w.lose, 100) {
		loseReq, loseResp = h.T.Intn(3) == 1, true
	}
	patience := w.patient
	if loseReq || loseResp {
		patience = 3 * time.Second
	}
	resp, err := simhttp.Do(w.addr, method, path, body, delay, loseReq, loseResp, patience, how...)
	o.err = err
	if err != nil {
		o.open = true
		if err == simhttp.ErrTimeout && !loseReq && !loseResp {
			o.unanswered = true
		}
		if err == syscall.ECONNREFUSED { // never reached the service
			o.open, o.done, o.free = false, true, true
		}
		return
	}
	o.done, o.status, o.body = true, resp.Status, string(resp.Body)
	o.ok = resp.Status >= 200 && resp.Status < 300
	if o.ok && o.kind == opBad {
		h.Fail("accepted", "%v was accepted", o)
	}
	if !o.ok || o.kind == opBad {
		return
	}
	switch o.kind {
	case opList:
		if err := json.Unmarshal(resp.Body, &o.list); err != nil {
			h.Fail("response", "list answered with %q", resp.Body)
		}
	default:
		var l listed
		if err := json.Unmarshal(resp.Body, &l); err != nil {
			h.Fail("response", "%v answered with %q", o, resp.Body)
			return
		}
		o.list = []listed{l}
		if o.vet != nil && o.vet.free || o.unset != 0 {
			o.val.Max = l.MaxSimilarProfiles
		}
		want := o.name
		if o.kind == opUpdate {
			want = o.to
		}
		if l.Name != want || l.Type != "like" || o.kind != opGet && l.MaxSimilarProfiles != o.val.Max {
			h.Fail("response", "%v answered with %q", o, strings.TrimSpace(string(resp.Body)))
		}
	}
}

func (w *regWorld) drawVal() regEntry {
	t := w.h.T
	e := regEntry{Max: uint(1 + t.Intn(5)*t.Intn(400)), Dis: []float32{0.5, 1, 0.25, 0.1}[t.Intn(4)]}
	if t.Intn(4) == 1 {
		e.Max = []uint{1 << 16, 1 << 32, 1<<53 + 1, ^uint(0), 1 << 63}[t.Intn(5)] + uint(t.Intn(3)) - 1
		if e.Max == 0 {
			e.Max = 1
		}
	}
	if t.Intn(3) == 1 {
		e.Dis = float32(1+t.Intn(1<<24)) / (1 << 24)
		if t.Intn(4) == 1 {
			e.Dis = []float32{1e-3, 1e-7, 1e-30, 1e-44, 0.99999994}[t.Intn(5)]
		}
	}
	return e
}

// makeBad turns the operation into an invalid or cut-short request.
func (w *regWorld) makeBad(o *regOp) {
	t := w.h.T
	o.kind, o.service = opBad, false
	m := map[string]interface{}{"name": o.to, "maxSimilarProfiles": o.val.Max, "dislikeFactor": o.val.Dis}
	o.bad = badReq{method: "PUT", path: "/api/v1/namespaces/" + o.name}
	if t.Intn(2) == 1 {
		o.bad.method, o.bad.path = "POST", "/api/v1/namespaces"
		m["type"] = "like"
	}
	cut := false
	switch t.Intn(10) {
	case 0:
		cut = true
	case 1:
		m["name"] = []string{"", "1abc", "a b", "a_b", "a/b", "\u00e9t\u00e9"}[t.Intn(6)]
	case 2:
		delete(m, "name")
	case 3:
		m["dislikeFactor"] = []interface{}{-0.5, 1.5, 1e30, "x"}[t.Intn(4)]
	case 4:
		delete(m, "dislikeFactor")
	case 5:
		m["maxSimilarProfiles"] = []interface{}{-1, "many", 1.5}[t.Intn(3)]
	case 6:
		m["name"] = 7
	case 7:
		if m["type"] == nil {
			m["name"] = "-"
			break
		}
		m["type"] = []interface{}{"", "dislike", "LIKE", 3}[t.Intn(4)]
	case 8:
		if m["type"] == nil {
			o.bad.path += "nosuch"
			break
		}
		delete(m, "type")
	case 9:
		o.bad.path = "/api/v1/namespaces/1" + o.name
		o.bad.method = "PUT"
	}
	b, _ := json.Marshal(m)
	if cut {
		b = b[:t.Intn(len(b))]
	}
	o.bad.body = string(b)
}

func (w *regWorld) draw(changesOnly bool) *regOp {
	t := w.h.T
	o := &regOp{name: w.names[t.Intn(len(w.names))], val: w.drawVal()}
	o.to = o.name
	weights := []int{6, 5, 3, 3, 3}
	if changesOnly {
		weights = weights[:3]
	}
	o.kind = t.Pick(weights...)
	o.service = t.Intn(3) == 1
	if o.kind == opDelete {
		o.service = true
	}
	if o.kind == opUpdate && t.Intn(2) == 1 {
		o.to = w.names[t.Intn(len(w.names))]
	}
	if w.svc == nil {
		o.service = false
		if o.kind == opDelete {
			o.kind = opUpdate
		}
	}
	if o.kind <= opUpdate && !(plainName.MatchString(o.name) && plainName.MatchString(o.to)) {
		if w.svc != nil {
			o.service = true
		} else if !plainName.MatchString(o.to) {
			o.name, o.to = w.names[0], w.names[0]
		}
	}
	if w.invalid && o.kind <= opUpdate && t.Intn(8) == 1 {
		w.makeBad(o)
	}
	if o.kind <= opUpdate {
		if t.Intn(6) == 1 {
			o.unset, o.val.Max = 1+t.Intn(2), 0
		}
		if o.service && t.Intn(8) == 1 {
			o.val.Dis = 0
		}
	}
	return o
}

// run performs the operation in a new task.
func (w *regWorld) spawn(name string, f func(proc *rt.Proc)) []*rt.Task {
	return []*rt.Task{w.h.S.GoProc(w.client, name, func() { f(w.client) })}
}

// issue performs one operation from a client task, in the right process.
func (w *regWorld) issue(o *regOp) {
	if o.service {
		w.h.S.Call(w.p, "direct", func() { w.do(o) })
		return
	}
	w.do(o)
}

func (w *regWorld) issueFromDriver(o *regOp) {
	p := w.client
	if o.service {
		p = w.p
	}
	w.h.S.Call(p, "op", func() { w.do(o) })
}

func (w *regWorld) dupes() {
	for _, o := range w.ops {
		seen := map[string]bool{}
		for _, l := range o.list {
			if seen[l.Name] {
				w.h.Fail("duplicate", "%v shows a name twice", o)
				return
			}
			seen[l.Name] = true
		}
	}
}

func history(ops []*regOp) string {
	var r []string
	for _, o := range ops {
		r = append(r, o.String())
	}
	if len(r) > 40 {
		r = append(r[:40], "...")
	}
	return strings.Join(r, "; ")
}

func (w *regWorld) unanswered() bool {
	for _, o := range w.ops {
		if o.unanswered {
			w.h.Fail("unanswered", "%v was not answered within %v", o, w.patient)
			return true
		}
	}
	return false
}

// concurrent lets clients issue operations; it reports the number of overlaps.
func (w *regWorld) concurrent(clients, per int, changesOnly bool) {
	h, t := w.h, w.h.T
	var cl []*rt.Task
	for k := 0; k < clients; k++ {
		var ops []*regOp
		var waits []time.Duration
		for j := 0; j < per; j++ {
			ops = append(ops, w.draw(changesOnly))
			d := time.Duration(0)
			if t.Intn(3) == 1 {
				d = time.Duration(t.Intn(30)) * time.Millisecond
			}
			waits = append(waits, d)
		}
		cl = append(cl, h.S.GoProc(w.client, "client", func() {
			for j, o := range ops {
				if waits[j] > 0 {
					rt.Sleep(waits[j])
				}
				if w.p.Dead {
					return
				}
				w.issue(o)
			}
		}))
	}
	h.wait(2*w.patient, func() bool { return allDone(cl) })
	if !allDone(cl) && !h.Failed() && !w.p.Dead {
		h.Fail("unanswered", "an operation never returned: %s", h.S.BlockedReport())
	}
}

func (w *regWorld) overlaps() int {
	n := 0
	for i, a := range w.ops {
		for _, b := range w.ops[i+1:] {
			if a.kind <= opDelete && b.kind <= opDelete && (a.ret == 0 || b.call < a.ret) && (b.ret == 0 || a.call < b.ret) {
				n++
			}
		}
	}
	return n
}

func (h *H) slowDisk() {
	if h.T.Intn(2) == 1 {
		h.F.Slow = []time.Duration{time.Millisecond, 30 * time.Millisecond}[h.T.Intn(2)]
	}
}

// near returns a name that is almost one of the names.
func (w *regWorld) near() string {
	t := w.h.T
	n := w.names[t.Intn(len(w.names))]
	switch t.Intn(4) {
	case 0:
		return n[:1+t.Intn(len(n))]
	case 1:
		return n + []string{"0", "-", "_", "a"}[t.Intn(4)]
	case 2:
		return strings.ToUpper(n)
	}
	return strings.ToUpper(n[:1]) + n[1:]
}

// stallUpload starts a client whose request stops arriving in the middle, for
// longer than the others wait.
func (w *regWorld) stallUpload() {
	h, t := w.h, w.h.T
	body := `{"name":"abc","type":"like","maxSimilarProfiles":5,"dislikeFactor":0.5}`
	up := simhttp.Upload{Cut: true, CutAt: 2 + t.Intn(len(body)-2), Piece: 1 + t.Intn(10), Gap: 3 * time.Hour}
	if up.Piece >= up.CutAt {
		up.Piece = 1
	}
	method, path := "POST", "/api/v1/namespaces"
	if t.Intn(2) == 1 {
		method, path = "PUT", path+"/abc"
	}
	d := time.Duration(t.Intn(20)) * time.Millisecond
	h.S.GoProc(w.client, "stalled", func() {
		rt.Sleep(d)
		h.Stat("fault.stalled-upload")
		simhttp.Do(w.addr, method, path, []byte(body), 0, false, false, 12*time.Hour, up)
	})
}

// ---- C16 ----

func runC16(h *H) {
	t := h.T
	w := newRegWorld(h)
	h.schedule(true)
	h.slowDisk()
	w.netLat = []int{0, 5, 40}[t.Intn(3)]
	w.invalid = t.Intn(2) == 1
	if t.Intn(5) == 1 {
		w.lose = 15
	}
	lose := w.lose
	w.lose = 0
	initial := w.populate()
	w.lose = lose
	w.moreNames()
	if h.Failed() {
		return
	}
	if !w.boot(false) {
		if !h.Failed() {
			h.Fail("start", "the service does not start: %v", w.p.Data["fatal"])
		}
		return
	}
	clients := 2 + t.Intn(5)
	per := 1 + t.Intn([]int{3, 4}[t.Intn(2)])
	if clients*per > 20 {
		per = 20 / clients
	}
	if t.Intn(4) == 1 {
		w.stallUpload()
	}
	w.concurrent(clients, per, false)
	if h.Failed() || w.unanswered() {
		return
	}
	// Quiet reads at the end, both ways.
	w.lose = 0
	for k, o := range []*regOp{{kind: opList}, {kind: opList, service: true}} {
		if k == 1 || t.Intn(2) == 1 {
			for _, n := range w.names {
				w.issueFromDriver(&regOp{kind: opGet, name: n, service: o.service})
			}
			w.issueFromDriver(&regOp{kind: opGet, name: w.near(), service: o.service})
		}
		w.issueFromDriver(o)
	}
	if h.Failed() || w.unanswered() {
		return
	}
	w.dupes()
	if h.Failed() {
		return
	}
	ok, limited := linearizable(w.ops, initial)
	if limited {
		h.Stat("check.gave-up")
	}
	if !ok {
		h.Fail("linearizability", "no sequential order explains these %d operations: %s", len(w.ops), history(w.ops))
		return
	}
	good := 0
	for _, o := range w.ops {
		if o.ok && o.kind <= opDelete {
			good++
		}
	}
	ov := w.overlaps()
	h.nontrivial = ov > 0 && good > 0
	h.Key("C16", len(w.ops), ov, good, fmt.Sprint(w.ops[len(w.ops)-1].list))
	h.sample = fmt.Sprintf("%d clients, %d operations, %d overlapping pairs of changes, %d successful changes", clients, len(w.ops), ov, good)
}

// ---- C17 ----

// stored loads the registry as a restarted service would, with healthy I/O.
func (w *regWorld) stored() (registry, []listed, error) {
	h := w.h
	free := h.F.Free
	h.F.Free = true
	defer func() { h.F.Free = free }()
	slow := h.F.Slow
	h.F.Slow = 0
	defer func() { h.F.Slow = slow }()
	p := h.Boot("reader")
	m := registry{}
	var list []listed
	var err error
	h.Call(p, "load", func() {
		ctx, _ := simcontext.WithCancel(context.Background())
		svc := domain.NewNamespaceService(ctx, delta.NewStorageFactory(), index.NewStorageFactory())
		err = svc.LoadNamespaces()
		if err != nil && !w.registryExists() {
			err = nil
		}
		for _, ns := range svc.GetNamespaces() {
			e := regEntry{Max: ns.GetMaxSimilarProfiles()}
			if d, ok := ns.(interface{ GetDislikeFactor() float32 }); ok {
				e.Dis = d.GetDislikeFactor()
			}
			m[ns.GetName().Value()] = e
			list = append(list, entryOf(ns))
		}
	})
	h.Retire(p)
	return m, list, err
}

func dislikes(m registry) map[string]float32 {
	r := map[string]float32{}
	for k, v := range m {
		r[k] = v.Dis
	}
	return r
}

func runC17(h *H) {
	t := h.T
	w := newRegWorld(h)
	h.schedule(false)
	h.F.Short = t.Intn(4) == 1
	state := w.populate()
	w.moreNames()
	if h.Failed() {
		return
	}
	w.longNames()
	crashes, changes, unreadable := 0, 0, 0
	for i := 0; h.More(i, 6); i++ {
		t.Begin()
		h.F.Clear()
		h.F.Slow = 0
		h.slowDisk()
		w.ops = nil
		mode := t.Intn(2) == 1
		// Crash while starting, or a registry that cannot be read.
		fault := t.Pick(6, 1, 1, 1)
		intact, _ := h.FS.Peek(regFile)
		intact = append([]byte(nil), intact...)
		damaged := false
		switch fault {
		case 1:
			h.F.CrashIn = 1 + t.Intn(8)
		case 2:
			h.F.ErrIn = 1
			h.F.ErrPath = regFile
			h.F.ErrKinds = map[string]bool{"read": true, "open": true, "stat": true}
			if t.Intn(2) == 1 {
				delete(h.F.ErrKinds, "open")
			}
		case 3:
			if n := len(intact); n > 1 {
				bad := intact[:[]int{t.Intn(n), n / 2, n - 2}[t.Intn(3)]]
				if damaged = !json.Valid(bad); damaged {
					h.Stat("fault.damaged-registry")
					h.FS.Put(regFile, bad)
				}
			}
		}
		up := w.boot(mode)
		if h.Failed() {
			return
		}
		injected := h.F.Injected
		crashed := h.F.Crashed
		h.F.Clear()
		if !up {
			if damaged {
				h.FS.Put(regFile, intact)
				unreadable++
				h.Retire(w.p)
				t.End()
				continue
			}
			if !crashed && injected == 0 && !w.p.Dead {
				h.Fail("start", "the service does not serve: main ended %v", w.main.Done())
				return
			}
			if !crashed && injected == 0 {
				h.Fail("start", "the service does not start on its registry: %v", w.p.Data["fatal"])
				return
			}
			if crashed {
				crashes++
			} else {
				unreadable++
			}
			h.Retire(w.p)
			t.End()
			continue
		}
		if injected > 0 {
			unreadable++
		}
		// What a restart shows: it must be the state, by list and by name.
		l := &regOp{kind: opList}
		w.issueFromDriver(l)
		if h.Failed() {
			return
		}
		if !l.done {
			h.Fail("start", "the first list was not answered: %v", l.err)
			return
		}
		if good, _ := l.apply(state); !good || !l.ok {
			h.Fail("restart", "after a restart (registry unreadable: %v) the service shows %v, it should be %v", injected > 0 || damaged, l, state)
			return
		}
		if damaged {
			h.FS.Put(regFile, intact)
		}
		w.ops = nil
		// Changes, and a crash at any point of the file operations or anywhere.
		crashAt := t.Pick(4, 2, 1)
		switch crashAt {
		case 0:
			h.F.CrashIn = 1 + t.Intn([]int{4, 12, 40}[t.Intn(3)])
		}
		if t.Intn(4) == 1 {
			h.F.ErrIn, h.F.ErrN = 1+t.Intn(4), 1+t.Intn(3)
			h.F.ErrKinds = regKinds(t)
			h.F.LateLoss = true
		}
		var killer *rt.Task
		if crashAt == 1 {
			d := time.Duration(t.Intn(100)) * 500 * time.Microsecond
			p := w.p
			killer = h.S.GoProc(h.S.Root, "killer", func() {
				rt.Sleep(d)
				if !p.Dead {
					h.S.Stat("fault.crash")
					h.FS.DropProc(p)
					h.S.Kill(p)
				}
			})
		}
		clients := 1 + t.Pick(4, 3, 2, 1)
		w.concurrent(clients, 1+t.Intn(4), true)
		if killer != nil {
			killer.Join()
		}
		if h.Failed() || !w.p.Dead && w.unanswered() {
			return
		}
		if w.p.Dead {
			crashes++
			h.F.Clear()
			w.p.Reap()
		} else {
			h.Kill(w.p)
			h.F.Clear()
		}
		changes += len(w.ops)
		m, list, err := w.stored()
		if h.Failed() {
			return
		}
		if err != nil {
			data, _ := h.FS.Peek(regFile)
			h.Fail("unloadable", "the registry does not load after a crash: %v; it is %q", err, data)
			return
		}
		for _, o := range w.ops {
			if !o.done || o.ret == 0 {
				o.open = true
			}
		}
		fin := &regOp{kind: opList, list: list, ok: true, done: true, call: h.S.Tick(), withDis: dislikes(m)}
		fin.ret = h.S.Tick()
		ops := append(append([]*regOp(nil), w.ops...), fin)
		ok, limited := linearizable(ops, state)
		if limited {
			h.Stat("check.gave-up")
		}
		if !ok {
			h.Fail("lost", "starting from %v, no order of these operations leaves the stored registry %v: %s", state, m, history(ops))
			return
		}
		state = m
		h.Key("C17", i, crashes, changes, state)
		t.End()
	}
	h.nontrivial = crashes > 0 && changes > 0
	h.sample = fmt.Sprintf("%d crashes, %d changes, %d unreadable registries, in the end %v", crashes, changes, unreadable, state)
}

// ---- C18 ----

// regKinds draws the kinds of operations that fail.
func regKinds(t *rt.Tape) map[string]bool {
	all := []string{"write", "open", "create", "close", "rename", "sync", "truncate"}
	m := map[string]bool{}
	pick := t.Pick(3, 2, 1)
	for _, k := range all {
		if pick == 0 || pick == 1 && t.Intn(2) == 1 {
			m[k] = true
		}
	}
	if len(m) == 0 {
		m[all[t.Intn(len(all))]] = true
	}
	return m
}

func runC18(h *H) {
	t := h.T
	w := newRegWorld(h)
	h.schedule(false)
	w.invalid = t.Intn(3) == 1
	state := w.populate()
	w.moreNames()
	if h.Failed() {
		return
	}
	w.longNames()
	failed, total, restarts := 0, 0, 0
	if !w.boot(t.Intn(4) == 1) {
		if !h.Failed() {
			h.Fail("start", "the service does not start: %v", w.p.Data["fatal"])
		}
		return
	}
	arm := func() {
		h.F.Clear()
		if t.Intn(2) == 1 {
			h.F.ErrIn = 1 + t.Intn([]int{2, 4, 10}[t.Intn(3)])
			h.F.ErrKinds = regKinds(t)
			h.F.LateLoss = true
			switch t.Pick(4, 2, 1) {
			case 1:
				h.F.ErrN = 2 + t.Intn(4)
			case 2:
				h.F.ErrN = 1000
			}
		}
	}
	// observe compares the running service and the stored registry with the model.
	observe := func(when string) {
		h.F.Clear()
		l := &regOp{kind: opList, service: w.svc != nil && t.Intn(3) == 1}
		w.issueFromDriver(l)
		if h.Failed() {
			return
		}
		if good, _ := l.apply(state); !l.done || !l.ok || !good {
			h.Fail("running", "%s the running service shows %v, it should be %v", when, l, state)
			return
		}
		m, list, err := w.stored()
		if h.Failed() {
			return
		}
		if err != nil || len(list) != len(m) || !state.is(m) {
			h.Fail("stored", "%s the stored registry is %v (%v), it should be %v", when, m, err, state)
		}
	}
	for i := 0; h.More(i, 12); i++ {
		t.Begin()
		w.ops = nil
		arm()
		if t.Intn(3) != 1 {
			o := w.draw(true)
			w.issueFromDriver(o)
			inj := h.F.Injected
			h.F.Clear()
			if h.Failed() || w.unanswered() {
				return
			}
			total++
			good, next := o.apply(state)
			if !good {
				h.Fail("answer", "%v on %v", o, state)
				return
			}
			state = next
			if !o.ok && inj > 0 {
				failed++
			}
			observe(fmt.Sprintf("after %v with %d I/O errors", o, inj))
			if h.Failed() {
				return
			}
			if !o.ok && inj > 0 && t.Intn(4) != 1 {
				again := &regOp{kind: o.kind, name: o.name, to: o.to, val: o.val, unset: o.unset, service: o.service}
				w.issueFromDriver(again)
				good, next = again.apply(state)
				if !good || h.Failed() {
					if !h.Failed() {
						h.Fail("repeat", "repeating %v without I/O errors: %v on %v", o, again, state)
					}
					return
				}
				state = next
				observe("after repeating it")
			}
		} else {
			w.concurrent(2+t.Intn(2), 1+t.Intn(2), true)
			inj := h.F.Injected
			h.F.Clear()
			if h.Failed() || w.unanswered() {
				return
			}
			total += len(w.ops)
			for _, o := range w.ops {
				o.free = inj > 0
				if !o.ok {
					failed += btoi(inj > 0)
				}
			}
			ops := w.ops
			m, list, err := w.stored()
			if err != nil {
				h.Fail("stored", "the registry does not load: %v", err)
				return
			}
			fin := &regOp{kind: opList, list: list, ok: true, done: true, call: h.S.Tick(), withDis: dislikes(m)}
			fin.ret = h.S.Tick()
			ops = append(ops, fin)
			ok, limited := linearizable(ops, state)
			if limited {
				h.Stat("check.gave-up")
			}
			if !ok {
				h.Fail("stored", "starting from %v, no order of the operations reported successful leaves the stored registry %v: %s", state, m, history(ops))
				return
			}
			state = m
			observe("after concurrent changes")
		}
		if h.Failed() {
			return
		}
		if t.Intn(4) == 1 {
			restarts++
			h.Retire(w.p)
			if !w.boot(t.Intn(4) == 1) {
				if !h.Failed() {
					h.Fail("start", "the service does not restart: %v", w.p.Data["fatal"])
				}
				return
			}
			observe("after a restart")
		}
		h.Key("C18", total, failed, state)
		t.End()
	}
	h.nontrivial = failed > 0
	h.sample = fmt.Sprintf("%d changes, %d of them failed by I/O errors, %d restarts, in the end %v", total, failed, restarts, state)
}

func btoi(b bool) int {
	if b {
		return 1
	}
	return 0
}

package main

import (
	"encoding/json"
	"fmt"
	"strings"
	"time"

	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simhttp"
)

func init() {
	register(&Prop{ID: "C22", Run: runC22, Quick: 60000, Thorough: 900000,
		Rule:   "1 to 4 concurrent clients that send valid and invalid create and update requests, whole, in slow pieces, cut short in the text or by a connection that breaks at a drawn byte, with lost responses and a slow disk; every answer, the running service, the stored registry and a restarted service are compared with a model; non-trivial: an invalid request answered and a valid one accepted",
		States: "(requests, class of the invalid ones, accepted ones)",
		Real:   []string{"internal/api/shard endpoints, DTOs, application", "internal/domain namespace service, value objects", "gin router, validator, encoding/json (not instrumented)"},
		Stub:   []string{"network and net/http server (pieces, broken connections, lost messages)", "file system (in memory)", "scheduler, clock", "process"},
		Assume: []string{"dislikeFactor 0 is not drawn: the code refuses it as missing", "bytes after a complete JSON value are not drawn"}})
}

// vetReq is what is special about a request of this scenario.
type vetReq struct {
	class   string
	fields  []string // offending fields; nil if the text itself is bad
	free    bool     // the value of maxSimilarProfiles is up to the service
	up      simhttp.Upload
	hasUp   bool
	checked bool
}

type vetWorld struct {
	*regWorld
	invalid, accepted int
}

// vetted draws a request.
func (w *vetWorld) vetted() *regOp {
	t := w.h.T
	o := &regOp{name: w.names[t.Intn(len(w.names))], vet: &vetReq{}}
	v := o.vet
	o.val = regEntry{Max: []uint{1, 2, 1000, 4294967295}[t.Intn(4)], Dis: []float32{1, 0.5, 0.001, 1e-6}[t.Intn(4)]}
	o.kind, o.to = opCreate, o.name
	switch t.Pick(8, 6, 1, 1) {
	case 1:
		o.kind = opUpdate
		if t.Intn(2) == 1 {
			o.to = w.names[t.Intn(len(w.names))]
		}
	case 2:
		o.kind = opGet
		return o
	case 3:
		o.kind = opList
		return o
	}
	m := map[string]interface{}{"name": o.to, "maxSimilarProfiles": o.val.Max, "dislikeFactor": o.val.Dis}
	bad := badReq{method: "PUT", path: "/api/v1/namespaces/" + o.name}
	if o.kind == opCreate {
		m["type"] = "like"
		bad.method, bad.path = "POST", "/api/v1/namespaces"
	}
	if w.lose == 0 && t.Intn(5) == 1 {
		v.free = true
		if t.Intn(2) == 1 {
			delete(m, "maxSimilarProfiles")
		} else {
			m["maxSimilarProfiles"] = 0
		}
	}
	raw := ""
	if t.Intn(5) < 3 {
		n := 1
		if t.Intn(4) == 1 {
			n = 2
		}
		for ; n > 0; n-- {
			w.spoil(o, m, &bad, &raw)
		}
	}
	b, _ := json.Marshal(m)
	if t.Intn(4) == 1 { // the same in other words
		b, _ = json.MarshalIndent(m, "", "\t")
	}
	body := string(b)
	if t.Intn(20) == 1 && raw == "" && v.class != "cut" { // with room in it
		pad := strings.Repeat(" ", []int{300, 5000, 70000}[t.Intn(3)])
		switch t.Intn(3) {
		case 0:
			body = pad + body
		case 1:
			body = body[:1] + pad + body[1:]
		case 2:
			body += pad
		}
	}
	switch {
	case raw != "":
		body = raw
	case v.class == "cut":
		body = body[:t.Intn(len(body))]
	}
	if len(body) > 0 {
		if t.Intn(3) == 1 {
			v.hasUp = true
			v.up.Piece = 1 + t.Intn(40) + len(body)/300
			v.up.Gap = []time.Duration{0, time.Millisecond, 50 * time.Millisecond}[t.Intn(3)]
		}
		if t.Intn(6) == 1 { // what the client says it is doesn't matter
			v.hasUp = true
			v.up.Type = []string{"-", "text/plain", "application/x-www-form-urlencoded", "application/json; charset=utf-8", "multipart/form-data; boundary=x"}[t.Intn(5)]
		}
		if v.class == "broken" {
			v.hasUp, v.up.Cut, v.up.CutAt = true, true, t.Intn(1+len(strings.TrimRight(body[1:], " ")))
		}
	}
	o.bad = bad
	o.bad.body = body
	if v.class != "" {
		o.kind = opBad
		w.invalid++
	}
	return o
}

// spoil makes a request invalid in one way.
func (w *vetWorld) spoil(o *regOp, m map[string]interface{}, bad *badReq, raw *string) {
	t, v := w.h.T, o.vet
	pick := func(vs ...interface{}) interface{} { return vs[t.Intn(len(vs))] }
	field := func(class, name string) {
		if v.class == "" || len(v.fields) > 0 {
			v.class = class
			v.fields = append(v.fields, name)
		}
	}
	text := func(class string) { v.class, v.fields = class, nil }
	switch t.Pick(4, 1, 3, 1, 2, 1, 2, 2, 2, 1, 1) {
	case 0:
		m["name"] = pick("Abc", "abC", "1abc", "7", "a_b", "a-b", "a b", " abc", "abc ", "", "\u00e9t\u00e9", "a/b", "abc\n", "abc\x00", "../x", "a.b", "_a", "-a", "a\u0430")
		field("name", "name")
	case 1:
		if t.Intn(2) == 1 {
			delete(m, "name")
		} else {
			m["name"] = nil
		}
		field("no name", "name")
	case 2:
		m["dislikeFactor"] = pick(-0.5, 1.5, 1e30, -0.001, 1.01, 2, -1, 100)
		field("dislikeFactor", "dislikeFactor")
	case 3:
		delete(m, "dislikeFactor")
		field("no dislikeFactor", "dislikeFactor")
	case 4:
		if o.kind != opCreate {
			m["maxSimilarProfiles"] = -1
			text("maxSimilarProfiles")
			return
		}
		m["type"] = pick("", "Like", "dislike", "like ", " like", "likes", "LIKE")
		field("type", "type")
	case 5:
		if o.kind != opCreate {
			m["name"] = "Z"
			field("name", "name")
			return
		}
		delete(m, "type")
		field("no type", "type")
	case 6:
		switch t.Intn(4) {
		case 0:
			m["maxSimilarProfiles"] = pick(-1, 1.5, "10", 1e30, true, -0.5)
		case 1:
			m["dislikeFactor"] = pick("0.5", true, 1e39, []int{1})
		case 2:
			m["name"] = pick(7, true, []string{"abc"}, map[string]int{})
		case 3:
			m["name"] = pick(1.5, -7)
		}
		text("wrong kind")
	case 7:
		text("cut")
	case 8:
		text("broken")
	case 9:
		*raw = pick("{", "[]", `"abc"`, "7", "{]", `{"name"}`, "\x00", "name=abc", "{{}}", "true", `[{"name":"abc"}]`).(string)
		text("garbage")
	case 10:
		if o.kind == opCreate {
			*raw = pick("{}", `{"x":1}`).(string)
			v.class, v.fields = "empty", []string{"name", "type", "dislikeFactor"}
			return
		}
		bad.path = "/api/v1/namespaces/" + pick("1abc", "nosuch", "-", "a.b", "a%20b").(string)
		text("path")
	}
}

// judge checks one answer.
func (w *vetWorld) judge(o *regOp) {
	h, v := w.h, o.vet
	if v == nil || v.checked || !o.done {
		if v != nil && !v.checked && o.ret > 0 && o.err != nil && o.err != simhttp.ErrTimeout {
			h.Fail("dropped", "%v was not answered: %v", o, o.err)
		}
		return
	}
	v.checked = true
	var e struct {
		Error  string `json:"error"`
		Errors []struct {
			Field   string `json:"field"`
			Message string `json:"message"`
		} `json:"errors"`
	}
	json.Unmarshal([]byte(o.body), &e)
	if o.kind != opBad {
		if !o.ok && (len(e.Errors) > 0 || e.Error == "validation") {
			h.Fail("refused", "%v %s is valid and was refused: %d %s", o, o.bad.body, o.status, strings.TrimSpace(o.body))
		}
		if o.ok && o.kind <= opUpdate {
			w.accepted++
		}
		return
	}
	h.Key("C22", v.class, o.bad.method, o.status)
	if o.status < 400 || o.status >= 500 {
		h.Fail("status", "the invalid request (%s) %v was answered with status %d", v.class, o, o.status)
		return
	}
	if len(v.fields) == 0 || o.bad.method == "PUT" && o.status != 400 {
		return
	}
	// Only offending fields are named, and at least one of them.
	if len(e.Errors) == 0 {
		h.Fail("fields", "the answer to the invalid request (%s) %v names no field", v.class, o)
		return
	}
	for i, f := range e.Errors {
		for _, g := range e.Errors[:i] {
			if f == g {
				h.Fail("fields", "the answer to the invalid request %v says %q twice", o, f)
				return
			}
		}
		ok := false
		for _, x := range v.fields {
			ok = ok || strings.EqualFold(f.Field, x)
		}
		if !ok || f.Message == "" {
			h.Fail("fields", "the answer to the invalid request %v blames the field %q with %q; wrong: %v", o, f.Field, f.Message, v.fields)
			return
		}
	}
}

func runC22(h *H) {
	t := h.T
	w := &vetWorld{regWorld: newRegWorld(h)}
	h.schedule(false)
	h.slowDisk()
	w.netLat = []int{0, 5, 40}[t.Intn(3)]
	if t.Intn(6) == 1 {
		w.lose = 12
	}
	w.longNames()
	if !w.boot(t.Intn(4) == 1) {
		if !h.Failed() {
			h.Fail("start", "the service does not start: %v", w.p.Data["fatal"])
		}
		return
	}
	var cl []*rt.Task
	clients := 1 + t.Pick(3, 3, 2, 1)
	per := 1 + t.Intn(20/clients)
	if per > 8 {
		per = 8
	}
	for k := 0; k < clients; k++ {
		var ops []*regOp
		for j := 0; j < per; j++ {
			t.Begin()
			ops = append(ops, w.vetted())
			t.End()
		}
		cl = append(cl, h.S.GoProc(w.client, "client", func() {
			for _, o := range ops {
				w.do(o)
				if h.Failed() {
					return
				}
				w.judge(o)
			}
		}))
	}
	h.wait(2*w.patient, func() bool { return allDone(cl) })
	if !allDone(cl) && !h.Failed() {
		h.Fail("unanswered", "a request never returned: %s", h.S.BlockedReport())
	}
	if h.Failed() || w.unanswered() {
		return
	}
	w.lose = 0
	w.issueFromDriver(&regOp{kind: opList})
	m, list, err := w.stored()
	if h.Failed() {
		return
	}
	if err != nil {
		h.Fail("stored", "the stored registry does not load: %v; %s", err, history(w.ops))
		return
	}
	fin := &regOp{kind: opList, list: list, ok: true, done: true, call: h.S.Tick(), withDis: dislikes(m)}
	fin.ret = h.S.Tick()
	ok, limited := linearizable(append(append([]*regOp(nil), w.ops...), fin), registry{})
	if limited {
		h.Stat("check.gave-up")
	}
	if !ok {
		h.Fail("effect", "no order of the valid requests alone explains the answers and the stored registry %v: %s", m, history(w.ops))
		return
	}
	// A restart shows the same.
	h.Retire(w.p)
	if !w.boot(t.Intn(4) == 1) {
		if !h.Failed() {
			h.Fail("start", "the service does not restart: %v", w.p.Data["fatal"])
		}
		return
	}
	l := &regOp{kind: opList}
	w.issueFromDriver(l)
	if h.Failed() {
		return
	}
	if good, _ := l.apply(m); !good || !l.ok {
		h.Fail("restart", "a restarted service shows %v, the stored registry was %v", l, m)
		return
	}
	h.nontrivial = w.invalid > 0 && w.accepted > 0
	h.sample = fmt.Sprintf("%d clients, %d requests, %d invalid, %d changes accepted, in the end %v", clients, clients*per, w.invalid, w.accepted, m)
}

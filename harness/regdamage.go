package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"recengine/internal/zzsim/rt"
)

type storedReg struct {
	Name               string  `json:"name"`
	Type               string  `json:"type"`
	MaxSimilarProfiles uint    `json:"maxSimilarProfiles"`
	DislikeFactor      float32 `json:"dislikeFactor"`
}

var anyName = regexp.MustCompile(`^[a-zA-Z][a-zA-Z0-9_\-]*$`)

// decodeReg reads a registry file; nil if it is not one.
func decodeReg(data []byte) []storedReg {
	rs := []storedReg{}
	if json.Unmarshal(data, &rs) != nil {
		return nil
	}
	for _, r := range rs {
		if !anyName.MatchString(r.Name) || r.Type != "like" {
			return nil
		}
	}
	if rs == nil { // "null"
		rs = []storedReg{}
	}
	return rs
}

// damageReg changes the text of a registry with its grammar in mind.
func damageReg(t *rt.Tape, data []byte) []byte {
	s := string(data)
	switch t.Intn(5) {
	case 0: // something else altogether
		return []byte([]string{"", "null", "[]", "{}", "[null]", "[{}]", "[[]]", "[1]", "\"abc\"", "[", "[{\"name\":\"abc\"}]", "\x00\x00\x00", " ", "[null,null]"}[t.Intn(14)])
	case 1: // after its end
		return []byte(s + []string{"]", "x", "[]", "\x00\x00", ",", "\n"}[t.Intn(6)])
	case 2: // another value of a field
		var fields []int
		for k := 0; k < len(s); k++ {
			if s[k] == ':' {
				fields = append(fields, k+1)
			}
		}
		if len(fields) > 0 {
			a := fields[t.Intn(len(fields))]
			if e := strings.IndexAny(s[a:], ",}"); e >= 0 {
				v := []string{"null", "\"\"", "-1", "1.5", "\"x\"", "[]", "{}", "true", "0", "99999999999999999999", "\"like\"", "\"9a\"", "\"a b\"", "\"a/b\"", "1e99"}[t.Intn(15)]
				s = s[:a] + v + s[a+e:]
			}
		}
	case 3: // another record
		var recs []string
		for k := 0; k < len(s); k++ {
			if s[k] == '{' {
				if e := strings.IndexByte(s[k:], '}'); e >= 0 {
					recs = append(recs, s[k:k+e+1])
				}
			}
		}
		if len(recs) > 0 {
			s = strings.Replace(s, recs[t.Intn(len(recs))], []string{"null", "{}", "[]", "1", "", recs[t.Intn(len(recs))]}[t.Intn(6)], 1)
		}
	case 4: // a field is missing
		name := []string{"name", "type", "maxSimilarProfiles", "dislikeFactor"}[t.Intn(4)]
		s = strings.Replace(s, "\""+name+"\":", "\"x\":", 1)
	}
	return []byte(s)
}

// damagedRegistry starts the shard on a registry whose stored bytes are damaged.
func (h *H) damagedRegistry() {
	t := h.T
	w := newRegWorld(h)
	h.schedule(false)
	var rng rt.Rng
	rng.Seed(t.Intn(1 << 16))
	var recs []storedReg
	for n := t.Intn([]int{3, 8, 60}[t.Pick(4, 3, 1)] + 1); n > 0; n-- {
		recs = append(recs, storedReg{fmt.Sprintf("n%d", n), "like", uint(rng.Intn(2000)), float32(1+rng.Intn(8)) / 8})
	}
	orig := []byte("[]")
	if len(recs) > 0 {
		orig, _ = json.Marshal(recs)
	}
	img := append([]byte(nil), orig...)
	if t.Intn(3) == 0 {
		img = damageBytes(t, &rng, img, nil)
	} else {
		for k := 1 + t.Intn(2); k > 0; k-- {
			img = damageReg(t, img)
		}
	}
	h.FS.Put(regFile, img)
	h.Stat("damaged-registry")
	h.Note("registry", string(img))
	up := w.boot(t.Intn(2) == 1)
	if h.Failed() {
		return
	}
	want := decodeReg(img)
	h.nontrivial = !bytes.Equal(orig, img)
	h.Key("C10", "registry", len(img), up, want == nil)
	h.sample = fmt.Sprintf("registry of %d namespaces, %d bytes: served %v", len(recs), len(img), up)
	if !up {
		if !w.p.Dead && !w.main.Done() {
			h.Fail("hang", "the shard neither refuses a damaged registry nor serves: %s", h.S.BlockedReport())
			return
		}
		if now, _ := h.FS.Peek(regFile); !bytes.Equal(now, img) {
			h.Fail("changed", "refusing to start changed a damaged registry of %d bytes from byte %d on", len(img), firstDiff(img, now))
		}
		return
	}
	if want == nil {
		h.Fail("opened", "the shard serves although its registry is damaged: %q", clip(img))
		return
	}
	l := &regOp{kind: opList}
	w.issueFromDriver(l)
	if h.Failed() {
		return
	}
	if !l.done || !l.ok {
		h.Fail("contents", "the list of a registry that was read is not answered: %v", l)
		return
	}
	names := map[string]bool{}
	var a, b []string
	for _, r := range want {
		names[r.Name] = true
		a = append(a, fmt.Sprint(r.Name, " ", r.MaxSimilarProfiles))
	}
	for _, r := range l.list {
		b = append(b, fmt.Sprint(r.Name, " ", r.MaxSimilarProfiles))
	}
	sort.Strings(a)
	sort.Strings(b)
	if len(names) == len(want) && strings.Join(a, ",") != strings.Join(b, ",") {
		h.Fail("contents", "the registry holds %v but %v is served", a, b)
	}
}

func clip(b []byte) []byte {
	if len(b) > 200 {
		return b[:200]
	}
	return b
}

package main

import (
	"fmt"
)

// C27: no data races. The worlds of other properties run under the
// happens-before detector (this property's simulation is instrumented with
// -race); what else they would report is for their own checks.

func init() {
	register(&Prop{ID: "C27", Run: runC27, Quick: 60000, Thorough: 1500000, Only: "race",
		Rule:   "run i draws from stream (seed, i) a world (registry clients over HTTP and direct, namespaces of a running service, one namespace with its actors, several namespaces or storages side by side, the whole application with signals, faults and leaks), its operations, schedule and faults; every access to a field, element, pointed-to value, map, package variable or shared local is checked against all earlier conflicting ones by vector clocks",
		States: "distinct combinations of a world and the number of accesses to memory that goroutines shared",
		Real:   []string{"main's parts: internal/domain, internal/api/shard, internal/infra/delta, index, recdb", "gin router (not instrumented)"},
		Stub:   []string{"goroutine scheduler", "channels, select, sync, sync/atomic, context (with their happens-before edges)", "clock and timers", "file system (in memory)", "network, net/http server, signals", "LikeStorageFactory (the repository has none)"},
		Assume: []string{"a race is a pair of conflicting accesses to one field, element, map or variable that no chain of synchronisation orders, as in Go's memory model; accesses within uninstrumented libraries are not seen", "one like namespace is started once, and a service is started once"}})
}

var raceWorlds = []struct {
	name string
	run  func(h *H)
}{
	{"registry", func(h *H) { runC16(h) }},
	{"service", func(h *H) { runC26(h) }},
	{"namespace", func(h *H) { runNS(h, "C13") }},
	{"stop", func(h *H) { runNS(h, "C14") }},
	{"tenants", func(h *H) { runC24(h) }},
	{"application", func(h *H) { runC19(h) }},
	{"leaks", func(h *H) { runC25(h) }},
	{"requests", func(h *H) { runNS(h, "C12") }},
}

func runC27(h *H) {
	h.S.DetectRaces()
	w := raceWorlds[h.T.Pick(6, 5, 3, 3, 2, 2, 2, 2)]
	h.Stat("world." + w.name)
	w.run(h)
	acc, _, syncs, shared := h.S.RaceCounts()
	h.S.Stats["race.accesses"] += acc
	h.S.Stats["race.synchronisations"] += syncs
	h.S.Stats["race.shared-accesses"] += shared
	h.nontrivial = shared > 0
	h.keys = nil
	h.Key("C27", w.name, shared)
	h.sample = fmt.Sprintf("world %s: %d accesses, %d of them to memory another goroutine had accessed, %d synchronisations", w.name, acc, shared, syncs)
}

// Command harness runs the simulations that decide the properties.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/gin-gonic/gin"

	"recengine/internal/zzsim/rt"
)

var (
	fProp     = flag.String("prop", "", "property id")
	fTier     = flag.String("tier", "quick", "quick or thorough")
	fSeed     = flag.Uint64("seed", 1, "base seed")
	fRuns     = flag.Int("runs", 0, "number of runs (0: the tier's default)")
	fCap      = flag.Float64("cap", 0, "wall-clock cap in seconds (0: the tier's default)")
	fWorkers  = flag.Int("workers", 8, "worker processes")
	fEvidence = flag.String("evidence", "", "evidence file to write")
	fOutDir   = flag.String("outdir", "", "directory for replay files")
	fReplay   = flag.String("replay", "", "replay file to reproduce")
	fKnown    = flag.String("known", "", "known-findings file")
	fWorker   = flag.Int("worker", -1, "internal: worker index")
	fOut      = flag.String("out", "", "internal: worker result file")
	fOne      = flag.Int("one", -1, "run only this run index, with a trace")
	fStream   = flag.String("stream", "", "internal: stream the tape to this file")
	fLevel    = flag.String("level", "exploration", "level written to the evidence")
	fVerbose  = flag.Bool("v", false, "print statistics")
)

// stdout is the real one; the code under test prints to os.Stdout.
var stdout = os.Stdout

func say(format string, args ...interface{}) { fmt.Fprintf(stdout, format+"\n", args...) }

func fatal(format string, args ...interface{}) {
	fmt.Fprintf(os.Stderr, "harness: "+format+"\n", args...)
	os.Exit(3)
}

func quiet() {
	null, err := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if err != nil {
		fatal("%v", err)
	}
	os.Stdout = null
	log.SetOutput(io.Discard)
	gin.SetMode(gin.ReleaseMode)
	gin.DefaultWriter = io.Discard
	gin.DefaultErrorWriter = io.Discard
}

func main() {
	flag.Parse()
	quiet()
	if *fReplay != "" {
		os.Exit(replayMain(*fReplay))
	}
	p := props[*fProp]
	if p == nil {
		fatal("unknown property %q", *fProp)
	}
	if *fOne >= 0 {
		tape := rt.NewTape(runSeed(p, *fOne))
		if *fStream != "" {
			f, err := os.Create(*fStream)
			if err != nil {
				fatal("%v", err)
			}
			tape.Stream = func(v int) { fmt.Fprintln(f, v) }
		}
		limitMemory()
		r := runOne(p, tape, true)
		say("%s", strings.Join(r.Trace, "\n"))
		say("class=%q msg=%s nontrivial=%v sample=%s hash=%x yields=%d steps=%d now=%v", r.Class, r.Msg, r.Nontrivial, r.Sample, r.Hash, r.Yields, r.Steps, r.Now)
		if r.Class != "" {
			os.Exit(1)
		}
		return
	}
	if *fWorker >= 0 {
		workerMain(p)
		return
	}
	os.Exit(coordinate(p))
}

func runSeed(p *Prop, i int) uint64 {
	h := *fSeed
	for _, c := range p.ID {
		h = rt.Mix(h, uint64(c))
	}
	return rt.Mix(h, uint64(i)+1)
}

func defaults(p *Prop) (int, float64) {
	runs, limit := p.Quick, 90.0
	if *fTier == "thorough" {
		runs, limit = p.Thorough, 780.0
	}
	if *fRuns > 0 {
		runs = *fRuns
	}
	if *fCap > 0 {
		limit = *fCap
	}
	return runs, limit
}

// Found is a violation as a worker reports it.
type Found struct {
	Run   int
	Class string
	Msg   string
	Vals  []int
	Trace []string
	Hash  uint64
	Orig  int // length of the tape before minimising
}

// WorkerOut is what a worker leaves behind.
type WorkerOut struct {
	Runs        int
	Nontrivial  int
	Hashes      []uint64 // of distinct non-trivial executions
	Schedules   []uint64
	Stats       map[string]int
	SimTime     float64 // seconds
	Yields      int
	Switches    int
	Preempts    int
	Rechecked   int
	Mismatches  int
	Samples     []string
	Found       *Found
	KnownHits   map[string]int
	Wall        float64
	DistinctKey []uint64
}

// limitMemory keeps the code under test from eating the machine.
func limitMemory() {
	as := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
	if err := syscall.Setrlimit(syscall.RLIMIT_AS, &as); err != nil {
		fatal("setrlimit: %v", err)
	}
}

func workerMain(p *Prop) {
	debug.SetGCPercent(200)
	limitMemory()
	runs, limit := defaults(p)
	known := loadKnown(*fKnown, p.ID)
	start := time.Now()
	out := &WorkerOut{Stats: map[string]int{}, KnownHits: map[string]int{}}
	hashes, scheds, keys := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	status, err := os.Create(*fOut + ".status")
	if err != nil {
		fatal("%v", err)
	}
	progress := make(chan int, 1)
	go watchdog(progress, status)
	write := func() {
		out.Hashes, out.Schedules, out.DistinctKey = keysOf(hashes), keysOf(scheds), keysOf(keys)
		out.Wall = time.Since(start).Seconds()
		data, _ := json.Marshal(out)
		if err := os.WriteFile(*fOut, data, 0644); err != nil {
			fatal("%v", err)
		}
	}
	for i := *fWorker; i < runs; i += *fWorkers {
		if time.Since(start).Seconds() > limit {
			break
		}
		status.WriteAt([]byte(fmt.Sprintf("%012d\n", i)), 0)
		select {
		case progress <- i:
		default:
		}
		r := runOne(p, rt.NewTape(runSeed(p, i)), false)
		out.Runs++
		for k, v := range r.Stats {
			out.Stats[k] += v
		}
		out.SimTime += r.Now.Seconds()
		out.Yields += r.Yields
		out.Switches += r.Switches
		out.Preempts += r.Preempts
		scheds[r.SHash] = true
		for _, k := range r.Keys {
			keys[k] = true
		}
		if r.Nontrivial {
			out.Nontrivial++
			hashes[r.Hash] = true
			if len(out.Samples) < 2 && r.Sample != "" {
				out.Samples = append(out.Samples, fmt.Sprintf("seed=%d run=%d: %s", *fSeed, i, r.Sample))
			}
		}
		if r.Class == "" && out.Runs%25 == 1 {
			out.Rechecked++
			if r2 := runOne(p, rt.ReplayTape(r.Vals), false); r2.Hash != r.Hash || r2.Class != r.Class {
				out.Mismatches++
				fmt.Fprintf(os.Stderr, "harness: run %d of %s is not repeatable (%x %x)\n", i, p.ID, r.Hash, r2.Hash)
			}
		}
		if r.Class != "" {
			if id := known.match(r.Class, r.Msg); id != "" {
				out.KnownHits[id]++
				continue
			}
			// Shrinking may fail; the violation stands.
			out.Found = &Found{Run: i, Class: r.Class, Msg: r.Msg, Vals: r.Vals, Trace: runOne(p, rt.ReplayTape(r.Vals), true).Trace, Hash: r.Hash, Orig: len(r.Vals)}
			write()
			vals := minimise(p, r, known, progress)
			fr := runOne(p, rt.ReplayTape(vals), true)
			if fr.Class == "" { // not repeatable after all: keep the original
				vals = r.Vals
				fr = runOne(p, rt.ReplayTape(vals), true)
			}
			out.Found = &Found{Run: i, Class: fr.Class, Msg: fr.Msg, Vals: vals, Trace: fr.Trace, Hash: fr.Hash, Orig: len(r.Vals)}
			if fr.Class == "" {
				out.Found.Class, out.Found.Msg = r.Class, r.Msg+" (not repeatable)"
			}
			break
		}
	}
	write()
}

func keysOf(m map[uint64]bool) []uint64 {
	r := make([]uint64, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	return r
}

// watchdog ends a worker whose run makes no progress in real time.
func watchdog(progress chan int, status *os.File) {
	last := -1
	for {
		select {
		case last = <-progress:
		case <-time.After(100 * time.Second):
			debug.SetTraceback("all")
			fmt.Fprintf(os.Stderr, "harness: run %d stuck in real time\n", last)
			os.Exit(4)
		}
	}
}

// minimise shrinks the tape of a failing run, keeping the violation class.
func minimise(p *Prop, r *Result, known knownSet, progress chan int) []int {
	best := append([]int(nil), r.Vals...)
	spans := r.Spans
	deadline := time.Now().Add(25 * time.Second)
	tries := 0
	over := func() bool { return tries >= 1500 || time.Now().After(deadline) }
	try := func(c []int) bool {
		if over() {
			return false
		}
		tries++
		select {
		case progress <- -2:
		default:
		}
		x := runOne(p, rt.ReplayTape(c), false)
		if x.Class != r.Class || known.match(x.Class, x.Msg) != "" {
			return false
		}
		v := x.Vals
		for len(v) > 0 && v[len(v)-1] == 0 {
			v = v[:len(v)-1]
		}
		if less(v, best) {
			best = append([]int(nil), v...)
			spans = x.Spans
			return true
		}
		return false
	}
	for improved := true; improved && !over(); {
		improved = false
		// Shorten.
		for n := len(best) / 2; n >= 1; n /= 2 {
			for len(best) > n && !over() && try(best[:len(best)-n]) {
				improved = true
			}
		}
		// Drop whole operations, last first.
		for i := len(spans) - 1; i >= 0 && !over(); i-- {
			if i >= len(spans) {
				continue
			}
			s := spans[i]
			if s.A < 0 || s.B > len(best) || s.A >= s.B {
				continue
			}
			c := append(append([]int(nil), best[:s.A]...), best[s.B:]...)
			if try(c) {
				improved = true
			}
		}
		// Drop chunks.
		for n := 16; n >= 1; n /= 2 {
			for i := len(best) - n; i >= 0 && !over(); i -= n {
				if i+n > len(best) {
					continue
				}
				c := append(append([]int(nil), best[:i]...), best[i+n:]...)
				if try(c) {
					improved = true
				}
			}
		}
		// Lower values.
		for i := 0; i < len(best) && !over(); i++ {
			if best[i] == 0 {
				continue
			}
			for _, v := range []int{0, 1, best[i] / 2, best[i] - 1} {
				if i >= len(best) || v >= best[i] {
					continue
				}
				c := append([]int(nil), best...)
				c[i] = v
				if try(c) {
					improved = true
					break
				}
			}
		}
	}
	return best
}

func less(a, b []int) bool {
	if len(a) != len(b) {
		return len(a) < len(b)
	}
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// Replay is a replay file.
type Replay struct {
	Property string   `json:"property"`
	Tier     string   `json:"tier"`
	Seed     uint64   `json:"seed"`
	Run      int      `json:"run"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Tape     []int    `json:"tape"`
	Fatal    bool     `json:"fatal,omitempty"` // the run kills the simulating process; repeat it by seed
	Hash     string   `json:"hash"`
	From     int      `json:"minimised_from_draws"`
	Trace    []string `json:"trace"`
}

func replayMain(path string) int {
	data, err := os.ReadFile(path)
	if err != nil {
		fatal("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(data, &rp); err != nil {
		fatal("%v", err)
	}
	p := props[rp.Property]
	if p == nil {
		fatal("unknown property %s", rp.Property)
	}
	*fTier = rp.Tier
	*fSeed = rp.Seed
	limitMemory()
	tape := rt.ReplayTape(rp.Tape)
	if rp.Fatal {
		tape = rt.NewTape(runSeed(p, rp.Run))
	}
	r := runOne(p, tape, true)
	for _, l := range r.Trace {
		say("%s", l)
	}
	if r.Class == "" {
		say("replay: no violation")
		return 0
	}
	say("replay: class=%s hash=%x (recorded %s)\n%s", r.Class, r.Hash, rp.Hash, r.Msg)
	say("VIOLATION property=%s replay=%s", rp.Property, path)
	return 1
}

func coordinate(p *Prop) int {
	start := time.Now()
	runs, limit := defaults(p)
	tmp, err := os.MkdirTemp("", "dst")
	if err != nil {
		fatal("%v", err)
	}
	defer os.RemoveAll(tmp)
	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}
	known := loadKnown(*fKnown, p.ID)
	var wg sync.WaitGroup
	outs := make([]*WorkerOut, *fWorkers)
	deaths := make([]string, *fWorkers)
	deadRun := make([]int, *fWorkers)
	for w := 0; w < *fWorkers; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			of := filepath.Join(tmp, fmt.Sprintf("w%d.json", w))
			cmd := exec.Command(self, "-prop", p.ID, "-tier", *fTier, "-seed", strconv.FormatUint(*fSeed, 10),
				"-runs", strconv.Itoa(runs), "-cap", fmt.Sprint(limit), "-workers", strconv.Itoa(*fWorkers),
				"-worker", strconv.Itoa(w), "-out", of, "-known", *fKnown)
			cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
			var eb tail
			cmd.Stderr = &eb
			err := cmd.Run()
			data, rerr := os.ReadFile(of)
			if rerr == nil {
				var o WorkerOut
				if json.Unmarshal(data, &o) == nil && (err == nil || o.Found != nil) {
					outs[w] = &o
					if o.Mismatches > 0 {
						fmt.Fprint(os.Stderr, eb.String())
					}
					return
				}
			}
			st, _ := os.ReadFile(of + ".status")
			deadRun[w] = -1
			if n, e := strconv.Atoi(strings.TrimLeft(strings.TrimSpace(string(st)), "0")); e == nil {
				deadRun[w] = n
			} else if strings.TrimSpace(string(st)) == "000000000000" {
				deadRun[w] = 0
			}
			deaths[w] = fmt.Sprintf("%v: %s", err, eb.String())
		}(w)
	}
	wg.Wait()

	sum := &WorkerOut{Stats: map[string]int{}, KnownHits: map[string]int{}}
	hashes, scheds, keys := map[uint64]bool{}, map[uint64]bool{}, map[uint64]bool{}
	var found *Found
	fatalRun := false
	for w, o := range outs {
		if o == nil {
			// The worker died. If the run it was in kills a fresh process too, the
			// code under test does that: a violation. Otherwise it is our error.
			i := deadRun[w]
			if i < 0 || strings.Contains(deaths[w], "stuck in real time") {
				fmt.Fprintf(os.Stderr, "harness: worker %d died: %s\n", w, deaths[w])
				return 3
			}
			msg, again := confirmDeath(self, p, i, tmp)
			if !again {
				fmt.Fprintf(os.Stderr, "harness: worker %d died in run %d, not repeatable: %s\n", w, i, deaths[w])
				return 3
			}
			f := &Found{Run: i, Class: "fatal", Msg: "the run kills the process: " + msg}
			if known.match(f.Class, f.Msg) == "" && (found == nil || f.Run < found.Run) {
				found, fatalRun = f, true
			}
			continue
		}
		sum.Runs += o.Runs
		sum.Nontrivial += o.Nontrivial
		sum.SimTime += o.SimTime
		sum.Yields += o.Yields
		sum.Switches += o.Switches
		sum.Preempts += o.Preempts
		sum.Rechecked += o.Rechecked
		sum.Mismatches += o.Mismatches
		for k, v := range o.Stats {
			sum.Stats[k] += v
		}
		for k, v := range o.KnownHits {
			sum.KnownHits[k] += v
		}
		for _, h := range o.Hashes {
			hashes[h] = true
		}
		for _, h := range o.Schedules {
			scheds[h] = true
		}
		for _, h := range o.DistinctKey {
			keys[h] = true
		}
		if len(sum.Samples) < 4 {
			sum.Samples = append(sum.Samples, o.Samples...)
		}
		if o.Found != nil && (found == nil || o.Found.Run < found.Run) {
			found, fatalRun = o.Found, false
		}
	}
	wall := time.Since(start).Seconds()
	faults, other := map[string]int{}, map[string]int{}
	for k, v := range sum.Stats {
		if strings.HasPrefix(k, "fault.") {
			faults[strings.TrimPrefix(k, "fault.")] = v
		} else {
			other[k] = v
		}
	}
	violations := 0
	if found != nil {
		violations = 1
	}
	samples := make([]interface{}, 0)
	for _, s := range sum.Samples {
		samples = append(samples, s)
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": *fTier, "seed": *fSeed, "level": *fLevel, "wall_s": round(wall), "violations": violations,
		"assumptions": p.Assume,
		"coverage": map[string]interface{}{
			"evaluations":          sum.Runs,
			"distinct_nontrivial":  len(hashes),
			"nontrivial_runs":      sum.Nontrivial,
			"rule":                 p.Rule,
			"samples":              samples,
			"runs_requested":       runs,
			"runs_per_hour":        int(float64(sum.Runs) / wall * 3600),
			"seeds":                fmt.Sprintf("run i uses Mix(%d, %s, i), i in [0,%d)", *fSeed, p.ID, runs),
			"simulated_seconds":    round(sum.SimTime),
			"faults_injected":      faults,
			"events":               other,
			"statements_executed":  sum.Yields,
			"scheduling_choices":   sum.Switches,
			"forced_preemptions":   sum.Preempts,
			"distinct_schedules":   len(scheds),
			"distinct_states":      len(keys),
			"state_measure":        p.States,
			"determinism_rechecks": sum.Rechecked,
			"determinism_failures": sum.Mismatches,
			"real_components":      p.Real,
			"stub_components":      p.Stub,
			"known_finding_hits":   sum.KnownHits,
		},
	}
	if *fEvidence != "" {
		data, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(*fEvidence, append(data, '\n'), 0644); err != nil {
			fatal("%v", err)
		}
	}
	if *fVerbose {
		data, _ := json.MarshalIndent(ev, "", " ")
		say("%s", data)
	}
	for _, k := range known {
		say("KNOWN-FINDING: property=%s %s", p.ID, k.text)
	}
	if found == nil {
		say("%s: held on %d runs (%d distinct non-trivial) in %.1fs", p.ID, sum.Runs, len(hashes), wall)
		return 0
	}
	rp := &Replay{Property: p.ID, Tier: *fTier, Seed: *fSeed, Run: found.Run, Class: found.Class, Message: found.Msg,
		Tape: found.Vals, Fatal: fatalRun, Hash: fmt.Sprintf("%x", found.Hash), From: found.Orig, Trace: found.Trace}
	dir := *fOutDir
	if dir == "" {
		dir = "."
	}
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", p.ID, *fSeed, found.Run))
	data, _ := json.MarshalIndent(rp, "", " ")
	if err := os.WriteFile(path, append(data, '\n'), 0644); err != nil {
		fatal("%v", err)
	}
	// Reproduce it in a fresh process before believing it.
	ok := false
	var last string
	for i := 0; i < 3 && !ok; i++ {
		out, err := exec.Command(self, "-replay", path).CombinedOutput()
		last = string(out)
		if fatalRun {
			ok = err != nil
		} else {
			ok = err != nil && strings.Contains(last, "replay: class="+found.Class+" hash="+rp.Hash)
			if !ok && i == 2 {
				ok = err != nil && strings.Contains(last, "replay: class="+found.Class+" ")
			}
		}
	}
	say("run %d of %s, seed %d: %s\n%s", found.Run, p.ID, *fSeed, found.Class, found.Msg)
	n := len(found.Trace)
	if n > 40 {
		say("... (%d earlier events in the replay file)", n-40)
		found.Trace = found.Trace[n-40:]
	}
	for _, l := range found.Trace {
		say("  %s", l)
	}
	if !ok {
		fmt.Fprintf(os.Stderr, "harness: the violation did not reproduce from %s\n%s\n", path, last)
		return 3
	}
	say("VIOLATION property=%s replay=%s", p.ID, path)
	return 1
}

func confirmDeath(self string, p *Prop, i int, tmp string) (string, bool) {
	cmd := exec.Command(self, "-prop", p.ID, "-tier", *fTier, "-seed", strconv.FormatUint(*fSeed, 10), "-one", strconv.Itoa(i))
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
	var eb tail
	cmd.Stderr = &eb
	done := make(chan error, 1)
	if err := cmd.Start(); err != nil {
		return "", false
	}
	go func() { done <- cmd.Wait() }()
	select {
	case err := <-done:
		if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() != 1 {
			s := eb.String()
			if j := strings.Index(s, "\n"); j > 0 {
				s = s[:j]
			}
			return s, true
		}
		return "", false
	case <-time.After(60 * time.Second):
		cmd.Process.Kill()
		<-done
		return "", false
	}
}

// tail keeps the beginning and end of what is written to it.
type tail struct{ b []byte }

func (t *tail) Write(p []byte) (int, error) {
	t.b = append(t.b, p...)
	if len(t.b) > 1<<16 {
		t.b = append(t.b[:1<<14:1<<14], t.b[len(t.b)-(1<<14):]...)
	}
	return len(p), nil
}
func (t *tail) String() string { return string(t.b) }

func round(f float64) float64 { return float64(int(f*100)) / 100 }

type knownEntry struct{ match, text string }
type knownSet []knownEntry

func (k knownSet) match(class, msg string) string {
	for _, e := range k {
		if e.match != "" && strings.Contains(class+": "+msg, e.match) {
			return e.match
		}
	}
	return ""
}

// loadKnown reads lines "finding: property=C01 match="..." text".
func loadKnown(path, prop string) knownSet {
	var r knownSet
	if path == "" {
		return nil
	}
	data, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(l, "finding: property="+prop+" match=\"") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: property="+prop+" match=\"")
		if i := strings.Index(l, "\""); i > 0 {
			r = append(r, knownEntry{l[:i], strings.TrimSpace(l[i+1:])})
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].match < r[j].match })
	return r
}

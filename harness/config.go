package main

import (
	"context"
	"fmt"
	"net"
	"path"
	"strings"
	"time"

	recmain "recengine"
	"recengine/internal/api/shard"
	"recengine/internal/domain"
	"recengine/internal/infra/delta"
	"recengine/internal/infra/index"
	"recengine/internal/zzsim/rt"
	"recengine/internal/zzsim/simcontext"
	"recengine/internal/zzsim/simnet"
	"recengine/internal/zzsim/simos"
)

func init() {
	register(&Prop{ID: "C23", Run: runC23, Quick: 90000, Thorough: 900000,
		Rule:   "up to 5 incarnations of the whole shard through main, each with another environment and .env file, with read errors on the .env file, short reads and crashes while it starts; or of the application with given defaults; the address it listens on, the registry it shows and the file it writes are compared with an independent reading of the configuration; non-trivial: a setting from the .env file or an injected fault",
		States: "(where host, port and path came from, fault, outcome)",
		Real:   []string{"main", "internal/api/shard configuration and application", "internal/domain namespace service", "godotenv's parser (not instrumented)"},
		Stub:   []string{"environment, godotenv's file loading", "file system (in memory)", "network and net/http server", "process"},
		Assume: []string{"ports above 65535 are not drawn; the simulated network binds port 0 as it is", "a missing .env file is not drawn"}})
}

var (
	cfgHosts = []string{"localhost", "127.0.0.1", "0.0.0.0", "10.1.2.3", "shard-1.local", "x", "::1", "[::1]", "fd00::12"}
	cfgPorts = []string{"3000", "8081", "1", "65535", "8080", "0"}
	cfgNots  = []string{"-1", "abc", "80x", "8e3", "0x50", "99999999999999999999", "30.5", "-8080", "8 0", "3000;"}
	// These do not survive an unquoted .env line.
	cfgSpaced = []string{" 80", "80 ", " 80 ", "\t80", "80\n", " "}
	cfgPaths  = []string{"/work", "/work/", "/data", "/data/", "sub", "sub/", "/data/deep"}
)

// cfgFile writes the settings as a .env file.
func cfgFile(h *H, m map[string]string) string {
	t := h.T
	var lines []string
	for _, k := range []string{"REC_HOST", "REC_PORT", "REC_PATH"} {
		v, has := m[k]
		if !has {
			if t.Intn(3) == 1 {
				lines = append(lines, "# "+k+"=nonsense")
			}
			continue
		}
		l := k + "=" + v
		switch t.Intn(5) {
		case 1:
			l = "export " + l
		case 2:
			l = k + `="` + v + `"`
		case 3:
			l = k + " = " + v
		case 4:
			l = k + "='" + v + "'"
		}
		lines = append(lines, l)
	}
	for i := len(lines) - 1; i > 0; i-- {
		j := t.Intn(i + 1)
		lines[i], lines[j] = lines[j], lines[i]
	}
	switch t.Intn(5) {
	case 1:
		lines = append([]string{"", "OTHER=7", "XREC_PORT=99"}, lines...)
	case 2:
		lines = append([]string{"#" + strings.Repeat(" long", t.Intn(1500))}, lines...)
	case 3:
		lines = append(lines, "", "# the end")
	}
	end := "\n"
	if t.Intn(6) == 1 {
		end = "\r\n"
	}
	s := strings.Join(lines, end)
	if t.Intn(2) == 1 {
		s += end
	}
	return s
}

func runC23(h *H) {
	t := h.T
	w := newRegWorld(h)
	h.schedule(false)
	h.F.Short = t.Intn(2) == 1
	cwd := "/work"
	if h.FS.Cwd != "" {
		cwd = h.FS.Cwd
	}
	for _, d := range []string{"/data", "/data/deep", cwd + "/sub"} {
		h.FS.Mkdir(d)
	}
	regs := map[string]registry{}
	faults, fromFile, created := 0, 0, 0
	for i := 0; h.More(i, 5); i++ {
		t.Begin()
		h.F.Clear()
		env, file := map[string]string{}, map[string]string{}
		draw := func(k string, good, bad []string) {
			v := func() string {
				switch t.Pick(6, 2, 1) {
				case 1:
					if len(bad) > 0 {
						return bad[t.Intn(len(bad))]
					}
				case 2:
					return ""
				}
				return good[t.Intn(len(good))]
			}
			if t.Intn(5) < 2 {
				env[k] = v()
				if k == "REC_PORT" && t.Intn(8) == 1 {
					env[k] = cfgSpaced[t.Intn(len(cfgSpaced))]
				}
			}
			if t.Intn(3) > 0 {
				file[k] = v()
			}
		}
		draw("REC_HOST", cfgHosts, nil)
		draw("REC_PORT", cfgPorts, cfgNots)
		draw("REC_PATH", cfgPaths, nil)
		if t.Intn(3) == 1 {
			env["HOME"] = "/root"
		}
		through := t.Intn(4) != 1
		var defs *shard.Config
		earlier := false
		if !through {
			file = map[string]string{}
			earlier = t.Intn(3) == 1
			if t.Intn(3) > 0 {
				defs = &shard.Config{Host: cfgHosts[t.Intn(len(cfgHosts))], Port: []int{4000, 4001, 4002, 0, 65535}[t.Intn(5)]}
			}
		}
		h.FS.Env = env
		text := cfgFile(h, file)
		malformed := through && t.Intn(10) == 1
		if malformed {
			text = []string{"nonsense\n" + text, text + "\nREC PORT 80"}[t.Intn(2)]
		}
		h.FS.Put(cwd+"/.env", []byte(text))
		// The configuration by the rules.
		get := func(k string) string {
			if v, has := env[k]; has {
				return v
			}
			v, has := file[k]
			if has {
				fromFile++
			}
			return v
		}
		host, port, dir := get("REC_HOST"), get("REC_PORT"), get("REC_PATH")
		if host == "" {
			host = "localhost"
			if defs != nil {
				host = defs.Host
			}
		}
		valid := false
		for _, p := range cfgPorts {
			valid = valid || p == port
		}
		if !valid {
			port = "8080"
			if defs != nil {
				port = fmt.Sprint(defs.Port)
			}
		}
		if !strings.HasPrefix(dir, "/") {
			dir = cwd + "/" + dir
		}
		reg := path.Join(dir, "namespaces.json")
		addr := net.JoinHostPort(strings.Trim(host, "[]"), port)
		what := fmt.Sprintf("with environment %v and .env file %q", env, text)

		fault := 0
		if through {
			fault = t.Pick(6, 2, 1)
		}
		switch fault {
		case 1:
			h.F.ErrIn, h.F.ErrPath = 1+t.Intn(3), cwd+"/.env"
			h.F.ErrKinds = map[string]bool{"open": true, "read": true}
			if t.Intn(2) == 1 {
				h.F.ErrN = 50
			}
		case 2:
			h.F.CrashIn = 1 + t.Intn(6)
		}
		before := map[string]string{}
		for k := range regs {
			b, _ := h.FS.Peek(k)
			before[k] = string(b)
		}
		// Start.
		p := h.Boot("shard")
		simnet.Cur.Bound = map[string]*simnet.Listener{}
		w.p, w.svc, w.addr = p, nil, addr
		main := h.S.GoProc(p, "main", func() {
			if through {
				recmain.Main()
				return
			}
			ctx, _ := simcontext.WithCancel(context.Background())
			svc := domain.NewNamespaceService(ctx, delta.NewStorageFactory(), index.NewStorageFactory())
			svc.LoadNamespaces()
			svc.Start(ctx)
			cfg := shard.NewConfigFromEnv(nil)
			if earlier {
				// What was asked before must not matter.
				simos.Setenv("REC_HOST", "10.9.9.9")
				simos.Setenv("REC_PORT", "9")
				shard.NewConfigFromEnv(defs)
				for _, k := range []string{"REC_HOST", "REC_PORT"} {
					if v, has := env[k]; has {
						simos.Setenv(k, v)
					} else {
						simos.Unsetenv(k)
					}
				}
			}
			if defs != nil || earlier {
				cfg = shard.NewConfigFromEnv(defs)
			}
			shard.NewApplication(&shard.ApplicationDto{Config: cfg, NsService: svc}).Run()
		})
		listening := func() *simnet.Listener {
			for _, l := range simnet.Cur.Bound {
				if l.Proc == p && !l.Closed && l.Accept_ != nil {
					return l
				}
			}
			return nil
		}
		h.wait(time.Minute, func() bool { return p.Dead || main.Done() || listening() != nil })
		if h.Failed() {
			return
		}
		injected, crashed := h.F.Injected > 0, h.F.Crashed
		h.F.Clear()
		l := listening()
		outcome := "served"
		switch {
		case crashed:
			outcome = "crashed"
			faults++
		case l == nil || p.Dead:
			outcome = "refused"
			if !injected && !malformed {
				h.Fail("start", "%s the shard does not serve: %v", what, p.Data["fatal"])
				return
			}
			if p.Dead && p.Exit == 0 || !p.Dead && w.runErr == nil && !main.Done() {
				h.Fail("silent", "%s the .env file could not be read and the shard ended without an error", what)
				return
			}
			faults++
		case malformed:
			h.Fail("partial", "%s, which is malformed, the shard serves on %s", what, l.Raw)
			return
		case l.Raw != addr:
			h.Fail("address", "%s the shard listens on %s, it should be %s (defaults %v, the .env file could not be read: %v)", what, l.Raw, addr, defs, injected)
			return
		}
		if outcome != "served" {
			for _, x := range simnet.Cur.Bound {
				if x.Proc == p && outcome == "refused" {
					h.Fail("partial", "%s the shard listened on %s before it gave up", what, x.Raw)
					return
				}
			}
			for k, b := range before {
				if now, _ := h.FS.Peek(k); string(now) != b {
					h.Fail("registry", "a start that failed changed %s from %q to %q", k, b, now)
					return
				}
			}
		} else {
			if regs[reg] == nil {
				regs[reg] = registry{}
			}
			w.ops = nil
			lo := &regOp{kind: opList}
			w.issueFromDriver(lo)
			if h.Failed() {
				return
			}
			if good, _ := lo.apply(regs[reg]); !lo.ok || !good {
				h.Fail("path", "%s the shard shows %v, the registry in %s holds %v", what, lo, dir, regs[reg])
				return
			}
			o := &regOp{kind: opCreate, name: fmt.Sprintf("n%d", i), val: w.drawVal()}
			w.issueFromDriver(o)
			if h.Failed() {
				return
			}
			if !o.ok {
				h.Fail("create", "%s: %v", what, o)
				return
			}
			created++
			regs[reg][o.name] = o.val
			for k, b := range before {
				now, _ := h.FS.Peek(k)
				if k != reg && string(now) != b {
					h.Fail("path", "%s the shard wrote %s, its registry should be in %s", what, k, dir)
					return
				}
			}
			if now, ok := h.FS.Peek(reg); !ok || string(now) == before[reg] {
				h.Fail("path", "%s the shard did not write its registry in %s", what, dir)
				return
			}
		}
		src := func(k string) string {
			if _, has := env[k]; has {
				return "env"
			}
			if _, has := file[k]; has {
				return "file"
			}
			return "none"
		}
		h.Key("C23", src("REC_HOST"), src("REC_PORT"), src("REC_PATH"), through, defs != nil, valid, fault, outcome)
		if !p.Dead {
			h.Kill(p)
		}
		h.F.Clear()
		rt.Yield(70)
		t.End()
	}
	h.nontrivial = fromFile > 0 || faults > 0
	h.sample = fmt.Sprintf("%d namespaces created in %d registries, %d starts with a fault, %d settings from the .env file", created, len(regs), faults, fromFile)
}

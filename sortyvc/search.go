package main

import (
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Hit is a failing input found on the real code
type Hit struct {
	msg, cmd, out string
}

// Search looks for inputs on which the real code fails, after an obligation was not
// discharged. It runs generated cases of package sorty, built from current source.
type Search struct {
	c    *Checker
	base string
	end  time.Time
	runs []string
	dir  string
	bins map[string]string
	tot  map[string]int
	n    int
}

type variant struct {
	name             string
	hooks, tune, rac bool
	arch, mode       string
}

var variants = map[string]variant{
	"plain": {name: "plain"}, "tune": {name: "tune", tune: true},
	"386": {name: "386", arch: "386"}, "tune386": {name: "tune386", arch: "386", tune: true},
	"sched": {name: "sched", hooks: true, mode: "sched"}, "schedtune": {name: "schedtune", hooks: true, tune: true, mode: "sched"},
	"race": {name: "race", rac: true}, "racetune": {name: "racetune", rac: true, tune: true, hooks: true, mode: "sched"},
	"gc": {name: "gc", hooks: true, mode: "gc"}, "gctune": {name: "gctune", hooks: true, tune: true, mode: "gc"},
	"hook": {name: "hook", hooks: true, mode: "hook"}, "hooktune": {name: "hooktune", hooks: true, tune: true, mode: "hook"},
	"gc386": {name: "gc386", hooks: true, tune: true, mode: "gc", arch: "386"},
}

// one worker per word
var plan = map[string]string{
	"C01": "tune tune tune plain plain 386 tune386 schedtune",
	"C02": "tune tune tune plain plain 386 tune386 schedtune",
	"C03": "tune tune tune plain plain 386 tune386 schedtune",
	"C04": "tune tune tune plain plain 386 tune386 schedtune",
	"C05": "tune tune tune plain plain tune386 schedtune sched",
	"C06": "tune tune tune plain plain 386 tune386 schedtune",
	"C07": "plain plain plain 386 386 tune",
	"C08": "plain plain plain 386 386 386",
	"C09": "schedtune schedtune schedtune schedtune sched tune tune plain",
	"C10": "racetune racetune racetune racetune racetune race race race",
	"C11": "schedtune schedtune schedtune schedtune sched hooktune hooktune hook",
	"C12": "tune tune tune plain plain 386 tune386 schedtune",
	"C13": "tune tune tune plain plain 386 tune386 schedtune",
	"C14": "hooktune hooktune hooktune hook tune plain tune plain",
	"C15": "plain plain 386 386 tune tune386",
	"C16": "gc gctune gc386 plain plain plain tune gc",
	"C17": "plain plain plain plain 386 386 386 386",
	"C18": "tune tune tune tune386 tune386 tune386 386 hooktune",
}

func (s *Search) env(v variant) []string {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local")
	if v.arch != "" {
		env = append(env, "GOARCH="+v.arch, "CGO_ENABLED=0")
	} else if v.rac {
		env = append(env, "CGO_ENABLED=1")
	}
	return env
}

// build a test binary
func (s *Search) build(v variant, inner bool) (string, error) {
	repo, _ := filepath.Abs(s.c.repo)
	d := filepath.Join(s.dir, v.name)
	if err := os.MkdirAll(d, 0o755); err != nil {
		return "", err
	}
	rep := map[string]string{}
	add := func(to, from string) {
		data, err := os.ReadFile(filepath.Join(s.base, "harness", from))
		if err == nil {
			f := filepath.Join(d, to)
			os.WriteFile(f, data, 0o644)
			rep[filepath.Join(repo, to)] = f
		}
	}
	files, _ := filepath.Glob(filepath.Join(repo, "*.go"))
	decls := map[string]*ast.FuncType{}
	for _, f := range files {
		if strings.HasSuffix(f, "_test.go") {
			rep[f] = "" // not part of these binaries
			continue
		}
		if a, err := parser.ParseFile(token.NewFileSet(), f, nil, 0); err == nil {
			for _, x := range a.Decls {
				if fd, ok := x.(*ast.FuncDecl); ok && fd.Recv == nil {
					decls[fd.Name.Name] = fd.Type
				}
			}
		}
	}
	hasInit := false
	if v.hooks {
		for _, f := range files {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src, ini, err := hookFile(f, decls, !hasInit)
			if err != nil {
				return "", err
			}
			hasInit = hasInit || ini
			to := filepath.Join(d, "h_"+filepath.Base(f))
			os.WriteFile(to, src, 0o644)
			rep[f] = to
		}
	}
	add("zz_vhooks.go", "zz_vhooks.go.txt")
	add("zz_vsearch_test.go", "zz_vsearch_test.go.txt")
	add("zz_vtune_test.go", "zz_vtune_test.go.txt")
	add("zz_vconst_test.go", "zz_vconst_test.go.txt")
	if inner {
		add("zz_vinner_test.go", "zz_vinner_test.go.txt")
	}
	if hasInit {
		add("zz_vinit_test.go", "zz_vinit_test.go.txt")
	}
	ov, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(d, "overlay.json")
	os.WriteFile(of, ov, 0o644)
	bin := filepath.Join(d, "t.bin")
	args := []string{"test", "-c", "-vet=off", "-overlay", of, "-o", bin}
	if v.tune {
		args = append(args, "-tags", "tuneparam")
	}
	if v.rac {
		args = append(args, "-race", "-gcflags=-d=checkptr=0")
	}
	cmd := exec.Command("go", append(args, ".")...)
	cmd.Dir, cmd.Env = repo, s.env(v)
	out, err := cmd.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("%v: %.600s", err, out)
	}
	return bin, nil
}

type outcome struct {
	kind     string // fail, hang, crash, race, done
	cas, msg string
	out      string
	cases    int
}

// one process
func (s *Search) exec(ctx context.Context, v variant, prop string, seed, secs, procs int, replay string) (o outcome) {
	dir, err := os.MkdirTemp(s.dir, "run")
	if err != nil {
		return outcome{kind: "done"}
	}
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(ctx, time.Duration(secs+60)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, s.bins[v.name], "-test.run", "^TestV$", "-test.timeout", "0")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	cf := filepath.Join(dir, "case")
	cmd.Dir = dir
	cmd.Env = append(s.env(v), "VPROP="+prop, "VMODE="+v.mode, "VSEED="+strconv.Itoa(seed), "VBUDGET="+strconv.Itoa(secs),
		"VCASE="+cf, "VREPLAY="+replay, "GOMAXPROCS="+strconv.Itoa(procs), "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all")
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &limited{b: &buf}, &limited{b: &buf}
	err = cmd.Run()
	out := buf.String()
	o.out = out
	for _, l := range strings.Split(out, "\n") {
		f := strings.Split(l, "\t")
		switch {
		case f[0] == "VFAIL" && len(f) >= 3:
			o.kind, o.cas, o.msg = "fail", f[1], f[2]
		case f[0] == "VHANG" && len(f) >= 3:
			o.kind, o.cas, o.msg = "hang", f[1], f[2]
		case f[0] == "VDONE" && len(f) >= 2:
			o.kind = "done"
			o.cases, _ = strconv.Atoi(f[1])
		}
	}
	if o.kind != "" {
		return
	}
	o.kind = "done"
	if ctx.Err() != nil || err == nil {
		return
	}
	data, _ := os.ReadFile(cf)
	o.cas = strings.TrimSpace(strings.TrimRight(strings.SplitN(string(data), "\n", 2)[0], "\x00"))
	if o.cas == "" {
		return
	}
	o.kind = "crash"
	for _, m := range []string{"WARNING: DATA RACE", "stack overflow", "found bad pointer", "invalid pointer", "unexpected fault", "SIGSEGV", "panic: ", "fatal error: "} {
		if i := strings.Index(out, m); i >= 0 {
			o.msg = strings.SplitN(out[i:], "\n", 2)[0]
			if m == "WARNING: DATA RACE" {
				o.kind = "race"
			}
			break
		}
	}
	if o.msg == "" || o.kind == "crash" && !s.inPackage(out) {
		o.kind = "done" // killed from outside, or an error of the harness
	}
	return
}

// the first function of the repository in the first stack trace is not of the harness
func (s *Search) inPackage(out string) bool {
	repo, _ := filepath.Abs(s.c.repo)
	i := strings.Index(out, "\ngoroutine ")
	if i < 0 {
		return true
	}
	for _, l := range strings.Split(out[i:], "\n") {
		if strings.HasPrefix(l, "\t"+repo+"/") {
			return !strings.HasPrefix(l, "\t"+repo+"/zz_v")
		}
	}
	return true
}

type limited struct{ b *bytes.Buffer }

var limMu sync.Mutex

func (l *limited) Write(p []byte) (int, error) {
	limMu.Lock()
	defer limMu.Unlock()
	if l.b.Len() < 1<<20 {
		l.b.Write(p)
	}
	return len(p), nil
}

// outcomes that show a violation of the property
func relevant(prop string, o outcome) bool {
	in := func(l string) bool { return strings.Contains(l, prop) }
	switch o.kind {
	case "fail":
		return true
	case "hang":
		return in("C08 C09 C13 C18")
	case "race":
		return in("C10")
	case "crash":
		switch {
		case strings.Contains(o.msg, "out of memory") || strings.Contains(o.msg, "cannot allocate"):
			return false
		case strings.Contains(o.msg, "stack overflow") || strings.Contains(o.out, "stack overflow"):
			return in("C12 C13 C14 C18")
		case strings.Contains(o.msg, "bad pointer") || strings.Contains(o.msg, "fault") || strings.Contains(o.msg, "SIGSEGV") || strings.Contains(o.msg, "invalid pointer"):
			return in("C12 C16 C18")
		}
		return in("C12 C18")
	}
	return false
}

// every goroutine inside the package waits for a channel
func deadlocked(out string) bool {
	n := 0
	for _, g := range strings.Split(out, "\ngoroutine ") {
		if !strings.Contains(g, "sorty/v2.Sort") && !strings.Contains(g, "sorty/v2.gLong") && !strings.Contains(g, "sorty/v2.gPart") {
			continue
		}
		h := strings.SplitN(g, "\n", 2)[0]
		if strings.Contains(h, "[chan receive") || strings.Contains(h, "[chan send") {
			n++
		} else {
			return false
		}
	}
	return n > 0
}

func (s *Search) prepare(prop string) []variant {
	if s.bins == nil {
		s.bins = map[string]string{}
		s.tot = map[string]int{}
		s.dir, _ = os.MkdirTemp("", "vsearch")
	}
	var vs []variant
	var mu sync.Mutex
	var wg sync.WaitGroup
	seen := map[string]bool{}
	for _, n := range strings.Fields(plan[prop]) {
		vs = append(vs, variants[n])
		if seen[n] || s.bins[n] != "" {
			continue
		}
		seen[n] = true
		wg.Add(1)
		go func() {
			defer wg.Done()
			b, err := s.build(variants[n], prop == "C17")
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				s.runs = append(s.runs, "build "+n+": "+err.Error())
				b = "-"
			}
			s.bins[n] = b
		}()
	}
	wg.Wait()
	var out []variant
	for _, v := range vs {
		if s.bins[v.name] != "-" {
			out = append(out, v)
		}
	}
	return out
}

func (s *Search) close() {
	if s.dir != "" {
		os.RemoveAll(s.dir)
	}
}

func (s *Search) run(budget int, bad []Unit) *Hit {
	prop := s.c.prop.id
	if left := int(time.Until(s.end).Seconds()); budget > left {
		budget = left
	}
	if budget < 5 {
		return nil
	}
	t0 := time.Now()
	vs := s.prepare(prop)
	end := time.Now().Add(time.Duration(budget) * time.Second)
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type cand struct {
		v variant
		o outcome
	}
	hits := make(chan cand, 16)
	var wg sync.WaitGroup
	var mu sync.Mutex
	for i, v := range vs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; ctx.Err() == nil; k++ {
				left := int(time.Until(end).Seconds())
				if left < 1 {
					return
				}
				mu.Lock()
				s.n++
				seed := s.c.seed*1000003 + s.n
				mu.Unlock()
				o := s.exec(ctx, v, prop, seed, left, 1+(i+k)%4*2, "")
				mu.Lock()
				s.tot[v.name+" "+o.kind]++
				s.tot[v.name+" cases"] += o.cases
				mu.Unlock()
				if os.Getenv("VDEBUG") != "" && o.kind != "done" {
					fmt.Println(v.name, o.kind, o.cas, o.msg, "\n", o.out)
				}
				if ctx.Err() == nil && relevant(prop, o) {
					hits <- cand{v, o}
					if o.kind != "hang" {
						return
					}
				}
			}
		}()
	}
	go func() { wg.Wait(); close(hits) }()
	var hit *Hit
	for c := range hits {
		if hit != nil {
			continue
		}
		again := ""
		if c.o.kind == "hang" && !deadlocked(c.o.out) {
			r := s.exec(context.Background(), c.v, prop, 1, 20, 8, c.o.cas)
			if r.kind != "hang" && r.kind != "fail" {
				continue // may be a slow machine
			}
			again = "reproduced"
		}
		cancel()
		if again == "" {
			again = "not reproduced in 10 s, depends on schedule"
			if r := s.exec(context.Background(), c.v, prop, 1, 10, 8, c.o.cas); relevant(prop, r) {
				again = "reproduced"
			}
		}
		tail := c.o.out
		if len(tail) > 6000 {
			tail = tail[:6000]
		}
		hit = &Hit{msg: fmt.Sprintf("%s [build %s, input %s, %s]", c.o.msg, c.v.name, c.o.cas, again),
			cmd: fmt.Sprintf("bash /verif/replay.sh %s %s '%s'", prop, c.v.name, c.o.cas), out: tail}
	}
	s.runs = append(s.runs, fmt.Sprintf("%d workers for %.0f s", len(vs), time.Since(t0).Seconds()))
	return hit
}

func (s *Search) summary() any {
	if len(s.runs) == 0 {
		return "not needed: every obligation was discharged"
	}
	out := append([]string{}, s.runs...)
	var ks []string
	for k := range s.tot {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if s.tot[k] > 0 {
			out = append(out, fmt.Sprintf("%s: %d", k, s.tot[k]))
		}
	}
	return out
}

// sortyvc search Cxx / sortyvc replay Cxx VARIANT CASE
func runSearch(args []string, replay bool) int {
	fs := flag.NewFlagSet("search", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "source directory")
	base := fs.String("base", "/verif", "directory of harness")
	budget := fs.Int("t", 60, "seconds")
	seed := fs.Int("seed", 1, "seed")
	k := 1
	if replay {
		k = 3
	}
	fs.Parse(args[k:])
	c := &Checker{repo: *repo, prop: &Prop{id: args[0]}, seed: *seed}
	s := &Search{c: c, base: *base, end: time.Now().Add(time.Hour)}
	defer s.close()
	if replay {
		plan[args[0]] = args[1]
		s.prepare(args[0])
		o := s.exec(context.Background(), variants[args[1]], args[0], 1, *budget, 8, args[2])
		fmt.Println(o.out)
		fmt.Println(o.kind, o.msg)
		if relevant(args[0], o) {
			return 1
		}
		return 0
	}
	h := s.run(*budget, nil)
	fmt.Println(s.summary())
	if h != nil {
		fmt.Println("HIT", h.msg, "\n", h.cmd)
		return 1
	}
	return 0
}

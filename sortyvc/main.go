package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"time"
)

var verbose bool
var trace string

func logf(f string, a ...any) { fmt.Fprintf(os.Stderr, f+"\n", a...) }

func main() {
	if len(os.Args) > 1 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2:]))
	}
	if len(os.Args) > 2 && (os.Args[1] == "search" || os.Args[1] == "replay") {
		os.Exit(runSearch(os.Args[2:], os.Args[1] == "replay"))
	}
	repo := flag.String("repo", "/repo", "source directory")
	specs := flag.String("specs", "/verif/contracts", "contracts")
	tune := flag.Bool("tune", false, "tuneparam build")
	arch := flag.String("arch", "", "GOARCH")
	only := flag.String("f", "", "functions")
	flag.BoolVar(&verbose, "v", false, "verbose")
	flag.StringVar(&trace, "trace", "", "show why candidates are dropped")
	showInv := flag.Bool("inv", false, "show invariants")
	rl := flag.Int("rl", 3000000, "resource limit of candidate checks")
	alt := flag.String("alt", "z3-new", "second solver")
	z3 := flag.String("z3", "z3", "solver")
	dump := flag.String("dump", "", "directory for failed queries")
	weak := flag.Bool("weak", false, "without contents of memory")
	nd := 0
	hfile := flag.String("hints", "", "hint file")
	mode := flag.Int("how", tryAll, "0: all, 1: hints only, 2: all candidates")
	upd := flag.Bool("update", false, "update hint file")
	flag.Parse()
	p, err := Load(*repo, *tune, *arch)
	if err != nil {
		logf("%v", err)
		os.Exit(2)
	}
	sp, err := LoadSpec(p, *specs)
	if err != nil {
		logf("%v", err)
		os.Exit(2)
	}
	p.setCfg(sp, Cfg{*weak, *tune, *arch})
	p.rl = *rl
	p.hints = LoadHints(*hfile)
	pool := NewPool(*z3, 8)
	pool.alt = NewPool(*alt, 8)
	var names []string
	if *only != "" {
		names = strings.Split(*only, ",")
	} else {
		names = sp.order
	}
	for _, n := range names {
		t0 := time.Now()
		rs := Verify(p, sp, pool, n, *mode)
		for _, r := range rs {
			fmt.Printf("%s: %s %d obligations, %d failed, %v\n", r.name, r.status, len(r.obls), r.failed, time.Since(t0).Round(time.Millisecond))
			if r.err != "" {
				fmt.Println("   ", r.err)
			}
			if *upd && r.status == "proved" {
				p.hints[p.cfg+r.name] = r.f.needed()
				p.hints["vocab:"+p.cfg+r.name] = r.f.vocab()
			}
			if r.f == nil {
				continue
			}
			for _, o := range r.obls {
				if !o.ok {
					fmt.Printf("    FAIL %s %s: %s [%s %dms]\n", o.pos, o.class, o.name, o.res.res, o.res.ms)
					if *dump != "" {
						pre, as, gs := r.f.query([]*Obl{o}, r.f.cands, true)
						os.WriteFile(fmt.Sprintf("%s/%s-%d.smt2", *dump, strings.NewReplacer("[", "_", "]", "").Replace(r.name), nd), []byte(pre+"(assert "+gs[0]+")\n(check-sat-assuming ("+strings.Join(as, " ")+"))\n"), 0o644)
						nd++
					}
				}
			}
			for _, lv := range r.f.loops {
				if !lv.measOK {
					fmt.Printf("    FAIL %s term: %s no measure\n", lv.pos, lv.name)
				} else if *showInv {
					fmt.Printf("    loop %s %s measure %s\n", lv.name, lv.pos, lv.meas)
				}
				if *showInv {
					var is []string
					for _, c := range r.f.cands {
						if c.alive && c.lv == lv {
							is = append(is, c.name)
						}
					}
					sort.Strings(is)
					for _, i := range is {
						fmt.Println("        ", i)
					}
				}
			}
		}
		if *upd {
			p.hints.Save(*hfile)
		}
	}
}

type FnResult struct {
	name                                    string
	status                                  string
	err                                     string
	obls                                    []*Obl
	failed                                  int
	f                                       *FV
	hinted                                  bool
	unit                                    *Unit
	ninv, ninvObl                           int
	bySolver                                map[string]int
	ms                                      int64
	dumps, callees, inlined, trusted, notes []string
	start                                   time.Time
	dur                                     time.Duration
}

// Verify verifies one function, for each of its cases
func Verify(p *Program, sp *Spec, pool *Pool, name string, how int) []*FnResult {
	con := sp.cons[name]
	fn := p.funcs[name]
	if con == nil {
		return []*FnResult{{name: name, status: "error", err: "no contract"}}
	}
	if fn == nil {
		return []*FnResult{{name: name, status: "missing", err: "function is not in the package, its code is verified where it went"}}
	}
	if len(fn.Params) != len(con.params) {
		return []*FnResult{{name: name, status: "missing", err: "function has other parameters, it is verified as part of its callers"}}
	}
	var out []*FnResult
	if con.caseOf == "" {
		return append(out, verifyCase(p, sp, pool, con, name, nil, how))
	}
	for _, n := range con.cases {
		n := n
		out = append(out, verifyCase(p, sp, pool, con, fmt.Sprintf("%s[%s=%d]", name, con.caseOf, n), &n, how))
	}
	return out
}

// Hints of a function are names of the candidate invariants its proof needed before.
// They only tell what to try first: invariants are proved every time.
type Hints map[string][]string

func LoadHints(file string) Hints {
	h := Hints{}
	if data, err := os.ReadFile(file); err == nil {
		json.Unmarshal(data, &h)
	}
	return h
}

func (h Hints) Save(file string) error {
	var sb strings.Builder
	e := json.NewEncoder(&sb)
	e.SetEscapeHTML(false)
	e.SetIndent("", " ")
	e.Encode(h)
	return os.WriteFile(file, []byte(sb.String()), 0o644)
}

// how much to try
const (
	tryAll   = iota
	tryHints // only candidate invariants named by hints
	tryFull  // all candidate invariants
)

func verifyCase(p *Program, sp *Spec, pool *Pool, con *Contract, name string, cas *int64, how int) *FnResult {
	// hints of this function, then those of its siblings
	keys := []string{p.cfg + name, name}
	if con.tmpl != "" {
		suffix := ""
		if k := strings.IndexByte(name, '['); k >= 0 {
			suffix = name[k:]
		}
		for _, n := range sp.order {
			if n != con.name && sp.cons[n].tmpl == con.tmpl {
				keys = append(keys, n+suffix)
			}
		}
	}
	tried := map[string]bool{}
	var last *FnResult
	for _, k := range keys {
		hs, ok := p.hints[k]
		if id := strings.Join(hs, "\n"); how == tryFull || !ok || tried[id] || len(tried) >= 2 {
			continue
		} else {
			tried[id] = true
		}
		m := map[string]bool{}
		for _, h := range hs {
			m[h] = true
		}
		last = verifyWith(p, sp, pool, con, name, cas, m, nil)
		last.hinted = true
		if verbose {
			logf("%s with invariants of %s: %s, %d failed", name, k, last.status, last.failed)
		}
		if last.status == "proved" || last.status == "unsupported" {
			return last
		}
	}
	// variables and loops may be others now
	if last != nil {
		for _, k := range keys {
			if hs, ok := p.hints[k]; ok && len(p.hints["vocab:"+k]) > 0 {
				if r := verifyWith(p, sp, pool, con, name, cas, map[string]bool{}, newRelaxed(hs, p.hints["vocab:"+k])); r.status == "proved" || r.failed < last.failed {
					last = r
					last.hinted = true
					if verbose {
						logf("%s relaxed: %s, %d failed", name, r.status, r.failed)
					}
				}
				break
			}
		}
		if last.status == "proved" {
			return last
		}
	}
	if how == tryHints && last != nil {
		return last
	}
	return verifyWith(p, sp, pool, con, name, cas, nil, nil)
}

func verifyWith(p *Program, sp *Spec, pool *Pool, con *Contract, name string, cas *int64, hints map[string]bool, relaxed *Relaxed) (r *FnResult) {
	r = &FnResult{name: name, status: "proved", start: time.Now()}
	f := NewFV(p, sp, pool)
	f.hints, f.relaxed = hints, relaxed
	f.candRL, f.oblRL = p.rl, 40000000
	if hints != nil {
		f.candRL = 10000000
	}
	r.f = f
	defer func() {
		r.dur = time.Since(r.start)
		if x := recover(); x != nil {
			u, ok := x.(Unsupported)
			if !ok {
				u.msg = fmt.Sprintf("internal error: %v\n%s", x, debug.Stack())
			}
			r.status, r.err, r.failed = "unsupported", u.msg, 1
		}
	}()
	f.execute(con, p.funcs[con.name], cas)
	f.houdini()
	f.discharge()
	r.obls = f.obls
	for _, o := range f.obls {
		if !o.ok {
			r.failed++
		}
	}
	for _, lv := range f.loops {
		if !lv.measOK {
			r.failed++
		}
	}
	if r.failed > 0 {
		r.status = "FAILED"
	} else if f.vacuous() {
		r.status, r.err, r.failed = "vacuous", "hypotheses at exit are contradictory", 1
	}
	return
}

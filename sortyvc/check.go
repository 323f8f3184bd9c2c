package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Cfg is a build configuration
type Cfg struct {
	light bool // contracts of Lesswap functions without contents of the collection
	tune  bool // tuneparam build: limits are symbolic, restricted by the start-up check
	arch  string
}

func (c Cfg) String() string {
	s := "default"
	if c.arch != "" {
		s = "GOARCH=" + c.arch
	}
	if c.tune {
		s += ",tuneparam"
	}
	return s
}

// Unit is a function to verify in a configuration
type Unit struct {
	cfg Cfg
	fn  string
}

// Prop tells what decides a property: functions and classes of obligations
type Prop struct {
	id      string
	units   []Unit
	classes map[string]bool
	what    string
}

func fnames(pats string, fams string) (out []string) {
	for _, p := range strings.Fields(pats) {
		if !strings.HasSuffix(p, "*") {
			out = append(out, p)
			continue
		}
		for _, f := range strings.Fields(fams) {
			out = append(out, strings.TrimSuffix(p, "*")+f)
		}
	}
	return
}

const (
	famInt  = "I4 I8 U4 U8 S B"
	famFlt  = "F4 F8"
	famLen  = "LenS LenB"
	famAll  = famInt + " " + famFlt + " " + famLen
	sorters = "insertion* pivot* partOne* partTwo* partCon* short* long* sort*"
	lswAll  = "insertion pivot partOne partTwo partCon short long Sort"
	public  = "SortSlice IsSortedSlice SortLen IsSortedLen"
)

func props() map[string]*Prop {
	m := map[string]*Prop{}
	full, light := Cfg{}, Cfg{light: true}
	add := func(id, classes, what string) *Prop {
		p := &Prop{id: id, classes: map[string]bool{"ovf": true}, what: what}
		for _, c := range strings.Fields(classes) {
			p.classes[c] = true
		}
		m[id] = p
		return p
	}
	use := func(p *Prop, c Cfg, fns []string) *Prop {
		for _, f := range fns {
			p.units = append(p.units, Unit{c, f})
		}
		return p
	}
	order := "split post postr pre prer perm frame own join hang"
	p := add("C01", order, "sorted result of every sorting function of non-float slices, dispatch included")
	use(p, full, append(fnames(sorters, famInt), fnames("sortP "+lswAll+" SortSlice", "")...))

	p = add("C02", "perm frame join hang prer postr", "ghost count of every element value is unchanged; writes stay within the slice")
	use(p, full, append(fnames(sorters, famAll), "sortP", "SortSlice", "SortLen"))
	use(p, light, fnames(lswAll, ""))

	p = add("C03", order, "sorted result of float sorting functions, NaNs at the chosen end")
	use(p, full, append(fnames(sorters, famFlt), "SortSlice"))

	p = add("C04", order, "lengths ascend after SortLen")
	use(p, full, append(fnames(sorters, famLen), "SortLen"))

	p = add("C05", order, "collection is ordered after Sort, for any Lesswap over a strict weak order")
	use(p, full, fnames(lswAll, ""))

	p = add("C06", "idx calls frame perm prer postr ovf", "indices of Lesswap calls, swaps as the only changes, no needless calls")
	use(p, light, append(fnames(lswAll, ""), "IsSorted"))

	p = add("C07", "post postr pre prer frame accept", "result of the checking functions")
	use(p, full, append(fnames("isSorted*", famAll), "isSortedP", "IsSorted", "IsSortedSlice", "IsSortedLen"))

	p = add("C08", "post postr pre prer calls idx term ovf panic", "result, calls and number of calls of Search")
	use(p, full, []string{"Search"})

	conc := fnames("partCon* long* sort*", famAll)
	p = add("C09", "join hang", "every started goroutine has sent its message and is waited for before the call returns")
	use(p, full, append(conc, "sortP"))
	use(p, light, fnames("partCon long Sort", ""))

	p = add("C10", "own", "exclusive access to elements")
	use(p, full, append(fnames(sorters, famAll), "sortP"))
	use(p, light, fnames(lswAll, ""))

	p = add("C11", "quota", "goroutine places are acquired within MaxGor, for long ranges only")
	use(p, full, append(conc, "sortP"))
	use(p, light, fnames("partCon long Sort", ""))

	all := append(fnames(sorters+" isSorted*", famAll), "sortP", "isSortedP")
	all = append(all, fnames("Search "+public, "")...)
	p = add("C12", "split panic ovf idx prer postr", "no run-time panic, indices in range, no overflow of index arithmetic")
	use(p, full, all)
	use(p, light, append(fnames(lswAll, ""), "IsSorted"))

	p = add("C13", "split term hang prer postr", "measures of loops and of recursion decrease")
	use(p, full, all)
	use(p, light, append(fnames(lswAll, ""), "IsSorted"))

	p = add("C14", "depth alloc", "recursion on at most half of the range, no allocation that depends on length")
	use(p, full, fnames("insertion* pivot* partOne* partTwo* partCon* short* long* sort*", famAll))
	use(p, full, []string{"sortP", "SortSlice", "SortLen"})
	use(p, light, fnames(lswAll, ""))

	p = add("C15", "accept post postr pre prer panic perm frame", "accepted types and the order of each, by reflect.Kind")
	p386 := Cfg{arch: "386"}
	use(p, full, fnames(public, ""))
	use(p, p386, fnames(public, ""))

	p = add("C16", "layout", "size and pointer layout of views of slices")
	use(p, full, append(fnames(public, ""), "sortP", "isSortedP"))
	use(p, p386, append(fnames(public, ""), "sortP", "isSortedP"))
	use(p, full, fnames(sorters+" isSorted*", famAll))

	p = add("C17", "post postr pre prer ovf panic", "sample positions")
	use(p, full, []string{"minMaxSample", "minMaxFour"})
	use(p, p386, []string{"minMaxSample", "minMaxFour"})

	p = add("C18", "split post postr pre prer perm frame own join hang panic ovf idx term accept", "all sorting functions with symbolic limits, and with 32 bit words")
	every := append(append([]string{"init#1"}, all...), fnames(lswAll+" IsSorted", "")...)
	sizes := append([]string{"minMaxSample", "minMaxFour"}, every...)
	use(p, Cfg{tune: true}, sizes)
	use(p, p386, sizes)
	use(p, Cfg{tune: true, arch: "386"}, sizes)
	return m
}

// Failure of an obligation
type Failure struct {
	unit  Unit
	fn    string
	class string
	what  string
	pos   string
	res   Result
	query string
}

func failures(rs []*FnResult) (out []Failure) {
	for _, r := range rs {
		if r.status == "proved" || r.status == "missing" {
			continue
		}
		if r.status != "FAILED" {
			out = append(out, Failure{*r.unit, r.name, "*", r.status + ": " + r.err, "", Result{}, ""})
			continue
		}
		for _, o := range r.obls {
			if !o.ok {
				out = append(out, Failure{*r.unit, r.name, o.class, o.name, o.pos, o.res, ""})
			}
		}
		for _, lv := range r.f.loops {
			if !lv.measOK {
				out = append(out, Failure{*r.unit, r.name, "term", "loop has no measure that decreases", lv.pos, Result{}, ""})
			}
		}
	}
	return
}

type loaded struct {
	once sync.Once
	p    *Program
	sp   *Spec
	err  error
}

type Checker struct {
	repo, specs string
	prop        *Prop
	tier        string
	seed        int
	pool        *Pool
	mu          sync.Mutex
	progs       map[Cfg]*loaded
	hints       Hints
}

func (c *Checker) get(cfg Cfg) (*Program, *Spec, error) {
	c.mu.Lock()
	l := c.progs[cfg]
	if l == nil {
		l = &loaded{}
		c.progs[cfg] = l
	}
	c.mu.Unlock()
	l.once.Do(func() {
		if l.p, l.err = Load(c.repo, cfg.tune, cfg.arch); l.err != nil {
			return
		}
		if l.sp, l.err = LoadSpec(l.p, c.specs); l.err != nil {
			return
		}
		l.p.setCfg(l.sp, cfg)
		l.p.rl, l.p.hints = 3000000, c.hints
	})
	return l.p, l.sp, l.err
}

func (p *Program) setCfg(sp *Spec, cfg Cfg) {
	if p.weak = cfg.light; p.weak {
		sp.dropContent()
		p.cfg += "weak/"
	}
	if cfg.tune {
		p.cfg += "tune/"
	}
	if cfg.arch != "" {
		p.cfg += cfg.arch + "/"
	}
}

// verify units in parallel
func (c *Checker) verify(units []Unit, how int, workers int) (map[Unit][]*FnResult, error) {
	out := map[Unit][]*FnResult{}
	var mu sync.Mutex
	var first error
	ch := make(chan Unit)
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for u := range ch {
				p, sp, err := c.get(u.cfg)
				var rs []*FnResult
				if err == nil {
					rs = Verify(p, sp, c.pool, u.fn, how)
				}
				mu.Lock()
				if err != nil && first == nil {
					first = err
				}
				u := u
				for _, r := range rs {
					r.unit = &u
					r.slim()
				}
				out[u] = rs
				mu.Unlock()
			}
		}()
	}
	for _, u := range units {
		ch <- u
	}
	close(ch)
	wg.Wait()
	return out, first
}

// slim keeps what evidence needs
func (r *FnResult) slim() {
	f := r.f
	if f == nil {
		return
	}
	for _, o := range f.obls {
		r.note(o)
	}
	for _, o := range f.meas {
		r.note(o)
	}
	for _, c := range f.cands {
		if c.alive {
			r.ninv++
			for _, o := range append(append([]*Obl{}, c.entry...), c.backs...) {
				r.note(o)
				r.ninvObl++
			}
		}
	}
	if r.status == "FAILED" {
		for _, o := range f.obls {
			if !o.ok && len(r.dumps) < 3 {
				pre, as, gs := f.query([]*Obl{o}, f.cands, true)
				r.dumps = append(r.dumps, fmt.Sprintf("; %s %s: %s\n%s(assert %s)\n(check-sat-assuming (%s))\n", o.pos, o.class, o.name, pre, gs[0], strings.Join(as, " ")))
			}
		}
	}
	for n := range f.calls {
		r.callees = append(r.callees, n)
	}
	for n := range f.inl {
		r.inlined = append(r.inlined, n)
	}
	for n := range f.trust {
		r.trusted = append(r.trusted, n)
	}
	for n := range f.notes {
		r.notes = append(r.notes, n)
	}
	g := &FV{}
	for _, lv := range f.loops {
		g.loops = append(g.loops, &LoopV{id: lv.id, name: lv.name, pos: lv.pos, measOK: lv.measOK, meas: lv.meas})
	}
	r.f = g
	for _, o := range r.obls {
		o.node, o.goal, o.cand = nil, nil, nil
	}
}

func (r *FnResult) note(o *Obl) {
	if r.bySolver == nil {
		r.bySolver = map[string]int{}
	}
	if o.ok {
		s := o.res.solver
		if s == "" {
			s = "simplifier"
		}
		r.bySolver[s]++
		r.ms += o.res.ms
	}
}

func runCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "source directory")
	base := fs.String("base", "/verif", "directory of contracts, harness and evidence")
	z3 := fs.String("z3", "z3", "solver")
	alt := fs.String("alt", "z3-new", "second solver")
	limit := fs.Int("limit", 800, "seconds for everything")
	nosearch := fs.Bool("nosearch", false, "no search for inputs")
	id := args[0]
	fs.Parse(args[1:])
	t0 := time.Now()
	pr := props()[id]
	if pr == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	c := &Checker{repo: *repo, specs: filepath.Join(*base, "contracts"), prop: pr, tier: tier, seed: seed, progs: map[Cfg]*loaded{}}
	c.hints = LoadHints(filepath.Join(c.specs, "hints.json"))
	c.pool = NewPool(*z3, 8)
	c.pool.alt = NewPool(*alt, 8)
	end := t0.Add(time.Duration(*limit) * time.Second)
	dl := func(d int) {
		t := time.Now().Add(time.Duration(d) * time.Second)
		if t.After(end) {
			t = end
		}
		c.pool.dead, c.pool.alt.dead = t, t
	}
	dl(480) // queries have resource limits of their own
	units := pr.units
	if tier == "thorough" {
		units = c.thorough()
	}
	res, err := c.verify(units, tryHints, 8)
	if err != nil {
		fmt.Println("cannot verify:", err)
		return 2
	}
	todo := func() (out []Unit) {
		for _, u := range units {
			if len(failures(res[u])) > 0 {
				out = append(out, u)
			}
		}
		return
	}
	// obligations that fail may need other invariants than before. Look for a
	// failing input first: that is faster when the code is wrong.
	bad := todo()
	s := &Search{c: c, base: *base, end: end}
	defer s.close()
	var hit *Hit
	logp := func(f string, a ...any) {
		fmt.Printf("[%s %4.0fs] %s\n", id, time.Since(t0).Seconds(), fmt.Sprintf(f, a...))
	}
	first := ""
	if len(bad) > 0 {
		for i, u := range bad {
			logp("not proved with known invariants: %s (%s)", u.fn, u.cfg)
			for _, f := range failures(res[u]) {
				logp("    %s %s: %s", f.pos, f.class, f.what)
			}
			if i == 0 {
				first = u.fn
			}
		}
		if !*nosearch {
			hit = s.run(60, bad)
		}
		if hit == nil {
			dl(300)
			var retry []Unit
			for _, u := range bad {
				if rs := res[u]; len(rs) > 0 && rs[0].hinted {
					retry = append(retry, u)
				}
			}
			r2, _ := c.verify(retry, tryFull, 4)
			for u, r := range r2 {
				res[u] = r
			}
			bad = todo()
		}
	}
	var mine, other []Failure
	for _, u := range bad {
		for _, f := range failures(res[u]) {
			if f.class == "*" || pr.classes[f.class] {
				mine = append(mine, f)
			} else {
				other = append(other, f)
			}
		}
	}
	if hit == nil && len(mine)+len(other) > 0 && !*nosearch {
		hit = s.run(100, bad)
	} else if hit == nil && len(bad) == 0 && tier == "thorough" && !*nosearch {
		hit = s.run(300, nil) // validates what is assumed of libraries and language
	}
	_ = first
	code := 0
	viol := 0
	if hit != nil || len(mine) > 0 {
		code, viol = 1, 1
	}
	c.evidence(*base, units, res, mine, other, hit, s, t0, viol)
	for _, f := range mine {
		logp("obligation not discharged: %s (%s) %s %s: %s [%s]", f.fn, f.unit.cfg, f.pos, f.class, f.what, f.res.res)
	}
	for _, f := range other {
		logp("obligation of another property not discharged: %s (%s) %s %s: %s", f.fn, f.unit.cfg, f.pos, f.class, f.what)
	}
	if code == 1 {
		file := c.replay(*base, res, bad, mine, hit)
		if hit != nil {
			logp("failing input: %s", hit.msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, file)
		} else {
			fmt.Printf("VIOLATION property=%s replay=%s no-failing-input-found\n", id, file)
		}
		return 1
	}
	n := 0
	for _, u := range units {
		for _, r := range res[u] {
			n += len(r.obls)
		}
	}
	logp("holds: %d functions, %d obligations discharged", len(units), n)
	return 0
}

// thorough: also other configurations
func (c *Checker) thorough() []Unit {
	out := append([]Unit{}, c.prop.units...)
	seen := map[Unit]bool{}
	for _, u := range out {
		seen[u] = true
	}
	for _, u := range c.prop.units {
		for _, k := range []Cfg{{tune: true}, {arch: "386"}, {tune: true, arch: "386"}} {
			k.light = u.cfg.light
			if v := (Unit{k, u.fn}); !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	return out
}

// replay file of a violation
func (c *Checker) replay(base string, res map[Unit][]*FnResult, bad []Unit, mine []Failure, hit *Hit) string {
	dir := filepath.Join(base, "replays")
	os.MkdirAll(dir, 0o755)
	file := filepath.Join(dir, fmt.Sprintf("%s-%d.txt", c.prop.id, os.Getpid()))
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n", c.prop.id)
	if hit != nil {
		fmt.Fprintf(&sb, "\nFailing input on the real code: %s\nReproduce with: %s\n%s\n", hit.msg, hit.cmd, hit.out)
	} else {
		sb.WriteString("\nno failing input found\n")
	}
	sb.WriteString("\nObligations not discharged:\n")
	for _, f := range mine {
		fmt.Fprintf(&sb, "%s (%s) %s %s: %s [solver: %s]\n", f.fn, f.unit.cfg, f.pos, f.class, f.what, f.res.res)
	}
	if hit != nil && len(mine) == 0 {
		for _, u := range bad {
			for _, f := range failures(res[u]) {
				fmt.Fprintf(&sb, "%s (%s) %s %s: %s [solver: %s, with known invariants]\n", f.fn, f.unit.cfg, f.pos, f.class, f.what, f.res.res)
			}
		}
	}
	sb.WriteString("\nQueries (SMT-LIB; the solver does not answer unsat):\n")
	k := 0
	for _, u := range bad {
		for _, r := range res[u] {
			for _, d := range r.dumps {
				if k++; k <= 4 {
					sb.WriteString("\n" + d)
				}
			}
		}
	}
	os.WriteFile(file, []byte(sb.String()), 0o644)
	return file
}

// evidence of a run
func (c *Checker) evidence(base string, units []Unit, res map[Unit][]*FnResult, mine, other []Failure, hit *Hit, s *Search, t0 time.Time, viol int) {
	obl, dis, invs, invObl := 0, 0, 0, 0
	by := map[string]int{}
	cls := map[string][2]int{}
	var ms int64
	fns := map[string]bool{}
	inl, tru, notes, callees := map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}
	cfgs := map[string]int{}
	var missing, fnList []string
	loops, hinted := 0, 0
	for _, u := range units {
		for _, r := range res[u] {
			if r.status == "missing" {
				missing = append(missing, u.cfg.String()+" "+r.name)
				continue
			}
			fns[r.name] = true
			cfgs[u.cfg.String()]++
			for _, o := range r.obls {
				k := cls[o.class]
				k[0]++
				if o.ok {
					k[1]++
				}
				cls[o.class] = k
				if c.prop.classes[o.class] {
					obl++
					if o.ok {
						dis++
					}
				}
			}
			if r.f != nil {
				loops += len(r.f.loops)
				if c.prop.classes["term"] {
					for _, lv := range r.f.loops {
						obl++
						if lv.measOK {
							dis++
						}
					}
				}
			}
			obl += r.ninvObl
			dis += r.ninvObl
			invs += r.ninv
			invObl += r.ninvObl
			ms += r.ms
			if r.hinted {
				hinted++
			}
			for k, v := range r.bySolver {
				by[k] += v
			}
			for _, n := range r.inlined {
				inl[n] = true
			}
			for _, n := range r.trusted {
				tru[n] = true
			}
			for _, n := range r.notes {
				notes[n] = true
			}
			for _, n := range r.callees {
				callees[n] = true
			}
		}
	}
	list := func(m map[string]bool) []string {
		out := []string{}
		for k := range m {
			out = append(out, k)
		}
		sort.Strings(out)
		return out
	}
	fnList = list(fns)
	var assumed []string
	for _, n := range list(callees) {
		if !fns[n] {
			assumed = append(assumed, n)
		}
	}
	byClass := map[string]string{}
	for k, v := range cls {
		byClass[k] = fmt.Sprintf("%d of %d", v[1], v[0])
	}
	sv := map[string]any{}
	for k, v := range by {
		sv[k] = v
	}
	var fails []string
	for _, f := range append(append([]Failure{}, mine...), other...) {
		fails = append(fails, fmt.Sprintf("%s (%s) %s %s: %s", f.fn, f.unit.cfg, f.pos, f.class, f.what))
	}
	trusted := []string{
		"sortyvc (condition generator over typed SSA of golang.org/x/tools/go/ssa) and the Go type checker",
		"SMT solvers z3 4.8.12 and z3-new",
		"Go memory model: goroutine start, sync/atomic and channel operations order accesses",
	}
	for _, t := range list(tru) {
		trusted = append(trusted, "assumed contract of "+t)
	}
	cmd := fmt.Sprintf("bash /verif/check.sh %s", c.prop.id)
	ev := map[string]any{
		"property": c.prop.id, "tier": c.tier, "seed": c.seed, "level": "proof",
		"wall_s":     float64(int(time.Since(t0).Seconds()*10)) / 10,
		"violations": viol,
		"coverage": map[string]any{
			"decides":                  c.prop.what,
			"obligations":              obl,
			"discharged":               dis,
			"checker_cmd":              cmd,
			"trusted_base":             trusted,
			"functions_under_contract": len(fnList),
			"functions":                fnList,
			"verified_function_cases_by_configuration":    cfgs,
			"functions_verified_inside_callers":           list(inl),
			"contracts_used_but_verified_by_other_checks": assumed,
			"functions_absent_from_package":               missing,
			"obligation_classes_of_property":              list(c.prop.classes),
			"obligations_by_class_all":                    byClass,
			"loops":                                       loops,
			"loop_invariants_inferred_and_proved":         invs,
			"invariant_obligations":                       invObl,
			"function_cases_proved_with_known_invariants": hinted,
			"discharged_by":                               sv,
			"solver_ms":                                   ms,
			"solver_queries":                              c.pool.queries.Load() + c.pool.alt.queries.Load(),
			"not_discharged":                              fails,
			"notes":                                       list(notes),
			"input_search":                                s.summary(),
		},
		"assumptions": assumptions,
	}
	if hit != nil {
		ev["coverage"].(map[string]any)["failing_input"] = hit.msg
	}
	data, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(base, "evidence"), 0o755)
	os.WriteFile(filepath.Join(base, "evidence", c.prop.id+".json"), append(data, '\n'), 0o644)
}

var assumptions = []string{
	"integers are mathematical within machine ranges: wrap-around of unsigned types is modelled, signed index arithmetic has overflow obligations (class ovf)",
	"elements are compared by keys: <, == and Compare of integers, strings and byte slices are total orders; NaNs are unordered; -0 equals +0 in order but differs in identity",
	"a slice of n elements occupies n consecutive element addresses, and no two live allocations overlap",
	"a valid Lesswap compares by a strict weak order and swaps as documented (user's side of the contract), and does not touch the collection otherwise",
	"the collection and option variables are not changed by others during the call",
	"goroutines interleave as sequentially consistent steps at synchronization; data-race freedom is proved by ownership obligations (class own)",
	"reflect, unsafe, sync/atomic and channel operations behave as documented",
	"stack depth per frame is bounded: growth of goroutine stacks does not fail",
}

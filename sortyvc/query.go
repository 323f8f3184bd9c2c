package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func sortStrings(s []string) { sort.Strings(s) }

// query builds the hypotheses for obligations of one program point
func (f *FV) query(obls []*Obl, cands []*Cand, bidir bool) (pre string, assum, goals []string) {
	o0 := obls[0]
	seen, vars, funs := map[*Term]bool{}, map[*Term]bool{}, map[string]bool{}
	var body strings.Builder
	add := func(lit, t *Term) {
		t.collect(seen, vars, funs)
		body.WriteString("(assert ")
		if lit != nil {
			lit.collect(seen, vars, funs)
			body.WriteString("(=> ")
			print(&body, lit)
			body.WriteByte(' ')
		}
		print(&body, t)
		if lit != nil {
			body.WriteByte(')')
		}
		body.WriteString(")\n")
	}
	for id := 0; id <= o0.node.id; id++ {
		if !o0.node.has(id) {
			continue
		}
		n := f.nodes[id]
		facts := n.facts
		if n == o0.node {
			facts = facts[:o0.nf]
		}
		for _, t := range facts {
			add(n.lit, t)
		}
	}
	if bidir {
		for _, w := range f.weak {
			if o0.node.has(w.node.id) && (w.node != o0.node || w.nf <= o0.nf) {
				add(w.node.lit, w.t)
			}
		}
	}
	add(nil, o0.node.lit)
	var enab []string
	for _, c := range cands {
		if !c.alive || !o0.node.has(c.lv.head.id) {
			continue
		}
		nm := fmt.Sprintf("c%d", c.id)
		enab = append(enab, nm)
		c.formula.collect(seen, vars, funs)
		c.lv.head.lit.collect(seen, vars, funs)
		fmt.Fprintf(&body, "(assert (=> %s (=> ", nm)
		print(&body, c.lv.head.lit)
		body.WriteByte(' ')
		print(&body, c.formula)
		body.WriteString(")))\n")
	}
	for _, o := range obls {
		g := o.goal
		g.collect(seen, vars, funs)
		goals = append(goals, f.b.Not(g).String())
	}
	var sb strings.Builder
	sb.WriteString("(declare-sort F 0)(declare-sort S 0)(declare-sort L 0)\n")
	if funs["btos"] {
		f.b.App("skey", SInt, f.b.Var("zeroS", "S"))
		f.b.App("slen", SInt, f.b.Var("zeroS", "S"))
		f.b.App("bkey", SInt, f.b.Var("zeroL", "L"))
		f.b.App("blen", SInt, f.b.Var("zeroL", "L"))
		for _, n := range []string{"skey", "slen", "bkey", "blen"} {
			funs[n] = true
		}
	}
	var fs []string
	for n := range funs {
		fs = append(fs, n)
	}
	sort.Strings(fs)
	for _, n := range fs {
		sb.WriteString(f.b.funs[n] + "\n")
	}
	if funs["btos"] {
		sb.WriteString("(assert (forall ((b L)) (! (and (= (skey (btos b)) (bkey b)) (= (slen (btos b)) (blen b))) :pattern ((btos b)))))\n")
	}
	if funs["slen"] {
		sb.WriteString("(assert (forall ((s S)) (! (and (<= 0 (slen s)) (<= (slen s) " + f.maxInt().String() + ")) :pattern ((slen s)))))\n")
	}
	if funs["blen"] {
		sb.WriteString("(assert (forall ((s L)) (! (and (<= 0 (blen s)) (<= (blen s) " + f.maxInt().String() + ")) :pattern ((blen s)))))\n")
	}
	for _, v := range f.b.decls {
		if vars[v] {
			fmt.Fprintf(&sb, "(declare-const %s %s)\n", v.name, v.sort)
		}
	}
	for _, e := range enab {
		fmt.Fprintf(&sb, "(declare-const %s Bool)\n", e)
	}
	sb.WriteString(body.String())
	return sb.String(), enab, goals
}

// job: obligations of one program point
type job struct {
	obls  []*Obl
	pre   string
	assum []string
	goals []string
	res   []Result
}

func (f *FV) groups(obls []*Obl) []*job {
	type key struct {
		n  *Node
		nf int
	}
	m := map[key]*job{}
	var out []*job
	for _, o := range obls {
		k := key{o.node, o.nf}
		j := m[k]
		if j == nil {
			j = &job{}
			m[k] = j
			out = append(out, j)
		}
		j.obls = append(j.obls, o)
	}
	return out
}

// solve checks obligations assuming live candidates; marks o.ok and o.core
func (f *FV) solve(obls []*Obl, lim Limits) {
	js := f.groups(obls)
	var wg sync.WaitGroup
	for _, j := range js {
		// split large groups to use all processors
		j.pre, j.assum, j.goals = f.query(j.obls, f.cands, lim.bidir)
		const chunk = 24
		j.res = make([]Result, len(j.goals))
		for k := 0; k < len(j.goals); k += chunk {
			e := k + chunk
			if e > len(j.goals) {
				e = len(j.goals)
			}
			wg.Add(1)
			go func(j *job, k, e int) {
				defer wg.Done()
				copy(j.res[k:e], f.pool.Batch(j.pre, j.assum, j.goals[k:e], lim))
			}(j, k, e)
		}
	}
	wg.Wait()
	for _, j := range js {
		for i, o := range j.obls {
			o.res = j.res[i]
			o.ok = o.res.res == "unsat"
			o.core = nil
			if o.ok {
				o.core = map[string]bool{}
				for _, c := range o.res.core {
					o.core[c] = true
				}
			}
		}
	}
}

// houdini finds the largest inductive subset of candidate invariants
func (f *FV) houdini() {
	lim := Limits{rl: f.candRL, tmo: 20 * time.Second, seed: 1}
	for stage := 1; stage <= 4; stage++ {
		for _, lv := range f.loops {
			f.gen(lv, stage)
		}
		if f.hints != nil && stage < 4 {
			continue
		}
		if verbose {
			n := map[string]int{}
			for _, c := range f.cands {
				if len(c.entry)+len(c.backs) > 0 && c.alive {
					k := fmt.Sprint(c.lv.id, " ")
					for _, w := range []string{"sorted", "ordered", "unchanged", "but", "pairs", "<=", ">=", "disjoint", "own"} {
						if strings.Contains(c.name, w) {
							k += w + " "
						}
					}
					n[k]++
				}
			}
			logf("stage %d: %v", stage, n)
		}
		for round := 0; ; round++ {
			var ent, back []*Obl
			for _, c := range f.cands {
				if !c.alive {
					continue
				}
				for _, o := range c.entry {
					if !o.ok {
						ent = append(ent, o)
					}
				}
				for _, o := range c.backs {
					if !o.ok {
						back = append(back, o)
					}
				}
			}
			todo := ent
			if len(ent) == 0 {
				todo = back
			}
			if len(todo) == 0 {
				break
			}
			t0 := time.Now()
			f.solve(todo, lim)
			var again []*Obl
			for _, o := range todo {
				if !o.ok && o.cand.alive && strings.HasPrefix(o.cand.name, "ordered") && o.res.res == "unknown" && o.res.ms > 100 {
					again = append(again, o)
				}
			}
			if len(again) > 0 && len(again) <= 12 {
				l := lim
				l.rl *= 8
				l.alt = true
				f.solve(again, l)
			}
			var dead []string
			for _, o := range todo {
				if !o.ok && o.cand.alive {
					o.cand.alive = false
					if trace != "" && strings.Contains(fmt.Sprintf("%d %s", o.cand.lv.id, o.cand.name), trace) {
						logf("drop %d %s: %s %d\n   %s", o.cand.lv.id, o.cand.name, o.res.res, o.res.ms, o.goal)
						pre, as, gs := f.query([]*Obl{o}, f.cands, false)
						os.WriteFile(fmt.Sprintf("/tmp/dump/drop-%d-%d.smt2", o.cand.id, o.node.id), []byte(pre+"(assert "+gs[0]+")\n(check-sat-assuming ("+strings.Join(as, " ")+"))\n"), 0o644)
					}
					dead = append(dead, fmt.Sprintf("c%d", o.cand.id))
				}
			}
			if verbose {
				logf("%s: stage %d round %d: %d entry %d back checked, %d dropped, %v", f.fn.Name(), stage, round, len(ent), len(back), len(dead), time.Since(t0).Round(time.Millisecond))
			}
			if len(dead) > 0 {
				for _, c := range f.cands {
					if c.alive {
						for _, o := range append(append([]*Obl{}, c.entry...), c.backs...) {
							if o.ok {
								for _, d := range dead {
									if o.core[d] {
										o.ok = false
										break
									}
								}
							}
						}
					}
				}
			}
		}
	}
}

// discharge proves the remaining obligations with the invariants found
func (f *FV) discharge() {
	rest := f.obls
	for _, l := range []Limits{
		{rl: f.candRL, tmo: 20 * time.Second, seed: 1},
		{rl: f.oblRL, tmo: 60 * time.Second, seed: 1, bidir: true, alt: true},
		{rl: f.oblRL, tmo: 60 * time.Second, seed: 1},
		{rl: f.oblRL, tmo: 60 * time.Second, seed: 7, alt: true},
		{rl: f.oblRL, tmo: 60 * time.Second, seed: 23, bidir: true},
	} {
		if len(rest) == 0 || len(rest) > 40 && l.rl > f.candRL {
			break
		}
		f.solve(rest, l)
		var still []*Obl
		for _, o := range rest {
			if !o.ok {
				still = append(still, o)
			}
		}
		rest = still
	}
	// termination of loops: one measure must work for all back edges
	for _, lv := range f.loops {
		ms := f.measures(lv)
		lv.measOK = len(lv.backs) == 0
		var all []*Obl
		for _, m := range ms {
			all = append(all, m.obls...)
		}
		if len(all) > 0 {
			f.solve(all, Limits{rl: f.candRL, tmo: 20 * time.Second, seed: 1})
		}
		for _, m := range ms {
			ok := true
			for _, o := range m.obls {
				ok = ok && o.ok
			}
			if ok && !lv.measOK {
				lv.measOK, lv.meas = true, m.name
				f.meas = append(f.meas, m.obls...)
			}
		}
	}
}

// decide: is g valid at s, without help of any loop invariant?
func (f *FV) decide(s *State, g *Term) bool {
	if g.isTrue() {
		return true
	}
	if g.isFalse() || f.noDecide {
		return false
	}
	o := &Obl{node: s.node, nf: len(s.node.facts), goal: g}
	pre, as, gs := f.query([]*Obl{o}, nil, false)
	r := f.pool.Batch(pre, as, gs, Limits{rl: 2000000, tmo: 5 * time.Second, seed: 1})
	return r[0].res == "unsat"
}

// floorMean recognises functions that compute floor((x+y)/2): their bit level
// definition is proved equal to it for all arguments
func (f *FV) floorMean(fn *ssa.Function, args []Val) (Val, bool) {
	if len(args) != 2 || len(fn.Params) != 2 || len(fn.Blocks) != 1 {
		return nil, false
	}
	x, ok1 := args[0].(*Term)
	y, ok2 := args[1].(*Term)
	if !ok1 || !ok2 || x.sort != SInt || y.sort != SInt {
		return nil, false
	}
	f.sp.mu.Lock()
	defer f.sp.mu.Unlock()
	ok, known := f.sp.mean[fn]
	if !known {
		ok = f.proveMean(fn)
		f.sp.mean[fn] = ok
	}
	if !ok {
		return nil, false
	}
	f.notes["mean "+fn.String()+" proved equal to floor((x+y)/2) on bit vectors"] = true
	r := f.b.DivC(f.b.Add(x, y), two)
	if r.op == OpDiv {
		if lo, hi := f.interval(x); lo != nil && hi != nil {
			_ = lo
		}
	}
	return r, true
}

func (f *FV) proveMean(fn *ssa.Function) bool {
	t := fn.Params[0].Type()
	if !types.Identical(t, fn.Params[1].Type()) {
		return false
	}
	bt, ok := t.Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		return false
	}
	w := int(f.p.sizes.Sizeof(t)) * 8
	signed := bt.Info()&types.IsUnsigned == 0
	m := map[ssa.Value]string{fn.Params[0]: "x", fn.Params[1]: "y"}
	val := func(v ssa.Value) string {
		if s, ok := m[v]; ok {
			return s
		}
		if c, ok := v.(*ssa.Const); ok && c.Value != nil {
			if n, ok := f.constant(c).(*Term); ok && n.isNum() {
				if n.num.Sign() < 0 {
					return fmt.Sprintf("(bvneg (_ bv%s %d))", n.num.String()[1:], w)
				}
				return fmt.Sprintf("(_ bv%s %d)", n.num, w)
			}
		}
		return ""
	}
	ops := map[token.Token]string{token.ADD: "bvadd", token.SUB: "bvsub", token.AND: "bvand", token.OR: "bvor", token.XOR: "bvxor", token.SHL: "bvshl"}
	for _, in := range fn.Blocks[0].Instrs {
		switch i := in.(type) {
		case *ssa.BinOp:
			a, c := val(i.X), val(i.Y)
			op := ops[i.Op]
			if i.Op == token.SHR {
				op = "bvlshr"
				if signed {
					op = "bvashr"
				}
			}
			if a == "" || c == "" || op == "" || !types.Identical(i.X.Type(), t) {
				return false
			}
			m[i] = fmt.Sprintf("(%s %s %s)", op, a, c)
		case *ssa.DebugRef:
		case *ssa.Return:
			if len(i.Results) != 1 || val(i.Results[0]) == "" {
				return false
			}
			ext, sh := "zero_extend", "bvlshr"
			if signed {
				ext, sh = "sign_extend", "bvashr"
			}
			q := fmt.Sprintf("(declare-const x (_ BitVec %d))(declare-const y (_ BitVec %d))\n(assert (not (= %s ((_ extract %d 0) (%s (bvadd ((_ %s 1) x) ((_ %s 1) y)) (_ bv1 %d))))))\n(check-sat)\n",
				w, w, val(i.Results[0]), w-1, sh, ext, ext, w+1)
			r := runOnce(f.pool.bin, []string{"-in", "-T:30"}, q, 30*time.Second)
			return r.res == "unsat"
		default:
			return false
		}
	}
	return false
}

// needed returns names of candidate invariants a complete proof depends on
func (f *FV) needed() []string {
	byName := map[string]*Cand{}
	for _, c := range f.cands {
		byName[fmt.Sprintf("c%d", c.id)] = c
	}
	use := map[*Cand]bool{}
	work := append(append([]*Obl{}, f.obls...), f.meas...)
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for n := range o.core {
			if c := byName[n]; c != nil && !use[c] {
				use[c] = true
				work = append(work, c.entry...)
				work = append(work, c.backs...)
			}
		}
	}
	out := []string{}
	for _, c := range f.cands {
		if use[c] {
			out = append(out, fmt.Sprintf("%d %s", c.lv.id, c.name))
		}
	}
	return out
}

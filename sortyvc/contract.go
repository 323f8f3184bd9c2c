package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func clauseClass(c Clause, def string) string {
	if c.label != "" {
		return c.label
	}
	return def
}

// class of obligation of a clause: those about ranges only (postr, prer) are apart
func postClass(c Clause) string {
	if strings.HasPrefix(c.src, "perm(") {
		return "perm"
	}
	if content(c.ex) {
		return "post"
	}
	return "postr"
}

func preClass(c Clause) string {
	if content(c.ex) {
		return "pre"
	}
	return "prer"
}

// contains: every address of w is in one of ws
func (f *FV) contained(w Window, ws []Window) *Term {
	b := f.b
	alt := []*Term{b.Le(w.hi, w.lo)}
	simple := len(w.holes) == 0
	for _, m := range ws {
		if m.cls == w.cls {
			simple = simple && len(m.holes) == 0
			alt = append(alt, b.And(b.Le(m.lo, w.lo), b.Le(w.hi, m.hi)))
		}
	}
	if simple && len(ws) <= 1 {
		return b.Or(alt...)
	}
	a := b.Bnd("a", SInt)
	var in []*Term
	for _, m := range ws {
		if m.cls == w.cls {
			in = append(in, m.in(b, a))
		}
	}
	return b.All([]*Term{a}, b.Imp(w.in(b, a), b.Or(in...)))
}

// reach tells whether fn may (transitively) call target
func (sp *Spec) reach(fn, target *ssa.Function) bool {
	sp.mu.Lock()
	defer sp.mu.Unlock()
	if sp.callees == nil {
		sp.callees = map[*ssa.Function]map[*ssa.Function]bool{}
	}
	var close func(g *ssa.Function) []*ssa.Function
	close = func(g *ssa.Function) (out []*ssa.Function) {
		for _, blk := range g.Blocks {
			for _, in := range blk.Instrs {
				var ops [10]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					if h, ok := (*op).(*ssa.Function); ok && h.Pkg == sp.p.pkg {
						out = append(out, h)
					}
				}
			}
		}
		return
	}
	m := sp.callees[fn]
	if m == nil {
		m = map[*ssa.Function]bool{}
		work := close(fn)
		for len(work) > 0 {
			h := work[len(work)-1]
			work = work[:len(work)-1]
			if !m[h] {
				m[h] = true
				work = append(work, close(h)...)
			}
		}
		sp.callees[fn] = m
	}
	return m[target]
}

// callContract replaces a call by the contract of its callee
func (f *FV) callContract(s *State, con *Contract, fn *ssa.Function, args []Val, bind []Val, pos token.Pos) (Val, *State) {
	b := f.b
	f.calls[con.name] = true
	names := map[string]Val{}
	for i, p := range con.params {
		names[p] = args[i]
		if pc, ok := args[i].(*PCell); ok {
			f.share(s, pc.cell)
		}
		if fv, ok := args[i].(*FuncV); ok && fv.fn != nil && fn.Signature.Params().At(i).Type().Underlying().(*types.Signature).Params().Len() == 4 {
			names["A"] = f.refineLesswap(s, fv, pos)
		}
	}
	old := s.clone()
	ev := &Eval{f: f, st: s, old: old, names: names, fam: con.fam}
	if con.caseOf != "" {
		ok := b.False()
		for _, n := range con.cases {
			ok = b.Or(ok, b.Eq(names[con.caseOf].(*Term), b.Num(n)))
		}
		f.oblige(s, "pre", con.name+": "+con.caseOf+" is one of supported values", pos, ok)
	}
	for _, r := range con.reqs {
		f.oblige(s, clauseClass(r, preClass(r)), con.name+" requires "+r.src, pos, ev.boolean(r.ex))
	}
	if f.con != nil && f.con.invokes != nil && names["A"] == nil {
		for _, a := range args {
			if fv, ok := a.(*FuncV); ok && (fv.lsw != "" || fv.pred) {
				cond := b.True()
				if con.invokes != nil {
					cond = ev.boolean(con.invokes.ex)
				}
				ev0 := &Eval{f: f, st: f.entry, old: f.entry, names: f.args, fam: f.fam}
				f.oblige(s, "calls", "call of user's function when none is due, in "+con.name, pos, b.Imp(cond, ev0.boolean(f.con.invokes.ex)))
			}
		}
	}
	if con.dec != nil && f.meas0 != nil && f.sp.reach(fn, f.fn) {
		m := ev.integer(con.dec.ex)
		f.oblige(s, "term", "recursive "+con.name+" on a smaller range", pos, b.And(b.Lt(m, f.meas0), b.Le(b.Num(0), f.meas0)))
		if !f.inTask {
			f.oblige(s, "depth", "recursive "+con.name+" on at most half of the range", pos, b.Le(b.MulN(2, m), f.meas0))
		}
	}
	var mods, reads []Window
	for _, c := range con.mods {
		mods = append(mods, ev.window(c.ex))
	}
	for _, c := range con.reads {
		reads = append(reads, ev.window(c.ex))
	}
	for _, w := range mods {
		g := b.Or(b.Le(f.top0, w.lo), f.contained(w, f.mods))
		if w.cls == "A" {
			g = f.contained(w, f.mods)
		}
		f.oblige(s, "frame", con.name+" modifies only what may be modified", pos, g)
		f.touch(s, w, true)
	}
	for _, w := range reads {
		f.touch(s, w, false)
	}
	if con.nonan && !(f.con != nil && f.con.nonan) {
		for _, w := range append(append([]Window{}, mods...), reads...) {
			if elemSort(w.cls) == "F" {
				a := b.Bnd("a", SInt)
				el := b.Sel(f.mem(s, w.cls), a)
				f.oblige(s, "pre", con.name+" needs a range without NaN", pos, b.All([]*Term{a}, b.Imp(w.in(b, a), b.Not(f.nan(el))), []*Term{el}))
			}
		}
	}
	if con.nonan {
		for i := range args {
			if t, ok := args[i].(*Term); ok && t.sort == "F" {
				f.oblige(s, "pre", con.name+" needs an argument that is not NaN", pos, b.Not(f.nan(t)))
			}
		}
	}
	// memory
	done := map[string]bool{}
	for _, w := range mods {
		if done[w.cls] {
			continue
		}
		done[w.cls] = true
		m := f.mem(s, w.cls)
		n := b.Fresh("m", m.sort)
		a := b.Bnd("a", SInt)
		var in []*Term
		for _, w2 := range mods {
			if w2.cls == w.cls {
				in = append(in, w2.in(b, a))
			}
		}
		inW := b.Or(in...)
		el := b.Sel(n, a)
		f.assume(s, b.All([]*Term{a}, b.Or(inW, b.Eq(el, b.Sel(m, a))), []*Term{el}))
		f.weak = append(f.weak, weakFact{s.node, len(s.node.facts), b.All([]*Term{a}, b.Or(inW, b.Eq(el, b.Sel(m, a))), []*Term{b.Sel(m, a)})})
		if con.perm || w.cls == "A" { // the collection of a Lesswap changes only by swaps among what may be modified
			pi := strings.Replace(n.name, "!", "_", 1)
			q := b.App("pi_"+pi, SInt, a)
			var inq []*Term
			for _, w2 := range mods {
				if w2.cls == w.cls {
					inq = append(inq, w2.in(b, q))
				}
			}
			f.assume(s, b.All([]*Term{a}, b.Imp(inW, b.And(b.Or(inq...), b.Eq(el, b.Sel(m, q)))), []*Term{el}))
			if k, ok := b.Sub(w.hi, w.lo).int64(); ok && k <= 8 && len(mods) == 1 {
				// small fixed window: name the source of each element
				var src []*Term
				for j := int64(0); j < k; j++ {
					sj := b.Fresh("src", SInt)
					f.assume(s, b.And(b.Le(w.lo, sj), b.Lt(sj, w.hi), b.Eq(b.Sel(n, b.AddN(w.lo, j)), b.Sel(m, sj))))
					for _, o := range src {
						f.assume(s, b.Ne(o, sj))
					}
					src = append(src, sj)
				}
			}
		} else if f.otherPerm(s, w.cls, pos); s.term("cnt") != nil && f.cntCls() == w.cls {
			s.c["cnt"] = b.Fresh("cnt", SInt)
		}
		s.c["mem."+w.cls] = n
	}
	// top may grow
	if t := s.term("top"); t != nil {
		nt := b.Fresh("top", SInt)
		f.assume(s, b.Le(t, nt))
		s.c["top"] = nt
	}
	if con.cons != nil {
		w := ev.in(old).window(con.cons.ex)
		cond := ev.in(old).boolean(con.consIf.ex)
		if !cond.isFalse() {
			for _, kk := range f.ownKeys(s) {
				if !strings.HasSuffix(kk, "."+w.cls) {
					continue
				}
				o := s.term(kk)
				n := b.Fresh("own", o.sort)
				a := b.Bnd("a", SInt)
				f.assume(s, b.All([]*Term{a}, b.Eq(b.Sel(n, a), b.And(b.Sel(o, a), b.Not(b.And(cond, w.in(b, a))))), []*Term{b.Sel(n, a)}))
				s.c[kk] = n
			}
		}
	}
	var res Val = &TupleV{}
	sig := fn.Signature.Results()
	ev2 := *ev
	ev2.names = map[string]Val{}
	for k, v := range names {
		ev2.names[k] = v
	}
	if sig.Len() == 1 {
		res = f.freshVal(s, "r", sig.At(0).Type())
		ev2.names["r"] = res
	} else if sig.Len() > 1 {
		tv := &TupleV{}
		for i := 0; i < sig.Len(); i++ {
			v := f.freshVal(s, "r", sig.At(i).Type())
			tv.v = append(tv.v, v)
			ev2.names[fmt.Sprintf("r%d", i)] = v
		}
		res = tv
	}
	if con.nonan {
		if t, ok := res.(*Term); ok && t.sort == "F" {
			f.assume(s, b.Not(f.nan(t)))
		}
	}
	for _, e := range con.ens {
		f.assume(s, ev2.boolean(e.ex))
	}
	return res, s
}

// refineLesswap proves that a closure of the package is a valid Lesswap over a slice
func (f *FV) refineLesswap(s *State, fv *FuncV, pos token.Pos) *SliceV {
	b := f.b
	var sl *SliceV
	for _, v := range fv.bind {
		if pc, ok := v.(*PCell); ok {
			v = getPath(s.c[cellKey(pc.cell)], pc.path)
		}
		if x, ok := v.(*SliceV); ok {
			if sl != nil {
				unsup("Lesswap over two slices")
			}
			sl = x
		} else {
			unsup("Lesswap captures %T", v)
		}
	}
	if sl == nil {
		unsup("Lesswap without a slice")
	}
	t := s.clone()
	k := "mem." + sl.cls
	m := f.mem(s, sl.cls)
	m1 := b.Fresh("m", m.sort)
	t.c[k] = m1
	delete(t.c, "cnt")
	var ix []Val
	var it []*Term
	n := f.newNode(b.Fresh("at", SBool), s.node)
	n.facts = append(n.facts, s.node.lit)
	t.node = n
	for i := 0; i < 4; i++ {
		x := b.Fresh("ix", SInt)
		f.bound(t, x, big0, f.maxLen())
		f.assume(t, b.Lt(x, sl.len))
		ix = append(ix, x)
		it = append(it, b.Add(sl.ptr, x))
	}
	foots := f.foots
	f.foots = nil
	v, e := f.inline(fv.fn, ix, fv.bind, t)
	f.foots = foots
	if e == nil {
		unsup("Lesswap does not return")
	}
	r, ok := v.(*Term)
	if !ok || r.sort != SBool {
		unsup("Lesswap result")
	}
	less := b.Lt(f.vkey(b.Sel(m1, it[0])), f.vkey(b.Sel(m1, it[1])))
	f.oblige(e, "post", "Lesswap compares", pos, b.Eq(r, less))
	f.oblige(e, "post", "Lesswap does not swap unless less and r != s", pos,
		b.Or(b.And(less, b.Ne(it[2], it[3])), b.Eq(f.mem(e, sl.cls), m1)))
	f.oblige(e, "post", "Lesswap swaps", pos,
		b.Imp(b.And(less, b.Ne(it[2], it[3])), b.Eq(f.mem(e, sl.cls), b.Sto(b.Sto(m1, it[2], b.Sel(m1, it[3])), it[3], b.Sel(m1, it[2])))))
	for kk, v := range e.c {
		if strings.HasPrefix(kk, "mem.") && kk != k && !sameVal(v, t.c[kk]) {
			f.oblige(e, "frame", "Lesswap modifies something else", pos, b.False())
		}
	}
	return sl
}

// literals of contract become thresholds
func (f *FV) litConsts(e ast.Expr) {
	ast.Inspect(e, func(n ast.Node) bool {
		if l, ok := n.(*ast.BasicLit); ok && l.Kind == token.INT {
			if v, ok := new(big.Int).SetString(l.Value, 0); ok {
				f.consts[f.b.Big(v)] = true
			}
		}
		return true
	})
}

// setup prepares the entry state, executes the function and states its exit obligations
func (f *FV) execute(con *Contract, fn *ssa.Function, cas *int64) {
	b := f.b
	f.con, f.fam, f.fn, f.unroll = con, con.fam, fn, con.unroll
	root := f.newNode(b.Fresh("at", SBool))
	s := &State{node: root, env: map[ssa.Value]Val{}, c: map[string]Val{}}
	f.entry = &State{node: root, env: map[ssa.Value]Val{}, c: map[string]Val{}}
	set := func(k string, v Val) { s.c[k], f.entry.c[k] = v, v }
	top := b.Var("top0", SInt)
	f.top0 = top
	set("top", top)
	f.assume(s, b.Le(b.Num(0), top))
	tok0 := b.Var("tok0", SInt)
	set("tok", tok0)
	f.assume(s, b.Le(b.Num(0), tok0))
	f.assume(s, b.Imp(f.mconst, b.Le(tok0, f.M))) // quota invariant
	set("ownsv", b.False())
	set("last", b.False())
	set("others", b.False())
	set("nsent", b.Num(0))
	set("pend", &PendV{})
	if f.fn.Synthetic == "" && fn.Name() != "init" && !strings.HasPrefix(fn.Name(), "init#") && f.sp.admis != nil {
		ev := &Eval{f: f, st: s, old: s, names: map[string]Val{}, fam: con.fam}
		f.assume(s, ev.boolean(f.sp.admis))
	}
	f.args = map[string]Val{}
	for i, p := range fn.Params {
		var v Val
		if con.caseOf == con.params[i] && cas != nil {
			v = b.Num(*cas)
		} else {
			v = f.freshVal(s, con.params[i], p.Type())
		}
		if _, ok := v.(*IfaceV); ok {
			for k := 0; k < 3; k++ {
				f.bound(s, f.kindT(k), big0, big.NewInt(26))
			}
			f.bound(s, b.Var("rlen", SInt), big0, f.maxLen())
			f.assume(s, b.And(b.Le(b.Num(0), b.Var("rptr", SInt)), b.Le(b.Add(b.Var("rptr", SInt), b.Var("rlen", SInt)), top)))
		}
		if fv, ok := v.(*FuncV); ok {
			if fv.lsw != "" {
				f.mem(s, "A")
				f.own(s, "own", "A")
				f.own(s, "rd", "A")
			}
			f.pred = f.pred || fv.pred
		}
		f.argv = append(f.argv, v)
		f.args[con.params[i]] = v
	}
	ev := &Eval{f: f, st: s, old: f.entry, names: f.args, fam: con.fam}
	for _, c := range con.mods {
		w := ev.window(c.ex)
		f.mods = append(f.mods, w)
		f.mem(s, w.cls)
		f.own(s, "own", w.cls)
	}
	for _, r := range con.reqs {
		f.litConsts(r.ex)
		f.assume(s, ev.boolean(r.ex))
	}
	if con.nonan {
		for _, v := range f.argv {
			if t, ok := v.(*Term); ok && t.sort == "F" {
				f.assume(s, b.Not(f.nan(t)))
			}
		}
	}
	if con.perm && len(f.mods) > 0 && f.cntCls() != "A" {
		set("cnt", b.Var("cnt0", SInt))
	}
	if con.budget != nil {
		set("budget", ev.integer(con.budget.ex))
	}
	if con.dec != nil {
		f.meas0 = ev.integer(con.dec.ex)
	}
	v, e := f.inline(fn, f.argv, nil, s)
	if e == nil {
		f.notes["function never returns"] = true
		if con.panics == nil {
			unsup("function never returns")
		}
		return
	}
	f.exit = e
	names := map[string]Val{}
	for k, x := range f.args {
		names[k] = x
	}
	if tv, ok := v.(*TupleV); ok {
		for i, x := range tv.v {
			names[fmt.Sprintf("r%d", i)] = x
		}
	} else if v != nil {
		names["r"] = v
	}
	if con.also != nil {
		c := con.also.ex.(*ast.CallExpr)
		fn2 := f.p.funcs[c.Fun.(*ast.Ident).Name]
		if fn2 == nil || len(fn2.Params) != len(c.Args) {
			unsup("no function %s", con.also.src)
		}
		var args []Val
		for _, a := range c.Args {
			args = append(args, ev.expr(a))
		}
		var v2 Val
		if v2, e = f.inline(fn2, args, nil, e); e == nil {
			unsup("function never returns")
		}
		if tv, ok := v2.(*TupleV); ok {
			for i, x := range tv.v {
				names[fmt.Sprintf("q%d", i)] = x
			}
		} else {
			names["q"] = v2
		}
		f.exit = e
	}
	ev = &Eval{f: f, st: e, old: f.entry, names: names, fam: con.fam}
	end := fn.Pos()
	for _, c := range con.ens {
		f.oblige(e, clauseClass(c, postClass(c)), con.name+" ensures "+c.src, end, ev.boolean(c.ex))
	}
	if con.nonan {
		if t, ok := v.(*Term); ok && t.sort == "F" {
			f.oblige(e, "post", "result is not NaN", end, b.Not(f.nan(t)))
		}
	}
	if c := e.term("cnt"); c != nil {
		f.oblige(e, "perm", "elements are permuted", end, b.Eq(c, f.entry.term("cnt")))
	}
	if con.panics != nil {
		f.oblige(e, "accept", "panics for unsupported arguments", end, b.Not(ev.in(f.entry).boolean(con.panics)))
	}
	for _, kk := range f.ownKeys(e) {
		o := e.term(kk)
		o0 := f.entry.c[kk].(*Term)
		if o == o0 {
			continue
		}
		a := b.Bnd("a", SInt)
		cls := kk[strings.IndexByte(kk, '.')+1:]
		h := []*Term{b.Sel(o0, a)}
		if con.cons != nil {
			w := ev.in(f.entry).window(con.cons.ex)
			if w.cls == cls {
				h = append(h, b.Not(b.And(ev.in(f.entry).boolean(con.consIf.ex), w.in(b, a))))
			}
		}
		f.oblige(e, "join", "all ranges given to goroutines are back at return ("+kk+")", end,
			b.All([]*Term{a}, b.Imp(b.And(h...), b.Sel(o, a)), []*Term{b.Sel(o, a)}))
	}
	ow, _ := e.c["ownsv"].(*Term)
	f.oblige(e, "join", "returns only after the last goroutine ended", end, b.Imp(ow, b.And(b.Eq(e.term("tok"), b.Num(0)), e.term("last"), b.Not(e.term("others")))))
	f.oblige(e, "join", "goroutine quota places are kept", end, b.Imp(b.Not(ow), b.Eq(e.term("tok"), tok0)))
	f.oblige(e, "join", "end signal is due", end, b.Imp(b.Not(ow), b.And(b.Not(e.term("last")), b.Not(e.term("others")))))
	if pv, ok := e.c["pend"].(*PendV); !ok || len(pv.tasks) > 0 {
		f.oblige(e, "hang", "message of a goroutine is not received", end, b.False())
	}
	f.oblige(e, "hang", "message is sent", end, b.Eq(e.term("nsent"), b.Num(0)))
}

// vacuous tells whether hypotheses at exit are contradictory
func (f *FV) vacuous() bool {
	if f.exit == nil {
		return false
	}
	o := &Obl{node: f.exit.node, nf: len(f.exit.node.facts), goal: f.b.False()}
	f.solve([]*Obl{o}, Limits{rl: f.candRL, tmo: 20e9, seed: 1})
	return o.ok
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// LView is the state of a loop at one of: before the loop (pre), arbitrary round
// (head), end of a round (back)
type LView struct {
	st   *State
	phi  map[ssa.Value]Val
	node *Node
	nf   int
}

type iGet struct {
	name    string
	get     func(*LView) *Term
	changed bool
	entry   bool // value before the loop
	nopos   bool // not a position in the user's collection
	nocmp   bool // element there is not compared with others
}
type sGet struct {
	name    string
	get     func(*LView) *SliceV
	changed bool
}
type eGet struct {
	name string
	get  func(*LView) *Term
	hole func(*LView) *Term // address, for A[p]
}

type Cand struct {
	id      int
	lv      *LoopV
	name    string
	formula *Term
	alive   bool
	entry   []*Obl
	backs   []*Obl
}

type Measure struct {
	name string
	obls []*Obl
}

type LoopV struct {
	id     int
	name   string
	fr     *Frame
	l      *LoopInfo
	head   *Node
	pre    *LView
	hd     *LView
	backs  []*LView
	ints   []iGet
	slices []sGet
	elems  []eGet
	flags  []eGet // variables that are true or false
	found  []iGet // positions found, or zero
	hinted map[string]bool
	rel    map[string]*Cand
	seen   map[*Term]*Cand
	measOK bool
	meas   string
	comps  []string // changed components
	pos    string
	direct bool // elements are exchanged in its body, not just by callees
}

func (f *FV) cut(fr *Frame, l *LoopInfo, entry []Edge) map[*ssa.BasicBlock][]Edge {
	b := f.b
	pre := f.enter(l.head, entry)
	var phis []*ssa.Phi
	for _, in := range l.head.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, p)
	}
	hphi := map[*ssa.Phi]bool{}
	hcomp := map[string]bool{}
	poison := map[string]bool{}
	pphi := map[*ssa.Phi]bool{}
	for try := 0; ; try++ {
		if try > 40 {
			unsup("loop analysis does not end")
		}
		sn := f.snap()
		nlsw := f.nlsw
		preFacts := len(pre.node.facts)
		n := f.newNode(b.Fresh("loop", SBool), pre.node)
		n.facts = append(n.facts, pre.node.lit)
		head := pre.clone()
		head.node = n
		var ks []string
		for k := range hcomp {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		if hcomp["top"] {
			t := b.Fresh("top", SInt)
			f.assume(head, b.Le(pre.term("top"), t))
			head.c["top"] = t
		}
		for _, k := range ks {
			if k == "top" {
				continue
			}
			v := pre.c[k]
			if v == nil {
				v = f.entry.c[k]
			}
			if poison[k] {
				head.c[k] = PoisonV{"component " + k + " has different forms in loop"}
				continue
			}
			h := k
			if j := strings.IndexByte(k, '.'); j >= 0 {
				h = k[:j]
			}
			if strings.HasPrefix(k, "mem.") {
				h = "m"
			}
			head.c[k] = f.havoc(head, h, v)
			if strings.HasPrefix(k, "mem.") {
				cls := k[4:]
				m := head.c[k].(*Term)
				e := f.entry.c[k].(*Term)
				a := b.Bnd("a", SInt)
				f.assume(head, b.All([]*Term{a}, b.Imp(b.And(b.Lt(a, f.top0), b.Not(f.inMods(cls, a))), b.Eq(b.Sel(m, a), b.Sel(e, a))), []*Term{b.Sel(m, a)}))
			}
		}
		for _, p := range phis {
			if pphi[p] {
				head.env[p] = PoisonV{"variable " + p.Comment + " has different forms in loop"}
			} else if hphi[p] {
				h := p.Comment
				if h == "" || strings.ContainsAny(h, " .&|$[]()") {
					h = "t"
				}
				head.env[p] = f.havocT(head, h, pre.env[p], p.Type())
			}
		}
		hd := &LView{st: head.clone(), phi: map[ssa.Value]Val{}}
		for _, p := range phis {
			hd.phi[p] = head.env[p]
		}
		exits, backs := f.region_(fr, l.blocks, l, l.head, nil, head)
		// what has changed?
		changed := false
		share := ""
		var bviews []*LView
		for _, e := range backs {
			bv := &LView{st: e.st, phi: map[ssa.Value]Val{}}
			kp := -1
			for j, pr := range l.head.Preds {
				if pr == e.from {
					kp = j
				}
			}
			for _, p := range phis {
				v, ok := e.st.env[p.Edges[kp]]
				if !ok {
					v = f.val(e.st, p.Edges[kp])
				}
				bv.phi[p] = v
				if !hphi[p] && !sameVal(v, hd.phi[p]) {
					hphi[p] = true
					changed = true
				}
				if _, po := v.(PoisonV); po && !pphi[p] {
					pphi[p], changed = true, true
				} else if hphi[p] && !pphi[p] && !sameKind(v, pre.env[p]) {
					pphi[p], changed = true, true
				}
			}
			for k, v := range e.st.c {
				if strings.HasPrefix(k, "decided.") {
					continue
				}
				if strings.HasPrefix(k, "frozen.") {
					if _, outer := pre.c[k[7:]]; outer && pre.c[k] == nil {
						unsup("goroutine in a loop uses a local variable outside of it")
					}
					continue
				}
				h, ok := hd.st.c[k]
				if !ok {
					h = f.entry.c[k]
				}
				if strings.HasPrefix(k, "cell.") && h == nil {
					continue // local of loop body
				}
				if strings.HasPrefix(k, "shared.") {
					if !sameComp(h, v) {
						share = strings.TrimPrefix(k, "shared.")
					}
					continue
				}
				if k == "pend" {
					if !sameComp(h, v) && !poison[k] {
						hcomp[k], poison[k], changed = true, true, true
					}
					continue
				}
				if !hcomp[k] && !sameVal(h, v) {
					hcomp[k] = true
					changed = true
				}
				if _, po := v.(PoisonV); po && !poison[k] {
					poison[k], hcomp[k], changed = true, true, true
				}
			}
			bviews = append(bviews, bv)
		}
		if share != "" {
			f.rollback(sn)
			c := f.cellIDs[share]
			if c == nil || pre.c[share] == nil {
				unsup("variable shared in loop")
			}
			f.share(pre, c)
			hphi, hcomp, poison, pphi = map[*ssa.Phi]bool{}, map[string]bool{}, map[string]bool{}, map[*ssa.Phi]bool{}
			continue
		}
		if changed {
			f.rollback(sn)
			continue
		}
		// done
		lv := &LoopV{id: len(f.loops), fr: fr, l: l, head: n, hd: hd, rel: map[string]*Cand{}, seen: map[*Term]*Cand{}, direct: f.nlsw > nlsw}
		lv.name = fmt.Sprintf("%s/loop%d", fr.fn.Name(), len(f.loops)+1)
		lv.pos = f.blockPos(l.head)
		lv.pre = &LView{st: pre, phi: map[ssa.Value]Val{}, node: pre.node, nf: preFacts}
		for _, p := range phis {
			lv.pre.phi[p] = pre.env[p]
		}
		hd.node = n
		for i, e := range backs {
			bv := bviews[i]
			bv.node, bv.nf = e.st.node, len(e.st.node.facts)
			if e.cond != nil {
				m := f.newNode(b.Fresh("at", SBool), e.st.node)
				m.facts = append(m.facts, e.st.node.lit, e.cond)
				bv.node, bv.nf = m, len(m.facts)
			}
			bv.st = bv.st.clone()
			bv.st.node = bv.node
		}
		lv.backs = bviews
		for k := range hcomp {
			if !poison[k] {
				lv.comps = append(lv.comps, k)
			}
		}
		sort.Strings(lv.comps)
		f.vocabulary(lv, phis, hphi, pphi)
		if f.relaxed != nil {
			lv.hinted = f.relaxed.loop(lv)
		}
		f.loops = append(f.loops, lv)
		return exits
	}
}

func (f *FV) blockPos(blk *ssa.BasicBlock) string {
	for _, in := range blk.Instrs {
		if p := in.Pos(); p.IsValid() {
			q := f.p.prog.Fset.Position(p)
			return fmt.Sprintf("%s:%d", q.Filename[strings.LastIndexByte(q.Filename, '/')+1:], q.Line)
		}
	}
	return ""
}

func sameKind(x, y Val) bool {
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		return ok && a.sort == b.sort
	case *SliceV:
		b, ok := y.(*SliceV)
		return ok && a.cls == b.cls
	case *PElem:
		b, ok := y.(*PElem)
		return ok && a.cls == b.cls
	case *PSync, PNil:
		switch y.(type) {
		case *PSync, PNil:
			return true
		}
		return false
	}
	return sameVal(x, y)
}

// havoc makes an arbitrary value of same form
func (f *FV) havoc(s *State, h string, v Val) Val {
	b := f.b
	switch v := v.(type) {
	case *Term:
		return b.Fresh(h, v.sort)
	case *StructV:
		r := &StructV{}
		for _, x := range v.f {
			r.f = append(r.f, f.havoc(s, h, x))
		}
		return r
	case *SliceV:
		sl := &SliceV{cls: v.cls, elem: v.elem, ptr: b.Fresh(h+"_p", SInt), len: b.Fresh(h+"_n", SInt), cap: b.Fresh(h+"_c", SInt)}
		f.wfSlice(s, sl)
		return sl
	case *PElem:
		return &PElem{cls: v.cls, elem: v.elem, addr: b.Fresh(h, SInt)}
	case *PSync:
		return &PSync{null: b.Fresh(h+"_nil", SBool), typ: v.typ, path: v.path}
	case *ChanV, *FuncV:
		return v
	}
	return PoisonV{fmt.Sprintf("%T changed in loop", v)}
}

func (f *FV) havocT(s *State, h string, v Val, t types.Type) Val {
	switch x := v.(type) {
	case *Term:
		if x.sort == SInt {
			if lo, hi, _ := f.typeRange(t); lo != nil {
				n := f.b.Fresh(h, SInt)
				f.bound(s, n, lo, hi)
				return n
			}
		}
	}
	return f.havoc(s, h, v)
}

// vocabulary collects terms candidate invariants are made of
func (f *FV) vocabulary(lv *LoopV, phis []*ssa.Phi, hphi, pphi map[*ssa.Phi]bool) {
	seenI := map[*Term]bool{}
	isElemT := func(t types.Type) bool {
		bt, ok := t.Underlying().(*types.Basic)
		if !ok {
			_, sl := t.Underlying().(*types.Slice)
			return sl
		}
		switch bt.Kind() {
		case types.Int:
			return f.fam != nil && f.fam.byLen
		case types.Uint, types.Bool, types.Uintptr:
			return false
		}
		return true
	}
	isIdxT := func(t types.Type) bool {
		bt, ok := t.Underlying().(*types.Basic)
		return ok && (bt.Kind() == types.Int || bt.Kind() == types.Uint || bt.Kind() == types.Uint32 && f.con != nil && f.con.fam.name != "U4")
	}
	var posn, cmps map[ssa.Value]bool
	if f.usesA() {
		posn, cmps = f.positions(lv.fr.fn)
	}
	nopos := func(v ssa.Value) bool { return posn != nil && v != nil && !posn[v] }
	nocmp := func(v ssa.Value) bool { return cmps != nil && v != nil && !cmps[v] }
	addVar := func(name string, p ssa.Value, pt types.Type, get func(v *LView) Val) {
		switch x := get(lv.hd).(type) {
		case *Term:
			if x.sort == SBool {
				lv.flags = append(lv.flags, eGet{name: name, get: func(v *LView) *Term { return get(v).(*Term) }})
			}
			if x.sort == SInt && isIdxT(pt) {
				lv.ints = append(lv.ints, iGet{name: name, get: func(v *LView) *Term { return get(v).(*Term) }, changed: true, nopos: nopos(p), nocmp: nocmp(p)})
				e := get(lv.pre).(*Term)
				if !e.isNum() && !seenI[e] {
					seenI[e] = true
					lv.ints = append(lv.ints, iGet{name: name + "@0", get: func(*LView) *Term { return e }, entry: true, nopos: nopos(p), nocmp: nocmp(p)})
				}
			}
			if x.sort != SBool && isElemT(pt) {
				lv.elems = append(lv.elems, eGet{name: name, get: func(v *LView) *Term { return get(v).(*Term) }})
				e := get(lv.pre).(*Term)
				lv.elems = append(lv.elems, eGet{name: name + "@0", get: func(v *LView) *Term { return e }})
			}
		case *SliceV:
			lv.slices = append(lv.slices, sGet{name: name, get: func(v *LView) *SliceV { return get(v).(*SliceV) }, changed: true})
			e := get(lv.pre).(*SliceV)
			lv.slices = append(lv.slices, sGet{name: name + "@0", get: func(*LView) *SliceV { return e }})
		}
	}
	addPhi := func(p *ssa.Phi) {
		name := p.Comment
		if name == "" {
			name = p.Name()
		}
		addVar(name, p, p.Type(), func(v *LView) Val { return v.phi[p] })
	}
	for _, p := range phis {
		if hphi[p] && !pphi[p] {
			addPhi(p)
		}
	}
	// local variables with address taken
	var cells []string
	for k := range lv.pre.st.c {
		if strings.HasPrefix(k, "cell.") && f.cellIDs[k] != nil {
			if sh, _ := lv.pre.st.c["shared."+k].(bool); !sh {
				cells = append(cells, k)
			}
		}
	}
	sort.Strings(cells)
	for _, k := range cells {
		if k := k; lv.hasComp(k) {
			addVar(f.cellIDs[k].name, nil, f.cellIDs[k].typ, func(v *LView) Val { return v.st.c[k] })
		}
	}
	// start and count
	var chg []iGet
	for _, x := range lv.ints {
		if x.changed {
			chg = append(chg, x)
		}
	}
	pure := true // loop does not modify memory
	for _, k := range lv.comps {
		pure = pure && !strings.HasPrefix(k, "mem.")
	}
	if len(chg) <= 3 && pure { // zero may stand for nothing found
		for _, x := range chg {
			if x := x; x.get(lv.pre).isNum() && x.get(lv.pre).num.Sign() == 0 {
				lv.flags = append(lv.flags, eGet{name: x.name + "=0", get: func(v *LView) *Term { return f.b.Eq(x.get(v), f.b.Num(0)) }})
				lv.found = append(lv.found, x)
			}
		}
	}
	if posn == nil && len(chg) <= 3 && pure {
		for i, x := range chg {
			for _, y := range chg[:i] {
				x, y := x, y
				lv.ints = append(lv.ints, iGet{name: y.name + "+" + x.name, get: func(v *LView) *Term { return f.b.Add(y.get(v), x.get(v)) }, changed: true})
			}
		}
	}
	seenS := map[string]bool{}
	seenE := map[*Term]bool{}
	addFixed := func(name string, v Val, t types.Type, sv ssa.Value) {
		for _, x := range lv.ints {
			if x.name == name {
				name += "'"
			}
		}
		for _, x := range lv.slices {
			if x.name == name {
				name += "'"
			}
		}
		switch x := v.(type) {
		case *Term:
			if x.isNum() || x.sort == SBool || strings.HasPrefix(string(x.sort), "(") {
				return
			}
			if x.sort == SInt && isIdxT(t) && !seenI[x] {
				seenI[x] = true
				lv.ints = append(lv.ints, iGet{name: name, get: func(*LView) *Term { return x }, nopos: nopos(sv), nocmp: nocmp(sv)})
			}
			if isElemT(t) && !seenE[x] {
				seenE[x] = true
				lv.elems = append(lv.elems, eGet{name: name, get: func(*LView) *Term { return x }})
			}
		case *SliceV:
			k := fmt.Sprint(x.cls, x.ptr.id, ",", x.len.id)
			if !seenS[k] && !(x.len.isNum() && x.len.num.Sign() == 0) {
				seenS[k] = true
				lv.slices = append(lv.slices, sGet{name: name, get: func(*LView) *SliceV { return x }})
			}
		}
	}
	// values used in or after the loop
	live := func(v ssa.Value) bool {
		in, ok := v.(ssa.Instruction)
		if !ok {
			return false
		}
		seen := map[*ssa.BasicBlock]bool{}
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			if seen[b] || b == in.Block() && b != lv.l.head {
				return
			}
			seen[b] = true
			for _, s := range b.Succs {
				dfs(s)
			}
		}
		dfs(lv.l.head)
		for _, r := range *v.Referrers() {
			if _, dbg := r.(*ssa.DebugRef); dbg || r.Block() == nil {
				continue
			}
			if p, ok := r.(*ssa.Phi); ok {
				for k, e := range p.Edges {
					if e == v && seen[p.Block().Preds[k]] {
						return true
					}
				}
			} else if seen[r.Block()] {
				return true
			}
		}
		return false
	}
	var vs []ssa.Value
	for v := range lv.pre.st.env {
		if v == retKey {
			continue
		}
		if _, isPhi := lv.hd.phi[v]; isPhi {
			continue
		}
		refs := v.Referrers()
		if refs == nil {
			continue
		}
		use := posn != nil && live(v)
		for _, r := range *refs {
			if posn != nil {
				break
			}
			if _, dbg := r.(*ssa.DebugRef); dbg || r.Block() == nil {
				continue
			}
			if rp, ok := lv.fr.fi.rpo[r.Block()]; ok && rp >= lv.fr.fi.rpo[lv.l.head] {
				use = true
				break
			}
		}
		if use {
			vs = append(vs, v)
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
	for _, p := range lv.fr.fn.Params {
		if v, ok := lv.pre.st.env[p]; ok {
			addFixed(p.Name(), v, p.Type(), p)
		}
	}
	for _, v := range vs {
		if pa, ok := lv.pre.st.env[v].(*PArr); ok {
			n := f.b.Num(pa.n)
			addFixed(v.Name(), &SliceV{cls: pa.cls, elem: pa.elem, ptr: pa.base, len: n, cap: n}, nil, v)
			continue
		}
		addFixed(v.Name(), lv.pre.st.env[v], v.Type(), v)
	}
	for i, v := range f.argv {
		if posn != nil {
			ps, _ := f.positions(f.fn)
			for k := range ps {
				posn[k] = true
			}
		}
		addFixed("arg "+f.fn.Params[i].Name(), v, f.fn.Params[i].Type(), f.fn.Params[i])
	}
	for _, k := range cells {
		if !lv.hasComp(k) {
			addFixed(f.cellIDs[k].name, lv.pre.st.c[k], f.cellIDs[k].typ, nil)
		}
	}
	// phis that the loop does not change are fixed values
	for _, p := range phis {
		if !hphi[p] {
			addFixed(p.Comment, lv.pre.phi[p], p.Type(), p)
		}
	}
}

// memory term of a class in a view
func (f *FV) memAt(v *LView, cls string) *Term {
	if m := v.st.term("mem." + cls); m != nil {
		return m
	}
	if m, ok := f.entry.c["mem."+cls]; ok {
		return m.(*Term)
	}
	return nil
}

func (lv *LoopV) add(f *FV, name string, g func(v *LView) *Term) *Cand {
	for _, fl := range lv.flags {
		fl := fl
		when := func(neg bool) func(v *LView) *Term {
			return func(v *LView) *Term {
				t, c := g(v), fl.get(v)
				if t == nil {
					return nil
				}
				if neg {
					c = f.b.Not(c)
				}
				return f.b.Imp(c, t)
			}
		}
		lv.add1(f, name+" if "+fl.name, when(false))
		lv.add1(f, name+" if not "+fl.name, when(true))
	}
	return lv.add1(f, name, g)
}

func (lv *LoopV) add1(f *FV, name string, g func(v *LView) *Term) *Cand {
	if f.hints != nil && !f.hints[fmt.Sprintf("%d %s", lv.id, name)] && !lv.hinted[name] {
		return nil
	}
	h := g(lv.hd)
	if h == nil || h.isTrue() || lv.seen[h] != nil {
		return lv.seen[h]
	}
	e := g(lv.pre)
	if e.isFalse() {
		return nil
	}
	c := &Cand{id: len(f.cands), lv: lv, name: name, formula: h, alive: true}
	if !e.isTrue() {
		c.entry = []*Obl{{node: lv.pre.node, nf: lv.pre.nf, goal: e, cand: c, class: "inv", name: name}}
	}
	for _, bv := range lv.backs {
		t := g(bv)
		if t.isFalse() {
			return nil
		}
		if t != h && !t.isTrue() {
			c.backs = append(c.backs, &Obl{node: bv.node, nf: bv.nf, goal: t, cand: c, class: "inv", name: name})
		}
	}
	f.cands = append(f.cands, c)
	lv.seen[h] = c
	return c
}

type posGet struct {
	name  string
	get   func(v *LView) *Term
	isint int // index in ints, or -1: 0, -2: len
	chg   bool
	ent   bool
	nopos bool
	nocmp bool
}

func (f *FV) le(lv *LoopV, p, q posGet) bool {
	if f.hints != nil || !f.usesA() && !p.chg && !q.chg {
		return true
	}
	for c := -1; c <= 1; c++ {
		if cd := lv.rel[fmt.Sprintf("%s<=%s+%d", p.name, q.name, c)]; cd != nil && cd.alive {
			return true
		}
		// syntactically true?
		if t := f.b.Le(p.get(lv.hd), f.b.AddN(q.get(lv.hd), int64(c))); t.isTrue() {
			return true
		}
	}
	return false
}

// empty: [p+c, q+d) is known to be empty
func (f *FV) empty(lv *LoopV, p, q posGet, c, d int64) bool {
	if f.hints != nil {
		return false
	}
	for k := int64(-1); k <= c-d && k <= 1; k++ {
		if cd := lv.rel[fmt.Sprintf("%s<=%s+%d", q.name, p.name, k)]; cd != nil && cd.alive {
			return true
		}
	}
	return f.b.Le(f.b.AddN(q.get(lv.hd), d), f.b.AddN(p.get(lv.hd), c)).isTrue()
}

func (f *FV) posList(lv *LoopV) []posGet {
	b := f.b
	ps := []posGet{{name: "0", get: func(*LView) *Term { return b.Num(0) }, isint: -1, nocmp: true}}
	if f.usesA() { // 0 is a position if the range to work on starts there
		ps[0].nopos = true
		for _, w := range f.mods {
			if w.cls == "A" && w.lo.isNum() {
				ps[0].nopos = false
			}
		}
	}
	for i, x := range lv.ints {
		ps = append(ps, posGet{x.name, x.get, i, x.changed, x.entry, x.nopos, x.nocmp})
	}
	for _, s := range lv.slices {
		s := s
		if s.changed {
			continue
		}
		if s.get(lv.hd).len.isNum() {
			continue
		}
		ps = append(ps, posGet{"len(" + s.name + ")", func(v *LView) *Term { return s.get(v).len }, -2, false, false, true, true})
	}
	return ps
}

func (lv *LoopV) hasComp(k string) bool {
	for _, c := range lv.comps {
		if c == k {
			return true
		}
	}
	return false
}

// gen makes candidate invariants of a stage
func (f *FV) gen(lv *LoopV, stage int) {
	b := f.b
	lsw := f.usesA()
	ps := f.posList(lv)
	switch stage {
	case 1:
		var th []*Term
		for t := range f.consts {
			th = append(th, t)
		}
		sort.Slice(th, func(i, j int) bool { return th[i].id < th[j].id })
		for i, p := range ps {
			for j, q := range ps {
				p, q := p, q
				if i == j || !p.chg && !q.chg && !lsw {
					continue
				}
				for c := int64(-1); c <= 1; c++ {
					c := c
					nm := fmt.Sprintf("%s<=%s+%d", p.name, q.name, c)
					if f.relaxed != nil {
						lv.hinted[nm] = true
					}
					if cd := lv.add(f, nm, func(v *LView) *Term { return b.Le(p.get(v), b.AddN(q.get(v), c)) }); cd != nil {
						lv.rel[nm] = cd
					}
				}
			}
			if p.chg {
				p := p
				for _, t := range th {
					t := t
					for c := int64(-1); c <= 1; c++ {
						c := c
						lv.add(f, fmt.Sprintf("%s<=%s%+d", p.name, t, c), func(v *LView) *Term { return b.Le(p.get(v), b.AddN(t, c)) })
						lv.add(f, fmt.Sprintf("%s>=%s%+d", p.name, t, c), func(v *LView) *Term { return b.Le(b.AddN(t, c), p.get(v)) })
					}
				}
			}
			if lsw {
				for j, q := range ps {
					p, q := p, q
					if i == j || !p.chg && !q.chg {
						continue
					}
					for _, t := range th {
						t := t
						if n, ok := t.int64(); ok && n <= 1 && n >= -1 {
							continue
						}
						for c := int64(-1); c <= 1; c++ {
							c := c
							lv.add(f, fmt.Sprintf("%s-%s>=%s%+d", p.name, q.name, t, c), func(v *LView) *Term { return b.Le(b.AddN(t, c), b.Sub(p.get(v), q.get(v))) })
							lv.add(f, fmt.Sprintf("%s-%s<=%s%+d", p.name, q.name, t, c), func(v *LView) *Term { return b.Le(b.Sub(p.get(v), q.get(v)), b.AddN(t, c)) })
						}
					}
					// difference does not grow / shrink
					d0 := b.Sub(p.get(lv.pre), q.get(lv.pre))
					lv.add(f, p.name+"-"+q.name+" grows", func(v *LView) *Term { return b.Le(d0, b.Sub(p.get(v), q.get(v))) })
					lv.add(f, p.name+"-"+q.name+" shrinks", func(v *LView) *Term { return b.Le(b.Sub(p.get(v), q.get(v)), d0) })
				}
			}
			if p.chg && !lsw { // loop not entered
				for _, q := range ps {
					p, q := p, q
					if q.chg || q.ent {
						continue
					}
					p0 := p.get(lv.pre)
					lv.add(f, p.name+" at start or <"+q.name, func(v *LView) *Term {
						return b.Or(b.Eq(p.get(v), p0), b.Lt(p.get(v), q.get(v)))
					})
					lv.add(f, p.name+" at start or >"+q.name, func(v *LView) *Term {
						return b.Or(b.Eq(p.get(v), p0), b.Lt(q.get(v), p.get(v)))
					})
				}
			}
			// sums: balanced extension of two ends
			for j, q := range ps {
				p, q := p, q
				if i < j && p.chg && q.chg {
					s0 := b.Add(p.get(lv.pre), q.get(lv.pre))
					lv.add(f, p.name+"+"+q.name+" fixed", func(v *LView) *Term { return b.Eq(s0, b.Add(p.get(v), q.get(v))) })
				}
			}
		}
		for i, s := range lv.slices {
			s := s
			if !s.changed {
				continue
			}
			ln := func(v *LView) *Term { return s.get(v).len }
			for _, t := range th {
				t := t
				for c := int64(-1); c <= 1; c++ {
					c := c
					lv.add(f, fmt.Sprintf("len(%s)<=%s%+d", s.name, t, c), func(v *LView) *Term { return b.Le(ln(v), b.AddN(t, c)) })
					lv.add(f, fmt.Sprintf("len(%s)>=%s%+d", s.name, t, c), func(v *LView) *Term { return b.Le(b.AddN(t, c), ln(v)) })
				}
			}
			lv.add(f, "cap="+s.name, func(v *LView) *Term { return b.Eq(s.get(v).cap, ln(v)) })
			for j, w := range lv.slices {
				w := w
				if i == j || w.get(lv.hd).cls != s.get(lv.hd).cls {
					continue
				}
				type two struct{ s, w *SliceV }
				g := func(nm string, h func(x, y *SliceV) *Term) {
					lv.add(f, s.name+nm+w.name, func(v *LView) *Term { return h(s.get(v), w.get(v)) })
				}
				end := func(x *SliceV) *Term { return b.Add(x.ptr, x.len) }
				g(" starts in ", func(x, y *SliceV) *Term { return b.Le(y.ptr, x.ptr) })
				g(" ends in ", func(x, y *SliceV) *Term { return b.Le(end(x), end(y)) })
				g(" same start ", func(x, y *SliceV) *Term { return b.Eq(x.ptr, y.ptr) })
				g(" same end ", func(x, y *SliceV) *Term { return b.Eq(end(x), end(y)) })
				g(" not longer ", func(x, y *SliceV) *Term { return b.Le(x.len, y.len) })
				g(" not shorter ", func(x, y *SliceV) *Term { return b.Le(y.len, x.len) })
				g(" disjoint or same ", func(x, y *SliceV) *Term {
					return b.Or(b.Le(end(x), y.ptr), b.Le(end(y), x.ptr), b.And(b.Eq(x.ptr, y.ptr), b.Eq(x.len, y.len)))
				})
				g(" disjoint ", func(x, y *SliceV) *Term { return b.Or(b.Le(end(x), y.ptr), b.Le(end(y), x.ptr)) })
				g(" start tells ", func(x, y *SliceV) *Term { return b.Imp(b.Eq(x.ptr, y.ptr), b.Eq(x.len, y.len)) })
			}
		}
		if lv.hasComp("tok") {
			t0 := lv.pre.st.term("tok")
			tk := func(v *LView) *Term { return v.st.term("tok") }
			lv.add(f, "tok fixed", func(v *LView) *Term { return b.Eq(tk(v), t0) })
			for k := int64(0); k <= 2; k++ {
				k := k
				lv.add(f, fmt.Sprintf("tok>=%d", k), func(v *LView) *Term { return b.Le(b.Num(k), tk(v)) })
				lv.add(f, fmt.Sprintf("tok<=%d", k), func(v *LView) *Term { return b.Le(tk(v), b.Num(k)) })
			}
			lv.add(f, "tok>=tok0", func(v *LView) *Term { return b.Le(t0, tk(v)) })
			lv.add(f, "tok<=tok0", func(v *LView) *Term { return b.Le(tk(v), t0) })
		}
		for _, k := range []string{"last", "others", "nsent"} {
			if lv.hasComp(k) {
				k := k
				t0 := lv.pre.st.term(k)
				lv.add(f, k+" fixed", func(v *LView) *Term { return b.Eq(v.st.term(k), t0) })
			}
		}
		if lv.hasComp("last") && lv.hasComp("others") && lv.hasComp("tok") {
			lv.add(f, "others or last only without place", func(v *LView) *Term {
				return b.Imp(b.Or(v.st.term("others"), v.st.term("last")), b.Eq(v.st.term("tok"), b.Num(0)))
			})
		}
		if lv.hasComp("budget") {
			for i, p := range ps {
				for j, q := range ps {
					p, q := p, q
					if i != j && (p.chg || q.chg) {
						lv.add(f, p.name+"-"+q.name+"<=budget", func(v *LView) *Term { return b.Le(b.Sub(p.get(v), q.get(v)), v.st.term("budget")) })
					}
				}
			}
		}
		// predicate of Search at borders
		if f.pred {
			for _, p := range ps {
				p := p
				if !p.chg {
					continue
				}
				n := f.args["n"].(*Term)
				for c := int64(-1); c <= 0; c++ {
					c := c
					at := func(v *LView) *Term { return b.AddN(p.get(v), c) }
					lv.add(f, fmt.Sprintf("p(%s%+d)", p.name, c), func(v *LView) *Term {
						return b.Imp(b.And(b.Le(b.Num(0), at(v)), b.Lt(at(v), n)), b.App("p", SBool, at(v)))
					})
					lv.add(f, fmt.Sprintf("!p(%s%+d)", p.name, c), func(v *LView) *Term {
						return b.Imp(b.And(b.Le(b.Num(0), at(v)), b.Lt(at(v), n)), b.Not(b.App("p", SBool, at(v))))
					})
				}
			}
		}
	case 2:
		f.gen2(lv, ps, lsw)
	case 3:
		f.gen3(lv, ps, lsw)
	case 4:
		f.gen4(lv, ps)
	}
}

func (f *FV) usesA() bool {
	_, ok := f.entry.c["mem.A"]
	if !ok {
		_, ok = f.entry.c["own.A"]
	}
	return ok
}

// Win is a window of addresses as function of view
type Win struct {
	name string
	cls  string
	lo   func(*LView) *Term
	hi   func(*LView) *Term
	chg  bool
	full bool
}

func (f *FV) windows(lv *LoopV, ps []posGet, lsw bool, fixedToo bool) []Win {
	b := f.b
	var out []Win
	cp := func(p posGet, c int64) func(v *LView) *Term {
		return func(v *LView) *Term { return b.AddN(p.get(v), c) }
	}
	if lsw {
		for i, p := range ps {
			for j, q := range ps {
				if i == j || !p.chg && !q.chg && !fixedToo || p.nopos || q.nopos || p.isint == -2 || q.isint == -2 || !f.le(lv, p, q) {
					continue
				}
				for c := int64(0); c <= 1; c++ {
					for d := int64(0); d <= 1; d++ {
						if f.empty(lv, p, q, c, d) {
							continue
						}
						out = append(out, Win{fmt.Sprintf("[%s+%d,%s+%d)", p.name, c, q.name, d), "A", cp(p, c), cp(q, d), p.chg || q.chg, false})
					}
				}
			}
		}
		return out
	}
	for _, s := range lv.slices {
		s := s
		cls := s.get(lv.hd).cls
		pt := func(v *LView) *Term { return s.get(v).ptr }
		end := func(v *LView) *Term { return b.Add(s.get(v).ptr, s.get(v).len) }
		if s.changed || fixedToo {
			out = append(out, Win{s.name, cls, pt, end, s.changed, true})
		}
		for i, p := range ps {
			for j, q := range ps {
				p, q := p, q
				if i == j || !p.chg && !q.chg && !(fixedToo && (p.isint < 0 || q.isint < 0)) || p.isint == -2 || p.ent && q.ent {
					continue
				}
				if q.isint == -2 && q.name != "len("+s.name+")" || q.isint == -1 {
					continue
				}
				if !f.le(lv, p, q) {
					continue
				}
				for c := int64(0); c <= 1; c++ {
					for d := int64(0); d <= 1; d++ {
						if p.isint < 0 && c > 0 || q.isint < 0 && d > 0 || f.empty(lv, p, q, c, d) {
							continue
						}
						lo, hi := cp(p, c), cp(q, d)
						out = append(out, Win{fmt.Sprintf("%s[%s+%d:%s+%d]", s.name, p.name, c, q.name, d), cls,
							func(v *LView) *Term { return b.Add(pt(v), lo(v)) }, func(v *LView) *Term { return b.Add(pt(v), hi(v)) }, true, false})
					}
				}
			}
		}
	}
	return out
}

func (f *FV) gen2(lv *LoopV, ps []posGet, lsw bool) {
	b := f.b
	if lsw { // closed ranges of positions: the same or apart?
		var ws []Win
		for _, w := range f.windows(lv, ps, true, true) {
			if strings.Contains(w.name, "+0,") && strings.HasSuffix(w.name, "+1)") {
				ws = append(ws, w)
			}
		}
		for i, x := range ws {
			for _, y := range ws[i+1:] {
				x, y := x, y
				if !x.chg && !y.chg {
					continue
				}
				lv.rel[x.name+" "+y.name] = lv.add(f, x.name+" disjoint or same "+y.name, func(v *LView) *Term {
					return b.Or(b.Le(x.hi(v), y.lo(v)), b.Le(y.hi(v), x.lo(v)), b.And(b.Eq(x.lo(v), y.lo(v)), b.Eq(x.hi(v), y.hi(v))))
				})
			}
		}
	}
	// position of a descent
	for _, x := range lv.found {
		x := x
		down := func(name, cls string, ptr func(v *LView) *Term) {
			if f.memAt(lv.pre, cls) == nil {
				return
			}
			lv.add(f, "descent at "+name+x.name, func(v *LView) *Term {
				at := func(c int64) *Term {
					return f.elemKey(b.Sel(f.memAt(v, cls), b.Add(ptr(v), b.AddN(x.get(v), c))))
				}
				t := b.Lt(at(0), at(-1))
				if elemSort(cls) == "F" {
					raw := func(c int64) *Term { return b.Sel(f.memAt(v, cls), b.Add(ptr(v), b.AddN(x.get(v), c))) }
					t = b.Or(t, f.nan(raw(0)), f.nan(raw(-1)))
				}
				return t
			})
		}
		for _, s := range lv.slices {
			s := s
			down(s.name, s.get(lv.hd).cls, func(v *LView) *Term { return s.get(v).ptr })
		}
		if lsw {
			down("", "A", func(v *LView) *Term { return b.Num(0) })
		}
	}
	// an element kept in a variable
	for _, e := range lv.elems {
		e := e
		if lsw || e.get(lv.hd) == e.get(lv.pre) {
			continue
		}
		for _, s := range lv.slices {
			s := s
			cls := s.get(lv.hd).cls
			es, srt := e.get(lv.hd).sort, elemSort(cls)
			if m := f.memAt(lv.pre, cls); m == nil || !(es == srt || es == SInt && f.fam != nil && f.fam.byLen || es == "S" && srt == "L") {
				continue
			}
			for _, p := range ps {
				p := p
				if !p.chg {
					continue
				}
				for c := int64(-1); c <= 1; c++ {
					c := c
					lv.add(f, fmt.Sprintf("%s=%s[%s%+d]", e.name, s.name, p.name, c), func(v *LView) *Term {
						x := b.Sel(f.memAt(v, cls), b.Add(s.get(v).ptr, b.AddN(p.get(v), c)))
						if y := e.get(v); x.sort == y.sort {
							return b.Eq(x, y)
						}
						x, y := f.elemKey(x), f.elemKey(e.get(v))
						return b.And(b.Le(x, y), b.Le(y, x))
					})
				}
			}
		}
	}
	a := b.Bnd("a", SInt)
	// ownership
	for _, k := range lv.comps {
		if !strings.HasPrefix(k, "own.") && !strings.HasPrefix(k, "rd.") {
			continue
		}
		k := k
		cls := k[strings.IndexByte(k, '.')+1:]
		own := func(v *LView, w Win) *Term {
			o := b.Sel(v.st.term(k), a)
			return b.All([]*Term{a}, b.Imp(b.And(b.Le(w.lo(v), a), b.Lt(a, w.hi(v))), o), []*Term{o})
		}
		for _, w := range f.windows(lv, ps, lsw, true) {
			w := w
			if w.cls == cls {
				lv.add(f, k+" "+w.name, func(v *LView) *Term { return own(v, w) })
			}
		}
		o0 := lv.pre.st.term(k)
		if o0 == nil {
			o0 = f.entry.c[k].(*Term)
		}
		lv.add(f, k+" kept", func(v *LView) *Term {
			o := b.Sel(v.st.term(k), a)
			return b.All([]*Term{a}, b.Imp(b.Sel(o0, a), o), []*Term{o})
		})
		for i, v := range f.argv {
			if ps, ok := v.(*PSync); ok {
				lv.add(f, k+" kept if nil "+f.fn.Params[i].Name(), func(v *LView) *Term {
					o := b.Sel(v.st.term(k), a)
					return b.All([]*Term{a}, b.Imp(b.And(ps.null, b.Sel(o0, a)), o), []*Term{o})
				})
			}
		}
		for _, w := range f.windows(lv, ps, lsw, true) {
			w := w
			if w.cls == cls && (w.full || lsw) && !w.chg {
				lv.add(f, k+" kept outside of "+w.name, func(v *LView) *Term {
					o := b.Sel(v.st.term(k), a)
					return b.All([]*Term{a}, b.Imp(b.And(b.Sel(o0, a), b.Not(b.And(b.Le(w.lo(v), a), b.Lt(a, w.hi(v))))), o), []*Term{o})
				})
			}
		}
		lv.add(f, k+" not more", func(v *LView) *Term {
			o := b.Sel(v.st.term(k), a)
			return b.All([]*Term{a}, b.Imp(o, b.Sel(o0, a)), []*Term{o})
		})
	}
	for _, k := range lv.comps {
		if strings.HasPrefix(k, "mem.") {
			k := k
			m0 := f.memAt(lv.pre, k[4:])
			lv.add(f, k+" fixed", func(v *LView) *Term { return b.Eq(f.memAt(v, k[4:]), m0) })
		}
	}
}

// gen4: ghost count of an element within what may be modified
func (f *FV) gen4(lv *LoopV, ps []posGet) {
	b := f.b
	if lv.hasComp("cnt") {
		c0 := lv.pre.st.term("cnt")
		cn := func(v *LView) *Term { return v.st.term("cnt") }
		lv.add(f, "cnt fixed", func(v *LView) *Term { return b.Eq(cn(v), c0) })
		cls := f.cntCls()
		x := f.xhat(cls)
		ind := func(t *Term) *Term { return b.Ite(b.Eq(t, x), b.Num(1), b.Num(0)) }
		for _, s := range lv.slices {
			s := s
			if s.get(lv.hd).cls != cls {
				continue
			}
			for _, p := range ps {
				p := p
				if !p.chg {
					continue
				}
				for c := int64(-1); c <= 1; c++ {
					c := c
					for _, e := range lv.elems {
						e := e
						if e.get(lv.hd).sort != elemSort(cls) {
							continue
						}
						lv.add(f, fmt.Sprintf("cnt with hole %s[%s%+d]=%s", s.name, p.name, c, e.name), func(v *LView) *Term {
							cell := b.Sel(f.memAt(v, cls), b.Add(s.get(v).ptr, b.AddN(p.get(v), c)))
							return b.Eq(b.Add(cn(v), b.Sub(ind(e.get(v)), ind(cell))), c0)
						})
					}
				}
			}
		}
	}
}

// elemKey is what order of elements is about; t may be the key already
func (f *FV) elemKey(t *Term) *Term {
	if t.sort == "F" || t.sort == "S" || t.sort == "L" {
		return f.famKey(f.fam, t)
	}
	return t
}

func (f *FV) gen3(lv *LoopV, ps []posGet, lsw bool) {
	b := f.b
	a, a2 := b.Bnd("a", SInt), b.Bnd("b", SInt)
	wins := f.windows(lv, ps, lsw, true)
	memChanged := map[string]bool{}
	for _, k := range lv.comps {
		if strings.HasPrefix(k, "mem.") {
			memChanged[k[4:]] = true
			for _, c := range f.cands {
				if f.hints == nil && c.lv == lv && c.alive && c.name == k+" fixed" {
					delete(memChanged, k[4:])
				}
			}
		}
	}
	forall := func(v *LView, m *Term, w Win, g func(x *Term) *Term) *Term {
		el := b.Sel(m, a)
		return b.All([]*Term{a}, b.Imp(b.And(b.Le(w.lo(v), a), b.Lt(a, w.hi(v))), g(el)), []*Term{el})
	}
	key := f.elemKey
	// elements windows are compared with
	elems := map[string][]eGet{}
	clss := map[string]bool{}
	for _, w := range wins {
		clss[w.cls] = true
	}
	for cls := range clss {
		srt := elemSort(cls)
		for _, e := range lv.elems {
			es := e.get(lv.hd).sort
			if es == srt || es == SInt && f.fam != nil && f.fam.byLen || es == "S" && srt == "L" {
				if !lsw {
					elems[cls] = append(elems[cls], e)
				}
			}
		}
		if lsw {
			for _, p := range ps {
				p := p
				if lv.direct && p.isint >= 0 && !p.ent && !p.nopos && !p.nocmp {
					elems[cls] = append(elems[cls], eGet{"A[" + p.name + "]", func(v *LView) *Term { return b.Sel(f.memAt(v, "A"), p.get(v)) }, p.get})
				}
			}
		} else if memChanged[cls] {
			for _, s := range lv.slices {
				s := s
				if s.get(lv.hd).cls != cls {
					continue
				}
				for _, p := range ps {
					p := p
					if p.chg {
						elems[cls] = append(elems[cls], eGet{s.name + "[" + p.name + "]", func(v *LView) *Term { return b.Sel(f.memAt(v, cls), b.Add(s.get(v).ptr, p.get(v))) }, nil})
					}
				}
			}
		}
	}
	for _, w := range wins {
		w := w
		if !w.chg && !memChanged[w.cls] {
			continue
		}
		m0 := f.memAt(lv.pre, w.cls)
		if m0 == nil {
			continue
		}
		mem := func(v *LView) *Term { return f.memAt(v, w.cls) }
		if w.full && !w.chg && elemSort(w.cls) != "F" {
			continue
		}
		if (w.chg || lsw) && !(f.con != nil && f.con.light) {
			for _, e := range elems[w.cls] {
				e := e
				lv.add(f, w.name+"<="+e.name, func(v *LView) *Term {
					return forall(v, mem(v), w, func(x *Term) *Term { return b.Le(key(x), key(e.get(v))) })
				})
				lv.add(f, w.name+">="+e.name, func(v *LView) *Term {
					return forall(v, mem(v), w, func(x *Term) *Term { return b.Le(key(e.get(v)), key(x)) })
				})
				if !lsw {
					lv.add(f, w.name+"<"+e.name, func(v *LView) *Term {
						return forall(v, mem(v), w, func(x *Term) *Term { return b.Lt(key(x), key(e.get(v))) })
					})
					lv.add(f, w.name+">"+e.name, func(v *LView) *Term {
						return forall(v, mem(v), w, func(x *Term) *Term { return b.Lt(key(e.get(v)), key(x)) })
					})
				}
			}
		}
		if !(f.con != nil && f.con.light) && elemSort(w.cls) == "F" && (f.con == nil || !f.con.nonan) {
			lv.add(f, w.name+" all NaN", func(v *LView) *Term {
				return forall(v, mem(v), w, func(x *Term) *Term { return f.nan(x) })
			})
			lv.add(f, w.name+" no NaN", func(v *LView) *Term {
				return forall(v, mem(v), w, func(x *Term) *Term { return b.Not(f.nan(x)) })
			})
			lv.add(f, w.name+" no NaN adjacent", func(v *LView) *Term {
				el, e2 := b.Sel(mem(v), a), b.Sel(mem(v), b.AddN(a, 1))
				return b.All([]*Term{a}, b.Imp(b.And(b.Le(w.lo(v), a), b.Lt(b.AddN(a, 1), w.hi(v))),
					b.And(b.Not(f.nan(el)), b.Not(f.nan(e2)), b.Le(key(el), key(e2)))), []*Term{el})
			})
		}
		// unchanged part
		if memChanged[w.cls] {
			lv.add(f, w.name+" unchanged", func(v *LView) *Term {
				el := b.Sel(mem(v), a)
				return b.All([]*Term{a}, b.Imp(b.And(b.Le(w.lo(v), a), b.Lt(a, w.hi(v))), b.Eq(el, b.Sel(m0, a))), []*Term{el})
			})
			lv.add(f, "outside of "+w.name+" unchanged", func(v *LView) *Term {
				el := b.Sel(mem(v), a)
				return b.All([]*Term{a}, b.Or(b.And(b.Le(w.lo(v), a), b.Lt(a, w.hi(v))), b.Eq(el, b.Sel(m0, a))), []*Term{el})
			})
		}
		if w.full && !w.chg || (f.con != nil && f.con.light) {
			continue
		}
		// sorted windows
		srt := func(v *LView, holes ...*Term) *Term {
			x, y := b.Sel(mem(v), a), b.Sel(mem(v), a2)
			c := []*Term{b.Le(w.lo(v), a), b.Lt(a, a2), b.Lt(a2, w.hi(v))}
			for _, h := range holes {
				c = append(c, b.Ne(a, h), b.Ne(a2, h))
			}
			return b.All([]*Term{a, a2}, b.Imp(b.And(c...), b.Le(key(x), key(y))), []*Term{x, y})
		}
		lv.add(f, "sorted "+w.name, func(v *LView) *Term { return srt(v) })
		if memChanged[w.cls] {
			base := func(*LView) *Term { return b.Num(0) }
			bases := []func(*LView) *Term{base}
			if !lsw {
				bases = nil
				for _, s := range lv.slices {
					s := s
					if s.get(lv.hd).cls == w.cls && !s.changed {
						bases = append(bases, func(v *LView) *Term { return s.get(v).ptr })
					}
				}
			}
			for _, bs := range bases {
				bs := bs
				for _, p := range ps {
					p := p
					if !p.chg || lsw {
						continue
					}
					for c := int64(-1); c <= 1; c++ {
						c := c
						lv.add(f, fmt.Sprintf("sorted %s but %s%+d", w.name, p.name, c), func(v *LView) *Term {
							return srt(v, b.Add(bs(v), b.AddN(p.get(v), c)))
						})
					}
				}
			}
			// swap based insertion: all pairs sorted but those ending with element p
			for _, bs := range bases {
				bs := bs
				for _, p := range ps {
					p := p
					if !p.chg || p.nopos || lsw && !lv.direct {
						continue
					}
					for side := 0; side < 2; side++ {
						side := side
						lv.add(f, fmt.Sprintf("sorted %s but pairs with %s as %d", w.name, p.name, side), func(v *LView) *Term {
							h := b.Add(bs(v), p.get(v))
							x, y := b.Sel(mem(v), a), b.Sel(mem(v), a2)
							c := []*Term{b.Le(w.lo(v), a), b.Lt(a, a2), b.Lt(a2, w.hi(v)), b.Ne([]*Term{a, a2}[side], h)}
							return b.All([]*Term{a, a2}, b.Imp(b.And(c...), b.Le(key(x), key(y))), []*Term{x, y})
						})
					}
				}
			}
		}
	}
	if f.con != nil && f.con.light {
		return
	}
	// everything in order except within given windows
	var xw []Win
	for _, w := range wins {
		if lsw {
			if strings.Contains(w.name, "+0,") && strings.HasSuffix(w.name, "+1)") {
				xw = append(xw, w)
			}
		} else if w.full {
			xw = append(xw, w)
		}
	}
	if verbose && lsw {
		var ns []string
		for _, w := range xw {
			ns = append(ns, w.name)
		}
		logf("loop %d: %d windows, for order: %v", lv.id, len(wins), ns)
	}
	if len(xw) > 10 && !lsw {
		xw = xw[:10]
	}
	type fixw struct {
		name   string
		lo, hi *Term
	}
	var base []fixw
	for _, w := range f.mods {
		base = append(base, fixw{"all", w.lo, w.hi})
		if !memChanged[w.cls] {
			base = nil
		}
		break
	}
	if len(base) > 0 && !lsw {
		for _, s := range lv.slices {
			e := s.get(lv.pre)
			if e.cls == f.mods[0].cls && strings.HasSuffix(s.name, "@0") {
				base = append(base, fixw{s.name, e.ptr, b.Add(e.ptr, e.len)})
			}
		}
	}
	for _, bw := range base {
		bw := bw
		cls := f.mods[0].cls
		mk := func(ws ...Win) {
			nm := "ordered " + bw.name + " but"
			for _, w := range ws {
				if w.cls != cls {
					return
				}
				nm += " " + w.name
			}
			lv.add(f, nm, func(v *LView) *Term {
				m := f.memAt(v, cls)
				x, y := b.Sel(m, a), b.Sel(m, a2)
				c := []*Term{b.Le(bw.lo, a), b.Lt(a, a2), b.Lt(a2, bw.hi)}
				for _, w := range ws {
					c = append(c, b.Not(b.And(b.Le(w.lo(v), a), b.Lt(a2, w.hi(v)))))
				}
				return b.All([]*Term{a, a2}, b.Imp(b.And(c...), b.Le(key(x), key(y))), []*Term{x, y})
			})
		}
		mk()
		for i, w := range xw {
			mk(w)
			for _, w2 := range xw[i+1:] {
				if c, ok := lv.rel[w.name+" "+w2.name]; lsw && f.hints == nil && ok && (c == nil || !c.alive) {
					continue
				}
				mk(w, w2)
			}
		}
	}
	// implications
	if lsw {
		return
	}
	for i, p := range ps {
		if !p.chg {
			continue
		}
		p := p
		p0 := p.get(lv.pre)
		for j, q := range ps {
			if i == j || !q.chg {
				continue
			}
			q := q
			q0 := q.get(lv.pre)
			lv.add(f, p.name+" at start => "+q.name+" too", func(v *LView) *Term {
				return b.Imp(b.Eq(p.get(v), p0), b.Eq(q.get(v), q0))
			})
			for c := int64(-1); c <= 1; c++ {
				c := c
				eq := func(v *LView) *Term { return b.Eq(p.get(v), b.AddN(q.get(v), c)) }
				nm := fmt.Sprintf("%s==%s%+d => ", p.name, q.name, c)
				if i < j {
					lv.add(f, nm+"at start too", func(v *LView) *Term { return b.Imp(eq(v), b.Eq(p0, b.AddN(q0, c))) })
					for cls := range memChanged {
						cls := cls
						m0 := f.memAt(lv.pre, cls)
						lv.add(f, nm+"memory unchanged", func(v *LView) *Term { return b.Imp(eq(v), b.Eq(f.memAt(v, cls), m0)) })
					}
					for _, s := range lv.slices {
						s := s
						cls := s.get(lv.hd).cls
						m0 := f.memAt(lv.pre, cls)
						if s.changed || !memChanged[cls] || m0 == nil {
							continue
						}
						for _, r := range []posGet{p, q} {
							r := r
							r0 := r.get(lv.pre)
							for dir := 0; dir < 2; dir++ {
								w := Win{lo: func(v *LView) *Term { return b.Add(s.get(v).ptr, b.AddN(r.get(v), 1)) }, hi: func(v *LView) *Term { return b.Add(s.get(v).ptr, b.AddN(r0, 1)) }}
								if dir == 1 {
									w = Win{lo: func(v *LView) *Term { return b.Add(s.get(v).ptr, r0) }, hi: func(v *LView) *Term { return b.Add(s.get(v).ptr, r.get(v)) }}
								}
								for _, e := range lv.elems {
									e := e
									if es, srt := e.get(lv.hd).sort, elemSort(cls); !(es == srt || es == SInt && f.fam != nil && f.fam.byLen || es == "S" && srt == "L") {
										continue
									}
									lv.add(f, fmt.Sprintf("%s passed %s dir %d < %s", nm, r.name, dir, e.name), func(v *LView) *Term {
										return b.Imp(eq(v), forall(v, m0, w, func(x *Term) *Term { return b.Lt(key(x), key(e.get(v))) }))
									})
									lv.add(f, fmt.Sprintf("%s passed %s dir %d > %s", nm, r.name, dir, e.name), func(v *LView) *Term {
										return b.Imp(eq(v), forall(v, m0, w, func(x *Term) *Term { return b.Lt(key(e.get(v)), key(x)) }))
									})
								}
							}
						}
					}
				}
			}
		}
		for cls := range memChanged {
			cls := cls
			m0 := f.memAt(lv.pre, cls)
			if m0 != nil {
				lv.add(f, p.name+" at start => memory unchanged", func(v *LView) *Term {
					return b.Imp(b.Eq(p.get(v), p0), b.Eq(f.memAt(v, cls), m0))
				})
			}
		}
	}
}

// measures that may decrease in each round
func (f *FV) measures(lv *LoopV) []*Measure {
	b := f.b
	var ms []*Measure
	add := func(name string, g func(v *LView) *Term) {
		h := g(lv.hd)
		m := &Measure{name: name}
		for _, bv := range lv.backs {
			t := g(bv)
			goal := b.And(b.Le(b.Num(0), h), b.Lt(t, h))
			if goal.isFalse() {
				return
			}
			if !goal.isTrue() {
				m.obls = append(m.obls, &Obl{node: bv.node, nf: bv.nf, goal: goal, class: "term", name: "measure " + name})
			}
		}
		ms = append(ms, m)
	}
	ps := f.posList(lv)
	for i, p := range ps {
		for j, q := range ps {
			p, q := p, q
			if i == j || !p.chg && !q.chg {
				continue
			}
			for _, k := range []int64{0, 2} {
				k := k
				add(fmt.Sprintf("%s-%s+%d", p.name, q.name, k), func(v *LView) *Term { return b.AddN(b.Sub(p.get(v), q.get(v)), k) })
			}
		}
		p := p
		if p.chg {
			for _, k := range []int64{0, 2} {
				k := k
				add(fmt.Sprintf("%s+%d", p.name, k), func(v *LView) *Term { return b.AddN(p.get(v), k) })
			}
		}
	}
	for i, s := range lv.slices {
		s := s
		if s.changed {
			add("len("+s.name+")", func(v *LView) *Term { return s.get(v).len })
			for j, w := range lv.slices {
				w := w
				if i != j && w.get(lv.hd).cls == s.get(lv.hd).cls {
					add(s.name+" differs "+w.name, func(v *LView) *Term { return b.Ite(b.Eq(s.get(v).ptr, w.get(v).ptr), b.Num(0), b.Num(1)) })
				}
			}
		}
	}
	for i, p := range ps {
		for j, q := range ps {
			p, q := p, q
			if i < j && (p.chg || q.chg) {
				add(p.name+" differs "+q.name, func(v *LView) *Term { return b.Ite(b.Eq(p.get(v), q.get(v)), b.Num(0), b.Num(1)) })
			}
		}
	}
	return ms
}

var _ = big.NewInt

// positions: values of a function that flow into index arguments of a Lesswap,
// directly or by way of another function; nil if there is none
func (f *FV) positions(fn *ssa.Function) (pos, cmps map[ssa.Value]bool) {
	isLsw := func(t types.Type) bool {
		sg, ok := t.Underlying().(*types.Signature)
		return ok && sg.Params().Len() == 4 && sg.Results().Len() == 1
	}
	pos, cmps = map[ssa.Value]bool{}, map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if bt, ok := v.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsInteger == 0 || pos[v] {
			return
		}
		pos[v] = true
		switch x := v.(type) {
		case *ssa.Phi:
			for _, e := range x.Edges {
				walk(e)
			}
		case *ssa.BinOp:
			_, xc := x.X.(*ssa.Const)
			_, yc := x.Y.(*ssa.Const)
			if x.Op == token.ADD || x.Op == token.SUB {
				if yc {
					walk(x.X)
				} else if xc && x.Op == token.ADD {
					walk(x.Y)
				}
			}
		case *ssa.Convert:
			walk(x.X)
		}
	}
	var phis func(v ssa.Value)
	phis = func(v ssa.Value) {
		if cmps[v] {
			return
		}
		cmps[v] = true
		if x, ok := v.(*ssa.Phi); ok {
			for _, e := range x.Edges {
				phis(e)
			}
		}
	}
	sink := func(c *ssa.CallCommon) {
		use := c.StaticCallee() == nil && isLsw(c.Value.Type())
		for _, a := range c.Args {
			use = use || isLsw(a.Type())
		}
		if use {
			for k, a := range c.Args {
				walk(a)
				if sc := c.StaticCallee(); sc == nil && k < 2 || sc != nil && f.sp.contract(sc) == nil {
					phis(a)
				}
			}
		}
	}
	for _, blk := range fn.Blocks {
		for _, in := range blk.Instrs {
			switch x := in.(type) {
			case *ssa.Call:
				sink(&x.Call)
			case *ssa.Go:
				sink(&x.Call)
			case *ssa.Defer:
				sink(&x.Call)
			}
		}
	}
	if len(pos) == 0 {
		return nil, nil
	}
	// moves forward too: phis and ±constant of positions
	for again := true; again; {
		again = false
		for v := range pos {
			refs := v.Referrers()
			if refs == nil {
				continue
			}
			for _, r := range *refs {
				switch x := r.(type) {
				case *ssa.Phi:
					if !pos[x] {
						pos[x], again = true, true
					}
				case *ssa.BinOp:
					_, yc := x.Y.(*ssa.Const)
					if (x.Op == token.ADD || x.Op == token.SUB) && yc && !pos[x] {
						pos[x], again = true, true
					}
				}
			}
		}
	}
	if len(cmps) == 0 {
		cmps = nil
	}
	return pos, cmps
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// call executes a call instruction; nil state means it does not return
func (f *FV) call(s *State, c *ssa.CallCommon, pos token.Pos) (Val, *State) {
	if bi, ok := c.Value.(*ssa.Builtin); ok {
		return f.builtin(s, bi.Name(), c, pos), s
	}
	var args []Val
	for _, a := range c.Args {
		args = append(args, f.val(s, a))
	}
	if c.IsInvoke() {
		return f.invoke(s, f.val(s, c.Value), c.Method.Name(), args, pos), s
	}
	fv, ok := f.val(s, c.Value).(*FuncV)
	if !ok {
		if _, isNil := f.val(s, c.Value).(PNil); isNil {
			f.oblige(s, "panic", "call of nil function", pos, f.b.False())
		}
		unsup("call of %T", f.val(s, c.Value))
	}
	return f.callFn(s, fv, args, pos)
}

func (f *FV) callFn(s *State, fv *FuncV, args []Val, pos token.Pos) (Val, *State) {
	b := f.b
	if fv.lsw != "" {
		return f.lesswap(s, args, pos), s
	}
	if fv.pred {
		t := args[0].(*Term)
		f.oblige(s, "idx", "fn called outside of [0,n)", pos, f.predRange(t))
		f.bump(s, pos)
		return b.App("p", SBool, t), s
	}
	fn := fv.fn
	if con := f.sp.contract(fn); con != nil && !(len(f.stack) == 0 && false) {
		return f.callContract(s, con, fn, args, fv.bind, pos)
	}
	if v, ok := f.library(s, fn, args, pos); ok {
		return v, s
	}
	if m, ok := f.floorMean(fn, args); ok {
		return m, s
	}
	return f.inline(fn, args, fv.bind, s)
}

// bump counts calls of the user's function (ghost): each call halves what is left of
// the budget, which may not be 0
func (f *FV) bump(s *State, pos token.Pos) {
	if f.con != nil && f.con.invokes != nil {
		ev := &Eval{f: f, st: f.entry, old: f.entry, names: f.args, fam: f.fam}
		f.oblige(s, "calls", "call of user's function when none is due", pos, ev.boolean(f.con.invokes.ex))
	}
	if n := s.term("budget"); n != nil {
		f.oblige(s, "calls", "number of calls is logarithmic", pos, f.b.Le(f.b.Num(1), n))
		s.c["budget"] = f.b.DivC(n, two)
	}
}

func (f *FV) predRange(t *Term) *Term {
	n, ok := f.args["n"].(*Term)
	if !ok {
		unsup("range of predicate unknown")
	}
	return f.b.And(f.b.Le(f.b.Num(0), t), f.b.Lt(t, n))
}

// lesswap: contract of a valid user supplied Lesswap over the ghost collection A
func (f *FV) lesswap(s *State, args []Val, pos token.Pos) *Term {
	b := f.b
	i, k, r, t := args[0].(*Term), args[1].(*Term), args[2].(*Term), args[3].(*Term)
	A := f.mem(s, "A")
	f.nlsw++
	own, rd := f.own(s, "own", "A"), f.own(s, "rd", "A")
	rd0, own0 := f.entry.c["rd.A"].(*Term), f.entry.c["own.A"].(*Term)
	known := func(x *Term) *Term { return b.Or(b.Sel(rd0, x), b.Sel(own0, x)) }
	res := b.Fresh("less", SBool)
	f.assume(s, b.Eq(res, b.Lt(b.Sel(A, i), b.Sel(A, k))))
	swap := b.And(res, b.Ne(r, t))
	f.oblige(s, "idx", "Lesswap called with index out of range", pos,
		b.And(known(i), known(k), known(r), known(t)))
	f.oblige(s, "own", "Lesswap reads an element another goroutine may write", pos, b.And(b.Or(b.Sel(rd, i), b.Sel(own, i)), b.Or(b.Sel(rd, k), b.Sel(own, k))))
	f.oblige(s, "own", "Lesswap swaps an element another goroutine may use", pos, b.Imp(swap, b.And(b.Sel(own, r), b.Sel(own, t))))
	f.oblige(s, "frame", "Lesswap swaps outside of what may be modified", pos, b.Imp(swap, b.And(f.inMods("A", r), f.inMods("A", t))))
	if f.foots != nil {
		f.touch(s, Window{cls: "A", lo: i, hi: b.AddN(i, 1)}, false)
		f.touch(s, Window{cls: "A", lo: k, hi: b.AddN(k, 1)}, false)
		if !b.Eq(r, t).isTrue() {
			f.touch(s, Window{cls: "A", lo: r, hi: b.AddN(r, 1)}, true)
			f.touch(s, Window{cls: "A", lo: t, hi: b.AddN(t, 1)}, true)
		}
	}
	f.bump(s, pos)
	if b.Eq(r, t).isTrue() {
		return res
	}
	n := b.Fresh("m", A.sort)
	sw := b.Sto(b.Sto(A, r, b.Sel(A, t)), t, b.Sel(A, r))
	f.assume(s, b.Imp(swap, b.Eq(n, sw)))
	f.assume(s, b.Imp(b.Not(swap), b.Eq(n, A)))
	s.c["mem.A"] = n
	return res
}

// copy elements; the ranges may overlap
func (f *FV) copy(s *State, d, sr *SliceV, pos token.Pos) Val {
	b := f.b
	cls := d.cls
	n := sr.len
	if d.len != n {
		n = f.name(s, "n", b.Ite(b.Le(d.len, n), d.len, n))
	}
	a := b.Bnd("a", SInt)
	in := func(p *Term) *Term { return b.And(b.Le(p, a), b.Lt(a, b.Add(p, n))) }
	own := f.own(s, "own", cls)
	all := func(p, t *Term) *Term {
		return b.All([]*Term{a}, b.Imp(in(p), t), []*Term{b.Sel(own, a)})
	}
	f.oblige(s, "own", "copy reads elements not owned", pos, all(sr.ptr, b.Sel(own, a)))
	f.oblige(s, "own", "copy writes elements not owned", pos, all(d.ptr, b.Sel(own, a)))
	f.oblige(s, "frame", "copy writes outside of what may be modified", pos, all(d.ptr, f.modOK1(cls, a)))
	f.touch(s, Window{cls: cls, lo: sr.ptr, hi: b.Add(sr.ptr, n)}, false)
	f.touch(s, Window{cls: cls, lo: d.ptr, hi: b.Add(d.ptr, n)}, true)
	m := f.mem(s, cls)
	f.otherPerm(s, cls, pos)
	if cnt := s.term("cnt"); cnt != nil && cls == f.cntCls() {
		x := f.xhat(cls)
		is := func(p *Term) *Term { return b.Ite(b.Eq(b.Sel(m, p), x), b.Num(1), b.Num(0)) }
		// moving by one doubles an element and loses another
		lost, dbl := d.ptr, b.AddN(b.Add(sr.ptr, n), -1)
		k, ok := b.Sub(d.ptr, sr.ptr).int64()
		if k == 1 {
			lost, dbl = b.Add(sr.ptr, n), sr.ptr
		}
		r := b.Fresh("cnt", SInt)
		f.assume(s, b.Imp(b.Or(b.Eq(n, b.Num(0)), b.Eq(d.ptr, sr.ptr), b.Le(f.top0, d.ptr)), b.Eq(r, cnt)))
		if ok && (k == 1 || k == -1) {
			f.assume(s, b.Imp(b.And(b.Lt(b.Num(0), n), f.inMods(cls, lost), f.inMods(cls, dbl)), b.Eq(r, b.Add(cnt, b.Sub(is(dbl), is(lost))))))
		}
		s.c["cnt"] = r
	}
	m1 := b.Fresh("m", m.sort)
	f.assume(s, b.All([]*Term{a}, b.Eq(b.Sel(m1, a), b.Ite(in(d.ptr), b.Sel(m, b.Add(b.Sub(a, d.ptr), sr.ptr)), b.Sel(m, a))), []*Term{b.Sel(m1, a)}))
	s.c["mem."+cls] = m1
	return n
}

func (f *FV) builtin(s *State, name string, c *ssa.CallCommon, pos token.Pos) Val {
	b := f.b
	var args []Val
	for _, a := range c.Args {
		args = append(args, f.val(s, a))
	}
	switch name {
	case "len", "cap":
		switch x := args[0].(type) {
		case *SliceV:
			if name == "len" {
				return x.len
			}
			return x.cap
		case *Term:
			if name == "len" {
				return f.lenOf(s, x)
			}
		case *StrV:
			return b.Num(int64(len(x.s)))
		case *PArr:
			return b.Num(x.n)
		}
	case "min", "max":
		r := args[0].(*Term)
		for _, a := range args[1:] {
			t := a.(*Term)
			if t.sort != SInt {
				unsup("min/max of non-integers")
			}
			cnd := b.Le(r, t)
			if name == "max" {
				cnd = b.Le(t, r)
			}
			r = b.Ite(cnd, r, t)
		}
		return f.name(s, name, r)
	case "ssa:wrapnilchk":
		return args[0]
	case "panic":
	case "append":
		f.oblige(s, "alloc", "append may allocate", pos, b.False())
	case "copy":
		d, ok := args[0].(*SliceV)
		sr, ok2 := args[1].(*SliceV)
		if ok && ok2 && d.cls == sr.cls && d.cls != "A" {
			return f.copy(s, d, sr, pos)
		}
	}
	unsup("builtin %s", name)
	return nil
}

// library models of standard functions, all trusted
func (f *FV) library(s *State, fn *ssa.Function, args []Val, pos token.Pos) (Val, bool) {
	b := f.b
	if fn.Pkg == nil && fn.Origin() == nil {
		return nil, false
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	use := func(v Val) (Val, bool) {
		f.trust[name] = true
		return v, true
	}
	cmp3 := func(x, y *Term) *Term {
		r := b.Fresh("cmp", SInt)
		f.assume(s, b.Eq(r, b.Ite(b.Lt(x, y), b.Num(-1), b.Ite(b.Eq(x, y), b.Num(0), b.Num(1)))))
		f.rng[r] = [2]*big.Int{big.NewInt(-1), big1}
		return r
	}
	el := func(i int) *Term {
		switch v := args[i].(type) {
		case *Term:
			return v
		case *StrV:
			return f.strTerm(v)
		}
		unsup("argument of %s", name)
		return nil
	}
	switch name {
	case "strings.Compare", "bytes.Compare", "github.com/jfcg/sixb.CmpS", "github.com/jfcg/sixb.CmpB":
		return use(cmp3(f.vkey(el(0)), f.vkey(el(1))))
	case "cmp.Compare", "cmp.Less":
		if el(0).sort == "F" {
			return nil, false
		}
		if name == "cmp.Less" {
			return use(b.Lt(f.vkey(el(0)), f.vkey(el(1))))
		}
		return use(cmp3(f.vkey(el(0)), f.vkey(el(1))))
	case "math.IsNaN":
		return use(f.nan(el(0)))
	case "sync/atomic.AddUint64":
		return use(f.atomicAdd(s, args[0], el(1), pos))
	case "sync/atomic.LoadUint64":
		f.counter(s, args[0], pos)
		r := b.Fresh("ld", SInt)
		f.bound(s, r, big0, new(big.Int).Sub(two64, big1))
		f.assume(s, b.Le(s.term("tok"), r))
		return use(r)
	case "sync/atomic.CompareAndSwapUint64":
		return use(f.atomicCAS(s, args[0], el(1), el(2), pos))
	case "reflect.TypeOf":
		if i, ok := args[0].(*IfaceV); ok {
			return use(&ReflectV{"type", i, 0, nil})
		}
	case "reflect.ValueOf":
		if i, ok := args[0].(*IfaceV); ok {
			return use(&ReflectV{"value", i, 0, nil})
		}
	case "(reflect.Value).Pointer", "(reflect.Value).UnsafePointer":
		if r, ok := args[0].(*ReflectV); ok && r.what == "value" {
			f.mayPanic(s, "reflect Pointer of non-slice", pos, b.Eq(f.kindT(0), b.Num(23)))
			p := &ReflectV{"data", r.of, 0, nil}
			if strings.HasSuffix(name, "Unsafe") {
				return use(&UPtr{p})
			}
			if strings.HasSuffix(name, "UnsafePointer") {
				return use(&UPtr{p})
			}
			return use(p)
		}
	case "(reflect.Value).Len", "(reflect.Value).Cap":
		if r, ok := args[0].(*ReflectV); ok && r.what == "value" {
			f.mayPanic(s, "reflect Len of non-slice", pos, b.Eq(f.kindT(0), b.Num(23)))
			l := b.Var("rlen", SInt)
			if strings.HasSuffix(name, "Cap") {
				c := b.Var("rcap", SInt)
				f.bound(s, c, big0, f.maxLen())
				f.assume(s, b.Le(l, c))
				return use(c)
			}
			return use(l)
		}
	case "(reflect.Value).Kind":
		if r, ok := args[0].(*ReflectV); ok && r.what == "value" {
			// invalid Value (of nil) has kind 0
			return use(b.Ite(r.of.null, b.Num(0), f.kindT(0)))
		}
	case "(reflect.Value).Type":
		if r, ok := args[0].(*ReflectV); ok && r.what == "value" {
			f.mayPanic(s, "Type of invalid reflect.Value", pos, b.Not(r.of.null))
			return use(&ReflectV{"type", r.of, 0, nil})
		}
	}
	return nil, false
}

func (f *FV) mayPanic(s *State, what string, pos token.Pos, ok *Term) {
	if f.con != nil && f.con.panics != nil {
		ev := &Eval{f: f, st: s, old: f.entry, names: f.args, fam: f.fam}
		f.oblige(s, "accept", what+" for a supported argument", pos, f.b.Or(ok, ev.boolean(f.con.panics)))
		f.assume(s, ok)
		return
	}
	f.oblige(s, "panic", what, pos, ok)
}

// kindT: reflect.Kind of argument type (0), its element type (1) and their element (2)
func (f *FV) kindT(lvl int) *Term {
	t := f.b.Var(fmt.Sprintf("K%d", lvl), SInt)
	f.rng[t] = [2]*big.Int{big0, big.NewInt(26)}
	return t
}

func (f *FV) invoke(s *State, recv Val, m string, args []Val, pos token.Pos) Val {
	b := f.b
	r, ok := recv.(*ReflectV)
	if !ok || r.what != "type" {
		unsup("method call on interface")
	}
	f.trust["reflect.Type."+m] = true
	if r.lvl == 0 {
		f.mayPanic(s, "method of nil reflect.Type", pos, b.Not(r.of.null))
	}
	switch m {
	case "Kind":
		return f.kindT(r.lvl)
	case "Elem":
		k := f.kindT(r.lvl)
		f.mayPanic(s, "reflect Elem of wrong kind", pos, b.Or(b.Eq(k, b.Num(23)), b.Eq(k, b.Num(17)), b.Eq(k, b.Num(18)), b.Eq(k, b.Num(21)), b.Eq(k, b.Num(22))))
		if r.lvl >= 2 {
			unsup("reflect element type too deep")
		}
		return &ReflectV{"type", r.of, r.lvl + 1, nil}
	case "Size":
		return f.b.Fresh("size", SInt)
	}
	unsup("reflect.Type.%s", m)
	return nil
}

// reflect kinds whose layout equals that of []T elements
func (f *FV) kindsOf(layout string) []int64 {
	w := f.p.bits / 8
	var ks []int64
	sz := map[int64]int{2: w, 3: 1, 4: 2, 5: 4, 6: 8, 7: w, 8: 1, 9: 2, 10: 4, 11: 8, 12: w, 13: 4, 14: 8, 1: 1}
	for k := int64(0); k <= 26; k++ {
		n, ok := sz[k]
		switch {
		case ok:
			l := fmt.Sprintf("[%d]", n)
			if n%w == 0 {
				l = strings.Repeat("w", n/w)
			}
			if l == layout {
				ks = append(ks, k)
			}
		case k == 22 || k == 26 || k == 18 || k == 19 || k == 21:
			if layout == "p" {
				ks = append(ks, k)
			}
		case k == 23 && layout == "pww", k == 24 && layout == "pw", k == 20 && layout == "pp":
			ks = append(ks, k)
		}
	}
	return ks
}

func (f *FV) viewReflect(s *State, rv *ReflectV, l, c *Term, elem types.Type, pos token.Pos) Val {
	b := f.b
	cls := f.p.class(elem)
	if cls == "" {
		unsup("view as []%s", elem)
	}
	var alt []*Term
	for _, k := range f.kindsOf(f.p.layout(elem)) {
		alt = append(alt, b.Eq(f.kindT(1), b.Num(k)))
	}
	ptr := b.Var("rptr", SInt)
	if rv.null != nil {
		alt = append(alt, b.And(rv.null, b.Eq(l, b.Num(0))))
		ptr = b.Ite(rv.null, b.Num(0), ptr)
	}
	f.oblige(s, "layout", fmt.Sprintf("slice argument viewed as []%s", elem), pos, b.Or(alt...))
	if c != l {
		f.oblige(s, "own", "view exceeds the slice", pos, b.And(b.Le(l, c), b.Le(l, b.Var("rlen", SInt))))
	}
	return &SliceV{cls: cls, elem: elem, ptr: ptr, len: l, cap: c}
}

// ---- goroutine counter

func (f *FV) counter(s *State, p Val, pos token.Pos) {
	b := f.b
	switch p := p.(type) {
	case *PSync:
		f.oblige(s, "panic", "nil dereference", pos, b.Not(p.null))
	case *PCell:
		f.share(s, p.cell)
	default:
		unsup("atomic operation on %T", p)
	}
}

// lend: a goroutine gets address of a local variable. A syncVar is shared, any other must
// not be written from now on.
func (f *FV) lend(s *State, c *Cell) {
	if _, ok := s.c[cellKey(c)].(*StructV); ok {
		f.share(s, c)
		return
	}
	s.c["frozen."+cellKey(c)] = true
}

// share: local syncVar becomes visible to other goroutines; its counter value is the
// number of places this goroutine holds
func (f *FV) share(s *State, c *Cell) {
	k := "shared." + cellKey(c)
	if sh, _ := s.c[k].(bool); sh {
		return
	}
	sv, ok := s.c[cellKey(c)].(*StructV)
	if !ok {
		unsup("sharing of a local variable")
	}
	var n *Term
	for _, x := range sv.f {
		if t, ok := x.(*Term); ok && t.sort == SInt {
			n = t
		}
	}
	if n == nil {
		unsup("no counter in shared variable")
	}
	for k, v := range s.c {
		if sh, _ := v.(bool); sh && strings.HasPrefix(k, "shared.") {
			unsup("two shared variables")
		}
	}
	s.c[k] = true
	s.c["tok"] = n
	s.c["ownsv"] = f.b.True()
	f.ownsSV = true
	f.oblige(s, "quota", "initial goroutine count exceeds MaxGor", 0, f.b.Imp(f.mconst, f.b.Le(n, f.M)))
}

func (f *FV) atomicAdd(s *State, p Val, d *Term, pos token.Pos) *Term {
	b := f.b
	f.counter(s, p, pos)
	k, ok := d.int64()
	if !ok {
		if d.isNum() {
			k = new(big.Int).Sub(d.num, two64).Int64()
		} else {
			unsup("atomic add of variable")
		}
	}
	tok := s.term("tok")
	nt := b.AddN(tok, k)
	f.oblige(s, "join", "place in goroutine quota released that is not held", pos, b.Le(b.Num(0), nt))
	r := b.Fresh("ngor", SInt)
	f.bound(s, r, big0, new(big.Int).Sub(two64, big1))
	f.assume(s, b.Le(nt, r))
	if k > 0 {
		f.oblige(s, "quota", "goroutine quota taken without check", pos, b.Imp(f.mconst, b.Le(r, f.M)))
	}
	s.c["tok"] = nt
	// gave up the last place?
	last := b.And(b.Eq(nt, b.Num(0)), b.Eq(r, b.Num(0)))
	gone := b.And(b.Eq(nt, b.Num(0)), b.Ne(r, b.Num(0)))
	s.c["last"] = f.name(s, "last", b.Or(s.term("last"), last))
	s.c["others"] = f.name(s, "others", b.Or(s.term("others"), gone))
	// with no place left, this goroutine must not touch elements until joined
	if !b.Lt(b.Num(0), nt).isTrue() {
		for _, kk := range f.ownKeys(s) {
			o := s.term(kk)
			n := b.Fresh("own", o.sort)
			a := b.Bnd("a", SInt)
			full := b.False()
			if f.ownsSV && !f.inTask {
				full = b.And(last, b.Sel(f.entry.c[kk].(*Term), a))
			}
			f.assume(s, b.All([]*Term{a}, b.Eq(b.Sel(n, a), b.Or(full, b.And(b.Lt(b.Num(0), nt), b.Sel(o, a)))), []*Term{b.Sel(n, a)}))
			s.c[kk] = n
		}
	}
	return r
}

func (f *FV) ownKeys(s *State) []string {
	var ks []string
	for k := range s.c {
		if strings.HasPrefix(k, "own.") || strings.HasPrefix(k, "rd.") {
			ks = append(ks, k)
		}
	}
	sortStrings(ks)
	return ks
}

func (f *FV) atomicCAS(s *State, p Val, old, nw *Term, pos token.Pos) *Term {
	b := f.b
	f.counter(s, p, pos)
	ok := b.Fresh("cas", SBool)
	tok := s.term("tok")
	f.assume(s, b.Imp(ok, b.Le(tok, old)))
	d := b.Sub(nw, old)
	nt := b.Fresh("tok", SInt)
	f.assume(s, b.Imp(ok, b.Eq(nt, b.Add(tok, d))))
	f.assume(s, b.Imp(b.Not(ok), b.Eq(nt, tok)))
	f.oblige(s, "join", "goroutine counter changed by compare-and-swap", pos, b.Imp(ok, b.Le(b.Num(1), nt)))
	f.oblige(s, "quota", "goroutine quota exceeded", pos, b.Imp(b.And(ok, f.mconst, b.Lt(old, nw)), b.Le(nw, f.M)))
	s.c["tok"] = nt
	return ok
}

// mayGo: condition under which goroutines / channels may be created
func (f *FV) mayGo() *Term {
	b := f.b
	c := []*Term{b.Imp(f.mconst, b.Lt(b.Num(1), f.M))}
	if f.con != nil && f.con.long != nil {
		ev := &Eval{f: f, st: f.entry, old: f.entry, names: f.args, fam: f.fam}
		c = append(c, ev.boolean(f.con.long))
	}
	return b.And(c...)
}

func (f *FV) send(s *State, ch, v Val, pos token.Pos) {
	b := f.b
	if _, ok := ch.(*ChanV); !ok {
		unsup("send on %T", ch)
	}
	tok := s.term("tok")
	// with a place held it is a partition message, otherwise the end signal
	f.oblige(s, "join", "end signal sent by a goroutine that is not the last", pos,
		b.Or(b.Lt(b.Num(0), tok), s.term("last")))
	if !f.inTask {
		f.oblige(s, "hang", "main goroutine sends on its own channel", pos, b.False())
	}
	live := b.Lt(b.Num(0), tok)
	s.c["nsent"] = b.Add(s.term("nsent"), b.Ite(live, b.Num(1), b.Num(0)))
	s.c["last"] = f.b.And(s.term("last"), live)
	s.c["msg"] = v
}

func (f *FV) recv(s *State, ch Val, t types.Type, pos token.Pos) Val {
	b := f.b
	if _, ok := ch.(*ChanV); !ok {
		unsup("receive from %T", ch)
	}
	if f.inTask {
		f.oblige(s, "hang", "receive in a started goroutine", pos, b.False())
	}
	tok := s.term("tok")
	pv, _ := s.c["pend"].(*PendV)
	if po, ok := s.c["pend"].(PoisonV); ok {
		unsup("%s", po.why)
	}
	if pv != nil && len(pv.tasks) > 0 {
		t := pv.tasks[0]
		if len(pv.tasks) > 1 {
			f.oblige(s, "join", "which goroutine's message is received?", pos, b.False())
		}
		f.oblige(s, "join", "end signal may be received instead of partition result", pos, b.Lt(b.Num(0), tok))
		s.c["pend"] = &PendV{pv.tasks[1:]}
		s.c["tok"] = b.Add(tok, t.tok)
		for _, kk := range f.ownKeys(s) {
			f.giveBack(s, kk, t.foot)
		}
		return t.val
	}
	// end signal
	f.oblige(s, "hang", "receive without a sender", pos, b.And(b.Eq(tok, b.Num(0)), s.term("others")))
	s.c["others"] = b.False()
	s.c["last"] = b.True()
	for _, kk := range f.ownKeys(s) {
		s.c[kk] = f.entry.c[kk]
	}
	return f.freshVal(s, "sig", t)
}

func (f *FV) giveBack(s *State, kk string, foot []Foot) {
	b := f.b
	o := s.term(kk)
	n := b.Fresh("own", o.sort)
	a := b.Bnd("a", SInt)
	e := f.entry.c[kk].(*Term)
	var in []*Term
	for _, ft := range foot {
		if strings.HasSuffix(kk, "."+ft.w.cls) {
			in = append(in, ft.w.in(b, a))
		}
	}
	_ = e
	f.assume(s, b.All([]*Term{a}, b.Eq(b.Sel(n, a), b.Or(append(in, b.Sel(o, a))...)), []*Term{b.Sel(n, a)}))
	s.c[kk] = n
}

// goStmt: the started goroutine is executed here; everything it touches is taken away
// from this goroutine until the matching receive or join. Final memory contents are as
// if it ran to completion now, because no other goroutine may look at them earlier.
func (f *FV) goStmt(s *State, i *ssa.Go) *State {
	b := f.b
	c := &i.Call
	fv, ok := f.val(s, c.Value).(*FuncV)
	if !ok || fv.fn == nil {
		unsup("go of %T", f.val(s, c.Value))
	}
	var args []Val
	for _, a := range c.Args {
		v := f.val(s, a)
		if pc, ok := v.(*PCell); ok && len(pc.path) == 0 {
			f.lend(s, pc.cell)
		}
		args = append(args, v)
	}
	for _, v := range fv.bind {
		if pc, ok := v.(*PCell); ok {
			f.lend(s, pc.cell)
		}
	}
	f.oblige(s, "quota", "goroutine created although single-goroutine sorting is asked for", i.Pos(), f.mayGo())
	f.oblige(s, "quota", "goroutine created without a place in quota", i.Pos(), b.Le(b.Num(2), s.term("tok")))
	tok := s.term("tok")
	// task
	outer := f.foots
	var foots []Foot
	f.foots = &foots
	wasTask := f.inTask
	f.inTask = true
	nl := len(f.loops)
	t := s.clone()
	saved := map[string]Val{}
	for _, k := range []string{"tok", "last", "others", "nsent", "msg", "pend"} {
		saved[k] = s.c[k]
	}
	t.c["tok"], t.c["last"], t.c["others"], t.c["nsent"] = b.Num(1), b.False(), b.False(), b.Num(0)
	t.c["pend"] = &PendV{}
	ownBefore := map[string]*Term{}
	for _, kk := range f.ownKeys(s) {
		ownBefore[kk] = s.term(kk)
	}
	_, e := f.callFn(t, fv, args, i.Pos())
	f.inTask = wasTask
	f.foots = outer
	if e == nil {
		unsup("goroutine never ends")
	}
	if len(f.loops) > nl { // direct element accesses in loops: use whole arguments
		for _, v := range args {
			if sl, ok := v.(*SliceV); ok {
				foots = append(foots, Foot{Window{cls: sl.cls, lo: sl.ptr, hi: b.Add(sl.ptr, sl.len)}, true})
			}
		}
		f.notes["footprint of goroutine approximated by its arguments"] = true
	}
	et, ns := e.term("tok"), e.term("nsent")
	n, isn := ns.int64()
	if !isn {
		unsup("number of messages sent by goroutine varies")
	}
	f.oblige(e, "hang", "goroutine ends without handing over its end signal", i.Pos(), b.Not(e.term("last")))
	if n == 0 {
		f.oblige(e, "hang", "goroutine ends without releasing its place", i.Pos(), b.Eq(et, b.Num(0)))
	} else {
		f.oblige(e, "hang", "goroutine sends more than one message or keeps no place", i.Pos(), b.And(b.Bool(n == 1), b.Eq(et, b.Num(1))))
	}
	r := e.clone()
	r.env = s.env
	r.c["tok"] = b.AddN(tok, -1)
	for _, k := range []string{"last", "others", "nsent", "msg", "pend"} {
		if saved[k] == nil {
			delete(r.c, k)
		} else {
			r.c[k] = saved[k]
		}
	}
	// take away footprint
	for _, kk := range f.ownKeys(r) {
		o, had := ownBefore[kk]
		if !had {
			o = f.entry.c[kk].(*Term)
		}
		a := b.Bnd("a", SInt)
		was := b.Sel(o, a)
		if strings.HasPrefix(kk, "rd.") { // what was owned may still be read unless the task writes it
			k2 := "own." + kk[3:]
			o2, had := ownBefore[k2]
			if !had {
				if e, ok := f.entry.c[k2].(*Term); ok {
					o2 = e
				}
			}
			if o2 != nil {
				was = b.Or(was, b.Sel(o2, a))
			}
		}
		var in []*Term
		for _, ft := range foots {
			if !strings.HasSuffix(kk, "."+ft.w.cls) {
				continue
			}
			if strings.HasPrefix(kk, "own.") || ft.write {
				in = append(in, ft.w.in(b, a))
			}
		}
		if len(in) == 0 {
			r.c[kk] = o
			continue
		}
		nw := b.Fresh("own", o.sort)
		f.assume(r, b.All([]*Term{a}, b.Eq(b.Sel(nw, a), b.And(was, b.Not(b.Or(in...)))), []*Term{b.Sel(nw, a)}))
		r.c[kk] = nw
	}
	if n > 0 {
		// ownership returned on receive is what was owned before
		var fb []Foot
		for _, ft := range foots {
			fb = append(fb, ft)
		}
		pv, _ := r.c["pend"].(*PendV)
		np := &PendV{}
		if pv != nil {
			np.tasks = append(np.tasks, pv.tasks...)
		}
		np.tasks = append(np.tasks, &Task{val: e.c["msg"], foot: fb, tok: et})
		r.c["pend"] = np
	}
	return r
}

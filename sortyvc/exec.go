package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Node struct {
	id    int
	lit   *Term
	anc   []uint64
	facts []*Term
}

type Obl struct {
	node  *Node
	nf    int
	goal  *Term
	class string
	name  string
	pos   string
	cand  *Cand
	ok    bool
	res   Result
	core  map[string]bool
}

// State of symbolic execution at a program point. Everything that can change besides
// SSA registers is a component in c.
type State struct {
	node *Node
	env  map[ssa.Value]Val
	c    map[string]Val
}

func (s *State) clone() *State {
	n := &State{node: s.node, env: make(map[ssa.Value]Val, len(s.env)+8), c: make(map[string]Val, len(s.c)+4)}
	for k, v := range s.env {
		n.env[k] = v
	}
	for k, v := range s.c {
		n.c[k] = v
	}
	return n
}

func (s *State) term(k string) *Term {
	if v, ok := s.c[k]; ok {
		return v.(*Term)
	}
	return nil
}

// task started by a go statement whose message was not received yet
type Task struct {
	val  Val
	foot []Foot
	tok  *Term
}
type PendV struct{ tasks []*Task }

type Foot struct {
	w     Window
	write bool
}

// FV verifies one function (for one case of its contract)
type FV struct {
	p             *Program
	b             *B
	sp            *Spec
	con           *Contract
	fn            *ssa.Function
	fam           *Family
	nodes         []*Node
	obls          []*Obl
	cands         []*Cand
	loops         []*LoopV
	pool          *Pool
	depth         int
	stack         []*ssa.Function
	rng           map[*Term][2]*big.Int
	entry         *State
	args          map[string]Val
	argv          []Val
	mods          []Window // what function may modify
	top0          *Term
	foots         *[]Foot // footprint recorder of a task
	ncell         int
	unroll        bool
	calls         map[string]bool // contracts used
	trust         map[string]bool // trusted library models used
	notes         map[string]bool
	nodeCnt       int
	inTask        bool
	lsw           *Term // size of collection for lesswap
	M             *Term
	mconst        *Term
	ownsSV        bool
	consts        map[*Term]bool // interesting integer constants
	meas0         *Term
	region        string // name prefix
	seq           map[string]int
	noDecide      bool
	inl           map[string]bool // functions executed as part of this one
	nlsw          int             // exchanges executed symbolically
	guards        []*Term
	cellIDs       map[string]*Cell
	candRL, oblRL int
	pred          bool
	exit          *State
	weak          []weakFact
	hints         map[string]bool // if not nil, only these candidates are used
	relaxed       *Relaxed
	meas          []*Obl          // obligations of measures used
}

// weakFact is a fact repeated with other triggers, used when a proof attempt fails
type weakFact struct {
	node *Node
	nf   int
	t    *Term
}

func NewFV(p *Program, sp *Spec, pool *Pool) *FV {
	f := &FV{p: p, b: NewTab(), sp: sp, pool: pool, rng: map[*Term][2]*big.Int{}, calls: map[string]bool{},
		inl: map[string]bool{}, trust: map[string]bool{}, notes: map[string]bool{}, consts: map[*Term]bool{}, seq: map[string]int{},
		cellIDs: map[string]*Cell{}}
	f.mconst = f.b.Var("mconst", SBool)
	f.M = f.b.Var("M", SInt)
	return f
}

func (f *FV) newNode(lit *Term, preds ...*Node) *Node {
	n := &Node{id: len(f.nodes), lit: lit}
	f.nodes = append(f.nodes, n)
	n.anc = make([]uint64, n.id/64+1)
	for _, p := range preds {
		for i, w := range p.anc {
			n.anc[i] |= w
		}
	}
	n.anc[n.id/64] |= 1 << (n.id % 64)
	return n
}

func (n *Node) has(id int) bool { return id/64 < len(n.anc) && n.anc[id/64]>>(id%64)&1 == 1 }

func (f *FV) assume(s *State, t *Term) {
	if t == nil || t.isTrue() {
		return
	}
	s.node.facts = append(s.node.facts, t)
}

// oblige records a proof obligation and assumes it afterwards
func (f *FV) oblige(s *State, class, name string, pos token.Pos, goal *Term) *Obl {
	if goal.isTrue() {
		return nil
	}
	where := ""
	if pos.IsValid() {
		p := f.p.prog.Fset.Position(pos)
		where = fmt.Sprintf("%s:%d", p.Filename[strings.LastIndexByte(p.Filename, '/')+1:], p.Line)
	}
	o := &Obl{node: s.node, nf: len(s.node.facts), goal: goal, class: class, name: name, pos: where}
	f.obls = append(f.obls, o)
	if goal.op != OpAll && goal.op != OpEx {
		f.assume(s, goal)
	}
	return o
}

// ---- ranges of integers

var (
	big0, big1 = big.NewInt(0), big.NewInt(1)
	two        = big.NewInt(2)
	two64      = new(big.Int).Lsh(big1, 64)
)

func intRange(k types.BasicKind, bits int) (lo, hi *big.Int) {
	n, signed := 0, false
	switch k {
	case types.Int, types.UntypedInt, types.UntypedRune:
		n, signed = bits, true
	case types.Int8:
		n, signed = 8, true
	case types.Int16:
		n, signed = 16, true
	case types.Int32:
		n, signed = 32, true
	case types.Int64:
		n, signed = 64, true
	case types.Uint, types.Uintptr:
		n = bits
	case types.Uint8:
		n = 8
	case types.Uint16:
		n = 16
	case types.Uint32:
		n = 32
	case types.Uint64:
		n = 64
	default:
		return nil, nil
	}
	if signed {
		hi = new(big.Int).Lsh(big1, uint(n-1))
		lo = new(big.Int).Neg(hi)
		hi = new(big.Int).Sub(hi, big1)
	} else {
		lo = big0
		hi = new(big.Int).Sub(new(big.Int).Lsh(big1, uint(n)), big1)
	}
	return
}

func (f *FV) typeRange(t types.Type) (lo, hi *big.Int, signed bool) {
	bt, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil, false
	}
	lo, hi = intRange(bt.Kind(), f.p.bits)
	if lo == nil {
		return nil, nil, false
	}
	return lo, hi, lo.Sign() < 0
}

// interval returns known bounds of an integer term
func (f *FV) interval(t *Term) (lo, hi *big.Int) {
	switch t.op {
	case OpNum:
		return t.num, t.num
	case OpLin:
		lo, hi = new(big.Int).Set(t.num), new(big.Int).Set(t.num)
		for i, a := range t.args {
			al, ah := f.interval(a)
			c := t.coef[i]
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil && al != nil {
				lo.Add(lo, new(big.Int).Mul(c, al))
			} else {
				lo = nil
			}
			if hi != nil && ah != nil {
				hi.Add(hi, new(big.Int).Mul(c, ah))
			} else {
				hi = nil
			}
		}
		return
	case OpDiv:
		lo, hi = f.interval(t.args[0])
		if lo != nil {
			lo = floorDiv(lo, t.num)
		}
		if hi != nil {
			hi = floorDiv(hi, t.num)
		}
		return
	case OpMod:
		return big0, new(big.Int).Sub(t.num, big1)
	case OpIte:
		l1, h1 := f.interval(t.args[1])
		l2, h2 := f.interval(t.args[2])
		if l1 != nil && l2 != nil {
			lo = l1
			if l2.Cmp(l1) < 0 {
				lo = l2
			}
		}
		if h1 != nil && h2 != nil {
			hi = h1
			if h2.Cmp(h1) > 0 {
				hi = h2
			}
		}
		return
	}
	if r, ok := f.rng[t]; ok {
		return r[0], r[1]
	}
	return nil, nil
}

func floorDiv(x, c *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(x, c, m)
	return q
}

func (f *FV) bound(s *State, t *Term, lo, hi *big.Int) {
	if t.isNum() {
		return
	}
	if _, ok := f.rng[t]; !ok && t.op != OpLin {
		f.rng[t] = [2]*big.Int{lo, hi}
	}
	if lo != nil {
		f.assume(s, f.b.Le(f.b.Big(lo), t))
	}
	if hi != nil {
		f.assume(s, f.b.Le(t, f.b.Big(hi)))
	}
}

// inRange tells (with the help of solver) whether lo <= t <= hi surely holds
func (f *FV) inRange(s *State, t *Term, lo, hi *big.Int) bool {
	l, h := f.interval(t)
	okl, okh := l != nil && l.Cmp(lo) >= 0, h != nil && h.Cmp(hi) <= 0
	if okl && okh {
		return true
	}
	g := f.b.And(f.b.Le(f.b.Big(lo), t), f.b.Le(t, f.b.Big(hi)))
	if okl {
		g = f.b.Le(t, f.b.Big(hi))
	} else if okh {
		g = f.b.Le(f.b.Big(lo), t)
	}
	return f.decide(s, g)
}

// ---- starting values

const lenBits64, lenBits32 = 48, 30

func (f *FV) maxLen() *big.Int {
	if f.p.bits == 32 {
		return new(big.Int).Lsh(big1, lenBits32)
	}
	return new(big.Int).Lsh(big1, lenBits64)
}

// freshVal makes an unconstrained value of type t that respects type invariants
func (f *FV) freshVal(s *State, hint string, t types.Type) Val {
	b := f.b
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return b.Fresh(hint, SBool)
		case u.Info()&types.IsInteger != 0:
			v := b.Fresh(hint, SInt)
			lo, hi, _ := f.typeRange(t)
			f.bound(s, v, lo, hi)
			return v
		case u.Info()&types.IsFloat != 0:
			return b.Fresh(hint, "F")
		case u.Kind() == types.String:
			return b.Fresh(hint, "S")
		case u.Kind() == types.UnsafePointer:
			v := b.Fresh(hint, SInt)
			f.bound(s, v, big0, new(big.Int).Sub(new(big.Int).Lsh(big1, uint(f.p.bits)), big1))
			return v
		}
	case *types.Slice:
		cls := f.p.class(u.Elem())
		if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			return b.Fresh(hint, "L") // byte slice as an element value
		}
		if cls == "" {
			unsup("slice of %s", u.Elem())
		}
		sl := &SliceV{cls: cls, elem: u.Elem(), ptr: b.Fresh(hint+"_p", SInt), len: b.Fresh(hint+"_n", SInt), cap: b.Fresh(hint+"_c", SInt)}
		f.wfSlice(s, sl)
		return sl
	case *types.Pointer:
		if st, ok := u.Elem().Underlying().(*types.Struct); ok {
			_ = st
			return &PSync{null: b.Fresh(hint+"_nil", SBool), typ: u.Elem()}
		}
	case *types.Signature:
		if u.Params().Len() == 4 && u.Results().Len() == 1 {
			return &FuncV{lsw: "lsw"}
		}
		if u.Params().Len() == 1 && u.Results().Len() == 1 {
			return &FuncV{pred: true}
		}
	case *types.Chan:
		return &ChanV{"sv"}
	case *types.Interface:
		return &IfaceV{name: hint, null: b.Fresh(hint+"_nil", SBool)}
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, f.freshVal(s, hint+"_"+u.Field(i).Name(), u.Field(i).Type()))
		}
		return sv
	}
	unsup("value of type %s", t)
	return nil
}

func (f *FV) wfSlice(s *State, sl *SliceV) {
	b := f.b
	top := s.term("top")
	f.bound(s, sl.ptr, big0, new(big.Int).Lsh(big1, 60))
	f.bound(s, sl.len, big0, f.maxLen())
	f.bound(s, sl.cap, big0, f.maxLen())
	f.assume(s, b.Le(sl.len, sl.cap))
	f.assume(s, b.Le(b.Add(sl.ptr, sl.cap), top))
}

func (f *FV) zero(t types.Type) Val {
	b := f.b
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return b.False()
		case u.Info()&types.IsInteger != 0, u.Kind() == types.UnsafePointer:
			return b.Num(0)
		case u.Info()&types.IsFloat != 0:
			return b.Var("zeroF", "F")
		case u.Kind() == types.String:
			return b.Var("zeroS", "S")
		}
	case *types.Slice:
		if bt, ok := u.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Uint8 {
			return b.Var("zeroL", "L")
		}
		return &SliceV{cls: f.p.class(u.Elem()), elem: u.Elem(), ptr: b.Num(0), len: b.Num(0), cap: b.Num(0)}
	case *types.Struct:
		sv := &StructV{}
		for i := 0; i < u.NumFields(); i++ {
			sv.f = append(sv.f, f.zero(u.Field(i).Type()))
		}
		return sv
	case *types.Pointer, *types.Chan, *types.Signature, *types.Interface:
		return PNil{}
	}
	unsup("zero value of %s", t)
	return nil
}

// order keys

func (f *FV) nan(x *Term) *Term { return f.b.App("nan", SBool, x) }

// vkey: key by value (numbers, strings) as used by comparison operators
func (f *FV) vkey(x *Term) *Term {
	switch x.sort {
	case "F":
		return f.b.App("fkey", SInt, x)
	case "S":
		if x.op == OpApp && x.name == "btos" {
			return f.b.App("bkey", SInt, x.args[0])
		}
		return f.b.App("skey", SInt, x)
	case "L":
		return f.b.App("bkey", SInt, x)
	}
	return x
}

// lkey: length of string or byte slice
func (f *FV) lkey(x *Term) *Term {
	switch x.sort {
	case "S":
		if x.op == OpApp && x.name == "btos" {
			return f.b.App("blen", SInt, x.args[0])
		}
		return f.b.App("slen", SInt, x)
	case "L":
		return f.b.App("blen", SInt, x)
	}
	return x
}

// key of family under verification
func (f *FV) key(x *Term) *Term { return f.famKey(f.fam, x) }

func (f *FV) famKey(fam *Family, x *Term) *Term {
	if fam != nil && fam.byLen {
		return f.lkey(x)
	}
	return f.vkey(x)
}

func (f *FV) maxInt() *big.Int {
	return new(big.Int).Sub(new(big.Int).Lsh(big1, uint(f.p.bits-1)), big1)
}

// length of an element: any int, as slices of zero size elements can be that long
func (f *FV) lenOf(s *State, x *Term) *Term {
	l := f.lkey(x)
	f.bound(s, l, big0, f.maxInt())
	return l
}

// ---- memory

func (f *FV) mem(s *State, cls string) *Term {
	k := "mem." + cls
	if m := s.term(k); m != nil {
		return m
	}
	m := f.b.Var("m0_"+cls, ArrSort(elemSort(cls)))
	s.c[k] = m
	f.entry.c[k] = m
	return m
}

func (f *FV) own(s *State, k, cls string) *Term {
	kk := k + "." + cls
	if m := s.term(kk); m != nil {
		return m
	}
	m := f.b.Var(k+"0_"+cls, ArrSort(SBool))
	s.c[kk] = m
	f.entry.c[kk] = m
	return m
}

func (f *FV) touch(s *State, w Window, write bool) {
	if f.foots != nil {
		*f.foots = append(*f.foots, Foot{w, write})
	}
}

func (f *FV) load(s *State, cls string, elem types.Type, a *Term, pos token.Pos) *Term {
	b := f.b
	f.oblige(s, "own", "read of element not owned", pos, b.Sel(f.own(s, "own", cls), a))
	f.touch(s, Window{cls: cls, lo: a, hi: b.AddN(a, 1)}, false)
	v := b.Sel(f.mem(s, cls), a)
	f.elemInv(s, cls, v)
	return v
}

// type invariant of an element read from memory
func (f *FV) elemInv(s *State, cls string, v *Term) {
	switch cls {
	case "i32":
		lo, hi := intRange(types.Int32, 64)
		f.bound(s, v, lo, hi)
	case "i64":
		lo, hi := intRange(types.Int64, 64)
		f.bound(s, v, lo, hi)
	case "u32":
		lo, hi := intRange(types.Uint32, 64)
		f.bound(s, v, lo, hi)
	case "u64":
		lo, hi := intRange(types.Uint64, 64)
		f.bound(s, v, lo, hi)
	case "ptr":
		f.bound(s, v, big0, new(big.Int).Sub(new(big.Int).Lsh(big1, uint(f.p.bits)), big1))
	case "f32", "f64":
		if f.con != nil && f.con.nonan {
			f.assume(s, f.b.Not(f.nan(v)))
		}
	}
}

func (f *FV) modOK(s *State, a *Term) *Term {
	b := f.b
	c := []*Term{b.Le(f.top0, a)}
	for _, w := range f.mods {
		c = append(c, w.in(b, a))
	}
	return b.Or(c...)
}

func (f *FV) store(s *State, cls string, a, v *Term, pos token.Pos) {
	b := f.b
	f.oblige(s, "own", "write of element not owned", pos, b.Sel(f.own(s, "own", cls), a))
	f.oblige(s, "frame", "write outside of what may be modified", pos, f.modOK1(cls, a))
	f.touch(s, Window{cls: cls, lo: a, hi: b.AddN(a, 1)}, true)
	if (cls == "f32" || cls == "f64") && f.con != nil && f.con.nonan {
		f.oblige(s, "pre", "NaN stored", pos, b.Not(f.nan(v)))
	}
	m := f.mem(s, cls)
	f.otherPerm(s, cls, pos)
	if cnt := s.term("cnt"); cnt != nil && cls == f.cntCls() {
		x := f.xhat(cls)
		in := f.inMods(cls, a)
		d := b.Sub(b.Ite(b.Eq(v, x), b.Num(1), b.Num(0)), b.Ite(b.Eq(b.Sel(m, a), x), b.Num(1), b.Num(0)))
		s.c["cnt"] = f.name(s, "cnt", b.Add(cnt, b.Ite(in, d, b.Num(0))))
	}
	s.c["mem."+cls] = b.Sto(m, a, v)
}

// otherPerm: elements are counted in one memory class only, others must not be modified
// but by functions known to permute
func (f *FV) otherPerm(s *State, cls string, pos token.Pos) {
	if f.con == nil || !f.con.perm || cls == f.cntCls() || cls == "A" {
		return
	}
	for _, w := range f.mods {
		if w.cls == cls {
			f.oblige(s, "perm", "elements are modified directly", pos, f.b.False())
			return
		}
	}
}

// name introduces a constant for a big term
func (f *FV) name(s *State, hint string, t *Term) *Term {
	v := f.b.Fresh(hint, t.sort)
	f.assume(s, f.b.Eq(v, t))
	return v
}

func (f *FV) cntCls() string {
	for _, w := range f.mods {
		return w.cls
	}
	return ""
}

func (f *FV) xhat(cls string) *Term { return f.b.Var("xhat", elemSort(cls)) }

func (f *FV) inMods(cls string, a *Term) *Term {
	b := f.b
	var c []*Term
	for _, w := range f.mods {
		if w.cls == cls {
			c = append(c, w.in(b, a))
		}
	}
	return b.Or(c...)
}

func (f *FV) modOK1(cls string, a *Term) *Term {
	return f.b.Or(f.b.Le(f.top0, a), f.inMods(cls, a))
}

// ---- merging

func (f *FV) mergeVal(hint string, vs []Val, eq []*[]*Term) Val {
	same := true
	for _, v := range vs[1:] {
		if !sameVal(vs[0], v) {
			same = false
			break
		}
	}
	if same {
		return vs[0]
	}
	b := f.b
	if u := mergeUPtr(f, hint, vs, eq); u != nil {
		return u
	}
	switch v0 := vs[0].(type) {
	case *Term:
		var srt Sort
		for _, v := range vs {
			t, ok := v.(*Term)
			if !ok || srt != "" && t.sort != srt {
				return PoisonV{"merge of different kinds: " + hint}
			}
			srt = t.sort
		}
		x := b.Fresh(hint, srt)
		var lo, hi *big.Int
		for i, v := range vs {
			*eq[i] = append(*eq[i], b.Eq(x, v.(*Term)))
			if srt == SInt {
				l, h := f.interval(v.(*Term))
				if i == 0 {
					lo, hi = l, h
				} else {
					if l == nil || lo != nil && l.Cmp(lo) < 0 {
						lo = l
					}
					if h == nil || hi != nil && h.Cmp(hi) > 0 {
						hi = h
					}
				}
			}
		}
		if srt == SInt && (lo != nil || hi != nil) {
			f.rng[x] = [2]*big.Int{lo, hi}
		}
		return x
	case *SliceV:
		var p, l, c []Val
		for _, v := range vs {
			s, ok := v.(*SliceV)
			if !ok || s.cls != v0.cls {
				return PoisonV{"merge of slices: " + hint}
			}
			p, l, c = append(p, s.ptr), append(l, s.len), append(c, s.cap)
		}
		return &SliceV{cls: v0.cls, elem: v0.elem, ptr: f.mergeVal(hint+"_p", p, eq).(*Term),
			len: f.mergeVal(hint+"_n", l, eq).(*Term), cap: f.mergeVal(hint+"_c", c, eq).(*Term)}
	case *PElem:
		var p []Val
		for _, v := range vs {
			s, ok := v.(*PElem)
			if !ok || s.cls != v0.cls {
				return PoisonV{"merge of pointers: " + hint}
			}
			p = append(p, s.addr)
		}
		return &PElem{cls: v0.cls, elem: v0.elem, addr: f.mergeVal(hint, p, eq).(*Term)}
	case *StructV:
		r := &StructV{}
		for i := range v0.f {
			var p []Val
			for _, v := range vs {
				s, ok := v.(*StructV)
				if !ok || len(s.f) != len(v0.f) {
					return PoisonV{"merge of structs: " + hint}
				}
				p = append(p, s.f[i])
			}
			r.f = append(r.f, f.mergeVal(fmt.Sprintf("%s_%d", hint, i), p, eq))
		}
		return r
	case *TupleV:
		r := &TupleV{}
		for i := range v0.v {
			var p []Val
			for _, v := range vs {
				s, ok := v.(*TupleV)
				if !ok || len(s.v) != len(v0.v) {
					return PoisonV{"merge of tuples: " + hint}
				}
				p = append(p, s.v[i])
			}
			r.v = append(r.v, f.mergeVal(fmt.Sprintf("%s_%d", hint, i), p, eq))
		}
		return r
	case PNil, *PSync:
		// nil or not
		var ns *PSync
		for _, v := range vs {
			switch v := v.(type) {
			case PNil:
			case *PSync:
				ns = v
			default:
				return PoisonV{"merge of pointers: " + hint}
			}
		}
		if ns == nil {
			return v0
		}
		var p []Val
		for _, v := range vs {
			if s, ok := v.(*PSync); ok {
				p = append(p, s.null)
			} else {
				p = append(p, b.True())
			}
		}
		return &PSync{null: f.mergeVal(hint, p, eq).(*Term), typ: ns.typ, path: ns.path}
	}
	return PoisonV{fmt.Sprintf("merge of %T: %s", vs[0], hint)}
}

// mergeUPtr merges data pointers of a reflected slice and nils
func mergeUPtr(f *FV, hint string, vs []Val, eq []*[]*Term) Val {
	var of *ReflectV
	var nulls []Val
	for _, v := range vs {
		switch v := v.(type) {
		case *UPtr:
			r, ok := v.v.(*ReflectV)
			if !ok || r.what != "data" || of != nil && of.of != r.of {
				return nil
			}
			of = r
			if r.null == nil {
				nulls = append(nulls, f.b.False())
			} else {
				nulls = append(nulls, r.null)
			}
		case *Term:
			if !v.isNum() || v.num.Sign() != 0 {
				return nil
			}
			nulls = append(nulls, f.b.True())
		default:
			return nil
		}
	}
	if of == nil {
		return nil
	}
	return &UPtr{&ReflectV{"data", of.of, 0, f.mergeVal(hint+"_nil", nulls, eq).(*Term)}}
}

type Edge struct {
	st   *State
	from *ssa.BasicBlock
	cond *Term // nil if unconditional
}

// enter merges edges into a state at start of blk, evaluating its phis
func (f *FV) enter(blk *ssa.BasicBlock, edges []Edge) *State {
	b := f.b
	var phis []*ssa.Phi
	if blk != nil {
		for _, in := range blk.Instrs {
			p, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, p)
		}
	}
	pv := make([][]Val, len(phis))
	for _, e := range edges {
		for i, p := range phis {
			k := -1
			for j, pr := range blk.Preds {
				if pr == e.from {
					k = j
				}
			}
			pv[i] = append(pv[i], f.val(e.st, p.Edges[k]))
		}
	}
	if len(edges) == 1 {
		e := edges[0]
		s := e.st.clone()
		if e.cond != nil {
			n := f.newNode(b.Fresh("at", SBool), s.node)
			n.facts = append(n.facts, s.node.lit, e.cond)
			s.node = n
		}
		for i, p := range phis {
			s.env[p] = pv[i][0]
		}
		return s
	}
	var preds []*Node
	eqs := make([]*[]*Term, len(edges))
	for i, e := range edges {
		preds = append(preds, e.st.node)
		l := []*Term{e.st.node.lit}
		if e.cond != nil {
			l = append(l, e.cond)
		}
		eqs[i] = &l
	}
	n := f.newNode(b.Fresh("at", SBool), preds...)
	s := &State{node: n, env: map[ssa.Value]Val{}, c: map[string]Val{}}
	// components
	keys := map[string]bool{}
	for _, e := range edges {
		for k := range e.st.c {
			keys[k] = true
		}
	}
	var ks []string
	for k := range keys {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		var vs []Val
		for _, e := range edges {
			v, ok := e.st.c[k]
			if !ok {
				v = f.entry.c[k] // lazily created
			}
			vs = append(vs, v)
		}
		if vs[0] == nil {
			all := true
			for _, v := range vs {
				all = all && v == nil
			}
			if all {
				continue
			}
		}
		s.c[k] = f.mergeComp(k, vs, eqs)
	}
	var evs []ssa.Value
	for v := range edges[0].st.env {
		all := true
		for _, e := range edges[1:] {
			if _, ok := e.st.env[v]; !ok {
				all = false
			}
		}
		if all {
			evs = append(evs, v)
		}
	}
	sort.Slice(evs, func(i, j int) bool { return evs[i].Name() < evs[j].Name() })
	for _, v := range evs {
		var vs []Val
		for _, e := range edges {
			vs = append(vs, e.st.env[v])
		}
		s.env[v] = f.mergeVal("v", vs, eqs)
	}
	for i, p := range phis {
		s.env[p] = f.mergeVal("phi", pv[i], eqs)
	}
	var alt []*Term
	for _, q := range eqs {
		alt = append(alt, b.And(*q...))
	}
	n.facts = append([]*Term{b.Or(alt...)}, n.facts...)
	return s
}

func (f *FV) mergeComp(k string, vs []Val, eqs []*[]*Term) Val {
	if strings.HasPrefix(k, "frozen.") {
		return true
	}
	if strings.HasPrefix(k, "decided.") {
		for _, v := range vs {
			if d, _ := v.(bool); !d {
				return false
			}
		}
		return true
	}
	if strings.HasPrefix(k, "shared.") || k == "pend" {
		for _, v := range vs[1:] {
			if !sameComp(vs[0], v) {
				return PoisonV{"control flow joins with different concurrency states: " + k}
			}
		}
		return vs[0]
	}
	for i, v := range vs {
		if v == nil {
			vs[i] = PoisonV{"missing " + k}
		}
	}
	h := k
	if j := strings.IndexByte(k, '.'); j >= 0 {
		h = k[:j]
	}
	return f.mergeVal(h, vs, eqs)
}

func sameComp(x, y Val) bool {
	switch a := x.(type) {
	case bool:
		b, ok := y.(bool)
		return ok && a == b
	case *PendV:
		b, ok := y.(*PendV)
		if !ok || len(a.tasks) != len(b.tasks) {
			return false
		}
		for i := range a.tasks {
			if a.tasks[i] != b.tasks[i] {
				return false
			}
		}
		return true
	case nil:
		if p, ok := y.(*PendV); ok {
			return len(p.tasks) == 0
		}
		if p, ok := y.(bool); ok {
			return !p
		}
		return y == nil
	}
	return sameVal(x, y)
}

// ---- control flow

type LoopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *LoopInfo
}

type FnInfo struct {
	rpo   map[*ssa.BasicBlock]int
	loops map[*ssa.BasicBlock]*LoopInfo
	inner map[*ssa.BasicBlock]*LoopInfo // innermost loop of a block
}

func analyze(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*LoopInfo{}, inner: map[*ssa.BasicBlock]*LoopInfo{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i, b := range post {
		fi.rpo[b] = len(post) - 1 - i
	}
	for _, b := range post {
		for _, s := range b.Succs {
			if fi.rpo[s] <= fi.rpo[b] {
				if !s.Dominates(b) {
					unsup("irreducible control flow in %s", fn.Name())
				}
				l := fi.loops[s]
				if l == nil {
					l = &LoopInfo{head: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var back func(x *ssa.BasicBlock)
				back = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						if seen[p] {
							back(p)
						}
					}
				}
				back(b)
			}
		}
	}
	for _, b := range post {
		for _, l := range fi.loops {
			if l.blocks[b] {
				if c := fi.inner[b]; c == nil || len(l.blocks) < len(c.blocks) {
					fi.inner[b] = l
				}
			}
		}
	}
	for _, l := range fi.loops {
		for _, m := range fi.loops {
			if m != l && m.blocks[l.head] && len(m.blocks) > len(l.blocks) {
				if l.parent == nil || len(m.blocks) < len(l.parent.blocks) {
					l.parent = m
				}
			}
		}
	}
	return fi
}

type Frame struct {
	fn   *ssa.Function
	fi   *FnInfo
	rets []Edge
	vals []Val
	ret  *ssa.Return
}

// inline executes body of fn
func (f *FV) inline(fn *ssa.Function, args []Val, bind []Val, s *State) (Val, *State) {
	if len(fn.Blocks) == 0 {
		unsup("function %s has no body", fn.String())
	}
	for _, g := range f.stack {
		if g == fn {
			unsup("recursive function %s has no contract", fn.Name())
		}
	}
	if len(f.stack) > 8 {
		unsup("inlining too deep")
	}
	f.stack = append(f.stack, fn)
	defer func() { f.stack = f.stack[:len(f.stack)-1] }()
	if fn != f.fn {
		f.inl[fn.String()] = true
	}
	fr := &Frame{fn: fn, fi: analyze(fn)}
	st := s.clone()
	st.env = map[ssa.Value]Val{}
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, v := range fn.FreeVars {
		st.env[v] = bind[i]
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	f.region_(fr, all, nil, fn.Blocks[0], []Edge{{st: st}}, nil)
	if len(fr.rets) == 0 {
		return nil, nil // never returns
	}
	var rv []ssa.Value
	for i := range fr.rets {
		k := ssa.Value(retKey)
		fr.rets[i].st.env = map[ssa.Value]Val{k: fr.vals[i]}
		rv = append(rv, k)
	}
	out := f.enter(nil, fr.rets)
	v := out.env[retKey]
	out.env = s.env
	if _, ok := v.(*TupleV); !ok && v == nil {
		v = &TupleV{}
	}
	return v, out
}

var retKey = &ssa.Parameter{}

// region_ executes blocks of a region from its header; cur is the loop whose body it is
func (f *FV) region_(fr *Frame, blocks map[*ssa.BasicBlock]bool, cur *LoopInfo, head *ssa.BasicBlock, entry []Edge, start *State) (exits map[*ssa.BasicBlock][]Edge, backs []Edge) {
	exits = map[*ssa.BasicBlock][]Edge{}
	pend := map[*ssa.BasicBlock][]Edge{head: entry}
	first := true
	dist := func(to *ssa.BasicBlock, e Edge) {
		if e.cond != nil && e.cond.isFalse() {
			return
		}
		if e.cond != nil && e.cond.isTrue() {
			e.cond = nil
		}
		if cur != nil && to == cur.head {
			backs = append(backs, e)
		} else if !blocks[to] {
			exits[to] = append(exits[to], e)
		} else {
			pend[to] = append(pend[to], e)
		}
	}
	for len(pend) > 0 {
		var blk *ssa.BasicBlock
		for b := range pend {
			if blk == nil || fr.fi.rpo[b] < fr.fi.rpo[blk] {
				blk = b
			}
		}
		edges := pend[blk]
		delete(pend, blk)
		if l := fr.fi.loops[blk]; l != nil && l != cur && len(edges) > 0 {
			for to, es := range f.loop(fr, l, edges) {
				for _, e := range es {
					dist(to, e)
				}
			}
			first = false
			continue
		}
		var s *State
		if first && start != nil {
			s = start
		} else {
			if len(edges) == 0 {
				continue
			}
			s = f.enter(blk, edges)
		}
		first = false
		f.block(fr, blk, s, dist)
	}
	return
}

type snapshot struct {
	weak                      int
	nodes, obls, cands, loops int
	facts                     []int
	fresh                     map[string]int
	foots                     int
	ncell                     int
}

func (f *FV) snap() snapshot {
	sn := snapshot{len(f.weak), len(f.nodes), len(f.obls), len(f.cands), len(f.loops), nil, map[string]int{}, 0, f.ncell}
	for _, n := range f.nodes {
		sn.facts = append(sn.facts, len(n.facts))
	}
	for k, v := range f.b.fresh {
		sn.fresh[k] = v
	}
	if f.foots != nil {
		sn.foots = len(*f.foots)
	}
	return sn
}

func (f *FV) rollback(sn snapshot) {
	f.nodes, f.obls, f.cands, f.loops = f.nodes[:sn.nodes], f.obls[:sn.obls], f.cands[:sn.cands], f.loops[:sn.loops]
	for i, n := range f.nodes {
		n.facts = n.facts[:sn.facts[i]:sn.facts[i]]
	}
	f.b.fresh = map[string]int{}
	for k, v := range sn.fresh {
		f.b.fresh[k] = v
	}
	if f.foots != nil {
		*f.foots = (*f.foots)[:sn.foots]
	}
	f.ncell = sn.ncell
	f.weak = f.weak[:sn.weak]
}

func (f *FV) loop(fr *Frame, l *LoopInfo, entry []Edge) map[*ssa.BasicBlock][]Edge {
	// unroll when number of rounds is decided by constants
	if ex, ok := f.tryUnroll(fr, l, entry); ok {
		return ex
	}
	return f.cut(fr, l, entry)
}

const maxUnroll = 12

func cloneEdges(es []Edge) []Edge {
	var out []Edge
	for _, e := range es {
		out = append(out, Edge{e.st.clone(), e.from, e.cond})
	}
	return out
}

func (f *FV) tryUnroll(fr *Frame, l *LoopInfo, entry []Edge) (out map[*ssa.BasicBlock][]Edge, ok bool) {
	sn := f.snap()
	out = map[*ssa.BasicBlock][]Edge{}
	edges := cloneEdges(entry)
	nd := f.noDecide
	if !f.unroll {
		// quick look: is any exit of the first round decided?
		f.noDecide = true
	}
	defer func() { f.noDecide = nd }()
	for k := 0; ; k++ {
		if k > maxUnroll {
			f.rollback(sn)
			return nil, false
		}
		dk := "decided." + fr.fn.Name() + l.head.String()
		for i := range edges {
			edges[i].st.c[dk] = false
		}
		ex, backs := f.region_(fr, l.blocks, l, l.head, edges, nil)
		undecided := false
		for _, e := range backs {
			if d, _ := e.st.c[dk].(bool); !d {
				undecided = true
			}
		}
		if undecided {
			f.rollback(sn)
			return nil, false
		}
		for to, es := range ex {
			out[to] = append(out[to], es...)
		}
		if len(backs) == 0 {
			break
		}
		edges = backs
	}
	if !f.unroll && !nd {
		// run again with help of solver for arithmetic
		f.rollback(sn)
		f.noDecide = nd
		out = map[*ssa.BasicBlock][]Edge{}
		edges = cloneEdges(entry)
		for len(edges) > 0 {
			ex, backs := f.region_(fr, l.blocks, l, l.head, edges, nil)
			for to, es := range ex {
				out[to] = append(out[to], es...)
			}
			edges = backs
		}
	}
	return out, true
}

func (f *FV) block(fr *Frame, blk *ssa.BasicBlock, s *State, dist func(*ssa.BasicBlock, Edge)) {
	for _, in := range blk.Instrs {
		switch i := in.(type) {
		case *ssa.Phi:
		case *ssa.Jump:
			dist(blk.Succs[0], Edge{s, blk, nil})
			return
		case *ssa.If:
			c := f.term(s, i.Cond)
			if f.unroll && !c.isTrue() && !c.isFalse() {
				if f.decide(s, c) {
					c = f.b.True()
				} else if f.decide(s, f.b.Not(c)) {
					c = f.b.False()
				}
			}
			s2 := s.clone()
			if c.isTrue() || c.isFalse() {
				l := fr.fi.inner[blk]
				for ; l != nil; l = l.parent {
					if !l.blocks[blk.Succs[0]] || !l.blocks[blk.Succs[1]] {
						dk := "decided." + fr.fn.Name() + l.head.String()
						s.c[dk], s2.c[dk] = true, true
					}
				}
			}
			dist(blk.Succs[0], Edge{s, blk, c})
			dist(blk.Succs[1], Edge{s2, blk, f.b.Not(c)})
			return
		case *ssa.Return:
			var v Val
			switch len(i.Results) {
			case 0:
			case 1:
				v = f.val(s, i.Results[0])
			default:
				t := &TupleV{}
				for _, r := range i.Results {
					t.v = append(t.v, f.val(s, r))
				}
				v = t
			}
			fr.rets = append(fr.rets, Edge{s, blk, nil})
			fr.vals = append(fr.vals, v)
			return
		case *ssa.Panic:
			f.panics(s, i)
			return
		default:
			var dead bool
			s, dead = f.instr(fr, in, s)
			if dead {
				return
			}
		}
	}
}

// panics: explicit panic is allowed only where contract permits
func (f *FV) panics(s *State, i *ssa.Panic) {
	g := f.b.False()
	class := "panic"
	if f.con != nil && f.con.panics != nil {
		ev := &Eval{f: f, st: s, old: f.entry, names: f.args, fam: f.fam}
		g = ev.boolean(f.con.panics)
		class = "accept"
		f.oblige(s, "accept", "panic for a supported argument", i.Pos(), g)
		// nothing modified before
		for k, v := range s.c {
			if strings.HasPrefix(k, "mem.") && f.entry.c[k] != nil && !sameVal(f.entry.c[k], v) {
				g := f.b.False()
				if t, ok := v.(*Term); ok {
					g = f.b.Eq(t, f.entry.c[k].(*Term))
				}
				f.oblige(s, "accept", "memory modified before panic", i.Pos(), g)
			}
		}
		return
	}
	f.oblige(s, class, "explicit panic reached", i.Pos(), g)
}

// ---- values

func (f *FV) val(s *State, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return f.constant(c)
	case *ssa.Global:
		return &PGlobal{g: c}
	case *ssa.Function:
		return &FuncV{fn: c}
	case *ssa.Builtin:
		return nil
	}
	x, ok := s.env[v]
	if !ok {
		unsup("value %s of %s not available", v.Name(), v.Parent())
	}
	if p, ok := x.(PoisonV); ok {
		unsup("%s", p.why)
	}
	return x
}

func (f *FV) constant(c *ssa.Const) Val {
	if c.Value == nil {
		return f.zero(c.Type())
	}
	b := f.b
	bt, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		unsup("constant %s", c)
	}
	switch {
	case bt.Info()&types.IsBoolean != 0:
		return b.Bool(constant.BoolVal(c.Value))
	case bt.Info()&types.IsInteger != 0:
		iv := constant.ToInt(c.Value)
		n, ok := new(big.Int).SetString(iv.ExactString(), 10)
		if !ok {
			unsup("constant %s", c)
		}
		return b.Big(n)
	case bt.Kind() == types.String:
		return &StrV{constant.StringVal(c.Value)}
	case bt.Info()&types.IsFloat != 0:
		if constant.Sign(c.Value) == 0 {
			return b.Var("zeroF", "F")
		}
		return b.Var("cF_"+sanitize(c.Value.ExactString()), "F")
	}
	unsup("constant %s", c)
	return nil
}

func sanitize(s string) string {
	var sb strings.Builder
	for _, r := range s {
		if r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' {
			sb.WriteRune(r)
		} else {
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func (f *FV) term(s *State, v ssa.Value) *Term {
	x := f.val(s, v)
	if t, ok := x.(*Term); ok {
		return t
	}
	if st, ok := x.(*StrV); ok {
		if st.s == "" {
			return f.b.Var("zeroS", "S")
		}
		return f.b.Var("str_"+sanitize(st.s), "S")
	}
	unsup("%s is not a scalar (%T)", v.Name(), x)
	return nil
}

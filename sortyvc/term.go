package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Terms are hash-consed formulas of many-sorted first-order logic with linear
// integer arithmetic, arrays and uninterpreted functions. Integer terms are kept
// in linear normal form, so equal expressions are identical pointers.

type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
)

func ArrSort(e Sort) Sort { return "(Array Int " + e + ")" }
func (s Sort) elem() Sort { return s[len("(Array Int ") : len(s)-1] }

type Op uint8

const (
	OpVar Op = iota // free constant
	OpBnd           // bound variable
	OpNum
	OpTrue
	OpFalse
	OpNot
	OpAnd
	OpOr
	OpImp
	OpIte
	OpEq
	OpLe  // args[0] <= 0, args[0] is linear
	OpLin // num + sum coef[i]*args[i]
	OpMul // nonlinear product of atoms
	OpDiv // floor division by positive constant num
	OpMod
	OpSel
	OpSto
	OpApp
	OpAll // args: bound vars..., body; trig
	OpEx
)

type Term struct {
	id   int
	op   Op
	sort Sort
	args []*Term
	name string
	num  *big.Int
	coef []*big.Int
	trig [][]*Term
	nb   int  // number of bound vars of a quantifier
	open bool // contains bound variables not bound inside
}

type TermTab struct {
	tab   map[string]*Term
	n     int
	decls []*Term           // free constants in order of creation
	funs  map[string]string // uninterpreted function -> declaration
	fresh map[string]int
}

func NewTab() *TermTab {
	return &TermTab{tab: map[string]*Term{}, funs: map[string]string{}, fresh: map[string]int{}}
}

// one verification task (goroutine) owns one table
type B = TermTab

func (b *B) mk(t *Term, key string) *Term {
	if o := b.tab[key]; o != nil {
		return o
	}
	b.n++
	t.id = b.n
	if t.op == OpBnd {
		t.open = true
	}
	for _, a := range t.args {
		if a.open {
			t.open = true
		}
	}
	if t.op == OpAll || t.op == OpEx {
		t.open = false // we never nest quantifiers over outer bound variables
		bs := map[int]bool{}
		for _, v := range t.args[:t.nb] {
			bs[v.id] = true
		}
		if hasOther(t.args[t.nb], bs) {
			t.open = true
		}
	}
	b.tab[key] = t
	return t
}

func hasOther(t *Term, bs map[int]bool) bool {
	if !t.open {
		return false
	}
	if t.op == OpBnd {
		return !bs[t.id]
	}
	for _, a := range t.args {
		if hasOther(a, bs) {
			return true
		}
	}
	return false
}

func key(op Op, sort Sort, name string, num *big.Int, args []*Term, coef []*big.Int) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%s|%s", op, sort, name)
	if num != nil {
		sb.WriteByte('#')
		sb.WriteString(num.String())
	}
	for i, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if coef != nil {
			sb.WriteByte('*')
			sb.WriteString(coef[i].String())
		}
	}
	return sb.String()
}

func (b *B) node(op Op, sort Sort, name string, num *big.Int, args ...*Term) *Term {
	return b.mk(&Term{op: op, sort: sort, name: name, num: num, args: args}, key(op, sort, name, num, args, nil))
}

func (b *B) True() *Term  { return b.node(OpTrue, SBool, "", nil) }
func (b *B) False() *Term { return b.node(OpFalse, SBool, "", nil) }
func (b *B) Bool(v bool) *Term {
	if v {
		return b.True()
	}
	return b.False()
}

// Var returns the free constant with given name
func (b *B) Var(name string, s Sort) *Term {
	k := key(OpVar, s, name, nil, nil, nil)
	if o := b.tab[k]; o != nil {
		return o
	}
	t := b.mk(&Term{op: OpVar, sort: s, name: name}, k)
	b.decls = append(b.decls, t)
	return t
}

// Fresh returns a new free constant
func (b *B) Fresh(hint string, s Sort) *Term {
	b.fresh[hint]++
	return b.Var(fmt.Sprintf("%s!%d", hint, b.fresh[hint]), s)
}

func (b *B) Num(v int64) *Term    { return b.Big(big.NewInt(v)) }
func (b *B) Big(v *big.Int) *Term { return b.node(OpNum, SInt, "", v) }
func (t *Term) isNum() bool       { return t.op == OpNum }
func (t *Term) isTrue() bool      { return t.op == OpTrue }
func (t *Term) isFalse() bool     { return t.op == OpFalse }
func (t *Term) int64() (int64, bool) {
	if t.op == OpNum && t.num.IsInt64() {
		return t.num.Int64(), true
	}
	return 0, false
}

// linear view of an integer term
func lin(t *Term) (k *big.Int, atoms []*Term, coef []*big.Int) {
	switch t.op {
	case OpNum:
		return t.num, nil, nil
	case OpLin:
		return t.num, t.args, t.coef
	}
	return new(big.Int), []*Term{t}, []*big.Int{big.NewInt(1)}
}

func (b *B) mkLin(k *big.Int, m map[*Term]*big.Int) *Term {
	var at []*Term
	for a, c := range m {
		if c.Sign() != 0 {
			at = append(at, a)
		}
	}
	if len(at) == 0 {
		return b.Big(k)
	}
	sort.Slice(at, func(i, j int) bool { return at[i].id < at[j].id })
	if len(at) == 1 && k.Sign() == 0 && m[at[0]].Cmp(big.NewInt(1)) == 0 {
		return at[0]
	}
	cf := make([]*big.Int, len(at))
	for i, a := range at {
		cf[i] = m[a]
	}
	return b.mk(&Term{op: OpLin, sort: SInt, num: k, args: at, coef: cf}, key(OpLin, SInt, "", k, at, cf))
}

func (b *B) lincomb(ca int64, x *Term, cb int64, y *Term) *Term {
	k := new(big.Int)
	m := map[*Term]*big.Int{}
	add := func(c int64, t *Term) {
		kk, at, cf := lin(t)
		bc := big.NewInt(c)
		k.Add(k, new(big.Int).Mul(bc, kk))
		for i, a := range at {
			if m[a] == nil {
				m[a] = new(big.Int)
			}
			m[a].Add(m[a], new(big.Int).Mul(bc, cf[i]))
		}
	}
	add(ca, x)
	if y != nil {
		add(cb, y)
	}
	return b.mkLin(k, m)
}

func (b *B) Add(x, y *Term) *Term        { return b.lincomb(1, x, 1, y) }
func (b *B) Sub(x, y *Term) *Term        { return b.lincomb(1, x, -1, y) }
func (b *B) AddN(x *Term, n int64) *Term { return b.Add(x, b.Num(n)) }
func (b *B) MulBig(c *big.Int, x *Term) *Term {
	k, at, cf := lin(x)
	m := map[*Term]*big.Int{}
	for i, a := range at {
		m[a] = new(big.Int).Mul(c, cf[i])
	}
	return b.mkLin(new(big.Int).Mul(c, k), m)
}
func (b *B) MulN(c int64, x *Term) *Term { return b.MulBig(big.NewInt(c), x) }

// Mul multiplies polynomials; products of atoms become opaque monomials
func (b *B) Mul(x, y *Term) *Term {
	if x.isNum() {
		return b.MulBig(x.num, y)
	}
	if y.isNum() {
		return b.MulBig(y.num, x)
	}
	kx, ax, cx := lin(x)
	ky, ay, cy := lin(y)
	r := b.Big(new(big.Int).Mul(kx, ky))
	for i, a := range ax {
		r = b.Add(r, b.MulBig(new(big.Int).Mul(cx[i], ky), a))
		for j, c := range ay {
			p, q := a, c
			if p.id > q.id {
				p, q = q, p
			}
			r = b.Add(r, b.MulBig(new(big.Int).Mul(cx[i], cy[j]), b.node(OpMul, SInt, "", nil, p, q)))
		}
	}
	for j, c := range ay {
		r = b.Add(r, b.MulBig(new(big.Int).Mul(cy[j], kx), c))
	}
	return r
}

// DivC: floor division by positive constant
func (b *B) DivC(x *Term, c *big.Int) *Term {
	if x.isNum() {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(x.num, c, m)
		return b.Big(q)
	}
	if c.Cmp(big.NewInt(1)) == 0 {
		return x
	}
	return b.node(OpDiv, SInt, "", c, x)
}

func (b *B) ModC(x *Term, c *big.Int) *Term {
	if x.isNum() {
		return b.Big(new(big.Int).Mod(x.num, c))
	}
	return b.node(OpMod, SInt, "", c, x)
}

func (b *B) Le(x, y *Term) *Term {
	d := b.Sub(x, y)
	if d.isNum() {
		return b.Bool(d.num.Sign() <= 0)
	}
	if d.op == OpLin { // divide by gcd, tighten
		g := new(big.Int)
		for _, c := range d.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(big.NewInt(1)) > 0 {
			m := map[*Term]*big.Int{}
			for i, a := range d.args {
				m[a] = new(big.Int).Div(d.coef[i], g)
			}
			// sum + k <= 0  <=>  sum/g <= floor(-k/g)
			f := new(big.Int)
			f.Div(new(big.Int).Neg(d.num), g)
			d = b.mkLin(f.Neg(f), m)
		}
	}
	return b.node(OpLe, SBool, "", nil, d)
}
func (b *B) Lt(x, y *Term) *Term { return b.Le(b.AddN(x, 1), y) }
func (b *B) Ge(x, y *Term) *Term { return b.Le(y, x) }
func (b *B) Gt(x, y *Term) *Term { return b.Lt(y, x) }

func (b *B) Eq(x, y *Term) *Term {
	if x == y {
		return b.True()
	}
	if x.sort == SBool {
		if x.isTrue() {
			return y
		}
		if y.isTrue() {
			return x
		}
		if x.isFalse() {
			return b.Not(y)
		}
		if y.isFalse() {
			return b.Not(x)
		}
	}
	if x.sort == SInt {
		d := b.Sub(x, y)
		if d.isNum() {
			return b.Bool(d.num.Sign() == 0)
		}
		if x.op == OpLin || y.op == OpLin { // normal form: positive part = negative part
			p, n := b.split(d)
			x, y = p, n
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return b.node(OpEq, SBool, "", nil, x, y)
}

// split linear term into positive and (negated) negative part
func (b *B) split(d *Term) (p, n *Term) {
	k, at, cf := lin(d)
	mp, mn := map[*Term]*big.Int{}, map[*Term]*big.Int{}
	flip := len(cf) > 0 && cf[0].Sign() < 0
	kp, kn := new(big.Int), new(big.Int)
	for i, a := range at {
		c := new(big.Int).Set(cf[i])
		if flip {
			c.Neg(c)
		}
		if c.Sign() > 0 {
			mp[a] = c
		} else {
			mn[a] = c.Neg(c)
		}
	}
	kk := new(big.Int).Set(k)
	if flip {
		kk.Neg(kk)
	}
	if kk.Sign() > 0 {
		kp = kk
	} else {
		kn = kk.Neg(kk)
	}
	return b.mkLin(kp, mp), b.mkLin(kn, mn)
}

func (b *B) Ne(x, y *Term) *Term { return b.Not(b.Eq(x, y)) }

func (b *B) Not(x *Term) *Term {
	switch x.op {
	case OpTrue:
		return b.False()
	case OpFalse:
		return b.True()
	case OpNot:
		return x.args[0]
	case OpLe: // not (d <= 0)  <=>  1 - d <= 0
		return b.node(OpLe, SBool, "", nil, b.lincomb(-1, x.args[0], 1, b.Num(1)))
	}
	return b.node(OpNot, SBool, "", nil, x)
}

func (b *B) nary(op Op, unit, zero *Term, xs []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero || seen[b.Not(x)] {
			return false
		}
		if x.op == op {
			for _, a := range x.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return b.node(op, SBool, "", nil, out...)
}
func (b *B) And(xs ...*Term) *Term { return b.nary(OpAnd, b.True(), b.False(), xs) }
func (b *B) Or(xs ...*Term) *Term  { return b.nary(OpOr, b.False(), b.True(), xs) }
func (b *B) Imp(x, y *Term) *Term {
	if x.isTrue() {
		return y
	}
	if x.isFalse() || y.isTrue() || x == y {
		return b.True()
	}
	if y.isFalse() {
		return b.Not(x)
	}
	return b.node(OpImp, SBool, "", nil, x, y)
}
func (b *B) Ite(c, x, y *Term) *Term {
	if c.isTrue() || x == y {
		return x
	}
	if c.isFalse() {
		return y
	}
	if x.sort == SBool {
		return b.And(b.Imp(c, x), b.Imp(b.Not(c), y))
	}
	return b.node(OpIte, x.sort, "", nil, c, x, y)
}

func (b *B) Sel(m, i *Term) *Term {
	for m.op == OpSto { // read over write when decidable syntactically
		e := b.Eq(m.args[1], i)
		if e.isTrue() {
			return m.args[2]
		}
		if !e.isFalse() {
			break
		}
		m = m.args[0]
	}
	return b.node(OpSel, m.sort.elem(), "", nil, m, i)
}
func (b *B) Sto(m, i, v *Term) *Term { return b.node(OpSto, m.sort, "", nil, m, i, v) }

func (b *B) App(f string, res Sort, args ...*Term) *Term {
	if b.funs[f] == "" {
		var sb strings.Builder
		fmt.Fprintf(&sb, "(declare-fun %s (", f)
		for i, a := range args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(string(a.sort))
		}
		fmt.Fprintf(&sb, ") %s)", res)
		b.funs[f] = sb.String()
	}
	return b.node(OpApp, res, f, nil, args...)
}

func (b *B) Bnd(name string, s Sort) *Term { return b.node(OpBnd, s, name, nil) }

func (b *B) quant(op Op, vars []*Term, body *Term, trig [][]*Term) *Term {
	if body.isTrue() || body.isFalse() {
		return body
	}
	args := append(append([]*Term{}, vars...), body)
	var nm strings.Builder
	for _, ts := range trig {
		nm.WriteByte(';')
		for _, t := range ts {
			fmt.Fprintf(&nm, "%d ", t.id)
		}
	}
	return b.mk(&Term{op: op, sort: SBool, args: args, trig: trig, nb: len(vars)}, key(op, SBool, nm.String(), nil, args, nil))
}

// All: universally quantified formula over integer variables
func (b *B) All(vars []*Term, body *Term, trig ...[]*Term) *Term {
	return b.quant(OpAll, vars, body, trig)
}
func (b *B) Ex(vars []*Term, body *Term, trig ...[]*Term) *Term {
	return b.quant(OpEx, vars, body, trig)
}

// All1 makes (forall a. lo <= a < hi => f(a))
func (b *B) Range(lo, hi *Term, f func(a *Term) (*Term, []*Term)) *Term {
	a := b.Bnd("a", SInt)
	body, trig := f(a)
	return b.All([]*Term{a}, b.Imp(b.And(b.Le(lo, a), b.Lt(a, hi)), body), trig)
}

// Subst replaces free constants / any subterms simultaneously
func (b *B) Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = rec(a)
			ch = ch || as[i] != a
		}
		r := t
		if ch {
			r = b.rebuild(t, as, rec)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func (b *B) rebuild(t *Term, as []*Term, rec func(*Term) *Term) *Term {
	switch t.op {
	case OpNot:
		return b.Not(as[0])
	case OpAnd:
		return b.And(as...)
	case OpOr:
		return b.Or(as...)
	case OpImp:
		return b.Imp(as[0], as[1])
	case OpIte:
		return b.Ite(as[0], as[1], as[2])
	case OpEq:
		return b.Eq(as[0], as[1])
	case OpLe:
		return b.Le(as[0], b.Num(0))
	case OpLin:
		r := b.Big(t.num)
		for i := range as {
			r = b.Add(r, b.MulBig(t.coef[i], as[i]))
		}
		return r
	case OpMul:
		return b.Mul(as[0], as[1])
	case OpDiv:
		return b.DivC(as[0], t.num)
	case OpMod:
		return b.ModC(as[0], t.num)
	case OpSel:
		return b.Sel(as[0], as[1])
	case OpSto:
		return b.Sto(as[0], as[1], as[2])
	case OpApp:
		return b.App(t.name, t.sort, as...)
	case OpAll, OpEx:
		tr := make([][]*Term, len(t.trig))
		for i, ts := range t.trig {
			for _, x := range ts {
				tr[i] = append(tr[i], rec(x))
			}
		}
		return b.quant(t.op, as[:t.nb], as[t.nb], tr)
	}
	panic("rebuild")
}

// ---- printing

func pnum(sb *strings.Builder, n *big.Int) {
	if n.Sign() < 0 {
		fmt.Fprintf(sb, "(- %s)", new(big.Int).Neg(n).String())
	} else {
		sb.WriteString(n.String())
	}
}

func psum(sb *strings.Builder, t *Term) {
	k, at, cf := lin(t)
	n := len(at)
	if k.Sign() != 0 {
		n++
	}
	if n == 0 {
		sb.WriteString("0")
		return
	}
	if n > 1 {
		sb.WriteString("(+")
	}
	one := big.NewInt(1)
	for i, a := range at {
		if n > 1 {
			sb.WriteByte(' ')
		}
		if cf[i].Cmp(one) == 0 {
			print(sb, a)
		} else {
			sb.WriteString("(* ")
			pnum(sb, cf[i])
			sb.WriteByte(' ')
			print(sb, a)
			sb.WriteByte(')')
		}
	}
	if k.Sign() != 0 {
		if n > 1 {
			sb.WriteByte(' ')
		}
		pnum(sb, k)
	}
	if n > 1 {
		sb.WriteByte(')')
	}
}

func pargs(sb *strings.Builder, f string, args []*Term) {
	sb.WriteByte('(')
	sb.WriteString(f)
	for _, a := range args {
		sb.WriteByte(' ')
		print(sb, a)
	}
	sb.WriteByte(')')
}

func print(sb *strings.Builder, t *Term) {
	switch t.op {
	case OpVar, OpBnd:
		sb.WriteString(t.name)
	case OpNum:
		pnum(sb, t.num)
	case OpTrue:
		sb.WriteString("true")
	case OpFalse:
		sb.WriteString("false")
	case OpNot:
		pargs(sb, "not", t.args)
	case OpAnd:
		pargs(sb, "and", t.args)
	case OpOr:
		pargs(sb, "or", t.args)
	case OpImp:
		pargs(sb, "=>", t.args)
	case OpIte:
		pargs(sb, "ite", t.args)
	case OpEq:
		pargs(sb, "=", t.args)
	case OpLe:
		d := t.args[0]
		var p, n *Term
		tab := &TermTab{tab: map[string]*Term{}}
		k, at, cf := lin(d)
		mp, mn := map[*Term]*big.Int{}, map[*Term]*big.Int{}
		for i, a := range at {
			if cf[i].Sign() > 0 {
				mp[a] = cf[i]
			} else {
				mn[a] = new(big.Int).Neg(cf[i])
			}
		}
		kp, kn := new(big.Int), new(big.Int)
		if k.Sign() > 0 {
			kp = k
		} else {
			kn = new(big.Int).Neg(k)
		}
		p, n = tab.mkLin(kp, mp), tab.mkLin(kn, mn)
		sb.WriteString("(<= ")
		psum(sb, p)
		sb.WriteByte(' ')
		psum(sb, n)
		sb.WriteByte(')')
	case OpLin:
		psum(sb, t)
	case OpMul:
		pargs(sb, "*", t.args)
	case OpDiv, OpMod:
		if t.op == OpDiv {
			sb.WriteString("(div ")
		} else {
			sb.WriteString("(mod ")
		}
		print(sb, t.args[0])
		sb.WriteByte(' ')
		pnum(sb, t.num)
		sb.WriteByte(')')
	case OpSel:
		pargs(sb, "select", t.args)
	case OpSto:
		pargs(sb, "store", t.args)
	case OpApp:
		if len(t.args) == 0 {
			sb.WriteString(t.name)
		} else {
			pargs(sb, t.name, t.args)
		}
	case OpAll, OpEx:
		if t.op == OpAll {
			sb.WriteString("(forall (")
		} else {
			sb.WriteString("(exists (")
		}
		for _, v := range t.args[:t.nb] {
			fmt.Fprintf(sb, "(%s %s)", v.name, v.sort)
		}
		sb.WriteString(") ")
		if len(t.trig) > 0 {
			sb.WriteString("(! ")
		}
		print(sb, t.args[t.nb])
		for _, ts := range t.trig {
			sb.WriteString(" :pattern (")
			for i, x := range ts {
				if i > 0 {
					sb.WriteByte(' ')
				}
				print(sb, x)
			}
			sb.WriteByte(')')
		}
		if len(t.trig) > 0 {
			sb.WriteByte(')')
		}
		sb.WriteByte(')')
	}
}

func (t *Term) String() string {
	var sb strings.Builder
	print(&sb, t)
	return sb.String()
}

// collect free constants and functions
func (t *Term) collect(seen map[*Term]bool, vars map[*Term]bool, funs map[string]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpVar {
		vars[t] = true
	}
	if t.op == OpApp {
		funs[t.name] = true
	}
	for _, a := range t.args {
		a.collect(seen, vars, funs)
	}
	for _, ts := range t.trig {
		for _, a := range ts {
			a.collect(seen, vars, funs)
		}
	}
}

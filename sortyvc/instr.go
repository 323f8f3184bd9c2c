package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (f *FV) instr(fr *Frame, in ssa.Instruction, s *State) (*State, bool) {
	b := f.b
	switch i := in.(type) {
	case *ssa.DebugRef:
	case *ssa.BinOp:
		s.env[i] = f.binop(s, i)
	case *ssa.UnOp:
		return f.unop(s, i), false
	case *ssa.Alloc:
		s.env[i] = f.alloc(s, i)
	case *ssa.Store:
		f.storeVal(s, f.val(s, i.Addr), f.val(s, i.Val), i.Pos())
	case *ssa.IndexAddr:
		s.env[i] = f.indexAddr(s, i)
	case *ssa.FieldAddr:
		s.env[i] = f.fieldAddr(s, i)
	case *ssa.Field:
		sv, ok := f.val(s, i.X).(*StructV)
		if !ok {
			unsup("field of %T", f.val(s, i.X))
		}
		s.env[i] = sv.f[i.Field]
	case *ssa.Index:
		unsup("index of array value or string")
	case *ssa.Slice:
		s.env[i] = f.slice(s, i)
	case *ssa.Convert:
		s.env[i] = f.convert(s, f.val(s, i.X), i.X.Type(), i.Type(), i.Pos())
	case *ssa.ChangeType:
		s.env[i] = f.val(s, i.X)
	case *ssa.Extract:
		t, ok := f.val(s, i.Tuple).(*TupleV)
		if !ok {
			unsup("extract from %T", f.val(s, i.Tuple))
		}
		s.env[i] = t.v[i.Index]
	case *ssa.MakeClosure:
		fv := &FuncV{fn: i.Fn.(*ssa.Function)}
		for _, x := range i.Bindings {
			fv.bind = append(fv.bind, f.val(s, x))
		}
		s.env[i] = fv
	case *ssa.MakeInterface:
		s.env[i] = f.val(s, i.X)
	case *ssa.MakeChan:
		f.oblige(s, "quota", "channel created although single-goroutine sorting is asked for", i.Pos(), f.mayGo())
		s.env[i] = &ChanV{"sv"}
	case *ssa.MakeSlice:
		n := f.term(s, i.Len)
		c := f.term(s, i.Cap)
		f.oblige(s, "alloc", "allocated size depends on input", i.Pos(), f.isSmall(c))
		f.oblige(s, "panic", "negative or too big make size", i.Pos(), b.And(b.Le(b.Num(0), n), b.Le(n, c)))
		s.env[i] = f.newArr(s, i.Type().Underlying().(*types.Slice).Elem(), n, c)
	case *ssa.Send:
		f.send(s, f.val(s, i.Chan), f.val(s, i.X), i.Pos())
	case *ssa.Go:
		return f.goStmt(s, i), false
	case *ssa.Defer: // executed by RunDefers
		if i.DeferStack != nil {
			unsup("defer on behalf of another function")
		}
	case *ssa.RunDefers:
		for _, d := range deferred(i) {
			_, s = f.call(s, &d.Call, d.Pos())
			if s == nil {
				return nil, true
			}
		}
		return s, false
	case *ssa.Call:
		v, ns := f.call(s, &i.Call, i.Pos())
		if ns == nil {
			return nil, true
		}
		ns.env[i] = v
		return ns, false
	default:
		unsup("instruction %T: %s", in, in)
	}
	return s, false
}

func (f *FV) isSmall(c *Term) *Term {
	if n, ok := c.int64(); ok {
		return f.b.Bool(n <= 4096)
	}
	return f.b.False()
}

// wrap makes t fit an integer type with modular arithmetic; t must be within 2 ranges
func (f *FV) wrap(s *State, t *Term, lo, hi *big.Int) *Term {
	b := f.b
	if f.inRange(s, t, lo, hi) {
		return t
	}
	size := new(big.Int).Add(new(big.Int).Sub(hi, lo), big1)
	if l, h := f.interval(t); l != nil && h != nil && l.Cmp(new(big.Int).Sub(lo, size)) >= 0 && h.Cmp(new(big.Int).Add(hi, size)) <= 0 {
		r := b.Fresh("w", SInt)
		f.bound(s, r, lo, hi)
		f.assume(s, b.Eq(r, b.Ite(b.Lt(b.Big(hi), t), b.Sub(t, b.Big(size)), b.Ite(b.Lt(t, b.Big(lo)), b.Add(t, b.Big(size)), t))))
		return r
	}
	// general: r = (t - lo) mod size + lo
	r := b.Fresh("w", SInt)
	f.bound(s, r, lo, hi)
	f.assume(s, b.Eq(r, b.Add(b.ModC(b.Sub(t, b.Big(lo)), size), b.Big(lo))))
	return r
}

// arith result of type typ: int must not overflow (obligation), others wrap
func (f *FV) arith(s *State, t *Term, typ types.Type, pos token.Pos) *Term {
	lo, hi, signed := f.typeRange(typ)
	if lo == nil {
		return t
	}
	l, h := f.interval(t)
	if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
		return t
	}
	bt := typ.Underlying().(*types.Basic)
	if signed && bt.Kind() == types.Int {
		f.oblige(s, "ovf", "int overflow", pos, f.b.And(f.b.Le(f.b.Big(lo), t), f.b.Le(t, f.b.Big(hi))))
		return t
	}
	return f.wrap(s, t, lo, hi)
}

func (f *FV) binop(s *State, i *ssa.BinOp) Val {
	xv, yv := f.val(s, i.X), f.val(s, i.Y)
	b := f.b
	switch i.Op {
	case token.EQL, token.NEQ:
		r := f.equal(s, xv, yv, i.X.Type())
		if i.Op == token.NEQ {
			r = b.Not(r)
		}
		return r
	}
	x, y := f.term(s, i.X), f.term(s, i.Y)
	typ := i.X.Type()
	bt, _ := typ.Underlying().(*types.Basic)
	if bt == nil {
		unsup("operator %s on %s", i.Op, typ)
	}
	switch i.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		if i.Op == token.GTR || i.Op == token.GEQ {
			x, y = y, x
		}
		kx, ky := f.vkey(x), f.vkey(y)
		if x.sort == SInt {
			f.note(x)
			f.note(y)
		}
		var r *Term
		if i.Op == token.LSS || i.Op == token.GTR {
			r = b.Lt(kx, ky)
		} else {
			r = b.Le(kx, ky)
		}
		if x.sort == "F" {
			r = b.And(b.Not(f.nan(x)), b.Not(f.nan(y)), r)
		}
		return r
	}
	if bt.Info()&types.IsInteger == 0 {
		if bt.Info()&types.IsFloat != 0 {
			return b.Fresh("fop", "F")
		}
		if bt.Info()&types.IsString != 0 {
			f.oblige(s, "alloc", "string concatenation", i.Pos(), b.False())
			return b.Fresh("sop", "S")
		}
		if bt.Info()&types.IsBoolean != 0 {
			switch i.Op {
			case token.AND, token.LAND:
				return b.And(x, y)
			case token.OR, token.LOR:
				return b.Or(x, y)
			}
		}
		unsup("operator %s on %s", i.Op, typ)
	}
	lo, hi, _ := f.typeRange(typ)
	switch i.Op {
	case token.ADD:
		return f.arith(s, b.Add(x, y), typ, i.Pos())
	case token.SUB:
		return f.arith(s, b.Sub(x, y), typ, i.Pos())
	case token.MUL:
		return f.arith(s, b.Mul(x, y), typ, i.Pos())
	case token.QUO, token.REM:
		f.oblige(s, "panic", "division by zero", i.Pos(), b.Ne(y, b.Num(0)))
		if y.isNum() && y.num.Sign() > 0 && f.inRange(s, x, big0, hi) {
			if i.Op == token.QUO {
				return b.DivC(x, y.num)
			}
			return b.ModC(x, y.num)
		}
		if lo.Sign() == 0 || f.inRange(s, x, big0, hi) && f.inRange(s, y, big1, hi) {
			// q*y <= x < q*y+y
			q, r := b.Fresh("q", SInt), b.Fresh("r", SInt)
			f.bound(s, q, big0, hi)
			f.bound(s, r, big0, hi)
			f.assume(s, b.Le(q, x))
			f.assume(s, b.Eq(x, b.Add(b.Mul(q, y), r)))
			f.assume(s, b.Lt(r, y))
			if i.Op == token.QUO {
				return q
			}
			return r
		}
		r := b.Fresh("quo", SInt)
		f.bound(s, r, lo, hi)
		return r
	case token.SHR:
		k, ok := y.int64()
		if !ok || k < 0 {
			unsup("shift by variable")
		}
		return b.DivC(x, new(big.Int).Lsh(big1, uint(k)))
	case token.SHL:
		k, ok := y.int64()
		if !ok || k < 0 || k > 64 {
			unsup("shift by variable")
		}
		return f.arith(s, b.MulBig(new(big.Int).Lsh(big1, uint(k)), x), typ, i.Pos())
	case token.AND:
		for k := 0; k < 2; k++ {
			if y.isNum() && y.num.Sign() >= 0 {
				p := new(big.Int).Add(y.num, big1)
				if p.BitLen() == int(p.TrailingZeroBits())+1 { // mask of low bits
					return b.ModC(x, p)
				}
			}
			x, y = y, x
		}
	case token.XOR, token.OR, token.AND_NOT:
	}
	// bit operations are uninterpreted; only their range is known
	r := b.Fresh("bit", SInt)
	f.bound(s, r, lo, hi)
	f.notes["bit operation "+i.Op.String()+" abstracted"] = true
	return r
}

// note remembers integer thresholds code compares with
func (f *FV) note(t *Term) {
	_, at, _ := lin(t)
	if len(at) == 0 {
		f.consts[t] = true
	}
	for _, a := range at {
		if a.op != OpVar || len(a.name) < 2 || a.name[:2] != "g_" {
			return
		}
	}
	f.consts[t] = true
}

func (f *FV) equal(s *State, x, y Val, typ types.Type) *Term {
	b := f.b
	if st, ok := x.(*StrV); ok {
		x = f.strTerm(st)
	}
	if st, ok := y.(*StrV); ok {
		y = f.strTerm(st)
	}
	switch a := x.(type) {
	case *Term:
		c, ok := y.(*Term)
		if !ok {
			break
		}
		switch a.sort {
		case "F":
			return b.And(b.Not(f.nan(a)), b.Not(f.nan(c)), b.Eq(f.vkey(a), f.vkey(c)))
		case "S":
			return b.Eq(f.vkey(a), f.vkey(c))
		case "L":
			unsup("comparison of slices")
		}
		if a.sort == SInt {
			f.note(a)
			f.note(c)
		}
		return b.Eq(a, c)
	case *PElem:
		switch c := y.(type) {
		case *PElem:
			if a.cls == c.cls {
				return b.Eq(a.addr, c.addr)
			}
			return b.False()
		case PNil:
			return b.False()
		}
	case *PSync:
		if _, ok := y.(PNil); ok && len(a.path) == 0 {
			return a.null
		}
	case *PCell:
		if _, ok := y.(PNil); ok {
			return b.False()
		}
	case PNil:
		if _, ok := y.(PNil); ok {
			return b.True()
		}
		return f.equal(s, y, x, typ)
	case *SliceV: // comparison with nil
		return b.Eq(a.cap, b.Num(0)) // only used as: s == nil; nil iff no memory, conservative
	case *FuncV:
		if _, ok := y.(PNil); ok {
			return b.False()
		}
	case *IfaceV:
		if _, ok := y.(PNil); ok {
			return a.null
		}
	case *ReflectV:
		if _, ok := y.(PNil); ok && a.what == "type" {
			if a.lvl == 0 {
				return a.of.null
			}
			return b.False()
		}
	}
	unsup("comparison of %T and %T", x, y)
	return nil
}

func (f *FV) strTerm(st *StrV) *Term {
	if st.s == "" {
		return f.b.Var("zeroS", "S")
	}
	return f.b.Var("str_"+sanitize(st.s), "S")
}

func (f *FV) unop(s *State, i *ssa.UnOp) *State {
	b := f.b
	switch i.Op {
	case token.NOT:
		s.env[i] = b.Not(f.term(s, i.X))
	case token.SUB:
		x := f.term(s, i.X)
		if x.sort != SInt {
			s.env[i] = b.Fresh("fneg", x.sort)
			return s
		}
		s.env[i] = f.arith(s, b.MulN(-1, x), i.Type(), i.Pos())
	case token.XOR: // ^x = -x-1, or max-x
		x := f.term(s, i.X)
		_, hi, signed := f.typeRange(i.Type())
		if signed {
			s.env[i] = b.AddN(b.MulN(-1, x), -1)
		} else {
			s.env[i] = b.Sub(b.Big(hi), x)
		}
	case token.MUL:
		s.env[i] = f.loadVal(s, f.val(s, i.X), i.Type(), i.Pos())
	case token.ARROW:
		if i.CommaOk {
			unsup("receive with ok")
		}
		s.env[i] = f.recv(s, f.val(s, i.X), i.Type(), i.Pos())
	default:
		unsup("operator %s", i.Op)
	}
	return s
}

// newArr makes a fresh zeroed array in element memory
func (f *FV) newArr(s *State, elem types.Type, n, c *Term) *SliceV {
	b := f.b
	cls := f.p.class(elem)
	if cls == "" {
		unsup("array of %s", elem)
	}
	top := s.term("top")
	base := b.Fresh("arr", SInt)
	f.assume(s, b.Le(top, base))
	nt := b.Fresh("top", SInt)
	f.assume(s, b.Eq(nt, b.Add(base, c)))
	s.c["top"] = nt
	m := f.mem(s, cls)
	z, _ := f.zero(elem).(*Term)
	if k, ok := c.int64(); ok && k <= 16 && z != nil {
		for j := int64(0); j < k; j++ {
			f.assume(s, b.Eq(b.Sel(m, b.AddN(base, j)), z))
		}
		if z.sort == "F" {
			f.assume(s, b.Not(f.nan(z)))
		}
	}
	o := f.own(s, "own", cls)
	a := b.Bnd("a", SInt)
	f.assume(s, b.All([]*Term{a}, b.Imp(b.And(b.Le(base, a), b.Lt(a, nt)), b.Sel(o, a)), []*Term{b.Sel(o, a)}))
	return &SliceV{cls: cls, elem: elem, ptr: base, len: n, cap: c}
}

func (f *FV) alloc(s *State, i *ssa.Alloc) Val {
	t := i.Type().Underlying().(*types.Pointer).Elem()
	if at, ok := t.Underlying().(*types.Array); ok {
		if i.Heap {
			f.oblige(s, "alloc", "allocated size", i.Pos(), f.b.Bool(at.Len() <= 4096))
		}
		n := f.b.Num(at.Len())
		sl := f.newArr(s, at.Elem(), n, n)
		return &PArr{cls: sl.cls, elem: at.Elem(), base: sl.ptr, n: at.Len()}
	}
	f.ncell++
	c := &Cell{id: f.ncell, typ: t, name: i.Comment}
	s.c[cellKey(c)] = f.zero(t)
	f.cellIDs[cellKey(c)] = c
	return &PCell{cell: c}
}

func cellKey(c *Cell) string { return fmt.Sprintf("cell.%d", c.id) }

func (f *FV) indexAddr(s *State, i *ssa.IndexAddr) Val {
	b := f.b
	x := f.val(s, i.X)
	ix := f.term(s, i.Index)
	chk := func(n *Term) {
		f.oblige(s, "panic", "index out of range", i.Pos(), b.And(b.Le(b.Num(0), ix), b.Lt(ix, n)))
	}
	switch x := x.(type) {
	case *SliceV:
		chk(x.len)
		return &PElem{cls: x.cls, elem: x.elem, addr: b.Add(x.ptr, ix)}
	case *PArr:
		chk(b.Num(x.n))
		return &PElem{cls: x.cls, elem: x.elem, addr: b.Add(x.base, ix)}
	case *PGlobal:
		at, ok := x.g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		if ok {
			chk(b.Num(at.Len()))
			return &PGlobal{g: x.g, idx: ix}
		}
	case PNil:
		f.oblige(s, "panic", "nil dereference", i.Pos(), b.False())
	}
	unsup("index of %T", x)
	return nil
}

func (f *FV) fieldAddr(s *State, i *ssa.FieldAddr) Val {
	switch x := f.val(s, i.X).(type) {
	case *PCell:
		return &PCell{cell: x.cell, path: append(append([]int{}, x.path...), i.Field), as: x.as}
	case *PSync:
		f.oblige(s, "panic", "nil dereference", i.Pos(), f.b.Not(x.null))
		return &PSync{null: f.b.False(), typ: x.typ, path: append(append([]int{}, x.path...), i.Field)}
	default:
		unsup("field address of %T", x)
	}
	return nil
}

func (f *FV) slice(s *State, i *ssa.Slice) Val {
	b := f.b
	var ptr, ln, cp *Term
	var cls string
	var elem types.Type
	switch x := f.val(s, i.X).(type) {
	case *SliceV:
		ptr, ln, cp, cls, elem = x.ptr, x.len, x.cap, x.cls, x.elem
	case *PArr:
		n := b.Num(x.n)
		ptr, ln, cp, cls, elem = x.base, n, n, x.cls, x.elem
	default:
		unsup("slicing %T", x)
	}
	lo, hi, mx := b.Num(0), ln, cp
	if i.Low != nil {
		lo = f.term(s, i.Low)
	}
	if i.High != nil {
		hi = f.term(s, i.High)
	}
	if i.Max != nil {
		mx = f.term(s, i.Max)
	}
	f.oblige(s, "panic", "slice bounds out of range", i.Pos(),
		b.And(b.Le(b.Num(0), lo), b.Le(lo, hi), b.Le(hi, mx), b.Le(mx, cp)))
	return &SliceV{cls: cls, elem: elem, ptr: b.Add(ptr, lo), len: b.Sub(hi, lo), cap: b.Sub(mx, lo)}
}

func (f *FV) global(s *State, g *ssa.Global, pos token.Pos) Val {
	b := f.b
	t := g.Type().Underlying().(*types.Pointer).Elem()
	switch g.Name() {
	case "MaxGor": // may change any time, except in scenario mconst
		v := b.Fresh("mg", SInt)
		lo, hi, _ := f.typeRange(t)
		f.bound(s, v, lo, hi)
		f.assume(s, b.Imp(f.mconst, b.Eq(v, f.M)))
		return v
	}
	if g.Pkg != f.p.pkg {
		unsup("global %s", g)
	}
	if f.p.stored[g] == 0 && !token.IsExported(g.Name()) {
		if c := f.p.scal[g]; c != nil {
			return f.constant(c)
		}
	}
	// option variable: fixed during a call
	k := "g_" + g.Name()
	if v, ok := f.entry.c[k]; ok {
		return v
	}
	v := f.symGlobal(g.Name(), t)
	f.entry.c[k] = v
	return v
}

// symGlobal: symbolic value of package level option
func (f *FV) symGlobal(name string, t types.Type) Val {
	b := f.b
	bt, ok := t.Underlying().(*types.Basic)
	if !ok || bt.Info()&types.IsInteger == 0 {
		unsup("global %s", name)
	}
	v := b.Var("g_"+name, SInt)
	if _, ok := f.rng[v]; !ok {
		lo, hi, _ := f.typeRange(t)
		if f.p.bits >= 32 && name != "NaNoption" {
			lo, hi = big0, big.NewInt(1<<31-1)
			if f.p.bits == 32 {
				hi = big.NewInt(1<<29 - 1)
			}
		}
		f.rng[v] = [2]*big.Int{lo, hi}
		n := f.nodes[0]
		n.facts = append(n.facts, b.Le(b.Big(lo), v), b.Le(v, b.Big(hi)))
	}
	return v
}

func getPath(v Val, path []int) Val {
	for _, p := range path {
		sv, ok := v.(*StructV)
		if !ok {
			unsup("field of %T", v)
		}
		v = sv.f[p]
	}
	return v
}

func setPath(v Val, path []int, x Val) Val {
	if len(path) == 0 {
		return x
	}
	sv, ok := v.(*StructV)
	if !ok {
		unsup("field of %T", v)
	}
	n := &StructV{f: append([]Val{}, sv.f...)}
	n.f[path[0]] = setPath(sv.f[path[0]], path[1:], x)
	return n
}

func (f *FV) loadVal(s *State, p Val, t types.Type, pos token.Pos) Val {
	b := f.b
	switch p := p.(type) {
	case *PElem:
		v := f.load(s, p.cls, p.elem, p.addr, pos)
		return f.retype(s, v, p.elem, t, pos)
	case *PCell:
		if sh, _ := s.c["shared."+cellKey(p.cell)].(bool); sh {
			if len(p.path) == 1 {
				if v, ok := getPath(s.c[cellKey(p.cell)], p.path).(*ChanV); ok {
					return v
				}
				v := b.Fresh("racy", SInt) // unsynchronized read of shared counter
				lo, hi, _ := f.typeRange(t)
				f.bound(s, v, lo, hi)
				return v
			}
			unsup("read of shared variable")
		}
		v := getPath(s.c[cellKey(p.cell)], p.path)
		if v == nil {
			unsup("read of unknown cell")
		}
		if po, ok := v.(PoisonV); ok {
			unsup("%s", po.why)
		}
		if ch, ok := v.(*ChanV); ok && len(p.path) > 0 {
			f.share(s, p.cell)
			return ch
		}
		if p.as != nil {
			ft := p.cell.typ
			for _, k := range p.path {
				ft = ft.Underlying().(*types.Struct).Field(k).Type()
			}
			return f.retype(s, v, ft, p.as, pos)
		}
		return v
	case *PSync:
		f.oblige(s, "panic", "nil dereference", pos, b.Not(p.null))
		if len(p.path) == 1 {
			switch t.Underlying().(type) {
			case *types.Chan:
				return &ChanV{"sv"}
			case *types.Basic:
				v := b.Fresh("racy", SInt)
				lo, hi, _ := f.typeRange(t)
				f.bound(s, v, lo, hi)
				return v
			}
		}
		unsup("load through %T", p)
	case *PGlobal:
		if p.idx != nil {
			tab, ok := f.p.tables[p.g]
			if !ok || f.p.stored[p.g] > 0 {
				unsup("table %s is not constant", p.g.Name())
			}
			r := b.Num(tab[len(tab)-1])
			for k := len(tab) - 2; k >= 0; k-- {
				r = b.Ite(b.Eq(p.idx, b.Num(int64(k))), b.Num(tab[k]), r)
			}
			if r.op == OpIte {
				return f.name(s, "tab", r)
			}
			return r
		}
		return f.global(s, p.g, pos)
	case PNil:
		f.oblige(s, "panic", "nil dereference", pos, b.False())
		return f.freshVal(s, "nilload", t)
	case *UPtr:
		return f.loadVal(s, p.v, t, pos)
	case *SliceV: // pointer cell holding a slice header by conversion
	}
	unsup("load through %T", p)
	return nil
}

func (f *FV) storeVal(s *State, p, v Val, pos token.Pos) {
	b := f.b
	switch p := p.(type) {
	case *PElem:
		if st, ok := v.(*StrV); ok {
			v = f.strTerm(st)
		}
		t, ok := v.(*Term)
		if !ok {
			unsup("store of %T in slice", v)
		}
		if t.sort != elemSort(p.cls) {
			unsup("store of other type in slice")
		}
		f.store(s, p.cls, p.addr, t, pos)
	case *PCell:
		if sh, _ := s.c["shared."+cellKey(p.cell)].(bool); sh {
			f.oblige(s, "join", "plain write to shared variable", pos, b.False())
			return
		}
		if fz, _ := s.c["frozen."+cellKey(p.cell)].(bool); fz {
			f.oblige(s, "join", "write to variable another goroutine uses", pos, b.False())
			return
		}
		if p.as != nil {
			unsup("store through converted pointer")
		}
		s.c[cellKey(p.cell)] = setPath(s.c[cellKey(p.cell)], p.path, v)
	case *PGlobal:
		f.oblige(s, "own", "package variable "+p.g.Name()+" written", pos, b.False())
	case PNil:
		f.oblige(s, "panic", "nil dereference", pos, b.False())
	case *PSync:
		f.oblige(s, "panic", "nil dereference", pos, b.Not(p.null))
		f.oblige(s, "join", "plain write to shared variable", pos, b.False())
	default:
		unsup("store through %T", p)
	}
}

// layout describes memory layout of a type as far as garbage collector cares: one
// letter per word ('p' pointer, 'w' data), or total size for small data
func (p *Program) layout(t types.Type) string {
	ws := p.sizes.Sizeof(types.Typ[types.Uintptr])
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Kind() == types.String:
			return "pw"
		case u.Kind() == types.UnsafePointer:
			return "p"
		case p.sizes.Sizeof(t)%ws == 0:
			r := ""
			for i := int64(0); i < p.sizes.Sizeof(t)/ws; i++ {
				r += "w"
			}
			return r
		}
		return fmt.Sprintf("[%d]", p.sizes.Sizeof(t))
	case *types.Pointer, *types.Chan, *types.Map, *types.Signature:
		return "p"
	case *types.Slice:
		return "pww"
	case *types.Interface:
		return "pp"
	case *types.Struct:
		r := ""
		for i := 0; i < u.NumFields(); i++ {
			r += p.layout(u.Field(i).Type())
		}
		return r
	case *types.Array:
		if u.Len() <= 64 {
			return strings.Repeat(p.layout(u.Elem()), int(u.Len()))
		}
	}
	return "?" + t.String()
}

// retype views value v of type from as type to (unsafe conversion of pointer to it)
func (f *FV) retype(s *State, v Val, from, to types.Type, pos token.Pos) Val {
	if types.Identical(from, to) || types.Identical(from.Underlying(), to.Underlying()) {
		return v
	}
	b := f.b
	fs, ok1 := from.Underlying().(*types.Slice)
	ts, ok2 := to.Underlying().(*types.Slice)
	if ok1 && ok2 {
		sl, ok := v.(*SliceV)
		if !ok {
			unsup("reinterpretation of %s as %s", from, to)
		}
		lf, lt := f.p.layout(fs.Elem()), f.p.layout(ts.Elem())
		cf, ct := f.p.class(fs.Elem()), f.p.class(ts.Elem())
		ok = lf == lt
		f.oblige(s, "layout", fmt.Sprintf("[]%s viewed as []%s", fs.Elem(), ts.Elem()), pos, b.Bool(ok))
		if cf == ct {
			return &SliceV{cls: sl.cls, elem: ts.Elem(), ptr: sl.ptr, len: sl.len, cap: sl.cap}
		}
		unsup("slice of %s viewed as slice of %s", fs.Elem(), ts.Elem())
	}
	if st, ok := v.(*StructV); ok && ok2 && len(st.f) == 3 {
		// sixb.Slice{Data, Len, Cap}
		u, ok := st.f[0].(*UPtr)
		l, ok3 := st.f[1].(*Term)
		c, ok4 := st.f[2].(*Term)
		if ok && ok3 && ok4 {
			if rv, ok := u.v.(*ReflectV); ok {
				return f.viewReflect(s, rv, l, c, ts.Elem(), pos)
			}
		}
		if z, ok := st.f[0].(*Term); ok && z.isNum() && ok3 && ok4 {
			return &SliceV{cls: f.p.class(ts.Elem()), elem: ts.Elem(), ptr: b.Num(0), len: l, cap: c}
		}
	}
	if t, ok := v.(*Term); ok {
		tb, ok := to.Underlying().(*types.Basic)
		if t.sort == "L" && ok && tb.Kind() == types.String {
			return b.App("btos", "S", t) // string header is a prefix of slice header
		}
		lf, lt := f.p.layout(from), f.p.layout(to)
		if lf == lt && t.sort == SInt && f.p.class(from) == f.p.class(to) {
			return v
		}
	}
	unsup("reinterpretation of %s as %s", from, to)
	return nil
}

func (f *FV) convert(s *State, v Val, from, to types.Type, pos token.Pos) Val {
	b := f.b
	fu, tu := from.Underlying(), to.Underlying()
	fb, _ := fu.(*types.Basic)
	tb, _ := tu.(*types.Basic)
	if tb != nil && tb.Kind() == types.UnsafePointer {
		if fb != nil && fb.Kind() == types.Uintptr {
			if rv, ok := v.(*ReflectV); ok {
				return &UPtr{rv}
			}
			if t, ok := v.(*Term); ok {
				return t
			}
		}
		if t, ok := v.(*Term); ok {
			return t
		}
		return &UPtr{v}
	}
	if fb != nil && fb.Kind() == types.UnsafePointer {
		if tb != nil && tb.Kind() == types.Uintptr {
			if t, ok := v.(*Term); ok {
				return t
			}
			return f.freshVal(s, "uptr", to)
		}
		if pt, ok := tu.(*types.Pointer); ok {
			u, ok := v.(*UPtr)
			if !ok {
				unsup("conversion of %T to %s", v, to)
			}
			switch p := u.v.(type) {
			case *PCell:
				return &PCell{cell: p.cell, path: p.path, as: pt.Elem()}
			case *PElem:
				// element copied as another type: it must have the same pointers
				if f.p.sizes.Sizeof(p.elem) != f.p.sizes.Sizeof(pt.Elem()) {
					unsup("%s viewed as %s", p.elem, pt.Elem())
				}
				f.oblige(s, "layout", fmt.Sprintf("%s viewed as %s", p.elem, pt.Elem()), pos, b.Bool(f.p.layout(p.elem) == f.p.layout(pt.Elem())))
				if _, ok := pt.Elem().Underlying().(*types.Array); ok || f.p.class(p.elem) == f.p.class(pt.Elem()) {
					return &PElem{cls: p.cls, elem: p.elem, addr: p.addr}
				}
				unsup("%s viewed as %s", p.elem, pt.Elem())
			}
			unsup("conversion of %T to %s", u.v, to)
		}
	}
	if fb != nil && tb != nil && fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0 {
		t, ok := v.(*Term)
		if !ok {
			unsup("conversion of %T", v)
		}
		lo, hi, _ := f.typeRange(to)
		return f.wrap(s, t, lo, hi)
	}
	if fb != nil && tb != nil {
		ff, tf := fb.Info()&types.IsFloat != 0, tb.Info()&types.IsFloat != 0
		if ff || tf {
			return f.freshVal(s, "conv", to)
		}
	}
	if tb != nil && tb.Kind() == types.String {
		if sl, ok := fu.(*types.Slice); ok {
			if eb, ok := sl.Elem().Underlying().(*types.Basic); ok && eb.Kind() == types.Uint8 {
				f.oblige(s, "alloc", "string conversion", pos, b.False())
				if t, ok := v.(*Term); ok {
					return b.App("btos", "S", t)
				}
			}
		}
	}
	unsup("conversion from %s to %s", from, to)
	return nil
}

// deferred returns what was deferred on every path to r, last first
func deferred(r *ssa.RunDefers) (ds []*ssa.Defer) {
	for _, blk := range r.Parent().Blocks {
		for _, in := range blk.Instrs {
			d, ok := in.(*ssa.Defer)
			if !ok {
				continue
			}
			switch reaches := func(from, to *ssa.BasicBlock) bool {
				seen := map[*ssa.BasicBlock]bool{}
				var walk func(b *ssa.BasicBlock) bool
				walk = func(b *ssa.BasicBlock) bool {
					for _, c := range b.Succs {
						if c == to || !seen[c] && func() bool { seen[c] = true; return walk(c) }() {
							return true
						}
					}
					return false
				}
				return walk(from)
			}; {
			case reaches(blk, blk):
				unsup("defer in a loop")
			case blk.Dominates(r.Block()): // also of the same block, which ends with r
				ds = append(ds, d)
			case reaches(blk, r.Block()):
				unsup("conditional defer")
			}
		}
	}
	// those that dominate r are ordered by dominance
	pos := func(d *ssa.Defer) (n int) {
		for _, in := range d.Block().Instrs {
			if in == ssa.Instruction(d) {
				return
			}
			n++
		}
		return
	}
	sort.Slice(ds, func(i, k int) bool {
		bi, bk := ds[i].Block(), ds[k].Block()
		if bi == bk {
			return pos(ds[i]) > pos(ds[k])
		}
		return bk.Dominates(bi)
	})
	return
}

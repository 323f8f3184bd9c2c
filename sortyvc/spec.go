package main

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Contracts are read from text files:
//
//	template NAME          start of a template, up to the next template/family/end
//	family X Y : A=b C=d   instantiate templates for $X = X, Y with other $-variables
//	  use NAME
//	func f$X(a, b)         contract of a function; parameters are named by position
//	  cases n 6 8          verify separately for these values of a parameter
//	  requires label: expr
//	  ensures label: expr
//	  modifies window
//	  reads window
//	  decreases expr
//	  consumes window if expr
//	  panics iff expr
//	  attr inline unroll nonan bylen
//
// Expressions have Go syntax.

type Clause struct {
	label string
	src   string
	ex    ast.Expr
}

type Family struct {
	name  string
	byLen bool
}

type Contract struct {
	name    string
	tmpl    string // name before instantiation
	fam     *Family
	params  []string
	reqs    []Clause
	ens     []Clause
	mods    []Clause
	reads   []Clause
	dec     *Clause
	budget  *Clause
	invokes *Clause // condition under which user's function is called
	cons    *Clause // window
	consIf  *Clause
	panics  ast.Expr
	also    *Clause
	long    ast.Expr
	caseOf  string
	cases   []int64
	unroll  bool
	inline  bool
	nonan   bool
	light   bool // contract is not about contents of memory
	perm    bool
	trusted bool
	attrs   map[string]bool
}

type Spec struct {
	p       *Program
	cons    map[string]*Contract
	order   []string
	admis   ast.Expr
	mean    map[*ssa.Function]bool
	callees map[*ssa.Function]map[*ssa.Function]bool
	mu      sync.Mutex
}

// content tells whether a clause is about the contents of memory
func content(x ast.Expr) bool {
	found := false
	ast.Inspect(x, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.IndexExpr:
			found = true
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok {
				switch id.Name {
				case "sorted", "each", "eachpair", "pairs":
					found = true
				}
			}
		}
		return !found
	})
	return found
}

// dropContent leaves what contracts say about ranges, permutation, ownership and so on
func (sp *Spec) dropContent() {
	for _, c := range sp.cons {
		if !strings.Contains(" "+strings.Join(c.params, " ")+" ", " lsw ") {
			continue
		}
		keep := func(cs []Clause) (out []Clause) {
			for _, cl := range cs {
				if !content(cl.ex) {
					out = append(out, cl)
				}
			}
			return
		}
		c.reqs, c.ens = keep(c.reqs), keep(c.ens)
		c.light = true
		for _, cl := range append(append([]Clause{}, c.reqs...), c.ens...) {
			if strings.Contains(cl.src, "some") {
				c.light = false
			}
		}
	}
}

func LoadSpec(p *Program, dir string) (*Spec, error) {
	sp := &Spec{p: p, cons: map[string]*Contract{}, mean: map[*ssa.Function]bool{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	tmpl := map[string][]string{}
	for _, fn := range files {
		data, err := os.ReadFile(fn)
		if err != nil {
			return nil, err
		}
		var cur string // template being defined
		var vars []map[string]string
		var con []*Contract
		for ln, l := range strings.Split(string(data), "\n") {
			if k := strings.Index(l, "//"); k >= 0 {
				l = l[:k]
			}
			l = strings.TrimSpace(l)
			if l == "" {
				continue
			}
			w := strings.Fields(l)
			bad := func(err error) error { return fmt.Errorf("%s:%d: %v", fn, ln+1, err) }
			switch w[0] {
			case "template":
				cur = w[1]
				continue
			case "end":
				cur, vars, con = "", nil, nil
				continue
			case "family":
				cur, vars, con = "", nil, nil
				x, v, _ := strings.Cut(strings.TrimPrefix(l, "family"), ":")
				for _, n := range strings.Fields(x) {
					m := map[string]string{"X": n}
					for _, kv := range strings.Fields(v) {
						k, val, _ := strings.Cut(kv, "=")
						m[k] = val
					}
					vars = append(vars, m)
				}
				continue
			}
			if cur != "" {
				tmpl[cur] = append(tmpl[cur], l)
				continue
			}
			if w[0] == "use" {
				for _, m := range vars {
					var c *Contract
					for _, t := range tmpl[w[1]] {
						if c, err = sp.line(c, expand(t, m), m); err != nil {
							return nil, bad(err)
						}
						if strings.HasPrefix(t, "func ") {
							c.tmpl = t
						}
					}
				}
				continue
			}
			if vars == nil {
				vars = []map[string]string{{}}
			}
			if len(con) != len(vars) {
				con = make([]*Contract, len(vars))
			}
			for i, m := range vars {
				if con[i], err = sp.line(con[i], expand(l, m), m); err != nil {
					return nil, bad(err)
				}
			}
		}
	}
	sp.align()
	sp.findCases()
	return sp, nil
}

func expand(l string, m map[string]string) string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return len(ks[i]) > len(ks[j]) })
	for _, k := range ks {
		l = strings.ReplaceAll(l, "$"+k, strings.ReplaceAll(m[k], ",", " "))
	}
	return l
}

func (sp *Spec) clause(s string) (*Clause, error) {
	c := &Clause{}
	if k := strings.Index(s, ":"); k > 0 && !strings.ContainsAny(s[:k], "( ") {
		c.label, s = s[:k], s[k+1:]
	}
	c.src = strings.TrimSpace(s)
	e, err := parser.ParseExpr(c.src)
	c.ex = e
	return c, err
}

func (sp *Spec) line(c *Contract, l string, m map[string]string) (*Contract, error) {
	w, rest, _ := strings.Cut(l, " ")
	rest = strings.TrimSpace(rest)
	if w == "admissible" {
		e, err := parser.ParseExpr(rest)
		sp.admis = e
		return c, err
	}
	if w == "func" {
		k := strings.IndexByte(rest, '(')
		name := rest[:k]
		c = &Contract{name: name, attrs: map[string]bool{}, fam: &Family{name: m["X"], byLen: strings.HasPrefix(m["X"], "Len")}}
		for _, p := range strings.Split(strings.Trim(rest[k:], "()"), ",") {
			if p = strings.TrimSpace(p); p != "" {
				c.params = append(c.params, p)
			}
		}
		sp.cons[name] = c
		sp.order = append(sp.order, name)
		return c, nil
	}
	if c == nil {
		return nil, fmt.Errorf("clause outside of a function: %s", l)
	}
	var cl *Clause
	var err error
	switch w {
	case "requires":
		if cl, err = sp.clause(rest); err == nil {
			c.reqs = append(c.reqs, *cl)
		}
	case "ensures":
		if cl, err = sp.clause(rest); err == nil {
			if cl.src == "perm()" {
				c.perm = true
			} else {
				c.ens = append(c.ens, *cl)
			}
		}
	case "modifies":
		if cl, err = sp.clause(rest); err == nil {
			c.mods = append(c.mods, *cl)
		}
	case "reads":
		if cl, err = sp.clause(rest); err == nil {
			c.reads = append(c.reads, *cl)
		}
	case "decreases":
		c.dec, err = sp.clause(rest)
	case "invokes":
		c.invokes, err = sp.clause(strings.TrimPrefix(rest, "if "))
	case "budget":
		c.budget, err = sp.clause(rest)
	case "consumes":
		a, b, _ := strings.Cut(rest, " if ")
		if c.cons, err = sp.clause(a); err == nil {
			c.consIf, err = sp.clause(b)
		}
	case "also": // results of another function on the given arguments become q0, q1, ..
		c.also, err = sp.clause(rest)
	case "panics":
		if cl, err = sp.clause(strings.TrimPrefix(rest, "iff ")); err == nil {
			c.panics = cl.ex
		}
	case "concurrent":
		if cl, err = sp.clause(strings.TrimPrefix(rest, "if ")); err == nil {
			c.long = cl.ex
		}
	case "cases":
		f := strings.Fields(rest)
		c.caseOf = f[0]
		for _, s := range f[1:] {
			n, e := strconv.ParseInt(s, 10, 64)
			if e != nil {
				return nil, e
			}
			c.cases = append(c.cases, n)
		}
	case "attr":
		for _, a := range strings.Fields(rest) {
			c.attrs[a] = true
			switch a {
			case "unroll":
				c.unroll = true
			case "inline":
				c.inline = true
			case "nonan":
				c.nonan = true
			}
		}
	default:
		err = fmt.Errorf("unknown clause %s", w)
	}
	if err != nil {
		err = fmt.Errorf("%v in %q", err, l)
	}
	return c, err
}

// findCases: a function verified for some values of a parameter is verified for those its
// callers use
func (sp *Spec) findCases() {
	used := map[*Contract]map[int64]bool{}
	for g := range ssautil.AllFunctions(sp.p.prog) {
		if g.Pkg != sp.p.pkg {
			continue
		}
		for _, blk := range g.Blocks {
			for _, in := range blk.Instrs {
				ci, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				h := ci.Common().StaticCallee()
				if h == nil || h.Pkg != sp.p.pkg {
					continue
				}
				c := sp.cons[h.Name()]
				if c == nil || c.caseOf == "" || sp.p.funcs[h.Name()] != h || len(h.Params) != len(c.params) {
					continue
				}
				for i, n := range c.params {
					if n != c.caseOf {
						continue
					}
					if used[c] == nil {
						used[c] = map[int64]bool{}
					}
					k, ok := ci.Common().Args[i].(*ssa.Const)
					if !ok || k.Value == nil {
						used[c][-1] = true
					} else {
						used[c][k.Int64()] = true
					}
				}
			}
		}
	}
	for c, u := range used {
		if u[-1] {
			continue
		}
		c.cases = nil
		for n := range u {
			c.cases = append(c.cases, n)
		}
		sort.Slice(c.cases, func(i, j int) bool { return c.cases[i] < c.cases[j] })
	}
}

// align finds parameters of contracts that are at other positions in the code
func (sp *Spec) align() {
	ofType := func(t types.Type) string {
		switch u := t.Underlying().(type) {
		case *types.Basic:
			if u.Info()&types.IsString != 0 {
				return "val"
			}
			return "int"
		default:
			return fmt.Sprintf("%T", u)
		}
	}
	byName := map[string]string{"s": "*types.Slice", "ch": "*types.Chan", "sv": "*types.Pointer", "lsw": "*types.Signature",
		"fn": "*types.Signature", "ar": "*types.Interface"}
	for name, c := range sp.cons {
		fn := sp.p.funcs[name]
		if fn == nil || len(fn.Params) != len(c.params) {
			continue
		}
		same := true
		shape := func(k int) string {
			if x := byName[c.params[k]]; x != "" {
				return x
			}
			if t := ofType(fn.Params[k].Type()); t == "val" {
				return t
			}
			return "int"
		}
		left := map[string][]string{} // contract's parameters by shape
		for k, p := range fn.Params {
			if t := ofType(p.Type()); t != shape(k) {
				same = false
			}
			x := byName[c.params[k]]
			if x == "" {
				x = "int"
			}
			left[x] = append(left[x], c.params[k])
		}
		if same {
			continue
		}
		var ps []string
		for _, p := range fn.Params {
			t := ofType(p.Type())
			if t == "val" {
				t = "int"
			}
			// the same name first, then the order
			i := 0
			for k, n := range left[t] {
				if n == p.Name() {
					i = k
				}
			}
			if i >= len(left[t]) {
				ps = nil
				break
			}
			ps = append(ps, left[t][i])
			left[t] = append(append([]string{}, left[t][:i]...), left[t][i+1:]...)
		}
		if ps != nil {
			c.params = ps
		}
	}
}

// contract of a function to be used at calls
func (sp *Spec) contract(fn *ssa.Function) *Contract {
	if fn.Pkg != sp.p.pkg || fn.Parent() != nil || fn.Signature.Recv() != nil {
		return nil
	}
	c := sp.cons[fn.Name()]
	if c == nil || c.inline || len(c.params) != len(fn.Params) {
		return nil
	}
	return c
}

// Eval evaluates contract expressions
type Eval struct {
	f     *FV
	st    *State
	old   *State
	names map[string]Val
	fam   *Family
	nq    *int
}

func (ev *Eval) in(st *State) *Eval {
	e := *ev
	e.st = st
	return &e
}

func (ev *Eval) with(k string, v Val) *Eval {
	e := *ev
	e.names = map[string]Val{}
	for a, b := range ev.names {
		e.names[a] = b
	}
	e.names[k] = v
	return &e
}

func (ev *Eval) bnd() *Term {
	if ev.nq == nil {
		ev.nq = new(int)
	}
	*ev.nq++
	return ev.f.b.Bnd(fmt.Sprintf("q%d", *ev.nq), SInt)
}

func (ev *Eval) boolean(e ast.Expr) *Term {
	t, ok := ev.expr(e).(*Term)
	if !ok || t.sort != SBool {
		unsup("contract expression is not boolean")
	}
	return t
}

func (ev *Eval) integer(e ast.Expr) *Term {
	t, ok := ev.expr(e).(*Term)
	if !ok || t.sort != SInt {
		unsup("contract expression is not an integer")
	}
	return t
}

func (ev *Eval) slice(e ast.Expr) *SliceV {
	s, ok := ev.expr(e).(*SliceV)
	if !ok {
		unsup("contract expression is not a slice")
	}
	return s
}

func (ev *Eval) window(e ast.Expr) Window {
	b := ev.f.b
	if c, ok := e.(*ast.CallExpr); ok && c.Fun.(*ast.Ident).Name == "span" {
		s := ev.slice(c.Args[0])
		w := Window{cls: s.cls, lo: b.Add(s.ptr, ev.integer(c.Args[1])), hi: b.Add(s.ptr, ev.integer(c.Args[2]))}
		for _, h := range c.Args[3:] {
			w.holes = append(w.holes, b.Add(s.ptr, ev.integer(h)))
		}
		return w
	}
	s := ev.slice(e)
	return Window{cls: s.cls, lo: s.ptr, hi: b.Add(s.ptr, s.len)}
}

func (ev *Eval) global(name string) Val {
	f := ev.f
	switch m := f.p.pkg.Members[name].(type) {
	case *ssa.NamedConst:
		if v := constant.ToInt(m.Value.Value); v.Kind() == constant.Int {
			n, _ := new(big.Int).SetString(v.ExactString(), 10)
			return f.b.Big(n)
		}
	case *ssa.Global:
		if name == "MaxGor" {
			return f.M
		}
		k := "g_" + name
		if v, ok := f.entry.c[k]; ok {
			return v
		}
		v := f.symGlobal(name, m.Type().Underlying().(*types.Pointer).Elem())
		f.entry.c[k] = v
		return v
	}
	unsup("unknown name %s in a contract", name)
	return nil
}

// cmp key of an operand
func (ev *Eval) k(v Val) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("comparison of %T in a contract", v)
	}
	if t.sort == "F" || t.sort == "S" || t.sort == "L" {
		return ev.f.famKey(ev.fam, t)
	}
	return t
}

func (ev *Eval) expr(e ast.Expr) Val {
	f := ev.f
	b := f.b
	switch x := e.(type) {
	case *ast.ParenExpr:
		return ev.expr(x.X)
	case *ast.BasicLit:
		n, ok := new(big.Int).SetString(x.Value, 0)
		if !ok {
			unsup("literal %s", x.Value)
		}
		return b.Big(n)
	case *ast.Ident:
		if v, ok := ev.names[x.Name]; ok {
			return v
		}
		switch x.Name {
		case "true":
			return b.True()
		case "false":
			return b.False()
		case "nil":
			return PNil{}
		case "tok":
			return ev.st.term("tok")
		case "A":
			return &SliceV{cls: "A", ptr: b.Num(0), len: b.Var("lenA", SInt), cap: b.Var("lenA", SInt)}
		case "K0", "K1", "K2":
			return f.kindT(int(x.Name[1] - '0'))
		case "mconst":
			return f.mconst
		case "rptr":
			return b.Var("rptr", SInt)
		case "rlen":
			return b.Var("rlen", SInt)
		case "maxint":
			_, hi := intRange(types.Int, f.p.bits)
			return b.Big(hi)
		case "wordbits":
			return b.Num(int64(f.p.bits))
		}
		return ev.global(x.Name)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return b.Not(ev.boolean(x.X))
		case token.SUB:
			return b.MulN(-1, ev.integer(x.X))
		}
	case *ast.IndexExpr:
		s := ev.slice(x.X)
		return b.Sel(f.mem(ev.st, s.cls), b.Add(s.ptr, ev.integer(x.Index)))
	case *ast.BinaryExpr:
		switch x.Op {
		case token.LAND:
			return b.And(ev.boolean(x.X), ev.boolean(x.Y))
		case token.LOR:
			return b.Or(ev.boolean(x.X), ev.boolean(x.Y))
		}
		l, r := ev.expr(x.X), ev.expr(x.Y)
		switch x.Op {
		case token.EQL, token.NEQ:
			var q *Term
			lt, ok1 := l.(*Term)
			rt, ok2 := r.(*Term)
			if ok1 && ok2 && lt.sort == SBool && rt.sort == SBool {
				q = b.Eq(lt, rt)
			} else if ok1 && ok2 {
				q = b.Eq(ev.k(lt), ev.k(rt))
			} else {
				q = f.equal(ev.st, l, r, nil)
			}
			if x.Op == token.NEQ {
				q = b.Not(q)
			}
			return q
		case token.LEQ:
			return b.Le(ev.k(l), ev.k(r))
		case token.LSS:
			return b.Lt(ev.k(l), ev.k(r))
		case token.GEQ:
			return b.Le(ev.k(r), ev.k(l))
		case token.GTR:
			return b.Lt(ev.k(r), ev.k(l))
		}
		lt, ok1 := l.(*Term)
		rt, ok2 := r.(*Term)
		if !ok1 || !ok2 {
			unsup("arithmetic in a contract")
		}
		switch x.Op {
		case token.ADD:
			return b.Add(lt, rt)
		case token.SUB:
			return b.Sub(lt, rt)
		case token.MUL:
			return b.Mul(lt, rt)
		case token.QUO:
			return b.DivC(lt, rt.num)
		}
	case *ast.CallExpr:
		return ev.call(x.Fun.(*ast.Ident).Name, x.Args)
	}
	unsup("contract expression %T", e)
	return nil
}

func (ev *Eval) call(fn string, args []ast.Expr) Val {
	f := ev.f
	b := f.b
	switch fn {
	case "len":
		switch x := ev.expr(args[0]).(type) {
		case *SliceV:
			return x.len
		case *Term:
			return f.lkey(x)
		}
	case "cap":
		return ev.slice(args[0]).cap
	case "old":
		return ev.in(ev.old).expr(args[0])
	case "imp":
		return b.Imp(ev.boolean(args[0]), ev.boolean(args[1]))
	case "iff":
		return b.Eq(ev.boolean(args[0]), ev.boolean(args[1]))
	case "ite":
		return b.Ite(ev.boolean(args[0]), ev.integer(args[1]), ev.integer(args[2]))
	case "nan":
		return f.nan(ev.expr(args[0]).(*Term))
	case "key":
		return ev.k(ev.expr(args[0]))
	case "view": // argument of dispatch functions as slice of class
		cls := args[0].(*ast.Ident).Name
		l := b.Var("rlen", SInt)
		return &SliceV{cls: cls, ptr: b.Var("rptr", SInt), len: l, cap: l}
	case "slice": // slice(A, lo, hi)
		s := ev.slice(args[0])
		lo, hi := ev.integer(args[1]), ev.integer(args[2])
		return &SliceV{cls: s.cls, elem: s.elem, ptr: b.Add(s.ptr, lo), len: b.Sub(hi, lo), cap: b.Sub(hi, lo)}
	case "each", "some":
		x := args[0].(*ast.Ident).Name
		s := ev.slice(args[1])
		lo, hi := b.Add(s.ptr, ev.integer(args[2])), b.Add(s.ptr, ev.integer(args[3]))
		a := ev.bnd()
		el := b.Sel(f.mem(ev.st, s.cls), a)
		body := ev.with(x, el).boolean(args[4])
		rg := b.And(b.Le(lo, a), b.Lt(a, hi))
		if fn == "each" {
			return b.All([]*Term{a}, b.Imp(rg, body), []*Term{el})
		}
		return b.Ex([]*Term{a}, b.And(rg, body), []*Term{el})
	case "some3": // three distinct positions
		x := args[0].(*ast.Ident).Name
		s := ev.slice(args[1])
		lo, hi := b.Add(s.ptr, ev.integer(args[2])), b.Add(s.ptr, ev.integer(args[3]))
		var qs, els, c []*Term
		for i := 0; i < 3; i++ {
			a := ev.bnd()
			el := b.Sel(f.mem(ev.st, s.cls), a)
			qs, els = append(qs, a), append(els, el)
			c = append(c, b.Le(lo, a), b.Lt(a, hi), ev.with(x, el).boolean(args[4]))
			for _, o := range qs[:i] {
				c = append(c, b.Lt(o, a))
			}
		}
		return b.Ex(qs, b.And(c...), els)
	case "sorted":
		s := ev.slice(args[0])
		lo, hi := s.ptr, b.Add(s.ptr, s.len)
		if len(args) == 3 {
			lo, hi = b.Add(s.ptr, ev.integer(args[1])), b.Add(s.ptr, ev.integer(args[2]))
		}
		x, y := ev.bnd(), ev.bnd()
		m := f.mem(ev.st, s.cls)
		ex, ey := b.Sel(m, x), b.Sel(m, y)
		return b.All([]*Term{x, y}, b.Imp(b.And(b.Le(lo, x), b.Lt(x, y), b.Lt(y, hi)), b.Le(ev.k(ex), ev.k(ey))), []*Term{ex, ey})
	case "adjacent": // every neighbouring pair x, y satisfies P
		n1, n2 := args[0].(*ast.Ident).Name, args[1].(*ast.Ident).Name
		s := ev.slice(args[2])
		x := ev.bnd()
		m := f.mem(ev.st, s.cls)
		ex, ey := b.Sel(m, x), b.Sel(m, b.AddN(x, 1))
		body := ev.with(n1, ex).with(n2, ey).boolean(args[3])
		return b.All([]*Term{x}, b.Imp(b.And(b.Le(s.ptr, x), b.Lt(b.AddN(x, 1), b.Add(s.ptr, s.len))), body), []*Term{ex})
	case "eachpair": // eachpair(x, y, s, P): all positions x before y
		n1, n2 := args[0].(*ast.Ident).Name, args[1].(*ast.Ident).Name
		s := ev.slice(args[2])
		x, y := ev.bnd(), ev.bnd()
		m := f.mem(ev.st, s.cls)
		ex, ey := b.Sel(m, x), b.Sel(m, y)
		body := ev.with(n1, ex).with(n2, ey).boolean(args[3])
		return b.All([]*Term{x, y}, b.Imp(b.And(b.Le(s.ptr, x), b.Lt(x, y), b.Lt(y, b.Add(s.ptr, s.len))), body), []*Term{ex, ey})
	case "pairs": // s[lo1,hi1) <= s[lo2,hi2)
		s := ev.slice(args[0])
		var q [4]*Term
		for i := range q {
			q[i] = b.Add(s.ptr, ev.integer(args[i+1]))
		}
		x, y := ev.bnd(), ev.bnd()
		m := f.mem(ev.st, s.cls)
		ex, ey := b.Sel(m, x), b.Sel(m, y)
		return b.All([]*Term{x, y}, b.Imp(b.And(b.Le(q[0], x), b.Lt(x, q[1]), b.Le(q[2], y), b.Lt(y, q[3])), b.Le(ev.k(ex), ev.k(ey))), []*Term{ex, ey})
	case "same": // window unchanged
		w := ev.window(&ast.CallExpr{Fun: ast.NewIdent("span"), Args: args})
		x := ev.bnd()
		m, o := f.mem(ev.st, w.cls), f.mem(ev.old, w.cls)
		return b.All([]*Term{x}, b.Imp(w.in(b, x), b.Eq(b.Sel(m, x), b.Sel(o, x))), []*Term{b.Sel(m, x)}, []*Term{b.Sel(o, x)})
	case "own", "rd":
		if fn == "rd" {
			if _, ok := ev.names["A"]; ok {
				fn = "own"
			}
		}
		w := Window{}
		if len(args) == 1 {
			w = ev.window(args[0])
		} else {
			w = ev.window(&ast.CallExpr{Fun: ast.NewIdent("span"), Args: args})
		}
		x := ev.bnd()
		o := b.Sel(f.own(ev.st, fn, w.cls), x)
		if fn == "rd" {
			o2 := b.Sel(f.own(ev.st, "own", w.cls), x)
			return b.All([]*Term{x}, b.Imp(w.in(b, x), b.Or(o, o2)), []*Term{o}, []*Term{o2})
		}
		return b.All([]*Term{x}, b.Imp(w.in(b, x), o), []*Term{o})
	case "pred": // value of the user's predicate
		return b.App("p", SBool, ev.integer(args[0]))
	case "mono": // predicate stays true
		x, y := ev.bnd(), ev.bnd()
		px, py := b.App("p", SBool, x), b.App("p", SBool, y)
		return b.All([]*Term{x, y}, b.Imp(b.And(b.Lt(x, y), px), py), []*Term{px, py})
	case "allint": // allint(x, P): for every integer x; only to be proved, has no trigger
		q := ev.bnd()
		return b.All([]*Term{q}, ev.with(args[0].(*ast.Ident).Name, q).boolean(args[1]))
	case "eachint", "eachint2":
		k := 1
		if fn == "eachint2" {
			k = 2
		}
		e2 := ev
		var qs []*Term
		for i := 0; i < k; i++ {
			q := ev.bnd()
			qs = append(qs, q)
			e2 = e2.with(args[i].(*ast.Ident).Name, q)
		}
		body := e2.boolean(args[k])
		var trig []*Term
		for _, q := range qs {
			trig = append(trig, b.App("p", SBool, q))
		}
		return b.All(qs, body, trig)
	}
	unsup("contract function %s", fn)
	return nil
}

package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is /repo's current source in SSA form for one build configuration
type Program struct {
	hints  Hints
	rl     int
	weak   bool
	cfg    string
	prog   *ssa.Program
	pkg    *ssa.Package
	sixb   *ssa.Package
	funcs  map[string]*ssa.Function // package level functions of sorty by name
	bits   int                      // word size
	tune   bool
	sizes  types.Sizes
	tables map[*ssa.Global][]int64 // constant integer tables
	scal   map[*ssa.Global]*ssa.Const
	stored map[*ssa.Global]int // stores outside of package initializer
	atoms  map[string]bool
}

func Load(dir string, tune bool, arch string) (*Program, error) {
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	if arch != "" {
		env = append(env, "GOARCH="+arch)
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: env}
	if tune {
		cfg.BuildFlags = []string{"-tags", "tuneparam"}
	}
	pkgs, err := packages.Load(cfg, ".", "github.com/jfcg/sixb")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("%s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	p := &Program{prog: prog, funcs: map[string]*ssa.Function{}, tune: tune,
		tables: map[*ssa.Global][]int64{}, stored: map[*ssa.Global]int{}, scal: map[*ssa.Global]*ssa.Const{}}
	for i, s := range sp {
		if s == nil {
			return nil, fmt.Errorf("no SSA package for %s", pkgs[i].PkgPath)
		}
		if strings.HasSuffix(pkgs[i].PkgPath, "/sixb") {
			p.sixb = s
		} else {
			p.pkg = s
		}
		p.sizes = pkgs[i].TypesSizes
	}
	if p.pkg == nil {
		return nil, fmt.Errorf("package sorty not found")
	}
	prog.Build()
	p.bits = 8 * int(p.sizes.Sizeof(types.Typ[types.Int]))
	for n, m := range p.pkg.Members {
		if f, ok := m.(*ssa.Function); ok {
			p.funcs[n] = f
		}
	}
	p.globals()
	return p, nil
}

// All functions of package with anonymous ones
func (p *Program) all() []*ssa.Function {
	var out []*ssa.Function
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		out = append(out, f)
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	var ns []string
	for n := range p.funcs {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		add(p.funcs[n])
	}
	for _, m := range p.pkg.Members { // methods
		if t, ok := m.(*ssa.Type); ok {
			for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
				ms := p.prog.MethodSets.MethodSet(ty)
				for i := 0; i < ms.Len(); i++ {
					if f := p.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" {
						add(f)
					}
				}
			}
		}
	}
	return out
}

// globals finds package variables that have constant initial values and are never
// assigned later: lookup tables. Others are symbolic.
func (p *Program) globals() {
	bad := map[*ssa.Global]bool{}
	for _, f := range p.all() {
		init := f.Synthetic != "" && f.Name() == "init"
		for _, blk := range f.Blocks {
			for _, in := range blk.Instrs {
				var ops [8]*ssa.Value
				for _, op := range in.Operands(ops[:0]) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != p.pkg {
						continue
					}
					switch i := in.(type) {
					case *ssa.UnOp: // load
					case *ssa.Store:
						if i.Val == g {
							bad[g] = true
						} else if init {
							if c, ok := i.Val.(*ssa.Const); ok {
								p.scal[g] = c
							} else if tab := literal(i.Val); tab != nil && p.tables[g] == nil {
								p.tables[g] = tab
							} else {
								bad[g] = true
							}
						} else {
							p.stored[g]++
						}
					case *ssa.IndexAddr:
						for _, r := range *i.Referrers() {
							switch r := r.(type) {
							case *ssa.UnOp:
							case *ssa.Store:
								ix, ok1 := i.Index.(*ssa.Const)
								v, ok2 := r.Val.(*ssa.Const)
								at, ok3 := g.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
								if r.Addr != i || !init || !ok1 || !ok2 || !ok3 {
									bad[g] = true
									break
								}
								if p.tables[g] == nil {
									p.tables[g] = make([]int64, at.Len())
								}
								p.tables[g][ix.Int64()] = v.Int64()
							default:
								bad[g] = true
							}
						}
					default:
						bad[g] = true
					}
				}
			}
		}
	}
	for g := range bad {
		delete(p.tables, g)
		delete(p.scal, g)
		p.stored[g]++
	}
}

// literal: value of an array literal in package initializer
func literal(v ssa.Value) []int64 {
	ld, ok := v.(*ssa.UnOp)
	if !ok {
		return nil
	}
	al, ok := ld.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	at, ok := al.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
	if !ok {
		return nil
	}
	tab := make([]int64, at.Len())
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.IndexAddr:
			ix, ok := r.Index.(*ssa.Const)
			if !ok {
				return nil
			}
			for _, q := range *r.Referrers() {
				st, ok := q.(*ssa.Store)
				if !ok || st.Addr != r {
					return nil
				}
				c, ok := st.Val.(*ssa.Const)
				if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
					return nil
				}
				tab[ix.Int64()] = c.Int64()
			}
		default:
			return nil
		}
	}
	return tab
}

package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"strings"
)

// Copies of source files with calls of hooks, for the search of failing inputs only.
// Added: vYield() between statements, vEnter()/vExit() in functions that get a slice or a
// Lesswap, vGo() before go statements, vChan() before channels are made. The start-up check
// is renamed to be called by the harness. Comments are dropped, build constraints are kept.

func hookFile(name string, decls map[string]*ast.FuncType, ren bool) ([]byte, bool, error) {
	src, err := os.ReadFile(name)
	if err != nil {
		return nil, false, err
	}
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, name, src, 0)
	if err != nil {
		return nil, false, err
	}
	hasInit := false
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		if fd.Name.Name == "init" && fd.Recv == nil && ren && !hasInit {
			fd.Name.Name = "vInit0"
			hasInit = true
			continue
		}
		h := &hooker{decls: decls}
		h.block(fd.Body)
		if r := rangeOf(fd.Type); r != nil && fd.Recv == nil {
			enter := &ast.ExprStmt{X: call("vEnter", str(fd.Name.Name), r)}
			exit := &ast.DeferStmt{Call: call("vExit")}
			fd.Body.List = append([]ast.Stmt{enter, exit}, fd.Body.List...)
		}
	}
	var out bytes.Buffer
	pre := src[:fs.Position(f.Package).Offset]
	for _, l := range strings.Split(string(pre), "\n") {
		if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build") {
			out.WriteString(l + "\n")
		}
	}
	out.WriteString("\n")
	if err := printer.Fprint(&out, fs, f); err != nil {
		return nil, false, err
	}
	return out.Bytes(), hasInit, nil
}

type hooker struct{ decls map[string]*ast.FuncType }

func call(f string, args ...ast.Expr) *ast.CallExpr {
	return &ast.CallExpr{Fun: ast.NewIdent(f), Args: args}
}

func str(s string) ast.Expr {
	return &ast.BasicLit{Kind: token.STRING, Value: fmt.Sprintf("%q", s)}
}

func (h *hooker) list(in []ast.Stmt) (out []ast.Stmt) {
	for _, s := range in {
		out = append(out, h.before(s)...)
		h.inside(s)
		out = append(out, s)
	}
	return
}

func (h *hooker) block(b *ast.BlockStmt) {
	if b != nil {
		b.List = h.list(b.List)
	}
}

func (h *hooker) before(s ast.Stmt) (out []ast.Stmt) {
	switch x := s.(type) {
	case *ast.BranchStmt, *ast.DeclStmt, *ast.EmptyStmt:
		return
	case *ast.GoStmt:
		if n := h.goRange(x.Call); n != nil {
			out = append(out, &ast.ExprStmt{X: n})
		}
	}
	if hasChan(s) {
		out = append(out, &ast.ExprStmt{X: call("vChan")})
	}
	return append(out, &ast.ExprStmt{X: call("vYield")})
}

// a channel is made in s itself
func hasChan(s ast.Stmt) (yes bool) {
	switch s.(type) {
	case *ast.AssignStmt, *ast.ExprStmt, *ast.ReturnStmt, *ast.GoStmt, *ast.SendStmt:
	default:
		return
	}
	ast.Inspect(s, func(n ast.Node) bool {
		switch x := n.(type) {
		case *ast.FuncLit:
			return false
		case *ast.CallExpr:
			if id, ok := x.Fun.(*ast.Ident); ok && id.Name == "make" && len(x.Args) > 0 {
				if _, ok := x.Args[0].(*ast.ChanType); ok {
					yes = true
				}
			}
		}
		return true
	})
	return
}

func (h *hooker) inside(s ast.Stmt) {
	switch x := s.(type) {
	case *ast.BlockStmt:
		h.block(x)
	case *ast.IfStmt:
		h.block(x.Body)
		if x.Else != nil {
			h.inside(x.Else)
		}
	case *ast.ForStmt:
		h.block(x.Body)
	case *ast.RangeStmt:
		h.block(x.Body)
	case *ast.LabeledStmt:
		h.inside(x.Stmt)
	case *ast.SwitchStmt:
		h.clauses(x.Body)
	case *ast.TypeSwitchStmt:
		h.clauses(x.Body)
	case *ast.SelectStmt:
		h.clauses(x.Body)
	case *ast.GoStmt:
		h.lit(x.Call)
	case *ast.DeferStmt:
		h.lit(x.Call)
	case *ast.ExprStmt:
		h.lit(x.X)
	}
}

func (h *hooker) lit(e ast.Expr) {
	ast.Inspect(e, func(n ast.Node) bool {
		if f, ok := n.(*ast.FuncLit); ok {
			h.block(f.Body)
			return false
		}
		return true
	})
}

func (h *hooker) clauses(b *ast.BlockStmt) {
	for _, s := range b.List {
		switch c := s.(type) {
		case *ast.CaseClause:
			c.Body = h.list(c.Body)
		case *ast.CommClause:
			c.Body = h.list(c.Body)
		}
	}
}

func flat(t *ast.FuncType) (names []string, types []ast.Expr) {
	for _, f := range t.Params.List {
		if len(f.Names) == 0 {
			names = append(names, "_")
			types = append(types, f.Type)
		}
		for _, n := range f.Names {
			names = append(names, n.Name)
			types = append(types, f.Type)
		}
	}
	return
}

func isSlice(t ast.Expr) bool {
	a, ok := t.(*ast.ArrayType)
	return ok && a.Len == nil
}

func isName(t ast.Expr, n string) bool {
	id, ok := t.(*ast.Ident)
	return ok && id.Name == n
}

// where the range of a function is in its parameters: a slice, or lo and hi after a Lesswap
func rangeIdx(t *ast.FuncType) (slc, lo, hi int, conc bool) {
	names, types := flat(t)
	slc, lo, hi = -1, -1, -1
	ints, slcs, lsw := 0, 0, false
	for i, x := range types {
		switch {
		case isSlice(x):
			slc = i
			slcs++
		case isName(x, "Lesswap"):
			lsw = true
		case isName(x, "int"):
			ints++
			switch strings.ToLower(names[i]) {
			case "lo", "l":
				lo = i
			case "hi", "h":
				hi = i
			}
		}
		if _, ok := x.(*ast.ChanType); ok {
			conc = true
		}
	}
	if slcs != 1 || ints != 0 {
		slc = -1
	}
	if !lsw || ints != 2 || lo < 0 || hi < 0 {
		lo, hi = -1, -1
	}
	return
}

// expression of the length of a function's range, -1 if not known. nil: not a sorting function
func rangeOf(t *ast.FuncType) ast.Expr {
	names, types := flat(t)
	is := false
	for i, x := range types {
		if (isSlice(x) || isName(x, "Lesswap")) && names[i] != "_" {
			is = true
		}
	}
	if !is {
		return nil
	}
	slc, lo, hi, _ := rangeIdx(t)
	if slc >= 0 {
		return call("len", ast.NewIdent(names[slc]))
	}
	if lo >= 0 {
		return length(ast.NewIdent(names[lo]), ast.NewIdent(names[hi]))
	}
	return &ast.BasicLit{Kind: token.INT, Value: "-1"}
}

func length(lo, hi ast.Expr) ast.Expr {
	return &ast.BinaryExpr{Op: token.ADD, X: &ast.BinaryExpr{Op: token.SUB, X: &ast.ParenExpr{X: hi}, Y: &ast.ParenExpr{X: lo}},
		Y: &ast.BasicLit{Kind: token.INT, Value: "1"}}
}

func (h *hooker) goRange(c *ast.CallExpr) ast.Expr {
	none := &ast.BasicLit{Kind: token.INT, Value: "-1"}
	id, ok := c.Fun.(*ast.Ident)
	if !ok {
		return call("vGo", str("function"), none)
	}
	t := h.decls[id.Name]
	if t == nil {
		return call("vGo", str(id.Name), none)
	}
	slc, lo, hi, conc := rangeIdx(t)
	if conc {
		return call("vGo", str(id.Name), none)
	}
	pure := func(e ast.Expr) bool {
		ok := true
		ast.Inspect(e, func(n ast.Node) bool {
			switch x := n.(type) {
			case *ast.CallExpr:
				if !isName(x.Fun, "len") {
					ok = false
				}
			case *ast.UnaryExpr:
				if x.Op == token.ARROW {
					ok = false
				}
			}
			return ok
		})
		return ok
	}
	if slc >= 0 && slc < len(c.Args) && pure(c.Args[slc]) {
		return call("vGo", str(id.Name), call("len", c.Args[slc]))
	}
	if lo >= 0 && hi < len(c.Args) && pure(c.Args[lo]) && pure(c.Args[hi]) {
		return call("vGo", str(id.Name), length(c.Args[lo], c.Args[hi]))
	}
	return call("vGo", str(id.Name), none)
}

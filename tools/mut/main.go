// Command mut lists and makes mutations of Go source files.
//
//	mut list FILE...       one line per mutant: index, file:line, function, kind
//	mut make INDEX FILE... prints "file" and the mutated source of that file
package main

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/format"
	"go/parser"
	"go/token"
	"os"
	"strconv"
)

type mutant struct {
	file, fn, kind string
	line           int
	do             func()
}

func main() {
	mode := os.Args[1]
	files := os.Args[2:]
	want := -1
	if mode == "make" {
		want, _ = strconv.Atoi(os.Args[2])
		files = os.Args[3:]
	}
	n := 0
	for _, f := range files {
		fset := token.NewFileSet()
		af, err := parser.ParseFile(fset, f, nil, parser.ParseComments)
		if err != nil {
			panic(err)
		}
		for _, m := range collect(fset, f, af) {
			if mode == "list" {
				fmt.Printf("%d\t%s:%d\t%s\t%s\n", n, m.file, m.line, m.fn, m.kind)
			} else if n == want {
				m.do()
				af.Comments = nil
				var b bytes.Buffer
				if err := format.Node(&b, fset, af); err != nil {
					panic(err)
				}
				fmt.Println(m.file)
				os.Stdout.Write(b.Bytes())
				return
			}
			n++
		}
	}
}

func str(n ast.Node) string {
	var b bytes.Buffer
	format.Node(&b, token.NewFileSet(), n)
	s := b.String()
	if len(s) > 60 {
		s = s[:60]
	}
	r := []byte(s)
	for i := range r {
		if r[i] == '\n' || r[i] == '\t' {
			r[i] = ' '
		}
	}
	return string(r)
}

func collect(fset *token.FileSet, file string, af *ast.File) (ms []mutant) {
	for _, d := range af.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok || fd.Body == nil {
			continue
		}
		name := fd.Name.Name
		if fd.Recv != nil {
			name = str(fd.Recv.List[0].Type) + "." + name
		}
		add := func(n ast.Node, kind string, do func()) {
			ms = append(ms, mutant{file, name, kind, fset.Position(n.Pos()).Line, do})
		}
		list := func(l *[]ast.Stmt) {
			for i, s := range *l {
				i, s := i, s
				switch s := s.(type) {
				case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.SendStmt:
					add(s, "delete "+str(s), func() { (*l)[i] = &ast.EmptyStmt{} })
				case *ast.AssignStmt:
					if s.Tok != token.DEFINE {
						add(s, "delete "+str(s), func() { (*l)[i] = &ast.EmptyStmt{} })
					}
				case *ast.IfStmt:
					if s.Init == nil {
						add(s, "drop if "+str(s.Cond), func() { (*l)[i] = &ast.EmptyStmt{} })
					}
					if s.Else != nil {
						add(s, "drop else of "+str(s.Cond), func() { s.Else = nil })
					}
				case *ast.ReturnStmt:
					if len(s.Results) == 0 && i+1 < len(*l) || len(s.Results) == 0 {
						add(s, "delete return", func() { (*l)[i] = &ast.EmptyStmt{} })
					}
				}
				if d, ok := s.(*ast.DeferStmt); ok {
					add(s, "undefer "+str(s), func() { (*l)[i] = &ast.ExprStmt{X: d.Call} })
				}
				if d, ok := s.(*ast.GoStmt); ok {
					add(s, "ungo "+str(s), func() { (*l)[i] = &ast.ExprStmt{X: d.Call} })
				}
				if i+1 < len(*l) {
					t := (*l)[i+1]
					simple := func(s ast.Stmt) bool {
						switch s := s.(type) {
						case *ast.ExprStmt, *ast.DeferStmt, *ast.IncDecStmt, *ast.SendStmt, *ast.IfStmt:
							return true
						case *ast.AssignStmt:
							return s.Tok != token.DEFINE
						}
						return false
					}
					if simple(s) && simple(t) {
						add(s, "swap "+str(s)+" WITH "+str(t), func() { (*l)[i], (*l)[i+1] = t, s })
					}
				}
			}
		}
		ast.Inspect(fd.Body, func(n ast.Node) bool {
			switch n := n.(type) {
			case *ast.BlockStmt:
				list(&n.List)
			case *ast.CaseClause:
				list(&n.Body)
			case *ast.CommClause:
				list(&n.Body)
			case *ast.IfStmt:
				add(n, "negate "+str(n.Cond), func() { n.Cond = &ast.UnaryExpr{Op: token.NOT, X: &ast.ParenExpr{X: n.Cond}} })
			case *ast.BinaryExpr:
				alt := map[token.Token][]token.Token{
					token.LSS: {token.LEQ, token.GTR}, token.LEQ: {token.LSS}, token.GTR: {token.GEQ, token.LSS}, token.GEQ: {token.GTR},
					token.EQL: {token.NEQ}, token.NEQ: {token.EQL}, token.ADD: {token.SUB}, token.SUB: {token.ADD},
					token.LAND: {token.LOR}, token.LOR: {token.LAND}, token.QUO: {token.MUL}, token.MUL: {token.ADD},
				}
				for _, t := range alt[n.Op] {
					t := t
					add(n, "op "+str(n)+" -> "+t.String(), func() { n.Op = t })
				}
			case *ast.BasicLit:
				if n.Kind == token.INT {
					v, _ := strconv.Atoi(n.Value)
					add(n, "literal "+n.Value+"+1", func() { n.Value = strconv.Itoa(v + 1) })
					if v > 0 {
						add(n, "literal "+n.Value+"-1", func() { n.Value = strconv.Itoa(v - 1) })
					}
				}
			case *ast.CallExpr:
				for i := 0; i+1 < len(n.Args); i++ {
					i := i
					add(n, fmt.Sprintf("swap args %d of %s", i, str(n)), func() { n.Args[i], n.Args[i+1] = n.Args[i+1], n.Args[i] })
				}
				for i := range n.Args {
					i := i
					if id, ok := n.Args[i].(*ast.Ident); ok && i > 0 {
						if jd, ok := n.Args[i-1].(*ast.Ident); ok {
							add(n, "repeat arg of "+str(n), func() { n.Args[i] = ast.NewIdent(jd.Name); _ = id })
						}
					}
				}
			case *ast.Ident:
				alt := map[string]string{"left": "right", "right": "left", "low": "high", "high": "low", "mid": "high", "half": "n",
					"true": "false", "false": "true", "lp": "rp", "p": "q", "left0": "right", "left1": "right1", "right0": "left0", "right1": "left1",
					"b0": "b1", "b1": "b0", "RLock": "Lock"}
				if t, ok := alt[n.Name]; ok {
					add(n, "ident "+n.Name+" -> "+t, func() { n.Name = t })
				}
			}
			return true
		})
	}
	return
}

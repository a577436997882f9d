package main

import (
	"encoding/json"
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
)

// The replay binary: the repository and the harness, with their synchronization
// operations routed through package vs so that a run can follow a schedule.

type edit struct {
	off, del int
	ins      string
	prio     int
}

const vsPath = repoPath + "/zz_verif/vs"

type instrumenter struct {
	fset  *token.FileSet
	info  *types.Info
	edits []edit
	model bool
	n     int
}

func (in *instrumenter) off(p token.Pos) int { return in.fset.Position(p).Offset }

func (in *instrumenter) ins(p token.Pos, s string) { in.rep(p, 0, s) }
func (in *instrumenter) rep(p token.Pos, del int, s string) {
	in.n++
	in.edits = append(in.edits, edit{in.off(p), del, s, in.n})
}

// insEnd inserts at a position where an inner expression ends: inner closings come first.
func (in *instrumenter) insEnd(p token.Pos, s string) {
	in.n++
	in.edits = append(in.edits, edit{in.off(p), 0, s, -in.n})
}

func (in *instrumenter) isPkg(e ast.Expr, path string) bool {
	id, ok := e.(*ast.Ident)
	if !ok {
		return false
	}
	pn, ok := in.info.Uses[id].(*types.PkgName)
	return ok && pn.Imported().Path() == path
}

func (in *instrumenter) file(f *ast.File, src []byte) []byte {
	in.edits = nil
	comm := map[ast.Node]bool{} // receive expressions of select cases
	two := map[ast.Node]bool{}
	uses := map[string]bool{}
	ast.Inspect(f, func(n ast.Node) bool {
		switch n := n.(type) {
		case *ast.AssignStmt:
			if len(n.Lhs) == 2 && len(n.Rhs) == 1 {
				two[unparen(n.Rhs[0])] = true
			}
		case *ast.ValueSpec:
			if len(n.Names) == 2 && len(n.Values) == 1 {
				two[unparen(n.Values[0])] = true
			}
		case *ast.SelectStmt:
			dflt := false
			for _, c := range n.Body.List {
				if c.(*ast.CommClause).Comm == nil {
					dflt = true
				}
			}
			in.ins(n.Pos(), fmt.Sprintf("switch zzvsc := zzvs.Sel(%v); { default: _ = zzvsc; ", dflt))
			in.insEnd(n.End(), " }")
			i := 0
			for _, c := range n.Body.List {
				cc := c.(*ast.CommClause)
				if cc.Comm == nil {
					continue
				}
				switch s := cc.Comm.(type) {
				case *ast.SendStmt:
					comm[s] = true
					in.ins(s.Chan.Pos(), fmt.Sprintf("zzvs.S(zzvsc, %d, ", i))
					in.insEnd(s.Chan.End(), ")")
				case *ast.ExprStmt:
					in.commRecv(unparen(s.X), i, comm)
				case *ast.AssignStmt:
					in.commRecv(unparen(s.Rhs[0]), i, comm)
				}
				in.ins(cc.Colon+1, " zzvs.Joined(); ")
				i++
			}
		case *ast.SendStmt:
			if !comm[n] {
				in.ins(n.Pos(), "zzvs.Send(")
				in.rep(n.Arrow, 2, ",")
				in.insEnd(n.End(), ")")
			}
		case *ast.UnaryExpr:
			if n.Op == token.ARROW && !comm[n] {
				fn := "Recv"
				if two[n] {
					fn = "Recv2"
				}
				in.rep(n.OpPos, 2, "zzvs."+fn+"(")
				in.insEnd(n.End(), ")")
			}
		case *ast.RangeStmt:
			if t := in.info.TypeOf(n.X); t != nil {
				if _, ok := t.Underlying().(*types.Chan); ok {
					in.rep(n.For, in.off(n.X.Pos())-in.off(n.For), "for zzch := (")
					in.insEnd(n.X.End(), "); ; ")
					k := "_, zzok := zzvs.Recv2(zzch)"
					if n.Key != nil {
						id := string(src[in.off(n.Key.Pos()):in.off(n.Key.End())])
						if n.Tok == token.DEFINE {
							k = id + ", zzok := zzvs.Recv2(zzch)"
						} else {
							k = "var zzok bool; " + id + ", zzok = zzvs.Recv2(zzch)"
						}
					}
					in.ins(n.Body.Lbrace+1, " "+k+"; if !zzok { break }; ")
				}
			}
		case *ast.GoStmt:
			c := n.Call
			if fl, ok := c.Fun.(*ast.FuncLit); ok && len(c.Args) == 0 {
				in.rep(n.Go, 2, "zzvs.Go(")
				in.rep(fl.End(), in.off(c.End())-in.off(fl.End()), ")")
			} else {
				l := "zzf"
				args := ""
				for i := range c.Args {
					l += fmt.Sprintf(", zz%d", i)
					if i > 0 {
						args += ", "
					}
					args += fmt.Sprintf("zz%d", i)
				}
				if c.Ellipsis.IsValid() {
					args += "..."
					in.rep(c.Ellipsis, 3, "")
				}
				in.rep(n.Go, 2, "func() { "+l+" := ")
				if len(c.Args) > 0 {
					in.rep(c.Lparen, 1, ",")
				} else {
					in.rep(c.Lparen, 1, "")
				}
				in.rep(c.Rparen, 1, "; zzvs.Go(func() { zzf("+args+") }) }()")
			}
		case *ast.CallExpr:
			if id, ok := n.Fun.(*ast.Ident); ok && id.Name == "close" {
				if _, ok := in.info.Uses[id].(*types.Builtin); ok {
					in.rep(id.Pos(), 5, "zzvs.Close")
				}
			}
			if s, ok := n.Fun.(*ast.SelectorExpr); ok && s.Sel.Name == "Select" && in.isPkg(s.X, "reflect") {
				in.rep(s.Pos(), in.off(s.End())-in.off(s.Pos()), "zzvs.ReflectSelect")
				uses["reflect"] = true
			}
		case *ast.SelectorExpr:
			if !in.model && in.isPkg(n.X, "context") {
				switch n.Sel.Name {
				case "WithCancel", "WithCancelCause", "Cause", "AfterFunc":
					in.rep(n.Pos(), in.off(n.End())-in.off(n.Pos()), "zzmodel."+n.Sel.Name)
					uses["context"] = true
				}
			}
		case *ast.ImportSpec:
			p, _ := strconv.Unquote(n.Path.Value)
			switch p {
			case "sync":
				in.imp(n, "sync", repoPath+"/zz_verif/vsync")
			case "sync/atomic":
				in.imp(n, "atomic", repoPath+"/zz_verif/vatomic")
			case "context":
				uses["context"] = true
			}
		}
		return true
	})
	s := "; import zzvs \"" + vsPath + "\""
	if !in.model {
		s += "; import zzmodel \"" + modelPkg + "\""
	}
	in.ins(f.Name.End(), s)
	sort.SliceStable(in.edits, func(i, j int) bool {
		a, b := in.edits[i], in.edits[j]
		if a.off != b.off {
			return a.off < b.off
		}
		return a.prio < b.prio
	})
	var out []byte
	last := 0
	for _, e := range in.edits {
		if e.off < last {
			continue // inside a replaced region
		}
		out = append(out, src[last:e.off]...)
		out = append(out, e.ins...)
		last = e.off + e.del
	}
	out = append(out, src[last:]...)
	out = append(out, "\nvar _ = zzvs.Op\n"...)
	if !in.model {
		out = append(out, "var _ = zzmodel.WithCancel\n"...)
	}
	for _, im := range f.Imports {
		p, _ := strconv.Unquote(im.Path.Value)
		name := filepath.Base(p)
		if im.Name != nil {
			name = im.Name.Name
		}
		if p == "context" && name != "_" && name != "." {
			out = append(out, "var _ "+name+".Context\n"...)
		}
		if p == "reflect" && uses["reflect"] {
			out = append(out, "var _ "+name+".Kind\n"...)
		}
	}
	if !strings.Contains(string(src[:in.off(f.Package)]), "//go:build") {
		out = append([]byte("//go:build go1.21\n\n"), out...)
	}
	return out
}

func (in *instrumenter) imp(n *ast.ImportSpec, name, path string) {
	s := strconv.Quote(path)
	if n.Name == nil {
		s = name + " " + s
	}
	in.rep(n.Path.Pos(), len(n.Path.Value), s)
}

func (in *instrumenter) commRecv(x ast.Expr, i int, comm map[ast.Node]bool) {
	u, ok := x.(*ast.UnaryExpr)
	if !ok {
		return
	}
	comm[u] = true
	in.ins(u.OpPos+2, fmt.Sprintf(" zzvs.R(zzvsc, %d, ", i))
	in.insEnd(u.End(), ")")
}

func unparen(e ast.Expr) ast.Expr {
	for {
		p, ok := e.(*ast.ParenExpr)
		if !ok {
			return e
		}
		e = p.X
	}
}

// buildReplay writes the instrumented sources below dir and builds the binary.
func buildReplay(repo, hdir, dir string, consts map[string]int64, race, plain bool) (string, error) {
	ov, err := overlayFiles(repo, hdir)
	if err != nil {
		return "", err
	}
	if len(consts) > 0 {
		if _, err := substSource(repo, consts, ov); err != nil {
			return "", err
		}
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir: repo, Overlay: ov, Env: goEnv, Fset: token.NewFileSet(),
	}
	initial, err := packages.Load(cfg, "./zz_verif/h", "./zz_verif/model")
	if err != nil {
		return "", err
	}
	rep := map[string]string{}
	var names []string
	nf := 0
	var werr error
	put := func(path string, b []byte) {
		nf++
		f := filepath.Join(dir, fmt.Sprintf("f%d_%s", nf, filepath.Base(path)))
		if err := os.WriteFile(f, b, 0o644); err != nil {
			werr = err
		}
		rep[path] = f
	}
	for path, b := range ov {
		put(path, b)
	}
	seen := map[*packages.Package]bool{}
	packages.Visit(initial, nil, func(p *packages.Package) {
		if seen[p] || !strings.HasPrefix(p.PkgPath, repoPath) {
			return
		}
		seen[p] = true
		for _, e := range p.Errors {
			werr = fmt.Errorf("%s", e)
		}
		if strings.HasSuffix(p.PkgPath, "/zz_verif/h") {
			sc := p.Types.Scope()
			for _, n := range sc.Names() {
				if f, ok := sc.Lookup(n).(*types.Func); ok && f.Exported() {
					if sg := f.Type().(*types.Signature); sg.Params().Len() == 0 && sg.Results().Len() == 0 {
						names = append(names, n)
					}
				}
			}
		}
		if plain || strings.HasSuffix(p.PkgPath, "/sym") || strings.Contains(p.PkgPath, "/zz_verif/vs") || strings.HasSuffix(p.PkgPath, "/vatomic") {
			return
		}
		in := &instrumenter{fset: cfg.Fset, info: p.TypesInfo, model: strings.HasSuffix(p.PkgPath, "/zz_verif/model")}
		for _, f := range p.Syntax {
			name := cfg.Fset.Position(f.Package).Filename
			if filepath.Base(name) == "native.go" {
				continue
			}
			src := ov[name]
			if src == nil {
				b, err := os.ReadFile(name)
				if err != nil {
					werr = err
					return
				}
				src = b
			}
			put(name, in.file(f, src))
		}
	})
	if werr != nil {
		return "", werr
	}
	sort.Strings(names)
	var sb strings.Builder
	sb.WriteString("//go:build go1.21\n\npackage main\n\nimport (\n\t\"fmt\"\n\t\"os\"\n\t\"runtime\"\n\n")
	for _, s := range []string{"h", "sym", "vs"} {
		fmt.Fprintf(&sb, "\t%q\n", repoPath+"/zz_verif/"+s)
	}
	sb.WriteString(")\n\nfunc main() {\n\tr := sym.Load(os.Args[1])\n\truntime.GOMAXPROCS(2)\n")
	if !plain {
		sb.WriteString("\tsym.DrainHook = vs.Drain\n\tsym.BlockedHook = vs.Blocked\n\tvs.Start(r.Sched)\n")
	} else {
		sb.WriteString("\t_ = vs.Free\n")
	}
	sb.WriteString("\tswitch r.Harness {\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "\tcase %q:\n\t\th.%s()\n", n, n)
	}
	sb.WriteString("\tdefault:\n\t\tfmt.Println(\"no such harness\")\n\t\tos.Exit(9)\n\t}\n\tfmt.Println(\"VERIF-DONE\")\n\tos.Exit(0)\n}\n")
	put(filepath.Join(repo, "zz_verif", "replay", "main.go"), []byte(sb.String()))
	if werr != nil {
		return "", werr
	}
	js, _ := json.Marshal(map[string]any{"Replace": rep})
	of := filepath.Join(dir, "overlay.json")
	if err := os.WriteFile(of, js, 0o644); err != nil {
		return "", err
	}
	bin := filepath.Join(dir, "replay")
	args := []string{"build", "-overlay", of, "-o", bin}
	if race {
		args = append(args, "-race")
	}
	args = append(args, "./zz_verif/replay")
	cmd := exec.Command("go", args...)
	cmd.Dir = repo
	cmd.Env = append([]string{}, goEnv...)
	if race {
		cmd.Env = append(cmd.Env, "CGO_ENABLED=1")
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		return "", fmt.Errorf("building the replay binary: %v\n%s", err, out)
	}
	return bin, nil
}

package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoPath = "github.com/exascience/pargo"

// overlayFiles maps the harness sources of dir into virtual packages below repo.
func overlayFiles(repo, dir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	for _, sub := range []string{"h", "sym", "model", "vs", "vsync", "vatomic"} {
		fs, err := filepath.Glob(filepath.Join(dir, sub, "*.go"))
		if err != nil {
			return nil, err
		}
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ov[filepath.Join(repo, "zz_verif", sub, filepath.Base(f))] = b
		}
	}
	return ov, nil
}

var goEnv = append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOWORK=off", "GONOSUMDB=*", "GONOSUMCHECK=1", "CGO_ENABLED=0")

// load builds the SSA of the repository's current tree together with the harness.
// consts replaces integer constants of repo packages: "sort.qsortGrainSize" -> value.
func load(repo, hdir string, consts map[string]int64) (*Program, []string, error) {
	ov, err := overlayFiles(repo, hdir)
	if err != nil {
		return nil, nil, err
	}
	var notes []string
	if len(consts) > 0 {
		n, err := substSource(repo, consts, ov)
		if err != nil {
			return nil, nil, err
		}
		notes = n
	}
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps |
			packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: repo, Overlay: ov, Env: goEnv, Fset: token.NewFileSet(),
	}
	pats := []string{"./zz_verif/h", "./zz_verif/sym", "./zz_verif/model"}
	initial, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, pkgs := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, fns: map[*ssa.Function]*cfn{}, globals: map[*ssa.Global]int{}, repoPfx: repoPath}
	p.redirect = map[string]*ssa.Function{}
	for _, pk := range pkgs {
		switch {
		case pk == nil:
		case strings.HasSuffix(pk.Pkg.Path(), "/zz_verif/h"):
			p.harness = pk
		case strings.HasSuffix(pk.Pkg.Path(), "/zz_verif/model"):
			p.model = pk
		}
	}
	if p.harness == nil || p.model == nil {
		return nil, nil, fmt.Errorf("harness packages not found")
	}
	redirects := map[string]string{
		"context.WithCancel":      "WithCancel",
		"context.WithCancelCause": "WithCancelCause",
		"context.Cause":           "Cause",
		"context.AfterFunc":       "AfterFunc",
		"sort.Slice":              "SortSlice",
		"sort.SliceStable":        "SortSliceStable",
		"sort.SliceIsSorted":      "SliceIsSorted",
		"reflect.Swapper":         "Swapper",
		"errors.Is":               "ErrorsIs",
		"fmt.Fprintf":             "Fprintf",
		"fmt.Fprint":              "Fprint",
		"fmt.Fprintln":            "Fprintln",
	}
	for n, m := range redirects {
		if f := p.model.Func(m); f != nil {
			p.redirect[n] = f
		}
	}
	for _, pk := range prog.AllPackages() {
		switch pk.Pkg.Path() {
		case "runtime":
			if t := pk.Type("errorString"); t != nil {
				p.errStr = rt(t.Type())
			}
		case "reflect":
			p.rtypeT = rt(types.NewPointer(pk.Type("rtype").Type()))
		}
	}
	p.strT = rt(types.Typ[types.String])
	if p.errStr == nil {
		return nil, nil, fmt.Errorf("runtime not loaded")
	}
	return p, notes, nil
}

var loadMu sync.Mutex

// substSource rewrites integer constant declarations of repo packages in the overlay.
func substSource(repo string, consts map[string]int64, ov map[string][]byte) ([]string, error) {
	var notes []string
	for name, val := range consts {
		i := strings.LastIndexByte(name, '.')
		dir, id := filepath.Join(repo, name[:i]), name[i+1:]
		fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
		found := false
		for _, f := range fs {
			if strings.HasSuffix(f, "_test.go") {
				continue
			}
			src := ov[f]
			if src == nil {
				b, err := os.ReadFile(f)
				if err != nil {
					return nil, err
				}
				src = b
			}
			fset := token.NewFileSet()
			af, err := parser.ParseFile(fset, f, src, 0)
			if err != nil {
				return nil, err
			}
			for _, d := range af.Decls {
				gd, ok := d.(*ast.GenDecl)
				if !ok || (gd.Tok != token.CONST && gd.Tok != token.VAR) {
					continue
				}
				for _, sp := range gd.Specs {
					vs := sp.(*ast.ValueSpec)
					for k, n := range vs.Names {
						if n.Name == id && k < len(vs.Values) {
							a, b := fset.Position(vs.Values[k].Pos()).Offset, fset.Position(vs.Values[k].End()).Offset
							src = append(append(append([]byte{}, src[:a]...), []byte(fmt.Sprint(val))...), src[b:]...)
							ov[f] = src
							notes = append(notes, fmt.Sprintf("%s replaced by %d", name, val))
							found = true
						}
					}
				}
			}
		}
		if !found {
			notes = append(notes, fmt.Sprintf("%s not found: not replaced", name))
		}
	}
	return notes, nil
}

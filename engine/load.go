package main

import (
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/chanjarster/gears"

// Program is the loaded code: the repository's current source plus the harnesses.
// shim is a function of a harness package that stands for another one, in the
// entries of the packages that import it.
type shim struct {
	pkg, name string
	fn        *ssa.Function
}

// shimsOf lists the replacements in force for the entries of one package.
func (pr *Program) shimsOf(pkg string) map[string]*ssa.Function {
	in := map[string]bool{}
	var walk func(p *types.Package)
	walk = func(p *types.Package) {
		if !in[p.Path()] {
			in[p.Path()] = true
			for _, q := range p.Imports() {
				walk(q)
			}
		}
	}
	if p := pr.byPath[pkg]; p != nil {
		walk(p.Pkg)
	}
	m := map[string]*ssa.Function{}
	for _, s := range pr.shims {
		if in[s.pkg] {
			m[s.name] = s.fn
		}
	}
	return m
}

type Program struct {
	ssa         *ssa.Program
	byPath      map[string]*ssa.Package
	shims       []shim
	usesTryLock bool
	pkgs        []*packages.Package
	overlay     map[string][]byte
	repo        string
	tmp         string
}

// harnessOverlay maps the files of /verif/harness into the repository's tree:
// harness/<name>/x.go becomes zzverif/<name>/x.go and harness/inpkg/<pkg>/x.go becomes <pkg>/x.go.
func harnessOverlay(repo, hdir string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	err := filepath.Walk(hdir, func(path string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(path, ".go") {
			return err
		}
		rel, _ := filepath.Rel(hdir, path)
		b, err := os.ReadFile(path)
		if err != nil {
			return err
		}
		if strings.HasPrefix(rel, "inpkg/") {
			ov[filepath.Join(repo, strings.TrimPrefix(rel, "inpkg/"))] = b
		} else {
			ov[filepath.Join(repo, "zzverif", rel)] = b
		}
		return nil
	})
	return ov, err
}

// goEnv prepares an environment in which the go command leaves /repo untouched.
func goEnv(repo, tmp string) ([]string, error) {
	for _, f := range []string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, f))
		if err != nil {
			return nil, err
		}
		if err := os.WriteFile(filepath.Join(tmp, f), b, 0o644); err != nil {
			return nil, err
		}
	}
	var env []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "CGO_ENABLED=") {
			continue
		}
		env = append(env, e)
	}
	env = append(env, "GOFLAGS=-mod=mod -modfile="+filepath.Join(tmp, "go.mod"), "GOWORK=off", "CGO_ENABLED=0",
		"GO111MODULE=on", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	return env, nil
}

func loadProgram(repo, hdir, tmp string, pats []string) (*Program, error) {
	ov, err := harnessOverlay(repo, hdir)
	if err != nil {
		return nil, err
	}
	env, err := goEnv(repo, tmp)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: env, Overlay: ov}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "\n"))
	}
	pr := &Program{byPath: map[string]*ssa.Package{}, overlay: ov, repo: repo, tmp: tmp}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	pr.ssa = prog
	pr.pkgs = pkgs
	for _, p := range prog.AllPackages() {
		pr.byPath[p.Pkg.Path()] = p
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if !strings.HasPrefix(p.PkgPath, modPath) {
			return
		}
		for _, f := range p.Syntax {
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.SelectorExpr:
					if x.Sel.Name == "TryLock" || x.Sel.Name == "TryRLock" {
						pr.usesTryLock = true
					}
				case *ast.FuncDecl:
					if x.Doc != nil {
						for _, c := range x.Doc.List {
							if r, ok := strings.CutPrefix(c.Text, "//gosym:replace "); ok {
								if o, ok := p.TypesInfo.Defs[x.Name].(*types.Func); ok {
									for _, n := range strings.Split(r, ";") {
										pr.shims = append(pr.shims, shim{p.PkgPath, strings.TrimSpace(n), prog.FuncValue(o)})
									}
								}
							}
						}
					}
				}
				return true
			})
		}
	})
	return pr, nil
}

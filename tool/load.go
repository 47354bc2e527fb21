package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/Harvey-OS/ninep"

// Config is one build configuration of the repository.
type Config struct {
	GOOS string
	Tags string
}

func (c Config) String() string {
	s := c.GOOS
	if c.Tags != "" {
		s += "+" + c.Tags
	}
	return s
}

// Program is the repository, type-checked and in SSA form, in one configuration.
type Program struct {
	Cfg   Config
	Repo  string
	root  string // where the sources were loaded from (a link to Repo)
	SSA   *ssa.Program
	Pkgs  map[string]*ssa.Package // by path below the module: "protocol", ...
	TPkgs map[string]*packages.Package
	All   []*ssa.Function // all functions with source in the repository
	Files int
	inf   *inferred
}

func goTool() (string, []string) {
	// The toolchain that builds the repository: see /opt/vp/env.sh.
	env := os.Environ()
	for _, d := range []string{"/opt/veriftools/go1.27.3/bin"} {
		if _, err := os.Stat(filepath.Join(d, "go")); err == nil {
			return d, env
		}
	}
	p, err := exec.LookPath("go")
	if err != nil {
		return "", env
	}
	return filepath.Dir(p), env
}

func load(repo string, cfg Config, scratch string) (*Program, error) {
	gopath := filepath.Join(scratch, "gopath")
	root := filepath.Join(gopath, "src", modPath)
	if err := os.MkdirAll(filepath.Dir(root), 0o777); err != nil {
		return nil, err
	}
	if _, err := os.Lstat(root); err != nil {
		if err := os.Symlink(repo, root); err != nil {
			return nil, err
		}
	}
	bin, env := goTool()
	// go/packages runs "go" from our own PATH.
	os.Setenv("PATH", bin+":"+os.Getenv("PATH"))
	env = append(env,
		"PATH="+bin+":"+os.Getenv("PATH"), "PWD="+root,
		"GO111MODULE=off", "GOPATH="+gopath, "GOFLAGS=", "GOENV=off", "GOWORK=off",
		"GOPROXY=off", "GOTOOLCHAIN=local", "GOTELEMETRY=off",
		"GOOS="+cfg.GOOS, "GOARCH=amd64", "CGO_ENABLED=0", "GOROOT=")
	pc := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedExportFile | packages.NeedTypes | packages.NeedSyntax |
			packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir: root,
		Env: env,
	}
	if cfg.Tags != "" {
		pc.BuildFlags = []string{"-tags=" + cfg.Tags}
	}
	// Only the packages of the repository are loaded from source.
	initial, err := packages.Load(pc, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("the repository does not type-check (%v): %s", cfg, strings.Join(errs, "; "))
	}
	var repoPkgs []*packages.Package
	for _, p := range initial {
		if strings.HasPrefix(p.PkgPath, modPath) {
			repoPkgs = append(repoPkgs, p)
		}
	}
	prog, ssapkgs := ssautil.Packages(repoPkgs, ssa.InstantiateGenerics)
	pr := &Program{Cfg: cfg, Repo: repo, root: root, SSA: prog, Pkgs: map[string]*ssa.Package{}, TPkgs: map[string]*packages.Package{}}
	for i, sp := range ssapkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", repoPkgs[i].PkgPath)
		}
		rel := strings.TrimPrefix(strings.TrimPrefix(repoPkgs[i].PkgPath, modPath), "/")
		pr.Pkgs[rel] = sp
		pr.TPkgs[rel] = repoPkgs[i]
		pr.Files += len(repoPkgs[i].CompiledGoFiles)
	}
	prog.Build()
	seen := map[*ssa.Function]bool{}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && len(fn.Blocks) > 0 && strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) && !seen[fn] {
			seen[fn] = true
			pr.All = append(pr.All, fn)
		}
	}
	sort.Slice(pr.All, func(i, j int) bool { return pr.All[i].String() < pr.All[j].String() })
	return pr, nil
}

// theField: of the fields of t (a struct) of a kind, the one that is used
// most; "" if there is none.
func (p *Program) theField(t types.Type, kind func(types.Type) bool) string {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	uses := map[int]int{}
	for _, fn := range p.All {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch in := in.(type) {
				case *ssa.FieldAddr:
					if q, ok := in.X.Type().Underlying().(*types.Pointer); ok && types.Identical(q.Elem(), t) {
						uses[in.Field]++
					}
				case *ssa.Field:
					if types.Identical(in.X.Type(), t) {
						uses[in.Field]++
					}
				}
			}
		}
	}
	best := -1
	for i := 0; i < st.NumFields(); i++ {
		if kind(st.Field(i).Type()) && (best < 0 || uses[i] > uses[best]) {
			best = i
		}
	}
	if best < 0 {
		return ""
	}
	return st.Field(best).Name()
}

func (p *Program) Func(pkg, name string) *ssa.Function {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	return sp.Func(name)
}

// Method finds a method of the named type (through its pointer).
func (p *Program) Method(pkg, typ, name string) *ssa.Function {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(typ)
	if t == nil {
		return nil
	}
	sel := types.NewMethodSet(types.NewPointer(t.Type())).Lookup(sp.Pkg, name)
	if sel == nil {
		return nil
	}
	return p.SSA.MethodValue(sel)
}

func (p *Program) NamedType(pkg, name string) types.Type {
	sp := p.Pkgs[pkg]
	if sp == nil {
		return nil
	}
	t := sp.Type(name)
	if t == nil {
		return nil
	}
	return t.Type()
}

// Where gives a position as file:line below the repository.
func (p *Program) Where(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	q := p.SSA.Fset.Position(pos)
	f := q.Filename
	for _, r := range []string{p.root, p.Repo} {
		f = strings.TrimPrefix(f, r+"/")
	}
	if i := strings.Index(f, modPath+"/"); i >= 0 {
		f = f[i+len(modPath)+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

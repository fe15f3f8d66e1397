package main

import (
	"crypto/sha256"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	Prog      *ssa.Program
	Module    string
	RepoDir   string
	pkgs      map[string]*ssa.Package
	redirects map[string]*ssa.Function
	hpkgs     []*ssa.Package
	fnClosure sync.Map
	builtMu   sync.Mutex
	built     map[*ssa.Package]bool
	rtErrType types.Type
	Errors    []string
	methMu    sync.Mutex
}

const goRoot = "/opt/veriftools/go1.23.12"

// goEnv returns the environment for the go command, which works on copies of the repository's go.mod and go.sum: the harnesses
// may import indirect dependencies, which it would note there.
func goEnv(repo, verif string) ([]string, error) {
	h := sha256.New()
	var bs [2][]byte
	for i, n := range [...]string{"go.mod", "go.sum"} {
		b, err := os.ReadFile(filepath.Join(repo, n))
		if err != nil {
			return nil, err
		}
		bs[i] = b
		fmt.Fprintln(h, len(b))
		h.Write(b)
	}
	dir := filepath.Join(verif, ".bin", fmt.Sprintf("mod-%x", h.Sum(nil)[:6]))
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return nil, err
	}
	for i, n := range [...]string{"go.mod", "go.sum"} {
		if _, err := os.Stat(filepath.Join(dir, n)); err == nil {
			continue
		}
		t := filepath.Join(dir, fmt.Sprintf("%s.%d", n, os.Getpid()))
		if err := os.WriteFile(t, bs[i], 0o644); err != nil {
			return nil, err
		}
		if err := os.Rename(t, filepath.Join(dir, n)); err != nil {
			return nil, err
		}
	}
	var env []string
	for _, e := range os.Environ() {
		k, _, _ := strings.Cut(e, "=")
		switch k {
		case "PATH", "GOROOT", "GOTOOLCHAIN", "GOPROXY", "GOFLAGS", "GOWORK", "CGO_ENABLED", "GOSUMDB", "GO111MODULE":
			continue
		}
		env = append(env, e)
	}
	return append(env, "PATH="+goRoot+"/bin:/usr/local/bin:/usr/bin:/bin", "GOROOT="+goRoot, "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off",
		"GOFLAGS=-mod=mod -modfile="+filepath.Join(dir, "go.mod"), "GOWORK=off", "CGO_ENABLED=0"), nil
}

// OverlayMap returns target path -> source path for every file of dir (recursively).
func overlayFiles(src, dst string) (map[string]string, error) {
	out := map[string]string{}
	err := filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(src, p)
		out[filepath.Join(dst, rel)] = p
		return nil
	})
	return out, err
}

const vDir = "internal/zzverif"

func Load(repo, verif string, patterns []string) (*Program, error) {
	os.Setenv("PATH", goRoot+"/bin:/usr/local/bin:/usr/bin:/bin")
	files, err := overlayFiles(filepath.Join(verif, "model"), filepath.Join(repo, vDir))
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for dst, src := range files {
		if strings.HasSuffix(dst, "_test.go") || strings.HasSuffix(dst, "_native.go") {
			continue
		}
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	// the radix tree model replaces the real package's files
	radix := "/root/go/pkg/mod/github.com/hashicorp/go-immutable-radix@v1.3.1"
	for _, f := range []string{"iradix.go", "iter.go", "node.go", "raw_iter.go", "reverse_iter.go", "edges.go"} {
		ov[filepath.Join(radix, f)] = []byte("package iradix\n")
	}
	rb, err := os.ReadFile(filepath.Join(verif, "radix", "iradix.go"))
	if err != nil {
		return nil, err
	}
	ov[filepath.Join(radix, "iradix.go")] = rb
	ds, err := depSources()
	if err != nil {
		return nil, err
	}
	for k, v := range ds {
		ov[k] = v
	}
	rs, err := repoSources(repo)
	if err != nil {
		return nil, err
	}
	for k, v := range rs {
		ov[k] = v
	}
	env, err := goEnv(repo, verif)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: env, Overlay: ov, BuildFlags: []string{"-tags=verifsym"}}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 20 {
			errs = errs[:20]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	p := &Program{Prog: prog, RepoDir: repo, pkgs: map[string]*ssa.Package{}, redirects: map[string]*ssa.Function{}, built: map[*ssa.Package]bool{}}
	p.Module = "github.com/hyperonym/ratus"
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	// redirects and harness packages
	packages.Visit(ps, nil, func(pk *packages.Package) {
		if !strings.Contains(pk.PkgPath, vDir) {
			return
		}
		sp := p.pkgs[pk.PkgPath]
		p.hpkgs = append(p.hpkgs, sp)
		for _, f := range pk.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if rest, ok := strings.CutPrefix(c.Text, "//verif:replaces "); ok {
						p.redirects[strings.TrimSpace(rest)] = sp.Func(fd.Name.Name)
					}
				}
			}
		}
	})
	if rt := p.pkgs["runtime"]; rt != nil {
		if t := rt.Type("errorString"); t != nil {
			p.rtErrType = t.Type()
		}
	}
	return p, nil
}

func (p *Program) buildPkg(sp *ssa.Package) {
	p.builtMu.Lock()
	defer p.builtMu.Unlock()
	if !p.built[sp] {
		sp.Build()
		p.built[sp] = true
	}
}

func (p *Program) ensureBuilt(fn *ssa.Function) {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		p.buildPkg(f.Pkg)
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		p.buildPkg(o.Pkg)
	}
}

func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	p.methMu.Lock()
	defer p.methMu.Unlock()
	return p.Prog.LookupMethod(t, pkg, name)
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	sp := p.pkgs[pkg]
	if sp == nil {
		panic(unsup("package %s not loaded", pkg))
	}
	p.buildPkg(sp)
	f := sp.Func(name)
	if f == nil {
		panic(unsup("no function %s.%s", pkg, name))
	}
	return f
}

func (p *Program) harnessFn(name string) *ssa.Function {
	for _, sp := range p.hpkgs {
		if f := sp.Func(name); f != nil {
			p.buildPkg(sp)
			return f
		}
	}
	return nil
}

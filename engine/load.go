package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

const modPath = "github.com/luxfi/zmq/v4"
const harnessPkg = modPath + "/zzverif"

type Program struct {
	prog    *ssa.Program
	pkgs    map[string]*ssa.Package
	harness *ssa.Package
	canonMu sync.Mutex
	canonM  typeutil.Map
	msc     typeutil.MethodSetCache
	implM   map[[2]types.Type]bool
	repo    string
}

// overlayFiles maps virtual paths below /repo to harness sources in /verif/harness.
func overlayFiles(repo, hdir string) (map[string]string, error) {
	out := map[string]string{}
	ents, err := os.ReadDir(hdir)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		n := e.Name()
		if !strings.HasSuffix(n, ".go") {
			continue
		}
		out[filepath.Join(repo, "zzverif", n)] = filepath.Join(hdir, n)
	}
	return out, nil
}

func loadProgram(repo, hdir, modfile string) (*Program, error) {
	ov, err := overlayFiles(repo, hdir)
	if err != nil {
		return nil, err
	}
	overlay := map[string][]byte{}
	for k, v := range ov {
		if strings.HasSuffix(k, "_test.go") || strings.HasSuffix(k, "rt_native.go") {
			continue
		}
		b, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		overlay[k] = b
	}
	env := append(os.Environ(), "CGO_ENABLED=0", "GOFLAGS=-mod=mod -modfile="+modfile+" -tags=verifengine", "GOPROXY=off", "GOSUMDB=off")
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay, Env: env, BuildFlags: nil}
	pkgs, err := packages.Load(cfg, ".", "./security/...", "./networking", "./internal/inproc", "./internal/errgroup", "./transport", "./zzverif")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, p.PkgPath+": "+e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, implM: map[[2]types.Type]bool{}, repo: repo}
	for _, sp := range prog.AllPackages() {
		p.pkgs[sp.Pkg.Path()] = sp
	}
	p.harness = p.pkgs[harnessPkg]
	if p.harness == nil {
		return nil, fmt.Errorf("harness package not loaded")
	}
	return p, nil
}

// canon returns a representative of t's identity class so that types compare by pointer.
func (p *Program) canon(t types.Type) types.Type {
	t = types.Unalias(t)
	p.canonMu.Lock()
	defer p.canonMu.Unlock()
	if r := p.canonM.At(t); r != nil {
		return r.(types.Type)
	}
	p.canonM.Set(t, t)
	return t
}

func (p *Program) implements(t types.Type, it *types.Interface, key types.Type) bool {
	p.canonMu.Lock()
	defer p.canonMu.Unlock()
	k := [2]types.Type{t, key}
	if v, ok := p.implM[k]; ok {
		return v
	}
	v := types.Implements(t, it)
	p.implM[k] = v
	return v
}

func isRepoPath(path string) bool {
	return path == modPath || strings.HasPrefix(path, modPath+"/")
}

func (p *Program) methodSet(t types.Type) *types.MethodSet {
	p.canonMu.Lock()
	defer p.canonMu.Unlock()
	return p.msc.MethodSet(t)
}

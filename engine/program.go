package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	repoMod    = "github.com/RTann/libsignal-go/protocol"
	harnessMod = "verif/harness"
)

// Program is the SSA form of harness, repository and dependencies, rebuilt from source on every run.
type Program struct {
	mu        sync.Mutex
	prog      *ssa.Program
	pkgs      map[string]*ssa.Package
	stdPkgs   map[*ssa.Package]bool
	rtErrType types.Type
	sizes     types.Sizes
	implC     map[[2]types.Type]bool
	implMu    sync.RWMutex
	redirs    map[string]*ssa.Function
}

func LoadProgram(dir string, patterns ...string) (*Program, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 10 {
			errs = errs[:10]
		}
		return nil, fmt.Errorf("loading: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, stdPkgs: map[*ssa.Package]bool{}, implC: map[[2]types.Type]bool{}, redirs: map[string]*ssa.Function{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
		path := p.Pkg.Path()
		first := strings.SplitN(path, "/", 2)[0]
		if !strings.Contains(first, ".") && !strings.HasPrefix(path, "verif/") {
			P.stdPkgs[p] = true
		}
		if strings.HasPrefix(path, "google.golang.org/") || strings.HasPrefix(path, "golang.org/x/") || strings.HasPrefix(path, "github.com/google/uuid") {
			P.stdPkgs[p] = true
		}
	}
	P.sizes = types.SizesFor("gc", "amd64")
	rt := P.pkgs["runtime"]
	if rt == nil || rt.Type("errorString") == nil {
		return nil, fmt.Errorf("runtime.errorString not found")
	}
	P.rtErrType = rt.Type("errorString").Type()
	m := P.pkgs[harnessMod+"/models"]
	if m == nil {
		return nil, fmt.Errorf("models package not loaded")
	}
	for from, to := range redirTable {
		f := m.Func(to)
		if f == nil {
			return nil, fmt.Errorf("model %s missing", to)
		}
		P.redirs[from] = f
	}
	return P, nil
}

var redirTable = map[string]string{
	"crypto/sha256.New":             "NewSHA256",
	"crypto/sha256.Sum256":          "Sum256",
	"crypto/sha512.New":             "NewSHA512",
	"crypto/sha512.Sum512":          "Sum512",
	"crypto/hmac.New":               "NewHMAC",
	"crypto/aes.NewCipher":          "NewAES",
	"crypto/cipher.NewCBCEncrypter": "NewCBCEncrypter",
	"crypto/cipher.NewCBCDecrypter": "NewCBCDecrypter",
	"crypto/hkdf.Extract":           "HKDFExtract",
	"crypto/hkdf.Expand":            "HKDFExpand",
	"crypto/hkdf.Key":               "HKDFKey",
	"crypto/rand.Read":              "RandRead",
}

func (p *Program) redirect(name string) *ssa.Function { return p.redirs[name] }

func (p *Program) buildFn(fn *ssa.Function) {
	// all functions reachable statically are built; wrappers and instances are built on creation
}

func (p *Program) isRepo(fn *ssa.Function) bool {
	f := fn
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Pkg == nil {
		return strings.Contains(fn.String(), repoMod)
	}
	return strings.HasPrefix(f.Pkg.Pkg.Path(), repoMod)
}

func (p *Program) lookupMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	p.mu.Lock()
	defer p.mu.Unlock()
	ms := p.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	return p.prog.MethodValue(sel)
}

func (p *Program) implements(t, iface types.Type) bool {
	k := [2]types.Type{t, iface}
	p.implMu.RLock()
	v, ok := p.implC[k]
	p.implMu.RUnlock()
	if ok {
		return v
	}
	p.mu.Lock()
	v = types.Implements(t, iface.Underlying().(*types.Interface))
	p.mu.Unlock()
	p.implMu.Lock()
	p.implC[k] = v
	p.implMu.Unlock()
	return v
}

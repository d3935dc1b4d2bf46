package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Program struct {
	prog      *ssa.Program
	codes     sync.Map
	redirects map[string]*ssa.Function
	rtErrType types.Type
	methods   sync.Map
	impls     sync.Map
	harness   map[string]*ssa.Function
	pkgs      []*packages.Package
	overlay   map[string][]byte
	overDir   string
	symPath   string
}

// repoDir is the tree that is checked; another one only for development (trying changes in a scratch copy).
var repoDir = func() string {
	if d := os.Getenv("VENGINE_DEV_REPO"); d != "" {
		return d
	}
	return "/repo"
}()
const modPath = "github.com/iotaledger/trie.go"

var verifDir = func() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	exe, err := os.Executable()
	if err == nil {
		return filepath.Dir(filepath.Dir(exe))
	}
	return "/verif"
}()

type methodKey struct {
	t types.Type
	m *types.Func
}

// collectOverlay maps the harness files of /verif/harness into the module of /repo.
func collectOverlay(dirs ...string) (map[string][]byte, map[string]string, error) {
	ov := map[string][]byte{}
	rep := map[string]string{}
	for _, d := range dirs {
		fs, err := filepath.Glob(filepath.Join(verifDir, "harness", d, "*.go"))
		if err != nil {
			return nil, nil, err
		}
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, nil, err
			}
			dst := filepath.Join(repoDir, "verifh", d, filepath.Base(f))
			if d == "kzgx" {
				dst = filepath.Join(repoDir, "models/trie_kzg_bn256", filepath.Base(f))
			}
			ov[dst] = b
			rep[dst] = f
		}
	}
	return ov, rep, nil
}

var harnessRE = regexp.MustCompile(`^C\d\d_`)

func hpkgs(spec string) []string { return strings.Split(spec, ",") }

// overlayDirs: package hk (KZG) needs the stand-ins for kyber and a file that exports three methods of the KZG package.
func overlayDirs(spec string) []string {
	d := append([]string{"sym", "shim"}, hpkgs(spec)...)
	for _, p := range hpkgs(spec) {
		if p == "hk" {
			d = append(d, "shimk", "kzgx")
		}
	}
	return d
}

func loadProgram(spec string) (*Program, error) {
	ov, _, err := collectOverlay(overlayDirs(spec)...)
	if err != nil {
		return nil, err
	}
	pats := []string{modPath + "/verifh/shim"}
	for _, p := range hpkgs(spec) {
		pats = append(pats, modPath+"/verifh/"+p)
		if p == "hk" {
			pats = append(pats, modPath+"/verifh/shimk")
		}
	}
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repoDir,
		Overlay: ov,
		Env:     append(os.Environ(), "GOFLAGS=-mod=readonly"),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.Contains(p.PkgPath, modPath) {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load errors: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	P := &Program{prog: prog, redirects: map[string]*ssa.Function{}, harness: map[string]*ssa.Function{}, pkgs: pkgs, overlay: ov}
	P.symPath = modPath + "/verifh/sym"
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no ssa for %s", pkgs[i].PkgPath)
		}
		if strings.HasSuffix(sp.Pkg.Path(), "/verifh/shim") {
			P.rtErrType = sp.Type("RuntimeError").Type()
			for target, name := range redirectTable {
				f := sp.Func(name)
				if f == nil {
					return nil, fmt.Errorf("shim %s missing", name)
				}
				P.redirects[target] = f
			}
		}
		if strings.HasSuffix(sp.Pkg.Path(), "/verifh/shimk") {
			for target, name := range redirectK {
				f := sp.Func(name)
				if f == nil {
					return nil, fmt.Errorf("shimk %s missing", name)
				}
				P.redirects[target] = f
			}
		}
		for _, hp := range hpkgs(spec) {
			if !strings.HasSuffix(sp.Pkg.Path(), "/verifh/"+hp) {
				continue
			}
			for n, m := range sp.Members {
				if f, ok := m.(*ssa.Function); ok && harnessRE.MatchString(n) {
					P.harness[n] = f
				}
			}
		}
	}
	return P, nil
}

func (P *Program) method(t types.Type, m *types.Func) Value {
	k := methodKey{t, m}
	if f, ok := P.methods.Load(k); ok {
		return f.(Value)
	}
	f := P.prog.LookupMethod(t, m.Pkg(), m.Name())
	if f == nil {
		panic(pathAbort{"no method " + m.Name() + " on " + typeStr(t)})
	}
	P.methods.Store(k, f)
	return f
}

type implKey struct {
	t types.Type
	i *types.Interface
}

func (P *Program) implements(t types.Type, i *types.Interface) bool {
	k := implKey{t, i}
	if r, ok := P.impls.Load(k); ok {
		return r.(bool)
	}
	r := types.Implements(t, i)
	P.impls.Store(k, r)
	return r
}

func (P *Program) harnessNames(prop string) []string {
	var r []string
	for n := range P.harness {
		if strings.HasPrefix(n, prop+"_") {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}

func writeJSON(path string, v interface{}) error {
	b, err := json.MarshalIndent(v, "", " ")
	if err != nil {
		return err
	}
	return os.WriteFile(path, append(b, '\n'), 0o644)
}

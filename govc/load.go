package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/signal-golang/textsecure"

type Program struct {
	prog     *ssa.Program
	pkgs     map[string]*ssa.Package // import path -> package with bodies
	models   map[string]*ssa.Function
	overlay  map[string]string // virtual path -> file
	wrappers []*Wrapper
	byTrim   map[string]*ssa.Function
}

// buildOverlay maps /verif/contracts/<pkg>/*.go into the repository's package directories.
func buildOverlay(repo, verif string) map[string]string {
	ov := map[string]string{}
	root := filepath.Join(verif, "contracts")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		dir := filepath.Dir(rel)
		if dir == "root" {
			dir = "."
		}
		if strings.HasPrefix(dir, "root/") {
			dir = strings.TrimPrefix(dir, "root/")
		}
		ov[filepath.Join(repo, dir, "zz_verif_"+filepath.Base(p))] = p
		return nil
	})
	return ov
}

func Load(repo, verif string, patterns []string) (*Program, error) {
	ov := buildOverlay(repo, verif)
	ovb := map[string][]byte{}
	for v, f := range ov {
		if contains(dropped, v) {
			continue
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if strings.HasSuffix(v, "_test.go") {
			continue
		}
		ovb[v] = b
	}
	cfg := &packages.Config{
		Mode:       packages.LoadSyntax | packages.NeedModule,
		Dir:        repo,
		Overlay:    ovb,
		BuildFlags: []string{"-tags=verif", "-mod=mod"},
		Env:        append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local"),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, fmt.Sprintf("%s: %s", p.PkgPath, e.Error()))
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	P := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, models: map[string]*ssa.Function{}, overlay: ov}
	for _, p := range pkgs {
		P.wrappers = append(P.wrappers, wrappersOf(p)...)
	}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		P.pkgs[sp.Pkg.Path()] = sp
		if strings.HasSuffix(sp.Pkg.Path(), "/zzmodels") {
			for n, m := range sp.Members {
				if f, ok := m.(*ssa.Function); ok {
					P.models[n] = f
				}
			}
		}
	}
	return P, nil
}

// mangle turns a function's full name into its model's name.
func mangle(s string) string {
	s = strings.ReplaceAll(s, modPath+"/", "")
	s = strings.ReplaceAll(s, modPath+".", "root.")
	s = strings.ReplaceAll(s, "(*", "")
	s = strings.ReplaceAll(s, "(", "")
	s = strings.ReplaceAll(s, ")", "")
	var sb strings.Builder
	for _, r := range s {
		switch {
		case r >= 'a' && r <= 'z', r >= 'A' && r <= 'Z', r >= '0' && r <= '9', r == '_':
			sb.WriteRune(r)
		default:
			sb.WriteByte('_')
		}
	}
	return sb.String()
}

func inRepo(p *types.Package) bool {
	return p != nil && strings.HasPrefix(p.Path(), modPath)
}

func (P *Program) methods(t *ssa.Type) []*ssa.Function {
	var out []*ssa.Function
	seen := map[*ssa.Function]bool{}
	for _, ty := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
		ms := P.prog.MethodSets.MethodSet(ty)
		for i := 0; i < ms.Len(); i++ {
			if f := P.prog.MethodValue(ms.At(i)); f != nil && f.Synthetic == "" && !seen[f] {
				seen[f] = true
				out = append(out, f)
			}
		}
	}
	return out
}

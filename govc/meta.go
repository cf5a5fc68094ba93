package main

import (
	"go/ast"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// Wrapper is one contract: a function of the contract files with vc: directives.
type Wrapper struct {
	Name    string // package-relative: axolotl.vc_pad
	Pkg     string // import path
	Func    string
	Props   []string
	Targets []string
	Uses    []string
	Modular bool
	Unroll  map[string]int
	Time    int
	NoRun   bool
	Tier    string
	Doc     string
	Labels  []string // Ensures labels in the text
	Covers  []string
	Heavy   bool
	Bounded bool // executed on generated inputs only; never counted as proved
}

func pkgShort(path string) string {
	p := strings.TrimPrefix(strings.TrimPrefix(path, modPath), "/")
	if p == "" {
		return "root"
	}
	return strings.ReplaceAll(p, "/", "_")
}

func wrappersOf(p *packages.Package) []*Wrapper {
	var out []*Wrapper
	for _, f := range p.Syntax {
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Doc == nil {
				continue
			}
			w := &Wrapper{Pkg: p.PkgPath, Func: fd.Name.Name, Name: pkgShort(p.PkgPath) + "." + fd.Name.Name, Unroll: map[string]int{}}
			is := false
			for _, c := range fd.Doc.List {
				t := strings.TrimPrefix(c.Text, "//")
				if !strings.HasPrefix(t, "vc:") {
					w.Doc += strings.TrimSpace(t) + " "
					continue
				}
				fs := strings.Fields(strings.TrimPrefix(t, "vc:"))
				if len(fs) == 0 {
					continue
				}
				is = true
				split := func() []string {
					return strings.FieldsFunc(strings.Join(fs[1:], " "), func(r rune) bool { return r == ',' || r == ' ' })
				}
				switch fs[0] {
				case "prop":
					w.Props = append(w.Props, split()...)
				case "target":
					w.Targets = append(w.Targets, split()...)
				case "uses":
					w.Uses = append(w.Uses, split()...)
				case "modular":
					w.Modular = true
				case "bounded":
					w.Bounded = true
				case "norun":
					w.NoRun = true
				case "heavy":
					w.Heavy = true
				case "tier":
					w.Tier = fs[1]
				case "time":
					w.Time, _ = strconv.Atoi(fs[1])
				case "unroll":
					for _, s := range split() {
						kv := strings.SplitN(s, "=", 2)
						n, _ := strconv.Atoi(kv[1])
						w.Unroll[kv[0]] = n
					}
				}
			}
			if !is {
				continue
			}
			ast.Inspect(fd, func(n ast.Node) bool {
				c, ok := n.(*ast.CallExpr)
				if !ok || len(c.Args) == 0 {
					return true
				}
				s, ok := c.Fun.(*ast.SelectorExpr)
				if !ok {
					return true
				}
				lit, ok := c.Args[0].(*ast.BasicLit)
				if !ok {
					return true
				}
				v, err := strconv.Unquote(lit.Value)
				if err != nil {
					return true
				}
				switch s.Sel.Name {
				case "Ensures":
					w.Labels = append(w.Labels, v)
				case "Cover":
					w.Covers = append(w.Covers, v)
				}
				return true
			})
			out = append(out, w)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

func (P *Program) funcByTrim(name string) *ssa.Function {
	if P.byTrim == nil {
		P.byTrim = map[string]*ssa.Function{}
		var add func(f *ssa.Function)
		add = func(f *ssa.Function) {
			P.byTrim[trimPkg(f.String())] = f
			P.byTrim[strings.ReplaceAll(trimPkg(f.String()), modPath+".", "root.")] = f
			for _, a := range f.AnonFuncs {
				add(a)
			}
		}
		for _, p := range P.pkgs {
			for _, m := range p.Members {
				switch v := m.(type) {
				case *ssa.Function:
					add(v)
				case *ssa.Type:
					for _, f := range P.methods(v) {
						add(f)
					}
				}
			}
		}
	}
	return P.byTrim[name]
}

package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const repoMod = "github.com/bigbluebutton/bbb-webrtc-recorder"
const harnessRoot = repoMod + "/internal/vharness"
const symPkg = harnessRoot + "/sym"

type Program struct {
	*ssa.Program
	Fset    *token.FileSet
	Pkgs    map[string]*ssa.Package
	Src     []*packages.Package
	All     map[string]*packages.Package
	rtErr   types.Type
	meths   sync.Map
	impl    sync.Map
	order   []*ssa.Package // repo and harness packages in dependency order
	Repo    string
	Overlay map[string]string
	Edited  map[string][]byte // repository files that are loaded with changes
}

// manualInit renames the init functions of the packages that a harness starts
// itself ("//verif:manualinit PKG"): vfInit runs them.
func manualInit(verif, repo string, pats []string, ovp map[string]string) (map[string][]byte, error) {
	out := map[string][]byte{}
	for to, from := range ovp {
		wanted := false
		for _, p := range pats {
			if filepath.Base(filepath.Dir(to)) == filepath.Base(p) {
				wanted = true
			}
		}
		if !wanted {
			continue
		}
		data, err := os.ReadFile(from)
		if err != nil {
			return nil, err
		}
		for _, line := range strings.Split(string(data), "\n") {
			pkg, ok := strings.CutPrefix(line, "//verif:manualinit "+repoMod+"/")
			if !ok {
				continue
			}
			files, err := filepath.Glob(filepath.Join(repo, strings.TrimSpace(pkg), "*.go"))
			if err != nil || len(files) == 0 {
				return nil, fmt.Errorf("manualinit %s: no files", pkg)
			}
			n, last, calls := 0, "", ""
			for _, f := range files {
				if strings.HasSuffix(f, "_test.go") {
					continue
				}
				src, err := os.ReadFile(f)
				if err != nil {
					return nil, err
				}
				af, err := parser.ParseFile(token.NewFileSet(), f, src, parser.SkipObjectResolution)
				if err != nil {
					return nil, err
				}
				if last == "" {
					last = f
					out[f] = src
				}
				for i := len(af.Decls) - 1; i >= 0; i-- {
					fd, ok := af.Decls[i].(*ast.FuncDecl)
					if !ok || fd.Recv != nil || fd.Name.Name != "init" {
						continue
					}
					nm := fmt.Sprintf("vfInit%d", n)
					n++
					calls += "\t" + nm + "()\n"
					o := int(fd.Name.Pos() - af.FileStart)
					src = append(append(append([]byte{}, src[:o]...), nm...), src[o+4:]...)
					out[f] = src
				}
			}
			out[last] = append(append([]byte{}, out[last]...), "\nfunc vfInit() {\n"+calls+"}\n"...)
		}
	}
	return out, nil
}

// harnessOverlay maps every file under /verif/harness to its place under the repository.
func harnessOverlay(verif, repo string) (map[string]string, error) {
	ov := map[string]string{}
	root := filepath.Join(verif, "harness")
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, p)
		ov[filepath.Join(repo, "internal", "vharness", rel)] = p
		return nil
	})
	return ov, err
}

func LoadProgram(verif, repo string, pats []string) (*Program, error) {
	ovp, err := harnessOverlay(verif, repo)
	if err != nil {
		return nil, err
	}
	ov := map[string][]byte{}
	for k, v := range ovp {
		data, err := os.ReadFile(v)
		if err != nil {
			return nil, err
		}
		ov[k] = data
	}
	edited, err := manualInit(verif, repo, pats, ovp)
	if err != nil {
		return nil, err
	}
	for k, v := range edited {
		ov[k] = v
	}
	mdir, err := os.MkdirTemp("", "gosym-mod")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(mdir)
	mf, err := modfile(repo, mdir, nil)
	if err != nil {
		return nil, err
	}
	cfg := &packages.Config{
		BuildFlags: []string{"-mod=mod", "-modfile=" + mf},
		Mode:       packages.LoadAllSyntax | packages.NeedModule,
		Dir:        repo,
		Overlay:    ov,
		Env:        append(os.Environ(), "CGO_ENABLED=0"),
	}
	pkgs, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		if len(errs) > 20 {
			errs = errs[:20]
		}
		return nil, fmt.Errorf("load errors:\n%s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	pr := &Program{Program: prog, Fset: prog.Fset, Pkgs: map[string]*ssa.Package{}, Src: pkgs, All: map[string]*packages.Package{}, Overlay: ovp, Repo: repo, Edited: edited}
	for _, sp := range prog.AllPackages() {
		pr.Pkgs[sp.Pkg.Path()] = sp
	}
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		pr.All[p.PkgPath] = p
		if isLocalPkg(p.PkgPath) {
			if sp := pr.Pkgs[p.PkgPath]; sp != nil {
				pr.order = append(pr.order, sp)
			}
		}
	})
	prog.Build()
	if rt := pr.Pkgs["runtime"]; rt != nil {
		if m := rt.Type("errorString"); m != nil {
			pr.rtErr = m.Type()
		}
	}
	return pr, nil
}

func isLocalPkg(path string) bool {
	return path == repoMod || strings.HasPrefix(path, repoMod+"/")
}

func (pr *Program) rtError(msg string) Iface {
	if pr.rtErr == nil {
		return Iface{types.Typ[types.String], msg}
	}
	return Iface{pr.rtErr, msg}
}

func (pr *Program) fn(pkg, name string) *ssa.Function {
	p := pr.Pkgs[pkg]
	if p == nil {
		panic(unsupported("package %s not loaded", pkg))
	}
	f := p.Func(name)
	if f == nil {
		panic(unsupported("no function %s.%s", pkg, name))
	}
	return f
}

type mkey struct {
	t    types.Type
	name string
}

func (pr *Program) findMethod(t types.Type, pkg *types.Package, name string) *ssa.Function {
	k := mkey{t, name}
	if f, ok := pr.meths.Load(k); ok {
		return f.(*ssa.Function)
	}
	ms := pr.MethodSets.MethodSet(t)
	sel := ms.Lookup(pkg, name)
	if sel == nil {
		return nil
	}
	f := pr.MethodValue(sel)
	if f != nil {
		pr.meths.Store(k, f)
	}
	return f
}

func (pr *Program) implements(t types.Type, it *types.Interface) bool {
	type ik struct {
		t types.Type
		i *types.Interface
	}
	k := ik{t, it}
	if v, ok := pr.impl.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, it)
	pr.impl.Store(k, r)
	return r
}

// Stubs reads the "//verif:stub NAME" directives of the harness packages among pats' imports.
func (pr *Program) Stubs() (map[string]*ssa.Function, error) {
	out := map[string]*ssa.Function{}
	for path, p := range pr.All {
		if !strings.HasPrefix(path, harnessRoot) {
			continue
		}
		sp := pr.Pkgs[path]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					if l := strings.Fields(c.Text); fd.Body == nil && len(l) == 3 && l[0] == "//go:linkname" {
						target, err := pr.linked(l[2])
						if err != nil {
							return nil, err
						}
						out[path+"."+fd.Name.Name] = target
					}
					if name, ok := strings.CutPrefix(c.Text, "//verif:stub "); ok {
						fn := sp.Func(fd.Name.Name)
						if fn == nil {
							return nil, fmt.Errorf("stub %s: no function", fd.Name.Name)
						}
						out[strings.TrimSpace(name)] = fn
					}
				}
			}
		}
	}
	return out, nil
}

// linked finds the function a linkname directive refers to: pkg.f or pkg.(*T).m.
func (pr *Program) linked(name string) (*ssa.Function, error) {
	if pkg, rest, ok := strings.Cut(name, ".(*"); ok && pr.Pkgs[pkg] != nil {
		t, m, _ := strings.Cut(rest, ").")
		if ty := pr.Pkgs[pkg].Type(t); ty != nil {
			if f := pr.findMethod(types.NewPointer(ty.Type()), pr.Pkgs[pkg].Pkg, m); f != nil {
				return f, nil
			}
		}
	} else if pkg, f, ok := cutLast(name, "."); ok && pr.Pkgs[pkg] != nil {
		if fn := pr.Pkgs[pkg].Func(f); fn != nil {
			return fn, nil
		}
	}
	return nil, fmt.Errorf("linkname: no function %s", name)
}

// ifaceStub finds a stub for an interface method, named "(pkg.Iface).Method".
func (pr *Program) ifaceStub(cfg *Config, c *ssa.CallCommon) *ssa.Function {
	if len(cfg.Stubs) == 0 {
		return nil
	}
	n, ok := types.Unalias(c.Value.Type()).(*types.Named)
	if !ok {
		return nil
	}
	o := n.Obj()
	if o.Pkg() == nil {
		return nil
	}
	return cfg.Stubs["("+o.Pkg().Path()+"."+o.Name()+")."+c.Method.Name()]
}

// Entries lists the harness entry points "//verif:check NAME" of the loaded harness packages.
func (pr *Program) Entries() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for path, p := range pr.All {
		if !strings.HasPrefix(path, harnessRoot) {
			continue
		}
		sp := pr.Pkgs[path]
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				if fd, ok := d.(*ast.FuncDecl); ok && fd.Recv == nil && strings.HasPrefix(fd.Name.Name, "Check") && fd.Type.Params.NumFields() == 0 {
					if fn := sp.Func(fd.Name.Name); fn != nil {
						out[path[len(harnessRoot)+1:]+"."+fd.Name.Name] = fn
					}
				}
			}
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

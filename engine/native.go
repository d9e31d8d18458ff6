package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
)

// NativeRunner builds the harness and the real code with the Go compiler and runs recorded executions.
type NativeRunner struct {
	verif, repo string
	pr          *Program
	pkg         string // harness package relative to harnessRoot
	dir         string
	bin         map[bool]string // race -> binary
	err         error
}

func NewNativeRunner(pr *Program, verif, repo, pkg string) (*NativeRunner, error) {
	dir, err := os.MkdirTemp("", "gosym-native-")
	if err != nil {
		return nil, err
	}
	return &NativeRunner{verif: verif, repo: repo, pr: pr, pkg: pkg, dir: dir, bin: map[bool]string{}}, nil
}

func (n *NativeRunner) Close() { os.RemoveAll(n.dir) }

// linkDecl is a harness function without a body that stands for an unexported function.
type linkDecl struct {
	fd     *ast.FuncDecl
	file   string // of the harness
	target *types.Func
	tfile  string // of the target
	tpkg   *packages.Package
	name   string // of the variable that exports the target
	alias  string // of the target's package in the harness
}

// links finds the harness functions that stand for unexported functions.
func (n *NativeRunner) links() ([]linkDecl, error) {
	stubs, err := n.pr.Stubs()
	if err != nil {
		return nil, err
	}
	byPath := map[string]*packages.Package{}
	for _, p := range n.pr.All {
		byPath[p.PkgPath] = p
	}
	var out []linkDecl
	for _, p := range n.pr.All {
		if !strings.HasPrefix(p.PkgPath, harnessRoot) {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Body != nil {
					continue
				}
				t := stubs[p.PkgPath+"."+fd.Name.Name]
				if t == nil {
					continue
				}
				o, ok := t.Object().(*types.Func)
				if !ok {
					return nil, fmt.Errorf("linkname %s: no declaration", fd.Name.Name)
				}
				l := linkDecl{fd: fd, file: n.pr.Fset.Position(fd.Pos()).Filename, target: o,
					tfile: n.pr.Fset.Position(o.Pos()).Filename, tpkg: byPath[o.Pkg().Path()], name: "VFLink_" + p.Name + "_" + fd.Name.Name}
				for _, im := range f.Imports {
					if strings.Trim(im.Path.Value, `"`) == o.Pkg().Path() {
						if l.alias = o.Pkg().Name(); im.Name != nil {
							l.alias = im.Name.Name
						}
					}
				}
				if l.alias == "" || l.tpkg == nil {
					return nil, fmt.Errorf("linkname %s: its file does not import %s", fd.Name.Name, o.Pkg().Path())
				}
				out = append(out, l)
			}
		}
	}
	return out, nil
}

type hookDecl struct {
	pkg   *packages.Package
	file  string
	fd    *ast.FuncDecl
	hook  string
	stub  string // harness function
	stubP string // package of the stub
}

// hooks finds the declarations of the stubbed functions.
func (n *NativeRunner) hooks() ([]hookDecl, error) {
	stubs, err := n.pr.Stubs()
	if err != nil {
		return nil, err
	}
	var out []hookDecl
	found := map[string]bool{}
	for _, p := range n.pr.All {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Name == nil {
					continue
				}
				o, ok := p.TypesInfo.Defs[fd.Name].(*types.Func)
				if !ok {
					continue
				}
				st := stubs[o.FullName()]
				if st == nil || fd.Body == nil && strings.HasPrefix(p.PkgPath, harnessRoot) {
					continue
				}
				found[o.FullName()] = true
				if fd.Body == nil {
					return nil, fmt.Errorf("hook %s: no body", o.FullName())
				}
				h := "VFHook_" + fd.Name.Name
				if fd.Recv != nil {
					t := fd.Recv.List[0].Type
					if s, ok := t.(*ast.StarExpr); ok {
						t = s.X
					}
					h = "VFHook_" + t.(*ast.Ident).Name + "_" + fd.Name.Name
				}
				out = append(out, hookDecl{p, n.pr.Fset.Position(fd.Pos()).Filename, fd, h, st.Name(), st.Pkg.Pkg.Path()})
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].hook < out[j].hook })
	return out, nil
}

// build compiles the replay binary.
func (n *NativeRunner) build(race bool) (string, error) {
	if b, ok := n.bin[race]; ok {
		return b, n.err
	}
	n.bin[race] = ""
	ov := map[string]string{}
	for k, v := range n.pr.Overlay {
		ov[k] = v
	}
	hs, err := n.hooks()
	if err != nil {
		n.err = err
		return "", err
	}
	links, err := n.links()
	if err != nil {
		n.err = err
		return "", err
	}
	byFile := map[string][]hookDecl{}
	pkgOf := map[string]*packages.Package{}
	for _, h := range hs {
		byFile[h.file] = append(byFile[h.file], h)
		pkgOf[h.file] = h.pkg
	}
	for _, l := range links {
		byFile[l.tfile] = append(byFile[l.tfile], []hookDecl{}...)
		pkgOf[l.tfile] = l.tpkg
		src := ov[l.file]
		b, err := os.ReadFile(src)
		if err != nil {
			n.err = err
			return "", err
		}
		// the overlaid file may be a rewritten one already: find the declaration by its text
		from, to := n.pr.Fset.Position(l.fd.Name.Pos()).Offset, n.pr.Fset.Position(l.fd.Type.End()).Offset
		orig, err := os.ReadFile(n.pr.Overlay[l.file])
		if err != nil {
			n.err = err
			return "", err
		}
		b = bytes.Replace(b, append([]byte("func "), orig[from:to]...), []byte("var "+l.fd.Name.Name+" = "+l.alias+"."+l.name), 1)
		for _, c := range l.fd.Doc.List {
			if strings.HasPrefix(c.Text, "//go:linkname") {
				b = bytes.Replace(b, []byte(c.Text+"\n"), nil, 1)
			}
		}
		dst := filepath.Join(n.dir, "link_"+l.tpkg.Name+"_"+filepath.Base(filepath.Dir(l.file))+"_"+filepath.Base(l.file))
		if err := os.WriteFile(dst, b, 0644); err != nil {
			n.err = err
			return "", err
		}
		ov[l.file] = dst
	}
	ei := 0
	for file, src := range n.pr.Edited {
		dst := filepath.Join(n.dir, fmt.Sprintf("edited%d.go", ei))
		ei++
		if err := os.WriteFile(dst, src, 0644); err != nil {
			n.err = err
			return "", err
		}
		ov[file] = dst
	}
	modCopy := map[string]string{}
	fi := 0
	for file, l := range byFile {
		src, err := n.pr.Edited[file], error(nil)
		if src == nil {
			src, err = os.ReadFile(file)
		}
		if err != nil {
			n.err = err
			return "", err
		}
		type edit struct {
			off, end int
			txt      string
		}
		var edits []edit
		var tail bytes.Buffer
		off := func(p interface{ Pos() int }) int { return p.Pos() }
		_ = off
		text := func(a ast.Node) string {
			s := n.pr.Fset.Position(a.Pos()).Offset
			e := n.pr.Fset.Position(a.End()).Offset
			return string(src[s:e])
		}
		for _, h := range l {
			fd := h.fd
			s := n.pr.Fset.Position(fd.Name.Pos()).Offset
			edits = append(edits, edit{s, s + len(fd.Name.Name), "vforig_" + fd.Name.Name})
			var types_, params, args []string
			recv := ""
			callee := "vforig_" + fd.Name.Name
			if fd.Recv != nil {
				rt := text(fd.Recv.List[0].Type)
				recv = "(vfr " + rt + ") "
				types_ = append(types_, rt)
				args = append(args, "vfr")
				callee = "vfr." + callee
			}
			k := 0
			for _, f := range fd.Type.Params.List {
				c := max(len(f.Names), 1)
				for i := 0; i < c; i++ {
					nm := fmt.Sprintf("vfa%d", k)
					k++
					t := text(f.Type)
					types_ = append(types_, t)
					params = append(params, nm+" "+t)
					if strings.HasPrefix(t, "...") {
						nm += "..."
					}
					args = append(args, nm)
				}
			}
			var res []string
			if fd.Type.Results != nil {
				for _, f := range fd.Type.Results.List {
					for i := 0; i < max(len(f.Names), 1); i++ {
						res = append(res, text(f.Type))
					}
				}
			}
			rs := ""
			ret, ret2 := "return ", ""
			if len(res) > 0 {
				rs = "(" + strings.Join(res, ", ") + ")"
			} else {
				ret = ""
				ret2 = "; return"
			}
			oargs := args
			if fd.Recv != nil {
				oargs = args[1:]
			}
			fmt.Fprintf(&tail, "\nvar %s func(%s) %s\n", h.hook, strings.Join(types_, ", "), rs)
			fmt.Fprintf(&tail, "func %s%s(%s) %s {\n\tif %s != nil { %s%s(%s)%s }\n\t%s%s(%s)\n}\n", recv, fd.Name.Name, strings.Join(params, ", "), rs, h.hook, ret, h.hook, strings.Join(args, ", "), ret2, ret, callee, strings.Join(oargs, ", "))
		}
		sort.Slice(edits, func(i, j int) bool { return edits[i].off > edits[j].off })
		out := src
		for _, e := range edits {
			out = append(append(append([]byte{}, out[:e.off]...), e.txt...), out[e.end:]...)
		}
		for _, l := range links {
			if l.tfile != file {
				continue
			}
			fn := l.target.Name()
			if r := l.target.Type().(*types.Signature).Recv(); r != nil {
				fn = "(" + types.TypeString(r.Type(), func(*types.Package) string { return "" }) + ")." + fn
			}
			fmt.Fprintf(&tail, "\nvar %s = %s\n", l.name, fn)
		}
		out = append(out, tail.Bytes()...)
		dst := filepath.Join(n.dir, fmt.Sprintf("hook%d.go", fi))
		fi++
		if err := os.WriteFile(dst, out, 0644); err != nil {
			n.err = err
			return "", err
		}
		if m := pkgOf[file].Module; m != nil && !m.Main && m.Dir != "" {
			// the go command takes no overlay inside the module cache
			md, ok := modCopy[m.Path]
			if !ok {
				md = filepath.Join(n.dir, fmt.Sprintf("mod%d_%v", len(modCopy), race))
				modCopy[m.Path] = md
				if err := copyTree(m.Dir, md); err != nil {
					n.err = err
					return "", err
				}
				if _, err := os.Stat(filepath.Join(md, "go.mod")); err != nil {
					os.WriteFile(filepath.Join(md, "go.mod"), []byte("module "+m.Path+"\n"), 0644)
				}
			}
			rel, err := filepath.Rel(m.Dir, file)
			if err == nil {
				err = os.WriteFile(filepath.Join(md, rel), out, 0644)
			}
			if err != nil {
				n.err = err
				return "", err
			}
			continue
		}
		ov[file] = dst
	}
	// the test driver
	var b bytes.Buffer
	hp := harnessRoot + "/" + n.pkg
	name := n.pr.All[hp].Name
	fmt.Fprintf(&b, "package %s\n\nimport (\n\t\"os\"\n\t\"testing\"\n\t\"testing/synctest\"\n\tvfsym \"%s\"\n", name, symPkg)
	imp := map[string]string{}
	addImp := func(p string) string {
		if p == hp {
			return ""
		}
		if imp[p] == "" {
			imp[p] = fmt.Sprintf("vfp%d", len(imp))
			fmt.Fprintf(&b, "\t%s %q\n", imp[p], p)
		}
		return imp[p] + "."
	}
	var body bytes.Buffer
	exports := map[string]*bytes.Buffer{}
	for _, h := range hs {
		stub := h.stub
		if h.stubP != hp {
			// a stub of another harness package
			if exports[h.stubP] == nil {
				exports[h.stubP] = bytes.NewBufferString("package " + n.pr.All[h.stubP].Name + "\n\n")
			}
			fmt.Fprintf(exports[h.stubP], "var VFStub_%s = %s\n", stub, stub)
			stub = "VFStub_" + stub
		}
		fmt.Fprintf(&body, "\t%s%s = %s%s\n", addImp(h.pkg.PkgPath), h.hook, addImp(h.stubP), stub)
	}
	for p, b := range exports {
		_, dir, _ := cutLast(p, "/")
		f := filepath.Join(n.dir, "stubs_"+dir+".go")
		if err := os.WriteFile(f, b.Bytes(), 0644); err != nil {
			n.err = err
			return "", err
		}
		ov[filepath.Join(n.repo, "internal", "vharness", dir, "zz_vfstubs.go")] = f
	}
	fmt.Fprintf(&b, ")\n\nfunc TestVFReplay(t *testing.T) {\n\tc := vfsym.LoadCase(os.Getenv(\"VF_CASE\"))\n\trun := map[string]func(){\n")
	for e := range n.pr.Entries() {
		if pk, fn, _ := cutLast(e, "."); pk == n.pkg {
			fmt.Fprintf(&b, "\t\t%q: %s,\n", e, fn)
		}
	}
	fmt.Fprintf(&b, "\t}[c.Entry]\n%s\tif os.Getenv(\"VF_BUBBLE\") == \"0\" { run(); vfsym.End() }\n\tsynctest.Test(t, func(t *testing.T) {\n\t\tvfsym.Start()\n\t\trun()\n\t\tvfsym.End()\n\t})\n}\n", body.String())
	drv := filepath.Join(n.dir, "driver_test.go")
	if err := os.WriteFile(drv, b.Bytes(), 0644); err != nil {
		n.err = err
		return "", err
	}
	pdir := filepath.Join(n.repo, "internal", "vharness", n.pkg)
	ov[filepath.Join(pdir, "zz_vfdriver_test.go")] = drv
	oj, _ := json.Marshal(map[string]any{"Replace": ov})
	ovf := filepath.Join(n.dir, "overlay.json")
	if err := os.WriteFile(ovf, oj, 0644); err != nil {
		n.err = err
		return "", err
	}
	bin := filepath.Join(n.dir, "replay.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
	env := append(os.Environ(), "CGO_ENABLED=0")
	if race {
		bin += ".race"
		args[len(args)-1] = bin
		args = append(args, "-race")
		env = append(os.Environ(), "CGO_ENABLED=1")
	}
	mf, err := modfile(n.repo, n.dir, modCopy)
	if err != nil {
		n.err = err
		return "", err
	}
	args = append(args, "-mod=mod", "-modfile="+mf)
	args = append(args, "./internal/vharness/"+n.pkg)
	cmd := exec.Command("go", args...)
	cmd.Dir = n.repo
	cmd.Env = env
	outp, err := cmd.CombinedOutput()
	if err != nil {
		n.err = fmt.Errorf("native build: %v\n%s", err, outp)
		return "", n.err
	}
	n.bin[race] = bin
	return bin, nil
}

func cutLast(s, sep string) (string, string, bool) {
	i := strings.LastIndex(s, sep)
	if i < 0 {
		return s, "", false
	}
	return s[:i], s[i+len(sep):], true
}

type NativeCase struct {
	Entry  string           `json:"entry"`
	Params map[string]int64 `json:"params"`
	Inputs []ReplayInput    `json:"inputs"`
}

type NativeOut struct {
	Asserts, Covers, Obs []string
	Panic                string
	Timeout, Assume, End bool
	Missing              []string
	failed               []string // assertions that failed while the inputs were as recorded
	Race                 bool
	Text                 string
}

func (n *NativeRunner) Run(c NativeCase, race bool, timeout time.Duration) (*NativeOut, error) {
	bin, err := n.build(race)
	if err != nil {
		return nil, err
	}
	if bin == "" {
		return nil, n.err
	}
	f, err := os.CreateTemp(n.dir, "case*.json")
	if err != nil {
		return nil, err
	}
	data, _ := json.Marshal(c)
	f.Write(data)
	f.Close()
	work, err := os.MkdirTemp(n.dir, "work")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(work)
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, bin, "-test.run", "TestVFReplay$", "-test.timeout", "0")
	cmd.Dir = work
	cmd.Env = append(os.Environ(), "VF_CASE="+f.Name(), "VF_DIR="+work, "GORACE=halt_on_error=1")
	var out bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &out
	err = cmd.Run()
	o := &NativeOut{Text: out.String(), Timeout: ctx.Err() != nil}
	for _, l := range strings.Split(o.Text, "\n") {
		switch {
		case strings.HasPrefix(l, "VF-ASSERT "):
			o.Asserts = append(o.Asserts, l[10:])
			if !o.Assume && len(o.Missing) == 0 {
				o.failed = append(o.failed, l[10:])
			}
		case strings.HasPrefix(l, "VF-COVER "):
			o.Covers = append(o.Covers, l[9:])
		case strings.HasPrefix(l, "VF-OBS "):
			o.Obs = append(o.Obs, l[7:])
		case strings.HasPrefix(l, "VF-MISSING "):
			o.Missing = append(o.Missing, l[11:])
		case l == "VF-ASSUME":
			o.Assume = true
		case l == "VF-END":
			o.End = true
		case strings.HasPrefix(l, "panic: ") || strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "VF-PANIC "):
			if o.Panic == "" {
				o.Panic = l
			}
		case strings.HasPrefix(l, "WARNING: DATA RACE"):
			o.Race = true
		}
	}
	return o, nil
}

// Confirm tells whether the native run shows the violation.
func (o *NativeOut) Confirm(v *Violation) bool {
	if v.Kind == "assert" {
		// the executor's run ends there, the native one goes on
		for _, a := range o.failed {
			if a == v.Msg {
				return true
			}
		}
		return false
	}
	if o.Assume || len(o.Missing) > 0 {
		return false
	}
	switch v.Kind {
	case "panic":
		return o.Panic != "" && !strings.Contains(o.Panic, "deadlock")
	case "deadlock":
		return o.Timeout || strings.Contains(o.Panic, "deadlock") || strings.Contains(o.Panic, "asleep")
	case "race":
		return o.Race || strings.Contains(o.Panic, "concurrent map")
	}
	return false
}

// modfile writes a copy of the repository's go.mod, for the go command to keep its hands off the original, in which
// the given modules are replaced by copies.
func modfile(repo, dir string, repl map[string]string) (string, error) {
	gm, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		return "", err
	}
	for p, d := range repl {
		gm = append(gm, []byte(fmt.Sprintf("\nreplace %s => %s\n", p, d))...)
	}
	mf := filepath.Join(dir, "vf.mod")
	if err := os.WriteFile(mf, gm, 0644); err != nil {
		return "", err
	}
	if gs, err := os.ReadFile(filepath.Join(repo, "go.sum")); err == nil {
		if err := os.WriteFile(filepath.Join(dir, "vf.sum"), gs, 0644); err != nil {
			return "", err
		}
	}
	return mf, nil
}

func copyTree(src, dst string) error {
	return filepath.WalkDir(src, func(p string, d os.DirEntry, err error) error {
		if err != nil {
			return err
		}
		rel, err := filepath.Rel(src, p)
		if err != nil {
			return err
		}
		to := filepath.Join(dst, rel)
		if d.IsDir() {
			return os.MkdirAll(to, 0755)
		}
		if !d.Type().IsRegular() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		return os.WriteFile(to, b, 0644)
	})
}

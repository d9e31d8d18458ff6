package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Packages whose globals are written only by their initialiser: initialised once per worker.
var pristinePkgs = map[string]bool{
	"unicode": true, "unicode/utf8": true, "strconv": true, "strings": true, "bytes": true, "math": true, "math/bits": true, "errors": true,
	"encoding/base64": true, "encoding/binary": true, "path": true, "path/filepath": true, "internal/bytealg": true, "io": true, "sort": true,
	"internal/strconv": true, "encoding/json": true, "time": true,
}

// global returns the cell of g, initialising its package when first touched.
func (p *Path) global(g *Gor, v *ssa.Global) Ptr {
	if c, ok := p.globals[v]; ok {
		return c
	}
	pkg := v.Pkg
	path := pkg.Pkg.Path()
	if pristinePkgs[path] {
		if m := p.w.pristin[pkg]; m != nil {
			for gl, c := range m {
				p.globals[gl] = c
			}
			if c, ok := p.globals[v]; ok {
				return c
			}
		}
	}
	p.initPackage(g, pkg)
	if pristinePkgs[path] {
		m := map[*ssa.Global]Ptr{}
		for _, mem := range pkg.Members {
			if gl, ok := mem.(*ssa.Global); ok {
				m[gl] = p.globals[gl]
			}
		}
		p.w.pristin[pkg] = m
	}
	return p.globals[v]
}

func (p *Path) declGlobals(pkg *ssa.Package) {
	for _, m := range pkg.Members {
		if gl, ok := m.(*ssa.Global); ok {
			if _, ok := p.globals[gl]; !ok {
				c := new(Value)
				*c = p.b.zero(derefType(gl.Type()))
				p.globals[gl] = c
			}
		}
	}
}

// initPackage runs the package initialiser; values that cannot be computed become poison.
func (p *Path) initPackage(g *Gor, pkg *ssa.Package) {
	if p.inited[pkg] {
		return
	}
	p.inited[pkg] = true
	p.declGlobals(pkg)
	local := isLocalPkg(pkg.Pkg.Path())
	if skipInit[pkg.Pkg.Path()] {
		return
	}
	ini := pkg.Func("init")
	if ini == nil {
		return
	}
	fi := getInfo(ini)
	fr := &frame{g: g, fi: fi, fn: ini, env: make([]Value, fi.nslots), prev: -1, initMode: true}
	old, oldDepth := g.top, g.depth
	fr.caller = old
	g.top = fr
	g.initing++
	steps := p.steps
	defer func() {
		g.top, g.depth = old, oldDepth
		g.initing--
		if !local {
			p.steps = steps
		}
	}()
	func() {
		defer func() {
			if x := recover(); x != nil {
				if a, ok := x.(*abort); ok && a.kind != "unsupported" {
					panic(x)
				}
				if local {
					panic(x)
				}
				why := fmt.Sprint(x)
				stored := map[*ssa.Global]bool{}
				for _, b := range fi.blocks {
					for _, ci := range b.ins {
						if st, ok := ci.in.(*ssa.Store); ok {
							if gl, ok := st.Addr.(*ssa.Global); ok {
								stored[gl] = true
							}
						}
					}
				}
				for gl := range stored {
					if gl.Name() != "init$guard" {
						c := p.globals[gl]
						*c = Poison{"initialiser of " + pkg.Pkg.Path() + " stopped: " + why}
					}
				}
			}
		}()
		fr.loop()
	}()
}

// skipInit: packages whose initialisers have no effect on the code under check (registries, metrics, loggers).
var skipInit = map[string]bool{
	"github.com/sirupsen/logrus":                       true,
	"github.com/prometheus/client_golang/prometheus":   true,
	"google.golang.org/protobuf/reflect/protoregistry": true,
}

// safeExec executes one instruction of an external package initialiser.
func (fr *frame) safeExec(ci *cins) {
	defer func() {
		x := recover()
		if x == nil {
			return
		}
		if a, ok := x.(*abort); ok && a.kind != "unsupported" {
			panic(x)
		}
		if fr.fn.Pkg != nil && isLocalPkg(fr.fn.Pkg.Pkg.Path()) && !strings.HasPrefix(fr.fn.Pkg.Pkg.Path(), harnessRoot) {
			// repository initialisers: unsupported parts are poison too, but panics are real
			if _, ok := x.(targetPanic); ok {
				panic(x)
			}
		}
		fr.g.top = fr
		why := fmt.Sprint(x)
		if tp, ok := x.(targetPanic); ok {
			why = fr.g.p.describe(nil, tp.v)
		}
		if fr.g.p.w.e.cfg.Verbose {
			fr.g.p.w.natives["poison in "+fr.fn.Pkg.Pkg.Path()+": "+firstLine(why)]++
		}
		if ci.dst >= 0 {
			fr.env[ci.dst] = Poison{why}
		}
		if st, ok := ci.in.(*ssa.Store); ok {
			if gl, ok := st.Addr.(*ssa.Global); ok {
				*fr.g.p.globals[gl] = Poison{why}
			}
		}
	}()
	fr.exec(ci.in, ci)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// initRepo runs the initialisers of the repository's and harness' packages in dependency order.
func (p *Path) initRepo(g *Gor) {
	// the time package reads the clock when it is initialised: do it while the clock is constant
	if t := p.cfg.Prog.Pkgs["time"]; t != nil {
		if gl, ok := t.Members["startNano"].(*ssa.Global); ok {
			p.global(g, gl)
		}
	}
	for _, pkg := range p.cfg.Prog.order {
		p.initPackage(g, pkg)
	}
}

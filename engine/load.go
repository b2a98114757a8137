package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modPath = "github.com/strangelove-ventures/horcrux"
	goRoot  = "/opt/veriftools/go1.23.12"
)

var pkgDirs = map[string]string{
	"signer": "signer",
	"cmd":    "cmd/horcrux/cmd",
}

type harness struct {
	name string
	pkg  string // short package name
	opts map[string]string
	doc  string
}

func goEnv() []string {
	var o []string
	for _, e := range os.Environ() {
		if strings.HasPrefix(e, "GOFLAGS=") || strings.HasPrefix(e, "GOTOOLCHAIN=") || strings.HasPrefix(e, "GOPROXY=") || strings.HasPrefix(e, "GOWORK=") || strings.HasPrefix(e, "PATH=") || strings.HasPrefix(e, "GOROOT=") {
			continue
		}
		o = append(o, e)
	}
	return append(o, "GOPATH="+envOr("GOPATH", "/root/go"), "GOCACHE="+envOr("GOCACHE", "/root/.cache/go-build"), "GOMODCACHE="+envOr("GOMODCACHE", "/root/go/pkg/mod"), "PATH="+goRoot+"/bin:"+os.Getenv("PATH"), "GOTOOLCHAIN=local", "GOPROXY=off", "GOFLAGS=-mod=mod -buildvcs=false", "GOWORK=off", "CGO_ENABLED=1")
}

// overlayFiles maps in-repo paths to harness files for a property.
func overlayFiles(repo, verif, prop string) map[string]string {
	o := map[string]string{filepath.Join(repo, "zzvx/zzvx.go"): filepath.Join(verif, "harness/zzvx/zzvx.go")}
	for short, dir := range pkgDirs {
		fs, _ := filepath.Glob(filepath.Join(verif, "harness", short, "zz_vx_*.go"))
		has := false
		for _, f := range fs {
			if strings.Contains(filepath.Base(f), prop) {
				has = true
			}
		}
		if !has {
			continue
		}
		for _, f := range fs {
			b := filepath.Base(f)
			if strings.Contains(b, prop) || strings.Contains(b, "common") && wantsCommon(verif, short, prop, b) {
				o[filepath.Join(repo, dir, b)] = f
			}
		}
	}
	return o
}

// wantsCommon: helper files zz_vx_common_X.go are used by a property when its harness says //vx:use X.
func wantsCommon(verif, short, prop, base string) bool {
	name := strings.TrimSuffix(strings.TrimPrefix(base, "zz_vx_common"), ".go")
	name = strings.TrimPrefix(name, "_")
	if name == "" {
		return true
	}
	fs, _ := filepath.Glob(filepath.Join(verif, "harness", short, "zz_vx_*"+prop+"*.go"))
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "//vx:use ") {
				for _, w := range strings.Fields(l)[1:] {
					if w == name {
						return true
					}
				}
			}
		}
	}
	return false
}

func loadEngine(repo, verif, prop string, verbose bool) (*Engine, []harness) {
	ov := overlayFiles(repo, verif, prop)
	overlay := map[string][]byte{}
	var pats []string
	seen := map[string]bool{}
	for k, f := range ov {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("read %s: %v", f, err)
		}
		overlay[k] = b
		d, _ := filepath.Rel(repo, filepath.Dir(k))
		if d != "zzvx" && !seen[d] {
			seen[d] = true
			pats = append(pats, "./"+d)
		}
	}
	if len(pats) == 0 {
		fatal("no harness for %s", prop)
	}
	sort.Strings(pats)
	os.Setenv("PATH", goRoot+"/bin:"+os.Getenv("PATH"))
	cfg := &packages.Config{
		Mode:    packages.LoadAllSyntax,
		Dir:     repo,
		Env:     goEnv(),
		Overlay: overlay,
		Fset:    token.NewFileSet(),
	}
	t0 := time.Now()
	pk, err := packages.Load(cfg, pats...)
	if err != nil {
		fatal("load: %v", err)
	}
	n := 0
	packages.Visit(pk, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if strings.Contains(p.PkgPath, modPath) {
				fmt.Fprintln(os.Stderr, "load error:", e)
				n++
			} else if verbose {
				fmt.Fprintln(os.Stderr, "dependency:", e)
			}
		}
	})
	if n > 0 {
		fatal("the harness of %s does not compile against the current source", prop)
	}
	if verbose {
		fmt.Println("loaded in", time.Since(t0))
	}
	prog, _ := ssautil.AllPackages(pk, ssa.InstantiateGenerics)
	prog.Build()
	if verbose {
		fmt.Println("ssa in", time.Since(t0))
	}
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, sizes: types.SizesFor("gc", "amd64"),
		models: map[string]bool{}, fnsSeen: map[string]int{}, methods: map[string]*ssa.Function{},
		impl: map[implKey]bool{}, racy: map[string]bool{}, races: map[string]string{}, verbose: verbose}
	var hs []harness
	for _, p := range pk {
		sp := prog.Package(p.Types)
		short := ""
		for s, d := range pkgDirs {
			if p.PkgPath == modPath+"/"+d {
				short = s
			}
		}
		e.pkgs[short] = sp
		for _, f := range p.Syntax {
			fn := cfg.Fset.Position(f.Pos()).Filename
			if !strings.Contains(filepath.Base(fn), "zz_vx_") {
				continue
			}
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "Vx"+prop) {
					continue
				}
				h := harness{name: fd.Name.Name, pkg: short, opts: map[string]string{}}
				if fd.Doc != nil {
					for _, c := range fd.Doc.List {
						t := strings.TrimPrefix(c.Text, "//")
						if strings.HasPrefix(t, "vx:opts ") {
							for _, w := range strings.Fields(t)[1:] {
								k, v, _ := strings.Cut(w, "=")
								h.opts[k] = v
							}
						} else if !strings.HasPrefix(t, "vx:") {
							h.doc += strings.TrimSpace(t) + " "
						}
					}
				}
				hs = append(hs, h)
			}
		}
	}
	sort.Slice(hs, func(i, j int) bool { return hs[i].name < hs[j].name })
	rt := prog.ImportedPackage("runtime")
	if rt == nil {
		fatal("runtime package missing")
	}
	e.rtErrType = rt.Type("errorString").Type()
	return e, hs
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

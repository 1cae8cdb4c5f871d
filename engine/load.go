package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const modPath = "github.com/way-platform/tachograph-go"

type Loader struct {
	prog    *ssa.Program
	pkgs    []*packages.Package
	byPath  map[string]*packages.Package
	fset    *token.FileSet
	repo    string
	mu      sync.Mutex
	built   map[*ssa.Package]bool
	enums   map[string]*EnumInfo // pkgpath.GoName
	dropped []string             // harness files dropped because they no longer type-check
	overlay map[string][]byte
	files   map[string]string // overlay target -> harness source
	methMu  sync.Mutex
	models  map[string]*ssa.Function
	errType types.Type
}

func goEnv() []string {
	env := []string{}
	for _, kv := range os.Environ() {
		if strings.HasPrefix(kv, "PATH=") || strings.HasPrefix(kv, "GOFLAGS=") || strings.HasPrefix(kv, "GOROOT=") || strings.HasPrefix(kv, "GOTOOLCHAIN=") {
			continue
		}
		env = append(env, kv)
	}
	path := os.Getenv("PATH")
	for _, d := range goDirs() {
		if _, err := os.Stat(filepath.Join(d, "go")); err == nil {
			path = d + ":" + path
			break
		}
	}
	return append(env, "PATH="+path, "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOSUMDB=off")
}

func goDirs() []string {
	// the toolchain the repository is built with
	b, err := os.ReadFile("/opt/vp/env.sh")
	var out []string
	if err == nil {
		for _, l := range strings.Split(string(b), "\n") {
			if i := strings.Index(l, "PATH="); i >= 0 {
				v := strings.Trim(l[i+5:], `"'`)
				out = append(out, strings.Split(v, ":")[0])
			}
		}
	}
	return out
}

// harnessFiles maps overlay paths in the repository to harness sources.
func harnessFiles(verif, repo string) (map[string]string, error) {
	out := map[string]string{}
	root := filepath.Join(verif, "harness")
	shared, err := filepath.Glob(filepath.Join(root, "*.go.txt"))
	if err != nil {
		return nil, err
	}
	dirs := map[string]bool{}
	err = filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return err
		}
		rel, _ := filepath.Rel(root, p)
		dir := filepath.Dir(rel)
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		base := strings.TrimSuffix(filepath.Base(rel), ".go")
		out[filepath.Join(repo, dir, "zz_verif_"+base+".go")] = string(b)
		dirs[dir] = true
		return nil
	})
	if err != nil {
		return nil, err
	}
	for d := range dirs {
		name := filepath.Base(d)
		if d == "." {
			name = "tachograph"
		}
		for _, sf := range shared {
			b, err := os.ReadFile(sf)
			if err != nil {
				return nil, err
			}
			base := strings.TrimSuffix(filepath.Base(sf), ".go.txt")
			out[filepath.Join(repo, d, "zz_verif_"+base+".go")] = strings.Replace(string(b), "package PKG", "package "+name, 1)
		}
	}
	return out, nil
}

func load(verif, repo string, only map[string]bool) (*Loader, error) {
	L := &Loader{repo: repo, built: map[*ssa.Package]bool{}, byPath: map[string]*packages.Package{}}
	files, err := harnessFiles(verif, repo)
	if err != nil {
		return nil, err
	}
	for attempt := 0; attempt < 6; attempt++ {
		ov := map[string][]byte{}
		for k, v := range files {
			ov[k] = []byte(v)
		}
		fset := token.NewFileSet()
		cfg := &packages.Config{
			Mode:    packages.LoadAllSyntax,
			Dir:     repo,
			Env:     goEnv(),
			Overlay: ov,
			Fset:    fset,
		}
		pkgs, err := packages.Load(cfg, ".", "./internal/...")
		if err != nil {
			return nil, err
		}
		bad := map[string]bool{}
		var errs []string
		for _, p := range pkgs {
			for _, e := range p.Errors {
				f := strings.SplitN(e.Pos, ":", 2)[0]
				errs = append(errs, e.Error())
				if strings.Contains(filepath.Base(f), "zz_verif_") && !strings.HasSuffix(f, "zz_verif_rt.go") {
					bad[f] = true
				}
			}
		}
		if len(errs) > 0 {
			if len(bad) == 0 {
				return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
			}
			for f := range bad {
				delete(files, f)
				L.dropped = append(L.dropped, filepath.Base(f)+": "+strings.Join(errs, "; "))
			}
			continue
		}
		L.pkgs, L.fset, L.overlay, L.files = pkgs, fset, ov, files
		prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
		L.prog = prog
		packages.Visit(pkgs, nil, func(p *packages.Package) { L.byPath[p.PkgPath] = p })
		sort.Strings(L.dropped)
		return L, nil
	}
	return nil, fmt.Errorf("cannot load: %v", L.dropped)
}

func (L *Loader) buildPkg(p *ssa.Package) {
	L.mu.Lock()
	defer L.mu.Unlock()
	if !L.built[p] {
		p.Build()
		L.built[p] = true
	}
}

func (L *Loader) build(fn *ssa.Function) {
	if fn.Pkg != nil {
		L.buildPkg(fn.Pkg)
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		L.buildPkg(o.Pkg)
	} else if obj := fn.Object(); obj != nil && obj.Pkg() != nil {
		if p := L.prog.Package(obj.Pkg()); p != nil {
			L.buildPkg(p)
		}
	}
}

func (L *Loader) method(t types.Type, m *types.Func) *ssa.Function {
	L.mu.Lock()
	defer L.mu.Unlock()
	sel := L.prog.MethodSets.MethodSet(t).Lookup(m.Pkg(), m.Name())
	if sel == nil {
		return nil
	}
	return L.prog.MethodValue(sel)
}

func (L *Loader) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := L.fset.Position(p)
	return strings.TrimPrefix(q.Filename, L.repo+"/") + fmt.Sprintf(":%d", q.Line)
}

// harnesses lists the functions named vh_<property>_<name> with no parameters.
func (L *Loader) harnesses() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for _, p := range L.pkgs {
		sp := L.prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "vh_") {
				out[n] = f
			}
		}
	}
	return out
}

// directives reads "//v:key value" comments of a harness function.
func (L *Loader) directives(name string) map[string]string {
	out := map[string]string{}
	for _, p := range L.pkgs {
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Name.Name != name || fd.Doc == nil {
					continue
				}
				for _, c := range fd.Doc.List {
					t := strings.TrimPrefix(c.Text, "//v:")
					if t != c.Text {
						k, v, _ := strings.Cut(t, " ")
						out[k] = strings.TrimSpace(v)
					}
				}
			}
		}
	}
	return out
}

// finish builds the SSA of everything and indexes harness models.
func (L *Loader) finish() {
	L.prog.Build()
	for _, p := range L.prog.AllPackages() {
		L.built[p] = true
	}
	L.loadEnums()
	L.models = map[string]*ssa.Function{}
	for _, p := range L.pkgs {
		sp := L.prog.Package(p.Types)
		if sp == nil {
			continue
		}
		for n, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && strings.HasPrefix(n, "vm_") {
				L.models[n] = f
			}
		}
	}
	if p := L.prog.ImportedPackage("errors"); p != nil {
		if t := p.Type("errorString"); t != nil {
			L.errType = types.NewPointer(t.Type())
		}
	}
}

package main

import (
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// initEmbeds gives the variables with go:embed directives the contents of the files, as the linker does.
func (e *Eng) initEmbeds(st *State, p *ssa.Package) {
	pp := e.L.byPath[p.Pkg.Path()]
	if pp == nil {
		return
	}
	for i, f := range pp.Syntax {
		dir := filepath.Dir(pp.Fset.Position(f.Pos()).Filename)
		_ = i
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				doc := vs.Doc
				if doc == nil && !gd.Lparen.IsValid() {
					doc = gd.Doc
				}
				if doc == nil || len(vs.Names) != 1 {
					continue
				}
				var pats []string
				for _, c := range doc.List {
					if !strings.HasPrefix(c.Text, "//go:embed ") {
						continue
					}
					for _, w := range strings.Fields(c.Text[len("//go:embed "):]) {
						if u, err := strconv.Unquote(w); err == nil {
							w = u
						}
						pats = append(pats, strings.TrimPrefix(w, "all:"))
					}
				}
				g, ok := p.Members[vs.Names[0].Name].(*ssa.Global)
				if len(pats) == 0 || !ok {
					continue
				}
				e.embed(st, g, dir, pats)
			}
		}
	}
}

func (e *Eng) embed(st *State, g *ssa.Global, dir string, pats []string) {
	files := map[string]string{}
	for _, pat := range pats {
		m, err := filepath.Glob(filepath.Join(dir, pat))
		if err != nil || len(m) == 0 {
			panic(engErr("go:embed " + pat))
		}
		for _, f := range m {
			filepath.Walk(f, func(path string, info os.FileInfo, err error) error {
				if err != nil {
					panic(engErr(err.Error()))
				}
				base := filepath.Base(path)
				if path != f && (strings.HasPrefix(base, ".") || strings.HasPrefix(base, "_")) {
					if info.IsDir() {
						return filepath.SkipDir
					}
					return nil
				}
				if !info.IsDir() {
					b, err := os.ReadFile(path)
					if err != nil {
						panic(engErr(err.Error()))
					}
					rel, _ := filepath.Rel(dir, path)
					files[filepath.ToSlash(rel)] = string(b)
				}
				return nil
			})
		}
	}
	ptr := Ptr{obj: e.globalObj(g)}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Slice:
		var all string
		for _, b := range files {
			all = b
		}
		v := Value(e.constStr(all))
		if _, ok := u.(*types.Slice); ok {
			v = e.strToBytes(st, e.constStr(all))
		}
		e.store(st, ptr, v, nil)
	case *types.Struct: // embed.FS{files *[]file}, sorted by directory and name, directories included
		names := []string{}
		for n := range files {
			names = append(names, n)
			for {
				k := strings.LastIndexByte(strings.TrimSuffix(n, "/"), '/')
				if k < 0 {
					break
				}
				n = n[:k+1]
				if _, ok := files[n]; !ok {
					files[n] = ""
					names = append(names, n)
				}
			}
		}
		split := func(n string) (string, string) {
			n = strings.TrimSuffix(n, "/")
			if k := strings.LastIndexByte(n, '/'); k >= 0 {
				return n[:k], n[k+1:]
			}
			return ".", n
		}
		sort.Slice(names, func(i, j int) bool {
			di, ei := split(names[i])
			dj, ej := split(names[j])
			return di < dj || di == dj && ei < ej
		})
		st0 := u.Field(0).Type().Underlying().(*types.Pointer).Elem() // []file
		ft := st0.Underlying().(*types.Slice).Elem()
		l := e.layout(ft)
		arr := e.alloc(st, ft, len(names), "embed")
		for i, n := range names {
			e.store(st, Ptr{obj: arr, off: i * l.n}, e.constStr(n), nil)
			e.store(st, Ptr{obj: arr, off: i*l.n + l.foff[1]}, e.constStr(files[n]), nil)
		}
		hdr := e.alloc(st, st0, 1, "embed")
		e.store(st, Ptr{obj: hdr}, Slice{obj: arr, esz: l.n, len: e.c.Int(len(names)), cap: e.c.Int(len(names))}, nil)
		e.store(st, ptr, Ptr{obj: hdr}, nil)
	}
}

// (embed.FS).lookup compares every byte of a symbolic name several times on its way; the model
// compares the whole name with each embedded one (which are all valid paths).
func init() {
	intrinsics["(embed.FS).lookup"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		name, ok := e.resolve(st, args[1]).(*Str)
		if !ok || name.opaque != "" || name.rope != nil {
			return e.callReal(st, fn, args, cc)
		}
		if _, k := name.constant(); k {
			return e.callReal(st, fn, args, cc)
		}
		var hdr Value = args[0]
		if a, ok := hdr.(*Agg); ok {
			hdr = a.slots[0]
		}
		p, ok := e.resolve(st, hdr).(Ptr)
		if !ok || p == nilPtr {
			return e.callReal(st, fn, args, cc)
		}
		fsT := fn.Signature.Recv().Type().Underlying().(*types.Struct).Field(0).Type().Underlying().(*types.Pointer).Elem()
		ft := fsT.Underlying().(*types.Slice).Elem()
		sl, ok := e.load(st, p, fsT).(Slice)
		if !ok || !sl.len.IsConst() {
			return e.callReal(st, fn, args, cc)
		}
		if r, _ := e.query(st, e.strEq(st, name, e.constStr(".")), false); r != 0 {
			return e.callReal(st, fn, args, cc)
		}
		l := e.layout(ft)
		var outs []Outcome
		for i := 0; i < int(sl.len.val); i++ {
			f := Ptr{obj: sl.obj, off: sl.off + i*l.n}
			s := e.load(st, f, types.Typ[types.String]).(*Str)
			fname, _ := s.constant()
			var ys *State
			ys, st = e.branch(st, e.strEq(st, name, e.constStr(strings.TrimSuffix(fname, "/"))))
			if ys != nil {
				outs = append(outs, Outcome{st: ys, ret: f})
			}
			if st == nil {
				return outs
			}
		}
		return append(outs, Outcome{st: st, ret: nilPtr})
	}
}

func init() {
	intrinsics["(*internal/godebug.Setting).Value"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		return ret(st, e.emptyStr)
	}
	intrinsics["(*internal/godebug.Setting).IncNonDefault"] = func(e *Eng, st *State, args []Value, cc *ssa.CallCommon, fn *ssa.Function) []Outcome {
		return ret(st, nil)
	}
}

package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa/ssautil"
)

// With VBLOCKS=FILE, "try" writes the blocks of the code under test that no harness executed.
var covering = os.Getenv("VBLOCKS") != ""
var covered sync.Map

func (l *Loader) uncovered() []string {
	var out []string
	for fn := range ssautil.AllFunctions(l.prog) {
		if fn.Pkg == nil || fn.Synthetic != "" || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modPath) || strings.Contains(fn.Pkg.Pkg.Path(), "/proto/") {
			continue
		}
		for i, b := range fn.Blocks {
			if _, ok := covered.Load(fmt.Sprintf("%s#%d", fn, i)); ok {
				continue
			}
			if i > 0 && len(b.Preds) > 0 {
				seen := false
				for _, p := range b.Preds {
					if _, ok := covered.Load(fmt.Sprintf("%s#%d", fn, p.Index)); ok {
						seen = true
					}
				}
				if !seen {
					continue
				}
			}
			pos := ""
			for _, in := range b.Instrs {
				if in.Pos().IsValid() {
					pos = l.pos(in.Pos())
					break
				}
			}
			if i == 0 {
				pos = l.pos(fn.Pos())
			}
			out = append(out, fmt.Sprintf("%s %s#%d", pos, fn, i))
		}
	}
	sort.Strings(out)
	return out
}

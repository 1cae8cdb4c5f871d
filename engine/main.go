package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: eng check PROPERTY | try REGEXP | replay FILE")
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	verif := fs.String("verif", "/verif", "verification directory")
	repo := fs.String("repo", "/repo", "repository")
	tier := fs.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	verbose := fs.Bool("v", false, "verbose")
	budget := fs.Int("budget", 0, "seconds per harness")
	workers := fs.Int("j", 7, "parallel harnesses")
	prof := fs.String("prof", "", "cpu profile")
	noreplay := fs.Bool("noreplay", false, "skip native replay")
	fs.Parse(os.Args[2:])
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	r := &Runner{verif: *verif, repo: *repo, verbose: *verbose, budget: *budget, workers: *workers, noreplay: *noreplay}
	if *tier == "thorough" {
		r.tier = 1
	}
	arg := fs.Arg(0)
	switch cmd {
	case "check":
		os.Exit(r.check(arg))
	case "try":
		r.try(arg)
	case "replay":
		os.Exit(r.replayFile(arg))
	case "list":
		L, err := r.load()
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var ns []string
		for n := range L.harnesses() {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			fmt.Println(n)
		}
	default:
		os.Exit(2)
	}
}

type Runner struct {
	verif, repo string
	tier        int
	verbose     bool
	budget      int
	workers     int
	noreplay    bool
	L           *Loader
}

func (r *Runner) load() (*Loader, error) {
	L, err := load(r.verif, r.repo, nil)
	if err != nil {
		return nil, err
	}
	L.finish()
	r.L = L
	return L, nil
}

// runAll executes the named harnesses in parallel.
func (r *Runner) runAll(names []string, hard time.Time) []*HarnessResult {
	hs := r.L.harnesses()
	res := make([]*HarnessResult, len(names))
	sem := make(chan bool, r.workers)
	var wg sync.WaitGroup
	for i, n := range names {
		dirs := r.L.directives(n)
		if r.tier == 1 {
			for k, v := range dirs {
				if t := strings.TrimPrefix(k, "thorough:"); t != k {
					dirs[t] = v
				}
			}
		} else if _, ok := dirs["thoroughonly"]; ok {
			continue
		}
		b := 300
		if r.tier == 1 {
			b = 3000
		}
		if v, err := strconv.Atoi(dirs["budget"]); err == nil {
			b = v
		}
		if r.budget > 0 {
			b = r.budget
		}
		wg.Add(1)
		sem <- true
		go func() {
			defer func() { <-sem; wg.Done() }()
			d := time.Duration(b) * time.Second
			if !hard.IsZero() {
				if rest := time.Until(hard); rest < d {
					d = rest
				}
			}
			if d < time.Second {
				res[i] = &HarnessResult{Name: n, Timeout: true, Reached: map[string]*ReachInfo{}}
				return
			}
			res[i] = runHarness(r.L, n, hs[n], dirs, r.tier, d, r.verbose)
		}()
	}
	wg.Wait()
	var out []*HarnessResult
	for _, x := range res {
		if x != nil {
			out = append(out, x)
		}
	}
	return out
}

func (r *Runner) try(re string) {
	t0 := time.Now()
	L, err := r.load()
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	for _, d := range L.dropped {
		fmt.Println("DROPPED", d)
	}
	fmt.Printf("load %.1fs\n", time.Since(t0).Seconds())
	rx := regexp.MustCompile(re)
	var ns []string
	for n := range L.harnesses() {
		if rx.MatchString(n) {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	res := r.runAll(ns, time.Time{})
	for _, h := range res {
		fine := !h.Timeout && h.Crash == "" && len(h.Incomplete) == 0 && len(h.AssertsUnknown) == 0 && len(h.Viols) == 0 && len(h.Reached) > 0
		if fine && !r.verbose {
			fmt.Printf("ok %s %.1fs (solver %.1f) asserts=%d\n", h.Name, h.Wall, h.SolverTime, h.Asserts)
			continue
		}
		fmt.Printf("== %s wall=%.2f solver=%.2f states=%d forks=%d merges=%d queries=%d(sat %d unsat %d unk %d fresh %d) dom=%d mod=%d asserts=%d const=%d paths=%d timeout=%v crash=%s\n",
			h.Name, h.Wall, h.SolverTime, h.States, h.Forks, h.Merges, h.Queries, h.Sat, h.Unsat, h.Unknown, h.Fresh, h.DomHits, h.ModelHits, h.Asserts, h.AssertsConst, h.Paths, h.Timeout, h.Crash)
		for _, n := range h.Notes {
			if r.verbose {
				fmt.Println("   note:", n)
			}
		}
		for _, n := range h.Incomplete {
			fmt.Println("   INCOMPLETE:", n)
		}
		for _, n := range h.AssertsUnknown {
			fmt.Println("   UNKNOWN:", n)
		}
		for _, v := range h.Viols {
			fmt.Println("   VIOL:", v.Label, v.Where, short(v.Inputs))
		}
		for l, v := range h.Reached {
			if !r.verbose {
				continue
			}
			fmt.Println("   reach:", l, short(v.Inputs), v.Obs)
		}
	}
	if covering {
		var l []string
		covered.Range(func(k, _ any) bool { l = append(l, k.(string)); return true })
		sort.Strings(l)
		l = append(l, "--")
		l = append(l, r.L.uncovered()...)
		os.WriteFile(os.Getenv("VBLOCKS"), []byte(strings.Join(l, "\n")+"\n"), 0o644)
	}
	if f := os.Getenv("VFUNCS"); f != "" {
		m := map[string]interface{}{}
		for _, h := range res {
			m[h.Name] = map[string]interface{}{"wall": h.Wall, "funcs": h.Funcs}
		}
		b, _ := json.Marshal(m)
		os.WriteFile(f, b, 0o644)
	}
	if r.noreplay {
		return
	}
	cases := r.casesOf(res)
	r.replay(cases)
	for _, c := range cases {
		if c.confirmed && !r.verbose {
			if c.viol != nil {
				fmt.Println("CONFIRMED", c.Harness, c.viol.Label, c.lines)
			}
			continue
		}
		if c.viol != nil {
			fmt.Printf("replay %s: confirmed=%v %v\n", c.viol.Label, c.confirmed, c.lines)
		} else {
			fmt.Printf("witness %s/%s: confirmed=%v %v\n", c.Harness, c.reach.label, c.confirmed, c.lines)
		}
	}
}

func short(m map[string]string) string {
	b, _ := json.Marshal(m)
	if len(b) > 600 {
		return string(b[:600]) + "..."
	}
	return string(b)
}

// knownFindings reads known_findings.txt: lines "known: property=<id> label=<label> ..." .
func (r *Runner) knownFindings(prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(r.verif, "known_findings.txt"))
	if err != nil {
		return out
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property="+prop+" ") {
			continue
		}
		_, rest, ok := strings.Cut(l, `label="`)
		if !ok {
			continue
		}
		lab, desc, _ := strings.Cut(rest, `"`)
		out[lab] = strings.TrimSpace(desc)
	}
	return out
}

func (r *Runner) check(prop string) int {
	t0 := time.Now()
	hard := t0.Add(640 * time.Second)
	if r.tier == 1 {
		hard = time.Time{}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	L, err := r.load()
	tierName := "quick"
	if r.tier == 1 {
		tierName = "thorough"
	}
	if err != nil {
		fmt.Println("cannot encode the current tree:", err)
		r.writeEvidence(prop, map[string]interface{}{"property": prop, "tier": tierName, "seed": seed, "level": "model_checking",
			"coverage": map[string]interface{}{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{}, "explanation": "the current tree could not be loaded: " + err.Error()}, "wall_s": time.Since(t0).Seconds()})
		return 0
	}
	var ns []string
	for n := range L.harnesses() {
		if strings.HasPrefix(n, "vh_"+prop+"_") {
			ns = append(ns, n)
		}
	}
	sort.Strings(ns)
	// slow harnesses first
	sort.SliceStable(ns, func(i, j int) bool {
		a, _ := strconv.Atoi(L.directives(ns[i])["cost"])
		b, _ := strconv.Atoi(L.directives(ns[j])["cost"])
		return a > b
	})
	if r.tier == 0 {
		softAfter = 40 * time.Second
	}
	res := r.runAll(ns, hard)
	cases := r.casesOf(res)
	r.replay(cases)
	known := r.knownFindings(prop)
	if softStop.Swap(0) > 0 {
		softAfter = 0
		found := false
		for _, c := range cases {
			if c.viol != nil && c.confirmed && known[c.viol.Label] == "" {
				found = true
			}
		}
		// the candidates came to nothing: the harnesses stopped because of them go on
		if !found {
			var again []string
			for _, h := range res {
				if h.Timeout {
					again = append(again, h.Name)
				}
			}
			if len(again) > 0 {
				re := map[string]*HarnessResult{}
				for _, h := range r.runAll(again, hard) {
					re[h.Name] = h
				}
				for i, h := range res {
					if x := re[h.Name]; x != nil {
						res[i] = x
					}
				}
				cases = r.casesOf(res)
				r.replay(cases)
			}
		}
	}
	exit := 0
	validated, witnesses, viols := 0, 0, 0
	var unconfirmed, mismatched []string
	knownHit := map[string]bool{}
	printed := map[string]bool{}
	for _, c := range cases {
		if c.viol == nil {
			witnesses++
			if c.confirmed {
				validated++
			} else {
				mismatched = append(mismatched, c.Harness+"/"+c.reach.label+": "+strings.Join(c.lines, "; "))
			}
			continue
		}
		if !c.confirmed {
			unconfirmed = append(unconfirmed, c.Harness+": "+c.viol.Label+": "+strings.Join(c.lines, "; "))
			continue
		}
		validated++
		lab := c.viol.Label
		if c.actual != "" {
			lab = c.actual
		}
		key := c.Harness + "/" + lab
		if d, ok := known[lab]; ok {
			if !knownHit[lab] {
				knownHit[lab] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", prop, lab, d)
			}
			continue
		}
		viols++
		exit = 1
		if printed[key] {
			continue
		}
		printed[key] = true
		dir := filepath.Join(r.verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", prop, c.Harness, len(printed)))
		b, _ := json.MarshalIndent(map[string]interface{}{"property": prop, "pkg": c.pkg, "harness": c.Harness, "label": lab, "tier": c.Tier, "inputs": c.Inputs, "native": c.lines,
			"how": "bin/eng replay " + path + " runs the harness natively on the current tree with these inputs"}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("%s: %s (harness %s, inputs %s)\n", prop, lab, c.Harness, short(c.Inputs))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	}
	ev := r.evidence(prop, tierName, seed, res, cases, validated, witnesses, viols, unconfirmed, mismatched, knownHit)
	ev["wall_s"] = time.Since(t0).Seconds()
	r.writeEvidence(prop, ev)
	fmt.Printf("%s: %d harnesses, %d native validations (%d witnesses), %d violations, %.1fs\n", prop, len(res), validated, witnesses, viols, time.Since(t0).Seconds())
	for _, u := range unconfirmed {
		fmt.Println("unconfirmed candidate (does not reproduce natively, not reported):", u)
	}
	for _, u := range mismatched {
		fmt.Println("witness mismatch:", u)
	}
	for _, h := range res {
		if h.Timeout || h.Crash != "" || len(h.Incomplete) > 0 || len(h.AssertsUnknown) > 0 {
			fmt.Printf("incomplete: %s timeout=%v crash=%q incomplete=%v unknown=%v\n", h.Name, h.Timeout, h.Crash, h.Incomplete, h.AssertsUnknown)
		}
	}
	for _, d := range L.dropped {
		fmt.Println("harness file does not fit the current tree:", d)
	}
	return exit
}

func (r *Runner) writeEvidence(prop string, ev map[string]interface{}) {
	os.MkdirAll(filepath.Join(r.verif, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(r.verif, "evidence", prop+".json"), append(b, '\n'), 0o644)
}

func (r *Runner) evidence(prop, tier string, seed int, res []*HarnessResult, cases []*Case, validated, witnesses, viols int, unconfirmed, mismatched []string, known map[string]bool) map[string]interface{} {
	states, trans := 0, 0
	funcs := map[string]bool{}
	var hs []map[string]interface{}
	q, un, sa, uk := 0, 0, 0, 0
	st := 0.0
	for _, h := range res {
		states += h.States
		trans += h.Steps
		q += h.Queries
		un += h.Unsat
		sa += h.Sat
		uk += h.Unknown
		st += h.SolverTime
		for _, f := range h.Funcs {
			if strings.Contains(f, modPath) && !strings.Contains(f, ".vh_") && !strings.Contains(f, "/proto/gen/") {
				funcs[strings.ReplaceAll(f, modPath+"/", "")] = true
			}
		}
		m := map[string]interface{}{"harness": h.Name, "bounds": h.Bounds, "assertions": h.Asserts, "assertions_folded": h.AssertsConst, "queries": h.Queries,
			"unsat": h.Unsat, "sat": h.Sat, "unknown": h.Unknown, "solver_s": round2(h.SolverTime), "wall_s": round2(h.Wall), "symbolic_blocks": h.States, "merges": h.Merges, "forks": h.Forks}
		if len(h.Notes) > 0 {
			m["notes"] = h.Notes
		}
		if h.Timeout {
			m["timeout"] = true
		}
		if h.Crash != "" {
			m["crash"] = h.Crash
		}
		if len(h.Incomplete) > 0 {
			m["incomplete"] = h.Incomplete
		}
		if len(h.AssertsUnknown) > 0 {
			m["undecided"] = h.AssertsUnknown
		}
		hs = append(hs, m)
	}
	var samples []interface{}
	for _, c := range cases {
		if len(samples) >= 12 {
			break
		}
		s := map[string]interface{}{"harness": c.Harness, "inputs": json.RawMessage(truncJSON(c.Inputs)), "native": c.lines, "agrees": c.confirmed}
		if c.viol != nil {
			s["violated"] = c.viol.Label
		} else {
			s["witness"] = c.reach.label
		}
		samples = append(samples, s)
	}
	if samples == nil {
		samples = []interface{}{"no harness produced a witness"}
	}
	var fl []string
	for f := range funcs {
		fl = append(fl, f)
	}
	sort.Strings(fl)
	cov := map[string]interface{}{
		"states": states, "transitions": trans, "traces_validated_against_impl": validated, "samples": samples,
		"explanation":       "states: symbolic basic-block states executed (each stands for every input satisfying its path condition); transitions: SSA instructions executed symbolically; traces validated: solver models replayed natively with identical observations",
		"functions_encoded": fl, "queries": q, "queries_unsat": un, "queries_sat": sa, "queries_unknown": uk, "solver_s": round2(st), "harnesses": hs,
		"witnesses": witnesses, "witness_mismatch": mismatched, "unconfirmed_candidates": unconfirmed,
	}
	if len(known) > 0 {
		cov["known_findings_seen"] = len(known)
	}
	if len(r.L.dropped) > 0 {
		cov["harness_files_dropped"] = r.L.dropped
	}
	return map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "violations": viols,
		"assumptions": []string{
			"go/ssa (x/tools) translates the Go source faithfully; the engine's semantics of SSA instructions (validated by native replay of witnesses)",
			"modelled, not executed: fmt/errors text, protobuf runtime (presence bits, Clone, Equal, enum descriptors), math/big, hashes and ECDSA (uninterpreted), as listed in the notes",
			"z3 and cvc5 answers",
			"bounds per harness as listed; inputs beyond them are not covered",
		}}
}

func truncJSON(m map[string]string) string {
	o := map[string]string{}
	for k, v := range m {
		if len(v) > 400 {
			v = v[:400] + "..."
		}
		o[k] = v
	}
	b, _ := json.Marshal(o)
	return string(b)
}

func round2(f float64) float64 { return float64(int(f*100+0.5)) / 100 }

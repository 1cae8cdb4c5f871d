package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// Case is a model to be executed by the real code.
type Case struct {
	ID      string            `json:"id"`
	Harness string            `json:"harness"`
	Tier    int               `json:"tier"`
	Inputs  map[string]string `json:"inputs"`

	pkg       string
	viol      *Violation
	reach     *ReachInfo
	lines     []string
	confirmed bool
	actual    string
}

func (r *Runner) casesOf(res []*HarnessResult) []*Case {
	var out []*Case
	for _, h := range res {
		for _, v := range h.Viols {
			out = append(out, &Case{Harness: h.Name, Tier: r.tier, Inputs: v.Inputs, pkg: h.Pkg, viol: v})
		}
		var ls []string
		for l := range h.Reached {
			ls = append(ls, l)
		}
		sort.Strings(ls)
		for _, l := range ls {
			out = append(out, &Case{Harness: h.Name, Tier: r.tier, Inputs: h.Reached[l].Inputs, pkg: h.Pkg, reach: h.Reached[l]})
		}
	}
	for i, c := range out {
		c.ID = fmt.Sprint(i)
	}
	return out
}

// replay executes the cases natively (package by package) and fills in the verdicts.
func (r *Runner) replay(cases []*Case) {
	by := map[string][]*Case{}
	for _, c := range cases {
		by[c.pkg] = append(by[c.pkg], c)
	}
	var wg sync.WaitGroup
	for p, cs := range by {
		wg.Add(1)
		go func() {
			defer wg.Done()
			out, err := r.runNative(p, cs)
			if err != nil {
				for _, c := range cs {
					c.lines = []string{"replay failed: " + err.Error()}
				}
			}
			for _, c := range cs {
				if l, ok := out[c.ID]; ok {
					c.lines = l
				}
				c.judge()
			}
		}()
	}
	wg.Wait()
}

func (c *Case) judge() {
	for _, l := range c.lines {
		if c.viol != nil {
			if lab, ok := strings.CutPrefix(l, "FAIL "); ok {
				c.confirmed = true
				c.actual = lab
			}
			if lab, ok := strings.CutPrefix(l, "PANIC "); ok {
				c.confirmed = true
				c.actual = "panic: " + lab
			}
			if strings.HasPrefix(l, "CRASH") {
				c.confirmed = true
				c.actual = l
			}
		} else {
			s := make([]string, len(c.reach.Obs))
			for i, o := range c.reach.Obs {
				s[i] = fmt.Sprintf("%x", o)
			}
			if l == "REACH "+c.reach.label+"|"+strings.Join(s, ",") {
				c.confirmed = true
			}
		}
	}
}

// runNative runs the cases of one package with go test and returns the lines printed per case.
func (r *Runner) runNative(pkg string, cases []*Case) (map[string][]string, error) {
	dir := filepath.Join(r.repo, strings.TrimPrefix(strings.TrimPrefix(pkg, modPath), "/"))
	tmp, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		return nil, err
	}
	defer os.RemoveAll(tmp)
	ov := map[string]string{}
	i := 0
	put := func(target, src string) {
		f := filepath.Join(tmp, fmt.Sprintf("f%d.go", i))
		i++
		os.WriteFile(f, []byte(src), 0o644)
		ov[target] = f
	}
	for t, src := range r.L.files {
		if _, ok := r.L.overlay[t]; ok {
			put(t, src)
		}
	}
	for t, src := range r.L.replayRewrites() {
		put(t, src)
	}
	tests, _ := filepath.Glob(filepath.Join(dir, "*_test.go"))
	for _, t := range tests {
		ov[t] = ""
	}
	name := r.L.byPath[pkg].Name
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport \"testing\"\n\nfunc TestVerifReplay(t *testing.T) {\n\terr := vReplayAll(map[string]func(){\n", name)
	seen := map[string]bool{}
	for _, c := range cases {
		if !seen[c.Harness] {
			seen[c.Harness] = true
			fmt.Fprintf(&sb, "\t\t%q: %s,\n", c.Harness, c.Harness)
		}
	}
	sb.WriteString("\t})\n\tif err != nil {\n\t\tt.Fatal(err)\n\t}\n}\n")
	put(filepath.Join(dir, "zz_verif_replay_test.go"), sb.String())
	ob, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(tmp, "overlay.json")
	os.WriteFile(of, ob, 0o644)
	bin := filepath.Join(tmp, "replay.test")
	cm := exec.Command("go", "test", "-overlay", of, "-vet=off", "-c", "-o", bin, ".")
	cm.Dir = dir
	cm.Env = goEnv()
	cm.Path = lookGo(cm.Env)
	if o, err := cm.CombinedOutput(); err != nil {
		return nil, fmt.Errorf("build: %v %s", err, o)
	}
	out := map[string][]string{}
	rest := cases
	for len(rest) > 0 {
		cb, _ := json.Marshal(rest)
		cf := filepath.Join(tmp, "cases.json")
		os.WriteFile(cf, cb, 0o644)
		outf := filepath.Join(tmp, "out.txt")
		os.Remove(outf)
		// a run without an end must not use up the machine's memory first
		rm := exec.Command("/bin/sh", "-c", `ulimit -v 6291456; exec "$0" "$@"`, bin, "-test.run", "^TestVerifReplay$", "-test.timeout", "120s")
		rm.Dir = tmp
		rm.Env = append(goEnv(), "VERIF_REPLAY="+cf, "VERIF_OUT="+outf, "GOMEMLIMIT=4GiB")
		var buf bytes.Buffer
		rm.Stdout, rm.Stderr = &buf, &buf
		if err := rm.Start(); err != nil {
			return out, err
		}
		t := time.AfterFunc(150*time.Second, func() { rm.Process.Kill() })
		rm.Wait()
		t.Stop()
		b, _ := os.ReadFile(outf)
		cur := ""
		done := false
		for _, l := range strings.Split(string(b), "\n") {
			if id, ok := strings.CutPrefix(l, "CASE "); ok {
				cur = id
				out[cur] = []string{}
				continue
			}
			if l == "DONE" {
				done = true
			} else if l != "" && cur != "" {
				out[cur] = append(out[cur], l)
			}
		}
		if done {
			break
		}
		if cur == "" {
			return out, fmt.Errorf("native run printed nothing: %.500s", buf.String())
		}
		// the process died in case cur (a crash that cannot be recovered, or a hang)
		why := "CRASH process ended"
		if strings.Contains(buf.String(), "test timed out") {
			why = "CRASH no termination within 120 s"
		} else if k := strings.Index(buf.String(), "fatal error:"); k >= 0 {
			why = "CRASH " + strings.SplitN(buf.String()[k:], "\n", 2)[0]
		}
		out[cur] = append(out[cur], why)
		for k, c := range rest {
			if c.ID == cur {
				rest = rest[k+1:]
				break
			}
		}
	}
	return out, nil
}

func lookGo(env []string) string {
	for _, kv := range env {
		if p, ok := strings.CutPrefix(kv, "PATH="); ok {
			for _, d := range filepath.SplitList(p) {
				f := filepath.Join(d, "go")
				if st, err := os.Stat(f); err == nil && !st.IsDir() {
					return f
				}
			}
		}
	}
	return "go"
}

// replayRewrites gives source files replaced in native replays.
func (L *Loader) replayRewrites() map[string]string { return nil }

func (r *Runner) replayFile(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f struct {
		Property, Pkg, Harness, Label string
		Tier                          int
		Inputs                        map[string]string
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	if _, err := r.load(); err != nil {
		fmt.Println(err)
		return 2
	}
	c := &Case{ID: "0", Harness: f.Harness, Tier: f.Tier, Inputs: f.Inputs, pkg: f.Pkg, viol: &Violation{Label: f.Label}}
	r.replay([]*Case{c})
	for _, l := range c.lines {
		fmt.Println(l)
	}
	if c.confirmed {
		fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
		return 1
	}
	return 0
}

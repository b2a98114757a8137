package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

// native runs harnesses against the real code: the same harness source compiled into the package's
// test binary with concrete inputs.
type native struct {
	repo, verif, prop string
	dir               string
	bins              map[string]string
	errs              map[string]string
	n                 int
}

func newNative(repo, verif, prop string) *native {
	return &native{repo: repo, verif: verif, prop: prop, bins: map[string]string{}, errs: map[string]string{}}
}

func (n *native) close() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

type nout struct {
	err      string
	fails    []string
	obs      []string
	assume   bool
	panicMsg string
	hung     bool
	tail     string
}

func (o *nout) summary() string {
	switch {
	case o.err != "":
		return "could not run: " + o.err
	case o.hung:
		return "hangs"
	case o.panicMsg != "":
		return "panic: " + o.panicMsg
	case len(o.fails) > 0:
		return "fails: " + strings.Join(o.fails, "; ")
	case o.assume:
		return "inputs rejected by an assumption"
	}
	return "passes " + strings.Join(o.obs, " ")
}

func (o *nout) shows(v *Violation) bool {
	if o.err != "" {
		return false
	}
	if v.Label == "deadlock" {
		return o.hung || strings.Contains(o.panicMsg, "deadlock")
	}
	if v.Label == "panic" || v.Label == "crash" {
		return o.panicMsg != ""
	}
	for _, f := range o.fails {
		if f == v.Label {
			return true
		}
	}
	return false
}

func (o *nout) obsEqual(want []string) bool {
	a, b := append([]string{}, o.obs...), []string{}
	for _, w := range want {
		b = append(b, strings.ReplaceAll(fmt.Sprintf("%q", w), "\n", " "))
	}
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (n *native) build(h harness) (string, string) {
	if b, ok := n.bins[h.pkg]; ok {
		return b, n.errs[h.pkg]
	}
	if n.dir == "" {
		d, err := os.MkdirTemp("", "vxnat")
		if err != nil {
			return "", err.Error()
		}
		n.dir = d
	}
	ov := overlayFiles(n.repo, n.verif, n.prop)
	var names []string
	for k, f := range ov {
		if filepath.Dir(k) != filepath.Join(n.repo, pkgDirs[h.pkg]) {
			continue
		}
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "func Vx"+n.prop) {
				names = append(names, l[5:strings.IndexByte(l, '(')])
			}
		}
	}
	sort.Strings(names)
	pkgName := map[string]string{"signer": "signer", "cmd": "cmd"}[h.pkg]
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n\nimport (\n\t\"testing\"\n\n\tvx %q\n)\n\nfunc TestVerifReplay(t *testing.T) {\n\tvx.ReplayMain(map[string]func(){\n", pkgName, modPath+"/zzvx")
	for _, m := range names {
		fmt.Fprintf(&sb, "\t\t%q: %s,\n", m, m)
	}
	sb.WriteString("\t})\n}\n")
	tf := filepath.Join(n.dir, "zz_vx_replay_"+h.pkg+"_test.go")
	os.WriteFile(tf, []byte(sb.String()), 0644)
	ov[filepath.Join(n.repo, pkgDirs[h.pkg], "zz_vx_replay_test.go")] = tf
	// hide the repository's own tests so that the replay binary does not depend on them
	ts, _ := filepath.Glob(filepath.Join(n.repo, pkgDirs[h.pkg], "*_test.go"))
	for _, t := range ts {
		ov[t] = ""
	}
	oj, _ := json.Marshal(map[string]interface{}{"Replace": ov})
	of := filepath.Join(n.dir, "overlay_"+h.pkg+".json")
	os.WriteFile(of, oj, 0644)
	bin := filepath.Join(n.dir, "replay_"+h.pkg)
	ctx, cancel := context.WithTimeout(context.Background(), 400*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, goRoot+"/bin/go", "test", "-c", "-o", bin, "-vet=off", "-overlay", of, "./"+pkgDirs[h.pkg])
	c.Dir = n.repo
	c.Env = goEnv()
	out, err := c.CombinedOutput()
	n.bins[h.pkg] = bin
	if err != nil {
		n.errs[h.pkg] = "build: " + err.Error() + " " + lastLines(string(out), 6)
	}
	return bin, n.errs[h.pkg]
}

func lastLines(s string, k int) string {
	l := strings.Split(strings.TrimSpace(s), "\n")
	if len(l) > k {
		l = l[len(l)-k:]
	}
	return strings.Join(l, " | ")
}

func (n *native) run(h harness, inputs map[string]string, thorough bool) *nout {
	bin, e := n.build(h)
	if e != "" {
		return &nout{err: e}
	}
	n.n++
	work := filepath.Join(n.dir, fmt.Sprint("w", n.n))
	os.MkdirAll(filepath.Join(work, "home"), 0755)
	os.MkdirAll(filepath.Join(work, "tmp"), 0755)
	defer os.RemoveAll(work)
	rj, _ := json.Marshal(map[string]interface{}{"harness": h.name, "inputs": inputs, "thorough": thorough})
	rf := filepath.Join(work, "replay.json")
	os.WriteFile(rf, rj, 0644)
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, bin, "-test.run", "TestVerifReplay", "-test.timeout", "45s")
	c.Dir = work
	c.Env = append(goEnv(), "HOME="+filepath.Join(work, "home"), "TMPDIR="+filepath.Join(work, "tmp"), "VX_REPLAY="+rf, "VX_HARNESS="+h.name, "TZ=UTC")
	c.WaitDelay = 2 * time.Second
	b, err := c.CombinedOutput()
	o := &nout{tail: lastLines(string(b), 5)}
	done := false
	for _, l := range strings.Split(string(b), "\n") {
		switch {
		case strings.HasPrefix(l, "VX-FAIL "):
			o.fails = append(o.fails, l[8:])
		case strings.HasPrefix(l, "VX-OBS "):
			o.obs = append(o.obs, l[7:])
		case strings.HasPrefix(l, "VX-ASSUME"):
			o.assume = true
		case strings.HasPrefix(l, "VX-PANIC "):
			o.panicMsg = l[9:]
		case strings.HasPrefix(l, "VX-DONE"):
			done = true
		case strings.HasPrefix(l, "panic: test timed out"):
			o.hung = true
		case strings.HasPrefix(l, "panic: ") && o.panicMsg == "":
			o.panicMsg = l[7:]
		case strings.HasPrefix(l, "fatal error: ") && o.panicMsg == "":
			o.panicMsg = l
		}
	}
	if o.hung {
		o.panicMsg = ""
	}
	if err != nil && !done && o.panicMsg == "" && !o.hung && !o.assume {
		if ctx.Err() != nil {
			o.hung = true
		} else if strings.Contains(string(b), "exit status") || true {
			// the harness exited the process
			o.panicMsg = "process ended: " + err.Error() + " " + o.tail
		}
	}
	return o
}

func replayMain(repo, verif, file string) int {
	b, err := os.ReadFile(file)
	if err != nil {
		fatal("%v", err)
	}
	var v vioOut
	if err := json.Unmarshal(b, &v); err != nil {
		fatal("%v", err)
	}
	n := newNative(repo, verif, v.Property)
	defer n.close()
	o := n.run(harness{name: v.Harness, pkg: v.Package}, v.Inputs, v.Thorough)
	fmt.Println(o.summary())
	if o.shows(&Violation{Label: v.Label}) {
		return 1
	}
	return 0
}

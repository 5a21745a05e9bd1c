package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Native builds the harness for real execution and replays solver models on it.
type Native struct {
	verif string
	dir   string
	mu    sync.Mutex
	bins  map[string]string
	errs  map[string]error
	nfile int
}

func newNative(verif, prop string) *Native {
	dir, err := os.MkdirTemp("", "symgo-"+prop+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return &Native{verif: verif, dir: dir, bins: map[string]string{}, errs: map[string]error{}}
}

func (n *Native) Close() {
	if n.dir != "" {
		os.RemoveAll(n.dir)
	}
}

var variants = map[string][]string{
	"":         nil,
	"race":     {"-race"},
	"checkptr": {"-gcflags=all=-d=checkptr"},
}

// Build compiles one variant ("", "race", "checkptr") of the harness against /repo with the
// table-driven stand-in for hash/maphash.
func (n *Native) Build(variant string) error {
	n.mu.Lock()
	defer n.mu.Unlock()
	if n.bins[variant] != "" {
		return nil
	}
	if err := n.errs[variant]; err != nil {
		return err
	}
	err := n.build(variant)
	if err != nil {
		n.errs[variant] = err
	}
	return err
}

func (n *Native) build(variant string) error {
	out, err := exec.Command("go", "env", "GOROOT").Output()
	if err != nil {
		return fmt.Errorf("go env: %v", err)
	}
	mh := filepath.Join(strings.TrimSpace(string(out)), "src", "hash", "maphash")
	rep := map[string]string{filepath.Join(mh, "maphash.go"): filepath.Join(n.verif, "native", "maphash.go.txt")}
	// the other non-test files of the package are not needed by the stand-in
	es, err := os.ReadDir(mh)
	if err != nil {
		return err
	}
	for _, e := range es {
		nm := e.Name()
		if strings.HasSuffix(nm, ".go") && nm != "maphash.go" && !strings.HasSuffix(nm, "_test.go") {
			rep[filepath.Join(mh, nm)] = ""
		}
	}
	ov := filepath.Join(n.dir, "overlay.json")
	if err := jsonOut(ov, map[string]interface{}{"Replace": rep}); err != nil {
		return err
	}
	bin := filepath.Join(n.dir, "harness-"+variant)
	args := append([]string{"build", "-tags", "native," + harnessTags, "-overlay", ov, "-o", bin}, variants[variant]...)
	args = append(args, ".")
	cmd := exec.Command("go", args...)
	cmd.Dir = filepath.Join(n.verif, "harness")
	cmd.Env = append(os.Environ(), "GOFLAGS="+goflags, "GOWORK=off")
	if b, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v\n%s", err, b)
	}
	n.bins[variant] = bin
	return nil
}

// Run replays the models and returns one outcome for each: "ok n", "assume",
// "mismatch ...", "violation ...", "hang ...", "crash ..." or "error ...".
func (n *Native) Run(variant string, env []string, rs []*Replay) []string {
	res := make([]string, 0, len(rs))
	if err := n.Build(variant); err != nil {
		for range rs {
			res = append(res, "error build: "+err.Error())
		}
		return res
	}
	for len(res) < len(rs) {
		todo := rs[len(res):]
		n.mu.Lock()
		n.nfile++
		file := filepath.Join(n.dir, fmt.Sprintf("models-%d.json", n.nfile))
		n.mu.Unlock()
		b, _ := json.Marshal(todo)
		if err := os.WriteFile(file, b, 0o644); err != nil {
			for range todo {
				res = append(res, "error "+err.Error())
			}
			return res
		}
		cmd := exec.Command(n.bins[variant], file)
		cmd.Env = append(os.Environ(), "GOTRACEBACK=single", "GORACE=halt_on_error=1 exitcode=66")
		cmd.Env = append(cmd.Env, env...)
		var so, se bytes.Buffer
		cmd.Stdout, cmd.Stderr = &so, &limited{b: &se, max: 1 << 20}
		done := make(chan error, 1)
		if err := cmd.Start(); err != nil {
			for range todo {
				res = append(res, "error "+err.Error())
			}
			return res
		}
		go func() { done <- cmd.Wait() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(300 * time.Second):
			cmd.Process.Kill()
			err = <-done
			se.WriteString("timed out")
		}
		k := 0
		for _, l := range strings.Split(so.String(), "\n") {
			if strings.HasPrefix(l, "RESULT ") && k < len(todo) {
				res = append(res, strings.TrimPrefix(l, "RESULT "))
				k++
			}
		}
		os.Remove(file)
		if k < len(todo) && (k == 0 || err != nil || !strings.HasPrefix(res[len(res)-1], "hang")) {
			msg := firstLines(se.String(), 12)
			kind := "crash"
			if strings.Contains(msg, "DATA RACE") {
				kind = "crash DATA RACE"
			}
			res = append(res, kind+" "+msg)
		}
	}
	return res
}

type limited struct {
	b   *bytes.Buffer
	max int
}

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}

func firstLines(s string, n int) string {
	ls := strings.Split(strings.TrimSpace(s), "\n")
	if len(ls) > n {
		ls = ls[:n]
	}
	return strings.Join(ls, " | ")
}

func nativeBad(r string) bool {
	return strings.HasPrefix(r, "violation") || strings.HasPrefix(r, "crash") || strings.HasPrefix(r, "hang")
}

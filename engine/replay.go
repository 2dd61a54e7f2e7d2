package main

// Native replay of solver models against the real, compiled code.

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"
)

type nativeResult struct {
	Obs      []string `json:"obs"`
	Reach    []string `json:"reach"`
	Failed   []string `json:"failed"`
	Panic    string   `json:"panic"`
	Stack    string   `json:"stack"`
	Assumed  bool     `json:"assume_failed"`
	OverUse  uint64   `json:"over_alloc"`
	Complete bool     `json:"complete"`
	Hang     bool     `json:"hang"`
	Crash    string   `json:"crash"`
}

type nativeRun struct {
	Harness string            `json:"harness"`
	Model   map[string]uint64 `json:"model"`
	Choices map[string]int    `json:"choices"`
	Tier    int               `json:"tier"`
	Repeat  int               `json:"repeat"`
}

type Native struct {
	bin string
	err error
	out string

	repo, overlay string
	race          string // race-detector build, made when first needed
	raceErr       error
}

// raceBuild compiles the replay program with the race detector.
func (n *Native) raceBuild() bool {
	if n.race == "" {
		n.race = n.bin + ".race"
		cmd := exec.Command("go", "build", "-race", "-overlay", n.overlay, "-o", n.race, "./zz_verif/cmd")
		cmd.Dir = n.repo
		cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
		out, err := cmd.CombinedOutput()
		if err != nil {
			n.raceErr = fmt.Errorf("%v: %s", err, out)
			fmt.Fprintln(os.Stderr, "symgo: race build failed:", n.raceErr)
		}
	}
	return n.raceErr == nil
}

func buildNative(repo, overlayFile, dst string) *Native {
	cmd := exec.Command("go", "build", "-overlay", overlayFile, "-o", dst, "./zz_verif/cmd")
	cmd.Dir = repo
	out, err := cmd.CombinedOutput()
	return &Native{bin: dst, err: err, out: string(out), repo: repo, overlay: overlayFile}
}

func (n *Native) run(runs []nativeRun, limit time.Duration) ([]nativeResult, error) {
	return n.runWith("ulimit -v 12000000; exec "+n.bin, nil, runs, limit)
}

func (n *Native) runWith(command string, env []string, runs []nativeRun, limit time.Duration) ([]nativeResult, error) {
	var in bytes.Buffer
	for _, r := range runs {
		j, _ := json.Marshal(r)
		in.Write(j)
		in.WriteByte('\n')
	}
	cmd := exec.Command("bash", "-c", command)
	cmd.Stdin = &in
	cmd.Env = append(os.Environ(), "GOMAXPROCS=4", "GOTRACEBACK=single")
	cmd.Env = append(cmd.Env, env...)
	var out, errb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &errb
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	var late int32
	t := time.AfterFunc(limit, func() { atomic.StoreInt32(&late, 1); cmd.Process.Kill() })
	werr := cmd.Wait()
	t.Stop()
	var res []nativeResult
	dec := json.NewDecoder(&out)
	for {
		var r nativeResult
		if dec.Decode(&r) != nil {
			break
		}
		res = append(res, r)
	}
	if len(res) < len(runs) && (len(res) == 0 || !res[len(res)-1].Hang) {
		msg := strings.TrimSpace(errb.String())
		if i := strings.Index(msg, "\n\n"); i > 0 && !strings.Contains(msg, "DATA RACE") {
			msg = msg[:i]
		}
		if i := strings.Index(msg, "DATA RACE"); i >= 0 {
			msg = "data race: " + strings.Join(strings.Fields(msg[i+9:]), " ")
		}
		if len(msg) > 600 {
			msg = msg[:600]
		}
		if werr != nil && msg == "" {
			msg = werr.Error()
		}
		if atomic.LoadInt32(&late) == 0 {
			res = append(res, nativeResult{Crash: "process died: " + msg})
		}
	}
	return res, nil
}

// confirm replays a candidate; returns a description when the real code shows the failure.
func (n *Native) confirm(c *Candidate, tier int) (string, nativeResult, bool) {
	rep := 1
	if c.MapOrd {
		rep = 400
	}
	rs, err := n.run([]nativeRun{{Harness: c.Harness, Model: c.Model, Choices: c.Choices, Tier: tier, Repeat: rep}}, 60*time.Second)
	if err != nil || len(rs) == 0 {
		return "", nativeResult{}, false
	}
	r := rs[0]
	switch {
	case len(r.Failed) > 0:
		return "assertion failed: " + r.Failed[0], r, true
	case r.Panic != "":
		return "panic: " + r.Panic, r, true
	case r.Hang:
		return "does not terminate (15 s)", r, true
	case r.Crash != "" && (c.Kind == "alloc" || !strings.HasSuffix(r.Crash, "signal: killed")):
		return r.Crash, r, true
	case c.Kind == "alloc" && r.OverUse > 0:
		return fmt.Sprintf("allocated %d bytes: %s", r.OverUse, c.Msg), r, true
	}
	if c.Par && n.raceBuild() {
		rs, err := n.runWith("exec "+n.race, []string{"VERIF_RACE=1", "GORACE=halt_on_error=1 exitcode=66"},
			[]nativeRun{{Harness: c.Harness, Model: c.Model, Choices: c.Choices, Tier: tier, Repeat: 1}}, 60*time.Second)
		if err != nil || len(rs) == 0 {
			return "", r, false
		}
		r2 := rs[0]
		switch {
		case len(r2.Failed) > 0:
			return "concurrently: assertion failed: " + r2.Failed[0], r2, true
		case r2.Panic != "":
			return "concurrently: panic: " + r2.Panic, r2, true
		case r2.Crash != "" && !strings.HasSuffix(r2.Crash, "signal: killed"):
			return "concurrently: " + r2.Crash, r2, true
		}
	}
	return "", r, false
}

func writeOverlay(dir string, files map[string][]byte) (string, error) {
	rep := map[string]string{}
	i := 0
	for dst, content := range files {
		src := filepath.Join(dir, fmt.Sprintf("ov%d_%s", i, filepath.Base(dst)))
		i++
		if err := os.WriteFile(src, content, 0o644); err != nil {
			return "", err
		}
		rep[dst] = src
	}
	j, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	f := filepath.Join(dir, "overlay.json")
	return f, os.WriteFile(f, j, 0o644)
}

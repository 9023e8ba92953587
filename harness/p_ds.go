package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"time"
)

func init() {
	run := func(kind string, modes ...dsMode) func(h *H) {
		return func(h *H) { h.dsMon(kind, modes) }
	}
	rule := "each evaluation is one process running operations drawn from its seed against the package and a model, judged after every operation; distinct by the hash of the sequence of operations made"
	specs["C20"] = spec{run: run("ds", dsMode{"dict", 20, 60, 250000, 1500000}, dsMode{"set", 12, 40, 150000, 800000}, dsMode{"sparse", 2, 6, 400000, 1000000}, dsMode{"big-dict", 2, 6, 400000, 1500000}), level: "exploration", rule: rule,
		note: []string{"hash functions range from well spread to constant; keys are strings", "nothing but the current entry is deleted and nothing is added during an iteration"}}
	specs["C21"] = spec{run: run("ds", dsMode{"list", 28, 120, 300000, 2000000}, dsMode{"big-list", 3, 8, 200000, 1000000}), level: "exploration", rule: rule,
		note: []string{"ranges that start before the first value are not judged"}}
	specs["C22"] = spec{run: run("ds", dsMode{"skip", 16, 60, 200000, 1200000}, dsMode{"zset", 16, 60, 120000, 700000}, dsMode{"big-skip", 3, 10, 150000, 600000}), level: "exploration", rule: rule,
		note: []string{"members are unique, as the package asks of its callers; the structure is walked through its exported fields"}}
	loopRule := rule + ", including what the callbacks did"
	specs["C23"] = spec{run: run("loop", dsMode{"timer", 24, 100, 150000, 1000000}, dsMode{"real", 6, 24, 3000, 12000}), level: "exploration", rule: loopRule,
		note: []string{"the clock is driven by the monitor in most runs and set back only at the beginning of a round", "a due timer may take a few rounds to fire on the driven clock, and two and a half seconds on the real one"}}
	specs["C24"] = spec{run: run("loop", dsMode{"file", 40, 160, 15000, 80000}), level: "exploration", rule: loopRule,
		note: []string{"descriptors are socket pairs; descriptors are unregistered before they are closed", "a ready handler may take a few rounds per 1024 descriptors to run"}}
}

type dsMode struct {
	name            string
	quick, thorough int // processes
	qops, tops      int // operations each
}

// buildMon builds a monitor program as a package of the tree under test.
func (h *H) buildMon(kind string) string {
	if h.bins["mon-"+kind] != "" {
		return h.bins["mon-"+kind]
	}
	replace := map[string]string{}
	var ov struct{ Replace map[string]string }
	if kind == "loop" {
		b, _ := os.ReadFile(h.instOverlay())
		json.Unmarshal(b, &ov)
		replace = ov.Replace
	}
	src, _ := filepath.Glob(filepath.Join(h.verif, "dsmon", kind, "*.go"))
	if len(src) == 0 {
		giveUp("no sources of the %s monitor", kind)
	}
	for _, f := range src {
		replace[filepath.Join(h.repo, "zz_verif", kind, filepath.Base(f))] = f
	}
	b, _ := json.Marshal(map[string]any{"Replace": replace})
	p := filepath.Join(h.scratch, "mon-"+kind+".json")
	os.WriteFile(p, b, 0644)
	out := filepath.Join(h.scratch, "mon-"+kind)
	if b, err := goCmd(h.repo, "build", "-overlay", p, "-o", out, "./zz_verif/"+kind); err != nil {
		giveUp("go build of the %s monitor failed: %v\n%s", kind, err, b)
	}
	h.bins["mon-"+kind] = out
	return out
}

func (h *H) dsMon(kind string, modes []dsMode) {
	bin := h.buildMon(kind)
	type job struct {
		mode string
		i    int
		ops  int
	}
	var jobs []job
	for _, m := range modes {
		for i := 0; i < h.n(m.quick, m.thorough); i++ {
			jobs = append(jobs, job{m.name, i, h.n(m.qops, m.tops)})
		}
	}
	h.parallel(len(jobs), 8, func(k int) {
		j := jobs[k]
		seed := h.rng(fmt.Sprintf("%s-%d", j.mode, j.i)).Int63()
		args := []string{"-mode", j.mode, "-seed", fmt.Sprint(seed), "-ops", fmt.Sprint(j.ops)}
		cmd := exec.Command(bin, args...)
		cmd.Env = append(os.Environ(), "GODEBUG=randseednop=0", "GOMAXPROCS=2")
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		if err := cmd.Start(); err != nil {
			giveUp("%v", err)
		}
		done := make(chan error, 1)
		go func() { done <- cmd.Wait() }()
		var err error
		select {
		case err = <-done:
		case <-time.After(780 * time.Second):
			cmd.Process.Kill()
			<-done
			giveUp("%s did not end in 780 s", strings.Join(args, " "))
		}
		var res struct {
			OK     bool             `json:"ok"`
			What   string           `json:"what"`
			Trace  []string         `json:"trace"`
			Counts map[string]int64 `json:"counts"`
			Hash   uint64           `json:"hash"`
		}
		var ee *exec.ExitError
		if err != nil && !errors.As(err, &ee) {
			giveUp("%v", err)
		}
		if e := json.Unmarshal(out.Bytes(), &res); err != nil || e != nil {
			h.fail(map[string]any{"program": "dsmon/" + kind, "args": args, "stderr": errb.String()},
				"the %s monitor (%s) ended with %v\n%s", kind, strings.Join(args, " "), err, head(errb.String(), 2500))
		}
		if !res.OK {
			h.fail(map[string]any{"program": "dsmon/" + kind, "args": args, "trace": res.Trace}, "%s (%s)\nlast operations:\n  %s",
				head(res.What, 1500), strings.Join(args, " "), strings.Join(last(res.Trace, 15), "\n  "))
		}
		h.eval(true, fmt.Sprint(j.mode, res.Hash))
		h.count("processes, "+j.mode, 1)
		for n, v := range res.Counts {
			if strings.HasPrefix(n, "most ") || strings.Contains(n, "tallest") {
				h.mu.Lock()
				if v > h.counts[n] {
					h.counts[n] = v
				}
				h.mu.Unlock()
				continue
			}
			h.count(n, v)
		}
		if j.i == 0 {
			h.sample(map[string]any{"args": strings.Join(args, " "), "counts": res.Counts, "last operations": res.Trace})
		}
	})
}

func last(l []string, n int) []string {
	if len(l) > n {
		return l[len(l)-n:]
	}
	return l
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

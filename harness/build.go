package main

import (
	"embed"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
)

//go:embed inst/*
var instFS embed.FS

// functions of package syscall that the instrumented build wraps
var instWrapped = map[string][]string{
	"syscall/zsyscall_linux_amd64.go": {
		"read", "write", "pwrite", "Fsync", "Fdatasync", "Close", "Ftruncate", "Truncate",
		"unlinkat", "linkat", "Renameat", "openat",
	},
}

type inconclusive struct{ msg string }

func (e inconclusive) Error() string { return e.msg }

func giveUp(format string, args ...any) {
	panic(inconclusive{fmt.Sprintf(format, args...)})
}

func goCmd(dir string, args ...string) ([]byte, error) {
	cmd := exec.Command("go", args...)
	cmd.Dir = dir
	cmd.Env = os.Environ()
	return cmd.CombinedOutput()
}

// buildPlain builds the server from the working tree as it is.
func (h *H) buildPlain() string {
	return h.build("plain", nil)
}

// buildRace builds it with the race detector.
func (h *H) buildRace() string {
	if h.bins["race"] != "" {
		return h.bins["race"]
	}
	if ov, n := h.goOverlay(""); n > 0 && h.tryBuild("race", []string{"-race", "-overlay", ov}) == nil {
		h.count("go statements that may be delayed", int64(n))
		return h.bins["race"]
	}
	return h.build("race", []string{"-race"})
}

// buildInst builds it against a standard library whose system-call layer logs and injects faults
// and whose clock can be driven by the harness. The source of the server is used unchanged.
func (h *H) buildInst() string {
	if h.bins["inst"] != "" {
		return h.bins["inst"]
	}
	ov := h.instOverlay()
	if late, n := h.goOverlay(ov); n > 0 && h.tryBuild("inst", []string{"-overlay", late}) == nil {
		h.count("go statements that may be delayed", int64(n))
		return h.bins["inst"]
	}
	return h.build("inst", []string{"-overlay", ov})
}

func (h *H) build(name string, flags []string) string {
	if h.bins[name] != "" {
		return h.bins[name]
	}
	if err := h.tryBuild(name, flags); err != nil {
		giveUp("%v", err)
	}
	return h.bins[name]
}

func (h *H) tryBuild(name string, flags []string) error {
	out := filepath.Join(h.scratch, "metis-"+name)
	args := append([]string{"build", "-o", out}, flags...)
	args = append(args, ".")
	if b, err := goCmd(h.repo, args...); err != nil {
		return fmt.Errorf("go build (%s) failed: %v\n%s", name, err, b)
	}
	h.bins[name] = out
	return nil
}

func (h *H) instOverlay() string {
	b, err := goCmd(h.repo, "env", "GOROOT")
	if err != nil {
		giveUp("go env GOROOT: %v", err)
	}
	src := filepath.Join(strings.TrimSpace(string(b)), "src")
	dir := filepath.Join(h.scratch, "overlay")
	os.MkdirAll(dir, 0755)
	replace := map[string]string{}
	put := func(rel, text string) {
		p := filepath.Join(dir, strings.ReplaceAll(rel, "/", "_"))
		if err := os.WriteFile(p, []byte(text), 0644); err != nil {
			giveUp("%v", err)
		}
		replace[filepath.Join(src, rel)] = p
	}
	get := func(rel string) string {
		b, err := os.ReadFile(filepath.Join(src, rel))
		if err != nil {
			giveUp("%v", err)
		}
		return string(b)
	}
	for rel, fns := range instWrapped {
		text := get(rel)
		for _, fn := range fns {
			old := "\nfunc " + fn + "("
			if strings.Count(text, old) != 1 {
				giveUp("standard library: %s not found in %s", fn, rel)
			}
			text = strings.Replace(text, old, "\nfunc "+fn+"_v(", 1)
		}
		put(rel, text)
	}
	hook, _ := instFS.ReadFile("inst/syscall_verif.go.txt")
	put("syscall/zz_verif_linux_amd64.go", string(hook))

	text := get("time/time.go")
	old := "\nfunc Now() Time {\n"
	if strings.Count(text, old) != 1 {
		giveUp("standard library: time.Now not found")
	}
	text = strings.Replace(text, old, old+`	if p := syscall.VerifClock; p != nil {
		if ns := atomic.LoadInt64(p); ns != 0 {
			return Unix(0, ns)
		}
	}
`, 1)
	old = "import (\n"
	text = strings.Replace(text, old, "import (\n\t\"sync/atomic\"\n\t\"syscall\"\n", 1)
	put("time/time.go", text)

	text = get("os/signal/signal.go")
	old = "\nfunc Notify(c chan<- os.Signal, sig ...os.Signal) {\n"
	if strings.Count(text, old) != 1 {
		giveUp("standard library: signal.Notify not found")
	}
	text = strings.Replace(text, old, old+"\tsyscall.VerifNotifyDelay()\n", 1)
	text = strings.Replace(text, "import (\n", "import (\n\t\"syscall\"\n", 1)
	put("os/signal/signal.go", text)

	j, _ := json.Marshal(map[string]any{"Replace": replace})
	p := filepath.Join(dir, "overlay.json")
	os.WriteFile(p, j, 0644)
	return p
}

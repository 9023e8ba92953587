// Command harness runs the monitors of /verif against a server built from the current working tree.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type violation struct {
	msg    string
	replay any
}

// H is one run of one check.
type H struct {
	prop, tier           string
	repo, verif, scratch string
	seed                 int64
	quick                bool
	start                time.Time

	mu       sync.Mutex
	bins     map[string]string
	counts   map[string]int64
	distinct map[uint64]struct{}
	evals    int64
	samples  []any
	maxSamp  int
	procs    map[*Server]bool
	dirSeq   int
	otherFS  string // a directory on another file system than scratch, or ""
}

// spec describes a check for the evidence file.
type spec struct {
	run   func(h *H)
	level string
	rule  string
	note  []string
}

var specs = map[string]spec{}

func (h *H) rng(salt string) *rand.Rand {
	f := fnv.New64a()
	fmt.Fprintf(f, "%d/%s/%s", h.seed, h.prop, salt)
	return rand.New(rand.NewSource(int64(f.Sum64())))
}

// n picks the size of a workload by tier.
func (h *H) n(quick, thorough int) int {
	if h.quick {
		return quick
	}
	return thorough
}

func (h *H) count(name string, n int64) {
	h.mu.Lock()
	h.counts[name] += n
	h.mu.Unlock()
}

// atLeast keeps the largest value seen.
func (h *H) atLeast(name string, n int64) {
	h.mu.Lock()
	if n > h.counts[name] {
		h.counts[name] = n
	}
	h.mu.Unlock()
}

// eval counts one judged execution; it is non-trivial and new when its description is.
func (h *H) eval(nontrivial bool, desc string) {
	f := fnv.New64a()
	f.Write([]byte(desc))
	h.mu.Lock()
	h.evals++
	if nontrivial {
		h.distinct[f.Sum64()] = struct{}{}
	}
	h.mu.Unlock()
}

func (h *H) sample(v any) {
	h.mu.Lock()
	if len(h.samples) < h.maxSamp {
		h.samples = append(h.samples, v)
	}
	h.mu.Unlock()
}

func (h *H) fail(replay any, format string, args ...any) {
	panic(violation{fmt.Sprintf(format, args...), replay})
}

func (h *H) tempDir(name string) string {
	h.mu.Lock()
	h.dirSeq++
	d := filepath.Join(h.scratch, fmt.Sprintf("%s-%d", name, h.dirSeq))
	h.mu.Unlock()
	if err := os.MkdirAll(d, 0755); err != nil {
		giveUp("%v", err)
	}
	return d
}

// parallel runs n jobs on w workers; the first panic of a job is passed on.
func (h *H) parallel(n, w int, job func(i int)) {
	var (
		wg    sync.WaitGroup
		mu    sync.Mutex
		next  int
		first any
	)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				i := next
				next++
				stop := first != nil
				mu.Unlock()
				if stop || i >= n {
					return
				}
				func() {
					defer func() {
						if r := recover(); r != nil {
							mu.Lock()
							if _, ok := r.(violation); !ok {
								if _, ok := r.(inconclusive); !ok {
									r = inconclusive{fmt.Sprintf("%v\n%s", r, debug.Stack())}
								}
							}
							if first == nil {
								first = r
							} else if _, ok := r.(violation); ok {
								if _, ok := first.(violation); !ok {
									first = r
								}
							}
							mu.Unlock()
						}
					}()
					job(i)
				}()
			}
		}()
	}
	wg.Wait()
	if first != nil {
		panic(first)
	}
}

func (h *H) evidence(violations int) {
	sp := specs[h.prop]
	h.mu.Lock()
	defer h.mu.Unlock()
	cov := map[string]any{
		"evaluations":         h.evals,
		"distinct_nontrivial": len(h.distinct),
		"rule":                sp.rule,
		"samples":             h.samples,
	}
	if len(h.samples) == 0 {
		cov["samples"] = []any{}
	}
	keys := make([]string, 0)
	for k := range h.counts {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	obs := map[string]int64{}
	for _, k := range keys {
		obs[k] = h.counts[k]
	}
	cov["observed"] = obs
	ev := map[string]any{
		"property": h.prop, "tier": h.tier, "seed": h.seed, "level": sp.level,
		"coverage": cov, "wall_s": time.Since(h.start).Seconds(), "violations": violations,
	}
	if len(sp.note) > 0 {
		ev["assumptions"] = sp.note
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(h.verif, "evidence"), 0755)
	if err := os.WriteFile(filepath.Join(h.verif, "evidence", h.prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
}

func main() {
	h := &H{bins: map[string]string{}, counts: map[string]int64{}, distinct: map[uint64]struct{}{},
		maxSamp: 4, procs: map[*Server]bool{}, start: time.Now()}
	flag.StringVar(&h.prop, "prop", "", "property")
	flag.StringVar(&h.tier, "tier", "quick", "quick or thorough")
	flag.StringVar(&h.repo, "repo", "/repo", "")
	flag.StringVar(&h.verif, "verif", "/verif", "")
	flag.StringVar(&h.scratch, "scratch", "", "")
	seed := flag.String("seed", "1", "")
	flag.Parse()
	if n, err := strconv.ParseInt(*seed, 10, 64); err == nil {
		h.seed = n
	} else {
		f := fnv.New64a()
		f.Write([]byte(*seed))
		h.seed = int64(f.Sum64() >> 1)
	}
	if h.tier != "thorough" {
		h.tier = "quick"
	}
	h.quick = h.tier == "quick"
	if other := os.Getenv("VERIF_OTHERFS"); other != "" {
		a, e1 := os.Stat(other)
		b, e2 := os.Stat(h.scratch)
		if e1 == nil && e2 == nil && a.Sys().(*syscall.Stat_t).Dev != b.Sys().(*syscall.Stat_t).Dev {
			h.otherFS = other
		}
	}
	sp, ok := specs[h.prop]
	if !ok || h.scratch == "" {
		fmt.Println("unknown property or no scratch directory")
		os.Exit(2)
	}
	code := 2
	func() {
		defer func() {
			h.killAll()
			switch r := recover().(type) {
			case nil:
				code = 0
			case violation:
				code = 1
				h.report(r)
			case inconclusive:
				fmt.Printf("INCONCLUSIVE property=%s %s\n", h.prop, r.msg)
			default:
				fmt.Printf("INCONCLUSIVE property=%s harness failure: %v\n%s\n", h.prop, r, debug.Stack())
			}
		}()
		sp.run(h)
	}()
	if code != 2 {
		h.evidence(code)
	}
	if code == 0 {
		fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct=%d wall=%.1fs\n",
			h.prop, h.tier, h.seed, h.evals, len(h.distinct), time.Since(h.start).Seconds())
	}
	os.Exit(code)
}

func (h *H) report(v violation) {
	dir := filepath.Join(h.verif, "replays")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", h.prop, h.tier, h.seed))
	b, err := json.MarshalIndent(map[string]any{
		"property": h.prop, "tier": h.tier, "seed": h.seed, "what": v.msg, "replay": v.replay,
		"how": fmt.Sprintf("VERIF_SEED=%d VERIF_TIER=%s bash /verif/check.sh %s", h.seed, h.tier, h.prop),
	}, "", " ")
	if err != nil {
		b = []byte(fmt.Sprintf("{\"what\": %q}", v.msg))
	}
	os.WriteFile(path, append(b, '\n'), 0644)
	msg := v.msg
	if len(msg) > 3000 {
		msg = msg[:3000] + "..."
	}
	fmt.Println(strings.TrimSpace(msg))
	fmt.Printf("VIOLATION property=%s replay=%s\n", h.prop, path)
}

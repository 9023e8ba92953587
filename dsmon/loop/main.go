// Command loop runs the event loop of the tree it is laid over under monitors.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"runtime/debug"
	"sync/atomic"
	"syscall"
	"time"
)

type mon struct {
	rng    *rand.Rand
	trace  []string
	counts map[string]int64
	prog   atomic.Int64
	hash   uint64
}

type violation struct{ msg string }

func (m *mon) fail(format string, args ...any) { panic(violation{fmt.Sprintf(format, args...)}) }

func (m *mon) op(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	m.trace = append(m.trace, s)
	if len(m.trace) > 600 {
		m.trace = append([]string(nil), m.trace[300:]...)
	}
	f := fnv.New64a()
	fmt.Fprint(f, m.hash, s)
	m.hash = f.Sum64()
	m.prog.Add(1)
	m.counts["operations"]++
}

func (m *mon) out(ok bool, what string) {
	t := m.trace
	if ok && len(t) > 12 {
		t = t[len(t)-12:]
	}
	b, _ := json.Marshal(map[string]any{"ok": ok, "what": what, "trace": t, "counts": m.counts, "hash": m.hash})
	os.Stdout.Write(append(b, '\n'))
}

func main() {
	mode := flag.String("mode", "", "")
	seed := flag.Int64("seed", 1, "")
	ops := flag.Int("ops", 10000, "")
	flag.Parse()
	m := &mon{rng: rand.New(rand.NewSource(*seed)), counts: map[string]int64{}}
	rand.Seed(*seed)
	_ = syscall.SIGPIPE
	go func() {
		last, since := int64(-1), time.Now()
		for range time.Tick(time.Second) {
			if p := m.prog.Load(); p != last {
				last, since = p, time.Now()
			}
			if time.Since(since) > 90*time.Second {
				fmt.Fprintf(os.Stderr, "HANG after %d operations, no progress for 90 s\n", last)
				debug.SetTraceback("all")
				panic("operation does not return")
			}
		}
	}()
	defer func() {
		switch r := recover().(type) {
		case nil:
			m.out(true, "")
		case violation:
			m.out(false, r.msg)
		default:
			m.out(false, fmt.Sprintf("panic: %v\n%s", r, debug.Stack()))
		}
	}()
	switch *mode {
	case "timer":
		m.timers(*ops)
	case "real":
		m.timersReal(*ops)
	case "file":
		m.files(*ops)
	default:
		panic("mode")
	}
}

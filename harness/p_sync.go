package main

import (
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"strconv"
	"syscall"
	"time"
)

func init() {
	specs["C17"] = spec{run: syncPolicy, level: "exploration",
		rule: "policy always: for every reply to a write, the recorded system calls show whether an fsync covering its record had completed; everysec: with a driven clock, every append must be covered by an fsync within about a second and fsyncs must not be more frequent than about one a second; no: no fsync of the log. A case is one run, distinct by policy, workload and number of replies or appends judged",
		note: []string{"the fsync of the directory after a rename is not asked for"}}
}

// tailer follows a growing event log.
type tailer struct {
	f   *os.File
	buf []byte
}

func newTailer(path string) *tailer {
	f, err := os.Open(path)
	if err != nil {
		giveUp("event log: %v", err)
	}
	return &tailer{f: f}
}

func (t *tailer) next() []Event {
	b, err := io.ReadAll(t.f)
	if err != nil {
		giveUp("event log: %v", err)
	}
	t.buf = append(t.buf, b...)
	const hdr = 8*4 + 4 + 8*3
	n := 0
	for len(t.buf)-n >= hdr {
		l := int(binary.LittleEndian.Uint64(t.buf[n:]))
		if len(t.buf)-n < hdr+l {
			break
		}
		n += hdr + l
	}
	evs := parseEventBytes(t.buf[:n])
	t.buf = append([]byte(nil), t.buf[n:]...)
	return evs
}

func syncPolicy(h *H) {
	h.buildInst()
	h.replyAfterWrite(true, []string{"always"})
	n := h.n(10, 40)
	h.parallel(n+1, 7, func(i int) {
		if i == 0 {
			h.everySecondReal()
			return
		}
		h.everySecond(i)
	})
	h.parallel(h.n(6, 40), 7, h.neverSync)
}

// syncWatch keeps which appends are covered by an fsync.
type syncWatch struct {
	v       *vfs
	aof     string
	writes  []syncWrite
	syncs   []int64 // virtual start times of fsyncs of the log
	renames int
	started map[int64]int64
	events  int
}

type syncWrite struct {
	ino  *inodeTrack
	end  int
	virt int64
}

func (w *syncWatch) feed(evs []Event) {
	for _, e := range evs {
		w.events++
		ino := w.v.fds[e.Fd]
		w.v.apply(e)
		switch {
		case e.Class == 'n':
		case e.Op == 'w' && e.Post && e.N > 0 && ino != nil && ino == w.v.paths[w.aof]:
			w.writes = append(w.writes, syncWrite{ino, len(ino.data), e.Virt})
		case (e.Op == 's' || e.Op == 'd') && !e.Post && e.Class == 'a':
			w.syncs = append(w.syncs, e.Virt)
		case e.Op == 'r' && e.Post && e.Errno == 0:
			w.renames++
			// what has come with a rewritten file has to be synced like anything else
			if cur := w.v.paths[w.aof]; cur != nil && cur.synced < len(cur.data) {
				w.writes = append(w.writes, syncWrite{cur, len(cur.data), e.Virt})
			}
		}
	}
}

// overdue returns the first append made before a time which no fsync covers.
func (w *syncWatch) overdue(before int64) *syncWrite {
	cur := w.v.paths[w.aof]
	for len(w.writes) > 0 {
		x := &w.writes[0]
		if x.virt/1e6 >= before {
			return nil
		}
		if x.ino.synced >= x.end || (x.ino != cur && cur != nil && cur.synced > 0) {
			w.writes = w.writes[1:]
			continue
		}
		return x
	}
	return nil
}

func (h *H) everySecond(i int) {
	name := fmt.Sprintf("everysec-%d", i)
	rng := h.rng(name)
	rewrites := i%4 == 3
	s := h.newServer(h.bins["inst"], Conf{AOF: true, Fsync: "everysec"})
	defer s.discard()
	s.instrument(true, []string{"", "", "s,a,1,d,3,1"}[i%3])
	now := int64(1700000000000) + rng.Int63n(1000)
	t0 := now
	s.page.SetClock(now)
	s.mustStart()
	c := s.client()
	defer func() { c.Close() }()
	tl := newTailer(s.logPath)
	defer tl.f.Close()
	w := &syncWatch{v: newVFS(s.aofPath()), aof: s.aofPath()}
	var hist []string
	alone := 0  // rounds for which nobody stays connected
	silent := 0 // rounds for which nothing is sent
	note := func(f string, a ...any) {
		hist = append(hist, fmt.Sprintf("%+.3fs ", float64(now-t0)/1000)+fmt.Sprintf(f, a...))
		if len(hist) > 120 {
			hist = hist[1:]
		}
	}
	replay := func() any { return map[string]any{"run": name, "config": s.conf, "history": hist} }
	do := func(args ...string) {
		if rep, err := c.Do(args...); err != nil || rep.IsErr() {
			if err != nil {
				s.dead(quoteArgs(args) + ": " + err.Error())
			}
			h.fail(replay(), "%s: %v", quoteArgs(args), rep)
		}
	}
	judged, quiet, away, hushed := 0, 0, 0, 0
	end := now + int64(h.n(40000, 200000))
	writing := true
	mode := 0
	for now < end {
		if mode == 0 {
			// a phase of writing, of rare writes or of silence
			mode = 1 + rng.Intn(40)
			writing = rng.Intn(3) != 0
			note("phase: writing %v", writing)
		}
		mode--
		switch {
		case alone > 0:
			if alone--; alone == 0 {
				c = s.client()
				note("connected again")
			}
		case silent > 0:
			silent--
		case writing && rng.Intn(20) == 0:
			// written, and then nobody is there, or nothing more is asked for
			for k := rng.Intn(4); k >= 0; k-- {
				do("set", "k"+strconv.Itoa(rng.Intn(50)), strconv.Itoa(rng.Int()))
			}
			if rng.Intn(2) == 0 {
				c.Close()
				alone = 2 + rng.Intn(25)
				away++
				note("writes, then no connection for %d rounds", alone)
			} else {
				silent = 2 + rng.Intn(25)
				hushed++
				note("writes, then silence for %d rounds", silent)
			}
		}
		ping := func() {
			if alone == 0 && silent == 0 {
				do("ping")
			} else {
				time.Sleep(3 * time.Millisecond)
			}
		}
		if alone > 0 || silent > 0 {
			// nothing is sent
		} else if writing && rng.Intn(3) != 0 || rng.Intn(30) == 0 {
			for k := rng.Intn(4); k >= 0; k-- {
				do("set", "k"+strconv.Itoa(rng.Intn(50)), strconv.Itoa(rng.Int()))
			}
			note("writes")
		}
		if rewrites && alone == 0 && silent == 0 && rng.Intn(60) == 0 {
			do("bgrewriteaof")
			note("rewrite")
		}
		step := int64(20 + rng.Intn(180))
		switch rng.Intn(30) {
		case 0:
			step = 900 + rng.Int63n(300)
		case 1:
			step = 1000
		}
		now += step
		s.page.SetClock(now)
		ping()
		w.feed(tl.next())
		before := len(w.writes)
		// by now everything older than a second and a half has had its chance
		for wait := time.Now(); ; {
			x := w.overdue(now - 1500)
			if x == nil {
				break
			}
			if time.Since(wait) > 10*time.Second {
				h.fail(replay(), "policy everysec: an append made %.1f s ago (by the clock of the server) is not covered by any fsync of the log; fsyncs so far: %d", float64(now-x.virt/1e6)/1000, len(w.syncs))
			}
			if time.Since(wait) > 3*time.Millisecond {
				time.Sleep(2 * time.Millisecond)
			}
			ping()
			w.feed(tl.next())
		}
		judged += before - len(w.writes)
		if before == 0 {
			quiet++
		}
	}
	if judged == 0 {
		giveUp("%s: no append was judged", name)
	}
	if !rewrites {
		for a := 0; a+5 < len(w.syncs); a++ {
			if w.syncs[a+5]-w.syncs[a] < 2500e6 {
				h.fail(replay(), "policy everysec: 6 fsyncs of the log within %.1f s", float64(w.syncs[a+5]-w.syncs[a])/1e9)
			}
		}
	}
	if lim := (now-t0)/1000 + 2 + 3*int64(w.renames); int64(len(w.syncs)) > lim {
		h.fail(replay(), "policy everysec: %d fsyncs of the log in %.1f s", len(w.syncs), float64(now-t0)/1000)
	}
	h.count("everysec: appends covered in time", int64(judged))
	h.count("everysec: fsyncs seen", int64(len(w.syncs)))
	h.count("everysec: virtual seconds", (now-t0)/1000)
	h.count("everysec: rewrites", int64(w.renames))
	h.count("everysec: rounds without anything to sync", int64(quiet))
	h.count("everysec: written, then nobody connected", int64(away))
	h.count("everysec: written, then silence", int64(hushed))
	h.count("system calls recorded", int64(w.events))
	h.eval(true, fmt.Sprintf("%s %d appends %d fsyncs", name, judged, len(w.syncs)))
	if i == 1 {
		h.sample(map[string]any{"run": name, "end of history": hist[len(hist)/2:], "fsyncs": len(w.syncs), "appends judged": judged})
	}
	if alone > 0 {
		c = s.client()
	}
	// nothing follows a stop: what has been appended by then is synced before the process ends
	for k := 1 + rng.Intn(5); k > 0; k-- {
		do("rpush", "last", strconv.Itoa(rng.Int()))
	}
	if rng.Intn(2) == 0 {
		now += rng.Int63n(900)
		s.page.SetClock(now)
		do("set", "last of all", "v")
	}
	s.signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[rng.Intn(2)])
	if !s.waitExit(30 * time.Second) {
		h.fail(replay(), "policy everysec: the server does not end when told to")
	}
	w.feed(tl.next())
	if x := w.overdue(1 << 62); x != nil {
		h.fail(replay(), "policy everysec: the process has ended on a signal, and an append made %.1f s before (by the clock of the server) is not covered by any fsync of the log", float64(now-x.virt/1e6)/1000)
	}
	h.count("everysec: stops after which everything was synced", 1)
}

// everySecondReal makes sure the policy goes by the real clock too.
func (h *H) everySecondReal() {
	s := h.newServer(h.bins["inst"], Conf{AOF: true, Fsync: "everysec"})
	defer s.discard()
	s.instrument(true, "")
	s.mustStart()
	c := s.client()
	defer c.Close()
	tl := newTailer(s.logPath)
	defer tl.f.Close()
	w := &syncWatch{v: newVFS(s.aofPath()), aof: s.aofPath()}
	start := time.Now()
	n := 0
	for time.Since(start) < 4500*time.Millisecond {
		if rep, err := c.Do("rpush", "l", strconv.Itoa(n)); err != nil || rep.IsErr() {
			s.dead(fmt.Sprintf("rpush: %v %v", rep, err))
		}
		n++
		time.Sleep(3 * time.Millisecond)
	}
	time.Sleep(1500 * time.Millisecond)
	w.feed(tl.next())
	for wait := time.Now(); len(w.writes) > 0 && w.overdue(1<<62) != nil; w.feed(tl.next()) {
		if time.Since(wait) > 15*time.Second {
			h.fail(nil, "policy everysec on the real clock: %d appends, the last of them more than 15 s ago, and %d fsyncs, the last append not covered", n, len(w.syncs))
		}
		time.Sleep(20 * time.Millisecond)
	}
	if el := time.Since(start).Seconds(); float64(len(w.syncs)) > el+3 || len(w.syncs) < 2 {
		h.fail(nil, "policy everysec on the real clock: %d fsyncs in %.1f s of continuous writing", len(w.syncs), el)
	}
	h.count("everysec on the real clock: appends", int64(n))
	h.count("everysec on the real clock: fsyncs", int64(len(w.syncs)))
	h.eval(true, "real clock")
	s.kill()
}

func (h *H) neverSync(i int) {
	name := fmt.Sprintf("no-%d", i)
	rng := h.rng(name)
	s := h.newServer(h.bins["inst"], Conf{AOF: true, Fsync: "no"})
	defer s.discard()
	s.instrument(true, "")
	now := int64(1700000000000)
	s.page.SetClock(now)
	s.mustStart()
	c := s.client()
	defer c.Close()
	for k := 0; k < h.n(400, 3000); k++ {
		if rep, err := c.Do("rpush", "l", strconv.Itoa(k)); err != nil || rep.IsErr() {
			s.dead(fmt.Sprintf("rpush: %v %v", rep, err))
		}
		now += rng.Int63n(300)
		s.page.SetClock(now)
		if i%2 == 1 && k%150 == 70 {
			c.Do("bgrewriteaof")
		}
	}
	c.Do("ping")
	w := &syncWatch{v: newVFS(s.aofPath()), aof: s.aofPath()}
	w.feed(parseEvents(s.logPath))
	if len(w.syncs) > 2*w.renames {
		h.fail(map[string]any{"run": name, "config": s.conf}, "policy no: %d appends and %d rewrites led to %d fsyncs of the log", len(w.writes), w.renames, len(w.syncs))
	}
	if len(w.writes) == 0 && w.renames == 0 {
		giveUp("%s: no append seen", name)
	}
	h.count("no: appends", int64(len(w.writes)))
	h.count("no: fsyncs of the log", int64(len(w.syncs)))
	h.count("no: rewrites", int64(w.renames))
	h.eval(true, name+strconv.Itoa(len(w.writes)))
	s.kill()
}

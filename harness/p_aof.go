package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	specs["C13"] = spec{run: restarts, level: "exploration",
		rule: "random histories over several databases and all types with restarts (kill or signal) and clock advances at random places; after each restart the whole dataset is compared with the model, which knows nothing of files; a case is one command with its reply or one restart"}
	specs["C14"] = spec{run: rewrites, level: "exploration",
		rule: "random histories with rewrites (requested and automatic) slowed down by injected delays so that commands, clock steps and further requests fall into every phase of them; live dataset and dataset after a restart are compared with the model; a case is one rewrite, distinct by dataset and by what ran beside it"}
	specs["C15"] = spec{run: tornTails, level: "fault_enumeration",
		rule: "logs recorded with their size after each acknowledged command are cut at every byte (large ones at sampled bytes), loaded, written to, and loaded again; further, reads of the log fail or return little at a time, or cutting it off fails, at sampled places: the log must stay as it is or everything be there; a case is one cut, distinct by log and offset"}
}

// restart ends the server and starts it again; the clock may advance meanwhile.
func (r *Run) restart(conns int, downtime int64) {
	how := r.rng.Intn(3)
	for _, c := range r.cl {
		c.Close()
	}
	r.cl = nil
	switch how {
	case 0:
		r.s.signal(syscall.SIGTERM)
		if !r.s.waitExit(30 * time.Second) {
			r.s.kill()
		}
	default:
		r.s.kill()
	}
	r.log.note(fmt.Sprintf("restart (%s), downtime %d ms", []string{"SIGTERM", "kill", "kill"}[how], downtime))
	r.m.restarted()
	if r.s.page != nil {
		if downtime >= 0 {
			clockTick(r, downtime)
		} else if r.m.ambiguous(r.now()) {
			clockTick(r, 0)
		}
	}
	if err := r.s.start(); err != nil {
		b, _ := os.ReadFile(r.s.aofPath())
		if len(b) > 2000 {
			b = b[len(b)-2000:]
		}
		r.h.fail(r.replay(map[string]any{"output": r.s.outTail(), "end of the append only file": string(b)}), "the server does not start from its append only file: %v", err)
	}
	r.h.count("restarts", 1)
	r.connect(conns)
	r.check("after a restart")
	r.h.eval(true, fmt.Sprintf("restart %d keys %s", r.m.Keys(), tail(r.log.ops, 3)))
}

var allFamilies = map[string]int{"string": 14, "list": 12, "hash": 12, "set": 14, "zset": 14, "keyspace": 4, "expire": 10, "select": 8, "error": 4, "drain": 3, "biglist": 1, "bighash": 1, "bigset": 1, "bigzset": 1, "huge": 1, "around": 4}

func restarts(h *H) {
	h.buildInst()
	h.parallel(h.n(7, 40), 7, h.otherDatabases)
	h.parallel(h.n(14, 70), 7, func(i int) {
		rng := h.rng(fmt.Sprintf("restarts-%d", i))
		s := h.newServer(h.bins["inst"], Conf{AOF: true, DBs: 1 + i%5*4, Fsync: []string{"always", "everysec", "no"}[i%3]})
		defer s.discard()
		s.instrument(false, "")
		s.page.SetClock(1_700_000_000_000 + rng.Int63n(1e9))
		s.mustStart()
		conns := 1 + i%3
		r := newRun(h, s, rng, conns)
		g := newGen(rng, r.m, allFamilies)
		g.now = r.now
		g.dbs = s.conf.DBs
		g.maxVal = []int{30, 200, 5000, 80000}[i%4]
		if i%5 == 0 { // few keys, so that deadlines and overwrites meet
			for t := range g.keys {
				g.keys[t] = g.keys[t][:2]
			}
		}
		for n := 0; n < h.n(60, 300); n++ {
			for k := rng.Intn([]int{4, 30, 150}[rng.Intn(3)]); k >= 0; k-- {
				conn := rng.Intn(conns)
				var cmds [][]string
				for j := rng.Intn(4); j >= 0; j-- {
					cmds = append(cmds, g.Next(r.sess[conn])...)
				}
				r.batch(conn, cmds, 1, nil)
				if rng.Intn(6) == 0 {
					clockTick(r, rng.Int63n(2500))
				}
			}
			down := int64(-1)
			switch rng.Intn(4) {
			case 0:
				down = rng.Int63n(4000)
			case 1: // just before or just after a deadline
				now := r.now()
				if ds := r.m.deadlines(now + 1500); len(ds) > 0 {
					d := ds[rng.Intn(len(ds))]
					if d < now+1_000_000 {
						down = d - now + []int64{-1001, 0}[rng.Intn(2)]
						h.count("restarts next to a deadline", 1)
					}
				}
				if down < 0 {
					down = 0
				}
			case 2:
				down = 0
			}
			r.restart(conns, down)
			if rng.Intn(4) == 0 { // around the deadlines that are left
				now := r.now()
				for _, d := range r.m.deadlines(now + 1100) {
					if d > now+100_000 {
						continue
					}
					for _, t := range []int64{d - 1001, d + 1} {
						if t > r.now() && !r.m.ambiguous(t) {
							s.page.SetClock(t)
							r.log.note(fmt.Sprintf("clock -> %d (deadline at %d before the restart)", t, d))
							r.check("after a restart, next to a deadline")
						}
					}
					break
				}
			}
		}
		h.sample(map[string]any{"config": fmt.Sprintf("%+v", s.conf), "last commands": tail(r.log.ops, 6), "bytes in the log": fileSize(s.aofPath())})
	})
}

// otherDatabases restarts with another number of databases. A log which mentions databases that are not
// configured is either refused, untouched, or loaded without mixing the databases up.
func (h *H) otherDatabases(i int) {
	name := fmt.Sprintf("databases-%d", i)
	rng := h.rng(name)
	n := 2 + rng.Intn(15)
	s := h.newServer(h.bins["inst"], Conf{AOF: true, DBs: n, Fsync: fsyncOf(i)})
	defer s.discard()
	s.instrument(false, "")
	s.page.SetClock(1_700_000_000_000 + rng.Int63n(1e9))
	s.mustStart()
	r := newRun(h, s, rng, 2)
	g := newGen(rng, r.m, allFamilies)
	g.now = r.now
	g.dbs = n
	for round := 0; round < h.n(6, 30); round++ {
		for k := rng.Intn(120); k >= 0; k-- {
			conn := rng.Intn(2)
			r.batch(conn, g.Next(r.sess[conn]), 1, nil)
		}
		if rng.Intn(3) == 0 {
			r.rewriteNow(func() { clockTick(r, 1) })
		}
		for _, c := range r.cl {
			c.Close()
		}
		r.cl = nil
		s.kill()
		r.m.restarted()
		if r.m.ambiguous(r.now()) {
			clockTick(r, 0)
		}
		before, _ := os.ReadFile(s.aofPath())
		fewer := 1 + rng.Intn(n+3)
		s.conf.DBs = fewer
		r.log.note(fmt.Sprintf("restart with %d databases instead of %d", fewer, n))
		err := s.start()
		used := 0
		for d := range r.m.DBs {
			if len(r.m.DBs[d]) > 0 {
				used = d + 1
			}
		}
		switch {
		case err == nil:
			c := s.client()
			for d := 0; d < min(fewer, n); d++ {
				if x := r.m.diffDB(c, d, r.now()); x != "" {
					h.fail(r.replay(nil), "after a restart with %d databases instead of %d, database %d: %s", fewer, n, d, x)
				}
			}
			for d := n; d < fewer; d++ {
				if reps, err := c.Pipe([][]string{{"select", strconv.Itoa(d)}, {"keys", "*"}}); err != nil || len(reps[1].A) > 0 {
					h.fail(r.replay(nil), "after a restart with %d databases instead of %d, database %d holds keys: %v %v", fewer, n, d, reps, err)
				}
			}
			c.Close()
			h.count("restarts with another number of databases", 1)
		case fewer >= n:
			h.fail(r.replay(s.outTail()), "a restart with %d databases instead of %d fails: %v", fewer, n, err)
		case !s.exited() || s.state.Success():
			h.fail(r.replay(s.outTail()), "a restart with %d databases instead of %d neither works nor fails: %v", fewer, n, err)
		default:
			if after, _ := os.ReadFile(s.aofPath()); !bytes.Equal(before, after) {
				h.fail(r.replay(s.outTail()), "a restart with %d databases instead of %d was refused but changed the append-only file", fewer, n)
			}
			h.count("restarts with too few databases refused", 1)
		}
		h.eval(true, fmt.Sprintf("%s %d/%d %d %v", name, fewer, n, used, err == nil))
		s.kill()
		s.conf.DBs = n
		s.mustStart()
		r.connect(2)
		r.check("after restarts with another number of databases")
	}
}

func fileSize(p string) int64 {
	fi, err := os.Stat(p)
	if err != nil {
		return -1
	}
	return fi.Size()
}

// tempFiles lists what is in the data directory besides the log.
func (s *Server) tempFiles() (l []string) {
	es, _ := os.ReadDir(s.dataDir())
	for _, e := range es {
		if filepath.Join(s.dataDir(), e.Name()) != s.aofPath() {
			l = append(l, e.Name())
		}
	}
	return l
}

func rewrites(h *H) {
	h.buildInst()
	h.parallel(h.n(21, 120), 7, func(i int) { h.rewriteRun(i) })
	h.rewriteWithoutLog()
	h.parallel(h.n(2, 6), 2, h.rewriteLarge)
}

// rewriteLarge rewrites large collections, whose tables are on their way to a larger size, with many megabytes beside.
func (h *H) rewriteLarge(i int) {
	rng := h.rng(fmt.Sprintf("rewritelarge-%d", i))
	s := h.newServer(h.buildPlain(), Conf{AOF: true, DBs: 3, Fsync: fsyncOf(i)}).mustStart()
	defer s.discard()
	r := newRun(h, s, rng, 1)
	for round := 0; round < h.n(2, 5); round++ {
		g := &hugeRun{Run: r, n: []int{2100, 4200, 8400, 16800, 33600}[rng.Intn(5)], rng: rng}
		if round == 0 {
			g.n = 33600 * (1 + i%2)
		}
		g.n += rng.Intn(g.n / 4)
		sfx := strconv.Itoa(rng.Intn(3))
		r.do(0, "select", strconv.Itoa(rng.Intn(3)))
		g.feed("rpush", "l"+sfx, g.elems("v", g.n))
		var pairs, scored [][]string
		for j := 0; j < g.n; j++ {
			pairs = append(pairs, []string{"f" + strconv.Itoa(j), strconv.Itoa(rng.Intn(1000))})
			scored = append(scored, []string{strconv.Itoa(rng.Intn(1000)), "m" + strconv.Itoa(j)})
		}
		g.feed("sadd", "s"+sfx, g.elems("m", g.n))
		g.feed("zadd", "z"+sfx, scored)
		g.feed("hset", "h"+sfx, pairs)
		var cmds [][]string
		for j := 0; j < g.n; j++ {
			cmds = append(cmds, []string{"set", "k" + strconv.Itoa(j), strconv.Itoa(round)})
			if j%7 == 3 {
				cmds = append(cmds, []string{"expireat", "k" + strconv.Itoa(j), strconv.FormatInt(r.now()/1000+100000+int64(j), 10)})
			}
		}
		r.batch(0, cmds, 1, nil)
		ino := inode(s.aofPath())
		cmds = [][]string{{"bgrewriteaof"}}
		for k := 0; k < 3; k++ {
			cmds = append(cmds, []string{"set", fmt.Sprintf("mega%d", k), strings.Repeat(token(k+10*round), (1+rng.Intn(12))<<20/tokenLen)},
				[]string{"rpush", "beside", token(k)}, []string{"del", "k" + strconv.Itoa(rng.Intn(g.n))}, []string{"hdel", "h" + sfx, "f" + strconv.Itoa(rng.Intn(g.n))})
		}
		cmds = append(cmds, []string{"sadd", "beside last", "x"})
		if rep := r.batch(0, cmds, 1, nil)[0]; rep.IsErr() {
			h.fail(r.replay(nil), "BGREWRITEAOF: %v", rep)
		}
		for t := time.Now(); inode(s.aofPath()) == ino; time.Sleep(5 * time.Millisecond) {
			if time.Since(t) > 60*time.Second {
				h.fail(r.replay(s.tempFiles()), "a rewrite has not completed within 60 s")
			}
		}
		r.do(0, "set", "after", strconv.Itoa(round))
		h.count("rewrites of large collections", 1)
		h.eval(true, fmt.Sprintf("rewrite %d/%d of collections of %d", i, round, g.n))
		r.check("after a rewrite of large collections")
		s.kill()
		r.m.restarted()
		s.mustStart()
		r.connect(1)
		r.check("restarted from a rewritten log of large collections")
		if round == 0 { // and from one that nothing was added to
			r.rewriteNow(nil)
			s.kill()
			s.mustStart()
			r.connect(1)
			r.check("restarted from a rewritten log of large collections")
		}
	}
	debug.FreeOSMemory()
}

func (h *H) rewriteRun(i int) {
	rng := h.rng(fmt.Sprintf("rewrites-%d", i))
	conf := Conf{AOF: true, DBs: 1 + i%4*5, Fsync: []string{"always", "everysec", "no"}[i%3]}
	auto := i%4 == 3
	if auto {
		conf.RewritePct, conf.RewriteMin = 1+rng.Intn(60), "1kb"
	}
	s := h.newServer(h.bins["inst"], conf)
	defer s.discard()
	rules := []string{ // the file being written, and its installation, are slowed down
		fmt.Sprintf("w,t,%d,d,%d,1", 1+rng.Intn(3), 1+rng.Intn(3)),
		fmt.Sprintf("s,t,1,d,%d,1;o,t,1,d,%d,1", 5+rng.Intn(20), 5+rng.Intn(20)),
		fmt.Sprintf("o,t,1,d,%d,1", 60+rng.Intn(100)),
		fmt.Sprintf("w,t,1,d,1,1;s,t,1,d,%d,1;c,t,1,d,3,1", rng.Intn(10)),
		"",
	}[rng.Intn(5)]
	s.instrument(false, rules)
	s.page.SetClock(1_700_000_000_000 + rng.Int63n(1e9))
	s.mustStart()
	conns := 2
	r := newRun(h, s, rng, conns)
	g := newGen(rng, r.m, allFamilies)
	g.now = r.now
	g.dbs = conf.DBs
	g.maxVal = []int{30, 300, 9000}[i%3]
	for t := range g.keys { // more keys than the first sizes of the tables
		for j := 0; j < []int{0, 10, 40}[rng.Intn(3)]; j++ {
			g.keys[t] = append(g.keys[t], fmt.Sprintf("%s-more%d", t[:1], j))
		}
	}
	some := func(n int) {
		for k := 0; k < n; k++ {
			conn := rng.Intn(conns)
			var cmds [][]string
			for j := rng.Intn(3); j >= 0; j-- {
				cmds = append(cmds, g.Next(r.sess[conn])...)
			}
			r.batch(conn, cmds, 1, nil)
			switch rng.Intn(12) {
			case 0:
				clockTick(r, rng.Int63n(1500))
			case 1, 2, 3, 4:
				clockTick(r, 1+rng.Int63n(3))
			}
		}
	}
	for n := 0; n < h.n(8, 50); n++ {
		some(rng.Intn([]int{10, 100, 300}[rng.Intn(3)]))
		if rng.Intn(3) == 0 { // collections around and beyond the number of elements per logged command
			k := []int{63, 64, 65, 127, 128, 129, 200, 640}[rng.Intn(8)]
			d := rng.Intn(conf.DBs)
			cmds := [][]string{{"select", strconv.Itoa(d)}, {"del", "chunkl", "chunkh", "chunks", "chunkz"}}
			l, hh, ss, z := []string{"rpush", "chunkl"}, []string{"hset", "chunkh"}, []string{"sadd", "chunks"}, []string{"zadd", "chunkz"}
			for j := 0; j < k; j++ {
				l = append(l, fmt.Sprintf("e%d", j%7))
				hh = append(hh, fmt.Sprintf("f%d", j), g.val())
				ss = append(ss, fmt.Sprintf("m%d", j))
				z = append(z, g.score(), fmt.Sprintf("m%d", j))
			}
			r.batch(0, append(cmds, l, hh, ss, z, []string{"expireat", "chunkl", strconv.FormatInt(r.now()/1000+1000+int64(rng.Intn(5000)), 10)}), 1, nil)
		}
		ino := inode(s.aofPath())
		before := r.m.Keys()
		if !auto {
			cmds := [][]string{{"bgrewriteaof"}}
			if rng.Intn(6) == 0 { // megabytes beside the rewrite
				size := []int{40_000, 300_000, 1_200_000}[rng.Intn(3)]
				for total := 2_000_000 + rng.Intn(4_000_000); total > 0; total -= size {
					cmds = append(cmds, []string{"set", fmt.Sprintf("mega%d", rng.Intn(4)), g.bytes(size - rng.Intn(1000))})
				}
				cmds = append(cmds, []string{"set", "after the megabytes", g.val()})
				h.count("rewrites with megabytes written beside them", 1)
			}
			if rep := r.batch(rng.Intn(conns), cmds, 1, nil)[0]; rep.IsErr() {
				h.fail(r.replay(nil), "BGREWRITEAOF: %v", rep)
			}
		}
		// commands beside it
		rounds, beside := 0, 0
		deadline := time.Now().Add(60 * time.Second)
		for inode(s.aofPath()) == ino {
			k := rng.Intn(6)
			some(k)
			beside += k
			clockTick(r, 1)
			rounds++
			if rng.Intn(20) == 0 {
				r.do(0, "bgrewriteaof")
			}
			if rng.Intn(25) == 0 {
				r.check("while a rewrite runs")
			}
			if auto && rounds > 100 {
				break
			}
			if time.Now().After(deadline) {
				h.fail(r.replay(s.tempFiles()), "a rewrite has not completed within 60 s")
			}
			if beside > 3000 { // let it end
				time.Sleep(time.Millisecond)
			}
		}
		if inode(s.aofPath()) != ino {
			h.count("rewrites", 1)
			h.eval(true, fmt.Sprintf("rewrite %d/%d of %d keys, %d command groups beside it", i, n, before, beside))
		}
		h.count("command groups beside rewrites", int64(beside))
		r.check("after a rewrite")
		some(rng.Intn(12))
		if rng.Intn(5) > 0 {
			r.restart(conns, int64(rng.Intn(4))*rng.Int63n(900)-1)
		}
	}
	r.restart(conns, 0)
	h.sample(map[string]any{"config": fmt.Sprintf("%+v", conf), "delays": rules, "last commands": tail(r.log.ops, 5)})
}

func inode(p string) uint64 {
	fi, err := os.Stat(p)
	if err != nil {
		return 0
	}
	return fi.Sys().(*syscall.Stat_t).Ino
}

// rewriteWithoutLog: BGREWRITEAOF of a server that does not log; the file holds the dataset of that moment.
func (h *H) rewriteWithoutLog() {
	rng := h.rng("nolog")
	for k := 0; k < h.n(3, 20); k++ {
		s := h.newServer(h.bins["inst"], Conf{DBs: 5})
		s.instrument(false, "")
		s.page.SetClock(1_700_000_000_000)
		s.mustStart()
		r := newRun(h, s, rng, 1)
		g := newGen(rng, r.m, allFamilies)
		g.now = r.now
		g.dbs = 5
		for n := 0; n < 400; n++ {
			r.batch(0, g.Next(r.sess[0]), 1, nil)
		}
		r.do(0, "bgrewriteaof")
		deadline := time.Now().Add(60 * time.Second)
		for fileSize(s.aofPath()) < 0 {
			clockTick(r, 1)
			time.Sleep(time.Millisecond)
			if time.Now().After(deadline) {
				h.fail(r.replay(s.tempFiles()), "BGREWRITEAOF without a log has produced no file within 60 s")
			}
		}
		r.check("after a rewrite without a log")
		s.conf.AOF = true
		r.restart(1, 0)
		s.discard()
	}
}

// ---- C15

type tornLog struct {
	name   string
	data   []byte
	sizes  []int64 // size after the i-th command
	states []*Model
	cmds   []string
	clock  int64
	conf   Conf
}

// recordLog runs commands one by one and notes how long the log is after each reply.
func (h *H) recordLog(name string, commands int, maxVal int, rewritten bool) *tornLog {
	rng := h.rng(name)
	conf := Conf{AOF: true, DBs: 3, Fsync: "always"}
	s := h.newServer(h.bins["inst"], conf)
	defer s.discard()
	s.instrument(false, "")
	s.page.SetClock(1_700_000_000_000)
	s.mustStart()
	r := newRun(h, s, rng, 1)
	g := newGen(rng, r.m, map[string]int{"string": 14, "list": 12, "hash": 10, "set": 10, "zset": 12, "select": 8, "drain": 1})
	g.now = r.now
	g.dbs = 3
	g.maxVal = maxVal
	g.bulkMax = 5
	t := &tornLog{name: name, clock: s.page.Clock(), conf: conf}
	add := func(cmd []string) {
		r.do(0, cmd...)
		size := fileSize(s.aofPath())
		if n := len(t.sizes); n > 0 && t.sizes[n-1] == size {
			return // nothing logged
		}
		t.sizes = append(t.sizes, size)
		t.states = append(t.states, r.m.clone())
		t.cmds = append(t.cmds, quoteArgs(cmd))
	}
	t.sizes, t.states, t.cmds = []int64{0}, []*Model{r.m.clone()}, []string{"(empty)"}
	if rewritten {
		for k := 0; k < 40; k++ {
			r.batch(0, g.Next(r.sess[0]), 1, nil)
		}
		r.rewriteNow(func() { s.page.SetClock(s.page.Clock() + 1) })
		t.clock = s.page.Clock()
		// cuts inside the part that was rewritten cannot be judged command by command
		t.sizes, t.states, t.cmds = []int64{fileSize(s.aofPath())}, []*Model{r.m.clone()}, []string{"(rewrite)"}
	}
	for len(t.sizes) < commands {
		switch rng.Intn(8) {
		case 0:
			add([]string{"setex", g.key("s"), strconv.Itoa(1000 + rng.Intn(1000)), g.val()})
		case 1:
			add([]string{[]string{"expire", "expireat"}[rng.Intn(2)], g.anyKey(), []string{"2000000000", "1900000000"}[rng.Intn(2)]})
		default:
			for _, cmd := range g.Next(r.sess[0]) {
				add(cmd)
			}
		}
	}
	r.check("while recording a log")
	s.kill()
	b, err := os.ReadFile(s.aofPath())
	if err != nil {
		giveUp("%v", err)
	}
	if int64(len(b)) != t.sizes[len(t.sizes)-1] {
		h.fail(r.replay(nil), "the append only file has %d bytes after a kill, but had %d after the last reply", len(b), t.sizes[len(t.sizes)-1])
	}
	t.data = b
	for _, m := range t.states {
		m.restarted()
	}
	return t
}

func tornTails(h *H) {
	h.buildInst()
	var logs []*tornLog
	for i := 0; i < h.n(3, 10); i++ {
		logs = append(logs, h.recordLog(fmt.Sprintf("small-%d", i), h.n(22, 60), 12, false))
	}
	large := []*tornLog{h.recordLog("large-0", 40, 70000, false), h.recordLog("large-1", 60, 9000, true), h.recordLog("large-2", 60, 300, true)}
	type cut struct {
		t   *tornLog
		off int64
	}
	var cuts []cut
	for _, t := range logs {
		for o := t.sizes[0]; o <= int64(len(t.data)); o++ {
			cuts = append(cuts, cut{t, o})
		}
		h.count("logs cut at every byte", 1)
	}
	rng := h.rng("cuts")
	for _, t := range large {
		lo, n := t.sizes[0], int64(len(t.data))
		if lo >= n {
			continue
		}
		for k := 0; k < h.n(150, 2500); k++ {
			o := lo + rng.Int63n(n-lo+1)
			switch rng.Intn(4) {
			case 0: // next to the end of a record
				o = t.sizes[rng.Intn(len(t.sizes))] + int64(rng.Intn(25)-20)
			case 1: // next to the size of a read buffer
				o = lo + (rng.Int63n(n-lo+1)/4096)*4096 + int64(rng.Intn(5)-2)
			}
			if o >= lo && o <= n {
				cuts = append(cuts, cut{t, o})
			}
		}
	}
	rng.Shuffle(len(cuts), func(i, j int) { cuts[i], cuts[j] = cuts[j], cuts[i] })
	if m := h.n(2600, 40000); len(cuts) > m {
		cuts = cuts[:m]
	}
	workers := 7
	servers := make(chan *Server, workers)
	for k := 0; k < workers; k++ {
		s := h.newServer(h.bins["inst"], Conf{AOF: true, DBs: 3, Fsync: []string{"always", "no", "everysec"}[k%3]})
		s.instrument(false, "")
		servers <- s
	}
	h.parallel(len(cuts), workers, func(i int) {
		s := <-servers
		defer func() { servers <- s }()
		c := cuts[i]
		h.oneCut(s, c.t, c.off, h.rng(fmt.Sprintf("cut-%d", i)), i%5 == 0)
	})
	h.parallel(h.n(140, 800), workers, func(i int) {
		s := <-servers
		defer func() { servers <- s }()
		h.failedRead(s, append(logs, large...)[i%(len(logs)+len(large))], h.rng(fmt.Sprintf("read-%d", i)))
	})
	h.sample(map[string]any{"log": logs[0].name, "bytes": len(logs[0].data), "commands": logs[0].cmds})
}

// failedRead starts a server whose reads of the log fail (it must then leave the log as it is) or return little at a time.
func (h *H) failedRead(s *Server, t *tornLog, rng *rand.Rand) {
	data := append([]byte{}, t.data...)
	if rng.Intn(3) == 0 { // with an incomplete command at the end
		data = append(data, fmt.Sprintf("*3\r\n$3\r\nset\r\n$1\r\nx\r\n$%d\r\n%s", 6000, strings.Repeat("x", rng.Intn(6000)))...)
	}
	for _, f := range s.tempFiles() {
		os.Remove(filepath.Join(s.dataDir(), f))
	}
	os.Remove(s.aofPath())
	if err := os.WriteFile(s.aofPath(), data, 0644); err != nil {
		giveUp("%v", err)
	}
	const whenUp = "after loading with calls that fail or are short"
	fails := rng.Intn(4) > 0
	rules := fmt.Sprintf("i,a,1,s,%d,1", 1+rng.Intn(3000))
	if fails && len(data) > len(t.data) && rng.Intn(2) == 0 {
		rules = fmt.Sprintf("t,a,1,e,%d,%d;f,a,1,e,5,1", []int{5, 28, 13}[rng.Intn(3)], rng.Intn(2))
	} else if fails {
		part := 65536
		if rng.Intn(3) > 0 {
			part = 50 + rng.Intn(min(4000, len(data)/3))
		}
		rules = fmt.Sprintf("i,a,%d,e,%d,%d;i,a,1,s,%d,1", 1+rng.Intn(len(data)/part+3), []int{5, 5, 12, 116}[rng.Intn(4)], rng.Intn(2), part)
	}
	rep := map[string]any{"log": t.name, "bytes": len(data), "faults": rules}
	s.page.SetClock(t.clock + 5000)
	s.setEnv(false, rules)
	defer s.setEnv(false, "")
	err := s.start()
	up := err == nil
	if !up && !fails {
		h.fail(rep, "the server does not start when the system returns its log in small parts: %v", err)
	}
	m := t.states[len(t.states)-1].clone()
	compare := func(what string) {
		r := newRun(h, s, rng, 1)
		defer r.cl[0].Close()
		r.m = m
		m.purge(r.now())
		c := s.client()
		defer c.Close()
		if d := m.diff(c, r.now()); d != "" {
			h.fail(rep, "%s: %s", what, d)
		}
		h.count("whole-dataset comparisons", 1)
		if what == whenUp { // what is written now must be there later
			for k := 0; k < 3; k++ {
				r.do(0, "rpush", "after the fault", strconv.Itoa(k))
			}
			m.restarted()
		}
	}
	if up {
		compare(whenUp)
		h.count("starts with failing or short reads, up", 1)
	} else {
		b, err := os.ReadFile(s.aofPath())
		if err != nil || !bytes.Equal(b, data) {
			h.fail(rep, "reading the log has failed at the start, whereupon the server has changed it: it had %d bytes and has %d (%v)", len(data), len(b), err)
		}
		h.count("starts with failing reads, refused", 1)
	}
	s.kill()
	s.setEnv(false, "")
	if err := s.start(); err != nil {
		h.fail(rep, "the server does not start after reading the log had failed once: %v", err)
	}
	compare("after a start at which reading the log had failed, and another")
	s.kill()
	h.eval(true, fmt.Sprintf("%s %s %v", t.name, rules, up))
}

func (h *H) oneCut(s *Server, t *tornLog, off int64, rng *rand.Rand, long bool) {
	idx := 0
	for idx+1 < len(t.sizes) && t.sizes[idx+1] <= off {
		idx++
	}
	torn := t.sizes[idx] != off
	rep := map[string]any{"log": string(t.data[max(0, off-3000):off]), "offset": off, "complete commands": t.cmds[:idx+1]}
	if len(t.cmds) > idx+1 {
		rep["cut command"] = t.cmds[idx+1]
	}
	s.dataDir()
	for _, f := range s.tempFiles() {
		os.Remove(filepath.Join(s.dataDir(), f))
	}
	os.Remove(s.aofPath())
	if err := os.WriteFile(s.aofPath(), t.data[:off], 0644); err != nil {
		giveUp("%v", err)
	}
	s.page.SetClock(t.clock + 5000)
	if err := s.start(); err != nil {
		h.fail(rep, "the server does not start from a log cut at byte %d (inside %v): %v", off, rep["cut command"], err)
	}
	r := newRun(h, s, rng, 1)
	r.m = t.states[idx].clone()
	r.m.purge(r.now())
	compare := func(what string) {
		c := s.client()
		defer c.Close()
		if d := r.m.diff(c, r.now()); d != "" {
			rep["later commands"] = r.log.ops
			h.fail(rep, "%s: log cut at byte %d (%d complete commands before it, inside %v): %s", what, off, idx, rep["cut command"], d)
		}
		h.count("whole-dataset comparisons", 1)
	}
	compare("after loading")
	// what is written now must be there after the next start
	g := newGen(rng, r.m, map[string]int{"string": 14, "list": 12, "hash": 10, "set": 10, "zset": 12, "select": 8})
	g.now, g.dbs = r.now, 3
	cycles := 1
	if long {
		cycles = 3
	}
	for k := 0; k < cycles; k++ {
		for n := 1 + rng.Intn(4); n > 0; n-- {
			r.batch(0, g.Next(r.sess[0]), 1, nil)
		}
		r.do(0, "rpush", "after", "the cut", strconv.Itoa(k))
		if long && k < 2 && rng.Intn(2) == 0 {
			r.rewriteNow(func() { s.page.SetClock(s.page.Clock() + 1) })
		}
		r.cl[0].Close()
		if k == 2 { // cut once more, inside the last command
			s.kill()
			if err := os.Truncate(s.aofPath(), fileSize(s.aofPath())-1); err != nil {
				giveUp("%v", err)
			}
			l := r.m.DBs[r.sess[0].DB]["after"]
			if v := l.List; len(v) > 2 {
				l.List = v[:len(v)-2]
			} else {
				delete(r.m.DBs[r.sess[0].DB], "after")
			}
		}
		s.kill()
		r.m.restarted()
		if err := s.start(); err != nil {
			rep["later commands"] = r.log.ops
			h.fail(rep, "log cut at byte %d: after further writes the server does not start again: %v", off, err)
		}
		r.connect(1)
		compare("after further writes and a restart")
	}
	s.kill()
	r.cl[0].Close()
	h.count("cuts", 1)
	if torn {
		h.count("cuts inside a command", 1)
	}
	h.eval(torn, fmt.Sprintf("%s at %d", t.name, off))
}

var _ = strings.ToLower

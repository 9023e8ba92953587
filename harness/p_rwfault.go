package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"
)

func init() {
	specs["C32"] = spec{run: rewriteFaults, level: "fault_enumeration",
		rule: "each system call of a rewrite on a file (open, write, sync of the new file, opening it again, the rename) fails in turn with ENOSPC, EIO, EDQUOT or EMFILE, once or for good, also after a partial write, while commands judged by the model run beside it; then the live dataset, the dataset after a kill, what is left in the directory and a later rewrite are judged. A case is one failed rewrite",
		note: []string{"failures of closing and removing files are not injected"}}
}

func rewriteFaults(h *H) {
	h.buildInst()
	type point struct {
		op    byte
		class byte
		nth   int
		short int // bytes written before the failure; -1: none
		errno int
		every bool
		auto  bool
	}
	var points []point
	rng := h.rng("points")
	errnos := []int{28, 5, 122, 24}
	for _, nth := range []int{1, 2} {
		for _, every := range []bool{false, true} {
			points = append(points, point{'o', 't', nth, -1, 24, every, false}, point{'o', 't', nth, -1, 28, every, false})
			points = append(points, point{'s', 't', nth, -1, 5, every, false}, point{'s', 't', nth, -1, 28, every, false})
		}
	}
	for _, e := range errnos[:3] {
		points = append(points, point{'r', 'a', 1, -1, e, e != 5, false})
	}
	for nth := 1; nth <= h.n(30, 200); nth++ {
		p := point{'w', 't', nth, -1, errnos[rng.Intn(3)], rng.Intn(2) == 0, false}
		if nth%3 == 0 {
			p.short = rng.Intn(40)
		}
		points = append(points, p)
	}
	for i := 0; i < h.n(12, 80); i++ { // the last write, of what came in meanwhile
		points = append(points, point{'w', 't', -1, []int{-1, 0, 1, 17}[i%4], errnos[rng.Intn(3)], i%2 == 0, false})
	}
	for i := 0; i < h.n(10, 60); i++ {
		p := points[rng.Intn(len(points))]
		p.auto = true
		points = append(points, p)
	}
	h.parallel(len(points), 7, func(i int) {
		p := points[i]
		name := fmt.Sprintf("rewritefault-%d", i)
		rng := h.rng(name)
		conf := Conf{AOF: true, DBs: 4, Fsync: fsyncOf(i)}
		if p.auto {
			conf.RewritePct, conf.RewriteMin = 20+rng.Intn(60), "2kb"
		}
		s := h.newServer(h.bins["inst"], conf)
		defer s.discard()
		s.instrument(false, "")
		s.page.SetClock(1_700_000_000_000 + rng.Int63n(1e9))
		s.mustStart()
		r := newRun(h, s, rng, 2)
		g := newGen(rng, r.m, allFamilies)
		g.now = r.now
		g.dbs = conf.DBs
		g.maxVal = []int{30, 300, 5000}[i%3]
		some := func(n int) {
			for k := 0; k < n; k++ {
				conn := rng.Intn(2)
				r.batch(conn, g.Next(r.sess[conn]), 1, nil)
				clockTick(r, 1+rng.Int63n(3))
			}
		}
		some(40 + rng.Intn(200))
		// how many writes does a rewrite make now? One per command of the new file.
		nth := p.nth
		if nth < 0 {
			some(20)
		}
		rule := func() string {
			n := nth
			if n < 0 {
				n = h.rewriteWrites(r) + 1
			}
			ev := 0
			if p.every {
				ev = 1
			}
			if p.short >= 0 {
				return fmt.Sprintf("%c,%c,%d,s,%d,0;%c,%c,%d,e,%d,%d", p.op, p.class, n, p.short, p.op, p.class, n+1, p.errno, ev)
			}
			return fmt.Sprintf("%c,%c,%d,e,%d,%d", p.op, p.class, n, p.errno, ev)
		}()
		delay := []string{";w,t,1,d,1,1", ";s,t,1,d,15,1", ""}[i%3]
		if nth < 0 {
			delay = ";s,t,1,d,25,1"
		}
		for _, c := range r.cl {
			c.Close()
		}
		s.kill()
		for _, f := range s.tempFiles() { // of a rewrite which the kill interrupted
			os.Remove(filepath.Join(s.dataDir(), f))
		}
		r.m.restarted()
		if r.m.ambiguous(r.now()) {
			clockTick(r, 0)
		}
		s.setEnv(true, rule+delay)
		s.page.Arm(false)
		s.mustStart()
		r.connect(2)
		r.check("after a restart")
		r.log.note("faults from now on: " + rule + delay)
		s.page.Arm(true)
		ino := inode(s.aofPath())
		for round := 0; round < 3; round++ {
			if !p.auto {
				r.do(rng.Intn(2), "bgrewriteaof")
			}
			for t := time.Now(); time.Since(t) < time.Duration(30+rng.Intn(30))*time.Millisecond; {
				some(1 + rng.Intn(4))
				if rng.Intn(20) == 0 {
					r.check("while a rewrite fails (" + rule + ")")
				}
			}
		}
		r.check("after a rewrite failed (" + rule + ")")
		failed, attempts := 0, 0
		v := newVFS(s.aofPath())
		syncing, unsynced := map[int64]*inodeTrack{}, map[*inodeTrack]bool{}
		for _, e := range parseEvents(s.logPath) {
			// a file whose content could not be synced is not complete, so it must not take the place of the other
			switch {
			case e.Op != 's' && e.Op != 'd':
				if e.Op == 'r' && e.Post && e.Errno == 0 {
					if src, _, ok := strings.Cut(string(v.pend[e.Seq].ev.Data), "\x00"); ok && unsynced[v.paths[src]] {
						h.fail(r.replay(rule), "syncing a rewritten file failed (%s), and yet it has replaced the append-only file", rule)
					}
				}
			case !e.Post:
				syncing[e.Seq] = v.fds[e.Fd]
			case syncing[e.Seq] != nil:
				unsynced[syncing[e.Seq]] = e.Errno != 0
			}
			v.apply(e)
			if e.Post && e.Errno != 0 && (e.Class == 't' || e.Op == 'r') {
				failed++
			}
			if !e.Post && e.Op == 'o' && e.Class == 't' {
				attempts++
			}
		}
		if failed > 0 {
			h.count("rewrites with an injected failure", 1)
		} else {
			h.count("faults that were not reached", 1)
		}
		h.count("system calls that failed", int64(failed))
		if inode(s.aofPath()) != ino {
			h.count("runs in which another rewrite succeeded", 1)
		}
		if i%2 == 0 { // the disk is all right again: rewriting works
			s.page.Arm(false)
			ino = inode(s.aofPath())
			for wait := time.Now(); inode(s.aofPath()) == ino; {
				if time.Since(wait) > 30*time.Second {
					h.fail(r.replay(s.tempFiles()), "after a rewrite failed (%s), no rewrite completes within 30 s though nothing fails any more", rule)
				}
				r.do(0, "bgrewriteaof")
				some(1)
				time.Sleep(time.Millisecond)
			}
			h.count("later rewrites which succeeded", 1)
			some(rng.Intn(30))
			r.check("after a later rewrite")
		}
		s.page.Arm(false)
		for wait := time.Now(); len(s.tempFiles()) > 0; time.Sleep(2 * time.Millisecond) {
			clockTick(r, 1)
			if time.Since(wait) > 20*time.Second {
				h.fail(r.replay(s.tempFiles()), "after rewrites failed (%s), files they made are left: %v", rule, s.tempFiles())
			}
		}
		for _, c := range r.cl {
			c.Close()
		}
		s.setEnv(false, "")
		r.restart(2, int64(i%3)*400-1)
		some(20)
		r.restart(1, 0)
		h.eval(failed > 0, fmt.Sprintf("%s %d failures", rule, failed))
		if i%20 == 0 {
			h.sample(map[string]any{"config": conf, "faults": rule + delay, "failed calls": failed, "attempts to rewrite": attempts, "last commands": tail(r.log.ops, 5)})
		}
	})
	h.mu.Lock()
	n := h.counts["rewrites with an injected failure"]
	h.mu.Unlock()
	if n < int64(len(points)/4) {
		giveUp("only %d of %d faults were reached", n, len(points))
	}
}

// rewriteWrites counts the writes of a rewrite of what the server holds now.
func (h *H) rewriteWrites(r *Run) int {
	r.rewriteNow(func() { clockTick(r, 1) })
	b, err := os.ReadFile(r.s.aofPath())
	if err != nil {
		giveUp("%v", err)
	}
	return countCommands(string(b))
}

// countCommands counts the commands of a log.
func countCommands(b string) int {
	n := 0
	for len(b) > 0 && b[0] == '*' {
		i := strings.Index(b, "\r\n")
		if i < 0 {
			break
		}
		argc, _ := strconv.Atoi(b[1:i])
		b = b[i+2:]
		for ; argc > 0; argc-- {
			i = strings.Index(b, "\r\n")
			if i < 0 || b[0] != '$' {
				return n
			}
			l, _ := strconv.Atoi(b[1:i])
			if len(b) < i+4+l {
				return n
			}
			b = b[i+4+l:]
		}
		n++
	}
	return n
}

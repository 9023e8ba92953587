package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	specs["C12"] = spec{run: killSurvival, level: "fault_enumeration",
		rule: "several connections write in pipelines while the process is killed at a chosen system call on the log or on a socket, or at a random time; after a restart every connection's dataset must be the result of its acknowledged requests plus a prefix of those in flight, and a shared list must have every acknowledged element at the acknowledged position; in runs without a kill the recorded system calls show for every reply whether the record was written first. A case is one kill or one judged reply",
		note: []string{"a kill of the process, not of the machine: what write(2) has accepted is taken to survive"}}
	specs["C16"] = spec{run: rewriteCrash, level: "fault_enumeration",
		rule: "the process is killed immediately before and immediately after each system call on a file of the data directory from the start of a rewrite to after the switch, with writes running beside it; a case is one kill point",
		note: []string{"a kill of the process, not of the machine"}}
	specs["C26"] = spec{run: termination, level: "exploration",
		rule: "SIGTERM or SIGINT at a random moment of pipelined writes, rewrites, idling, start and repeated signals; a case is one stop, judged by exit status, output and the dataset after a restart"}
	specs["C30"] = spec{run: logFaults, level: "fault_enumeration",
		rule: "the n-th write or sync of the log fails with ENOSPC or EIO, or writes only a part and then fails, once or for good; a case is one fault; replies are compared with the bytes which reached the file and with the dataset after a restart without faults"}
}

type crashItem struct {
	args   []string
	shared string // token pushed onto the shared list
}

type crashConn struct {
	i        int
	m        *Model
	rng      *rand.Rand
	g        *Gen
	log      Oplog
	inflight []crashItem
	acked    int
	bad      string
}

type crashRun struct {
	h       *H
	s       *Server
	name    string
	rng     *rand.Rand
	conns   []*crashConn
	tok     atomic.Int64
	mu      sync.Mutex
	pos     map[string]int // acknowledged position of a token in the shared list
	known   map[string]bool
	faulty  bool // error replies are possible
	heavy   bool
	history []string
}

const sharedDB = 15

func (h *H) newCrashRun(name string, conf Conf, conns int) *crashRun {
	conf.AOF, conf.DBs = true, 16
	cr := &crashRun{h: h, name: name, rng: h.rng(name), pos: map[string]int{}, known: map[string]bool{}}
	cr.s = h.newServer(h.bins["inst"], conf)
	cr.s.instrument(false, "")
	for i := 0; i < conns; i++ {
		c := &crashConn{i: i, m: NewModel(16), rng: rand.New(rand.NewSource(cr.rng.Int63()))}
		c.m.Slack = realSlack
		c.g = newGen(c.rng, c.m, map[string]int{"string": 14, "list": 16, "hash": 8, "set": 8, "zset": 8, "error": 2, "drain": 1, "huge": 0})
		c.g.noPop = true
		c.g.bulkMax = 20
		for t := range c.g.keys {
			if len(c.g.keys[t]) > 3 {
				c.g.keys[t] = c.g.keys[t][:3]
			}
		}
		c.log.max = 300
		cr.conns = append(cr.conns, c)
	}
	return cr
}

func (cr *crashRun) replay(extra any) any {
	ops := map[string]any{}
	for _, c := range cr.conns {
		ops[fmt.Sprintf("connection %d", c.i)] = c.log.ops
	}
	return map[string]any{"config": cr.s.conf, "faults": cr.history, "connections": ops, "detail": extra, "run": cr.name}
}

func (cr *crashRun) fail(extra any, format string, args ...any) {
	cr.h.fail(cr.replay(extra), format, args...)
}

// next makes a pipeline for a connection which has database i selected.
func (c *crashConn) next(cr *crashRun) []crashItem {
	var out []crashItem
	sess := &Sess{DB: c.i}
	for k := c.rng.Intn(6); k >= 0; k-- {
		switch c.rng.Intn(10) {
		case 0, 1:
			tok := fmt.Sprintf("tok-%d", cr.tok.Add(1))
			out = append(out, crashItem{args: []string{"select", strconv.Itoa(sharedDB)}}, crashItem{[]string{"rpush", "shared", tok}, tok}, crashItem{args: []string{"select", strconv.Itoa(c.i)}})
		case 2:
			at := strconv.FormatInt(time.Now().Unix()+100000+int64(c.rng.Intn(1000)), 10)
			k := c.g.anyKey()
			add := func(args ...string) { out = append(out, crashItem{args: args}) }
			switch c.rng.Intn(6) {
			case 0: // is over at once
				add("expire", k, []string{"-1", "-100", "-5000000000"}[c.rng.Intn(3)])
			case 1:
				add("expireat", k, []string{"0", "1", "-1", "1000000000"}[c.rng.Intn(4)])
			case 2: // the same value takes the deadline away
				add("set", k, "again")
				add("expireat", k, at)
				add("set", k, "again")
			case 3:
				add("set", k, "v", "EXAT", at)
			default:
				add("expireat", k, at)
			}
		default:
			if c.rng.Intn(12) == 0 && cr.heavy {
				n := c.rng.Intn(60000)
				if c.rng.Intn(8) == 0 {
					n = 1_000_000 + c.rng.Intn(2_000_000)
				}
				out = append(out, crashItem{args: []string{"set", "big", c.g.bytes(n)}})
			}
			for _, cmd := range c.g.Next(sess) {
				out = append(out, crashItem{args: cmd})
			}
		}
	}
	return out
}

// work sends pipelines until told to stop or the connection ends.
func (c *crashConn) work(cr *crashRun, stop *atomic.Bool, pause func()) {
	c.inflight = nil
	cl, err := dial(cr.s.addr())
	if err != nil {
		return
	}
	defer cl.Close()
	sess := &Sess{DB: 0}
	first := true
	for !stop.Load() {
		items := c.next(cr)
		if first {
			items = append([]crashItem{{args: []string{"select", strconv.Itoa(c.i)}}}, items...)
			first = false
		}
		var b bytes.Buffer
		for _, it := range items {
			encodeTo(&b, it.args)
			c.log.add(c.i, it.args)
			if it.shared != "" {
				cr.mu.Lock()
				cr.known[it.shared] = true
				cr.mu.Unlock()
			}
		}
		c.inflight = items
		if err := cl.Raw(b.Bytes()); err != nil {
			c.log.note("(connection lost while sending)")
			return
		}
		for len(c.inflight) > 0 {
			it := c.inflight[0]
			rep, err := cl.Read()
			if err != nil {
				c.log.note(fmt.Sprintf("(connection lost: %v, %d requests not answered)", err, len(c.inflight)))
				return
			}
			if it.shared != "" {
				if rep.T != ':' {
					if rep.IsErr() && cr.faulty {
						return
					}
					c.bad = fmt.Sprintf("%s: got %v", quoteArgs(it.args), rep)
					return
				}
				cr.mu.Lock()
				cr.pos[it.shared] = int(rep.I)
				cr.mu.Unlock()
			} else {
				w, ok := c.m.Exec(sess, it.args, realNow(), &rep)
				if !ok {
					if rep.IsErr() && cr.faulty {
						return
					}
					c.bad = fmt.Sprintf("%s: got %v, want %v", quoteArgs(it.args), rep, w)
					return
				}
			}
			c.inflight = c.inflight[1:]
			c.acked++
		}
		if pause != nil {
			pause()
		}
	}
}

// drive runs all connections until the server has ended or budget has passed; beside runs at the same time.
func (cr *crashRun) drive(budget time.Duration, pause func(), beside func(stop *atomic.Bool)) {
	var stop atomic.Bool
	var wg sync.WaitGroup
	for _, c := range cr.conns {
		wg.Add(1)
		go func(c *crashConn) { defer wg.Done(); c.work(cr, &stop, pause) }(c)
	}
	if beside != nil {
		wg.Add(1)
		go func() { defer wg.Done(); beside(&stop) }()
	}
	select {
	case <-cr.s.done:
	case <-time.After(budget):
	}
	stop.Store(true)
	wg.Wait()
	for _, c := range cr.conns {
		if c.bad != "" {
			cr.fail(nil, "connection %d: %s", c.i, c.bad)
		}
	}
}

// verify starts the server again (without faults) and compares what it holds with what the connections know.
func (cr *crashRun) verify(what string) {
	cr.s.kill()
	cr.s.setEnv(false, "")
	cr.s.page.Arm(false)
	if err := cr.s.start(); err != nil {
		b, _ := os.ReadFile(cr.s.aofPath())
		if len(b) > 1500 {
			b = b[len(b)-1500:]
		}
		cr.fail(map[string]any{"end of the append only file": string(b)}, "%s: the server does not start again: %v", what, err)
	}
	cl := cr.s.client()
	defer cl.Close()
	cl.Do("select", strconv.Itoa(sharedDB))
	rep, err := cl.Do("lrange", "shared", "0", "-1")
	if err != nil || rep.T != '*' {
		cr.fail(nil, "%s: LRANGE of the shared list: %v %v", what, rep, err)
	}
	at := map[string]int{}
	for i, e := range rep.A {
		if _, dup := at[e.S]; dup {
			cr.fail(elems(rep), "%s: element %q is twice in the shared list, though pushed once", what, e.S)
		}
		if !cr.known[e.S] {
			cr.fail(elems(rep), "%s: element %q in the shared list was never pushed", what, e.S)
		}
		at[e.S] = i
	}
	for tok, p := range cr.pos {
		if q, ok := at[tok]; !ok || q != p-1 {
			cr.fail(elems(rep), "%s: the push of %q was acknowledged as element %d of the shared list; after the restart: present %v, index %d", what, tok, p, ok, q)
		}
	}
	for _, c := range cr.conns {
		var (
			first string
			found = -1
		)
		for j := 0; j <= len(c.inflight); j++ {
			ok := true
			m := c.m.clone()
			sess := &Sess{DB: c.i}
			for k, it := range c.inflight {
				if it.shared != "" {
					if _, there := at[it.shared]; there != (k < j) {
						ok = false
					}
				} else if k < j {
					m.Exec(sess, it.args, realNow(), nil)
				}
			}
			if !ok {
				if first == "" {
					first = "the elements of the shared list do not fit"
				}
				continue
			}
			d := m.diffDB(cl, c.i, realNow())
			if d == "" {
				found = j
				c.m = m
				c.g.m = m
				break
			}
			if first == "" {
				first = d
			}
		}
		if found < 0 {
			var infl []string
			for _, it := range c.inflight {
				infl = append(infl, quoteArgs(it.args))
			}
			cr.fail(map[string]any{"not answered": infl, "temporary files": cr.s.tempFiles()},
				"%s: database %d after the restart is not the result of the %d acknowledged requests of its connection plus a prefix of the %d in flight: %s", what, c.i, c.acked, len(c.inflight), first)
		}
		for k, it := range c.inflight {
			if it.shared != "" && k < found {
				cr.pos[it.shared] = at[it.shared] + 1
			}
		}
		if len(c.inflight) > 0 {
			cr.h.count("requests in flight at the end", int64(len(c.inflight)))
			cr.h.count("of these in effect", int64(found))
		}
		c.inflight = nil
	}
	cr.h.count("datasets compared after a restart", 1)
	cr.s.kill()
}

// launch starts the server with fault rules, which count from now on.
func (cr *crashRun) launch(withLog bool, rules string, arm bool) {
	cr.s.setEnv(withLog, rules)
	cr.s.page.Arm(false)
	if err := cr.s.start(); err != nil {
		cr.fail(nil, "the server does not start: %v", err)
	}
	cr.s.page.Arm(arm)
}

// rewriter asks for rewrites from time to time.
func (cr *crashRun) rewriter(every int) func(stop *atomic.Bool) {
	rng := rand.New(rand.NewSource(cr.rng.Int63()))
	return func(stop *atomic.Bool) {
		c, err := dial(cr.s.addr())
		if err != nil {
			return
		}
		defer c.Close()
		for !stop.Load() {
			time.Sleep(time.Duration(rng.Intn(every*1000)) * time.Microsecond)
			if _, err := c.Do("bgrewriteaof"); err != nil {
				return
			}
		}
	}
}

func fsyncOf(i int) string { return []string{"always", "no", "everysec"}[i%3] }

// ---- C12

func killSurvival(h *H) {
	h.buildInst()
	h.parallel(h.n(70, 700), 7, func(i int) {
		cr := h.newCrashRun(fmt.Sprintf("kill-%d", i), Conf{Fsync: fsyncOf(i)}, 1+i%5)
		defer cr.s.discard()
		cr.heavy = i%3 == 0
		if cr.heavy {
			for _, c := range cr.conns {
				c.g.w["huge"] = 1
			}
		}
		for cycle := 0; cycle < 4; cycle++ {
			rules, how := "", ""
			budget := 400 * time.Millisecond
			kk := []string{"k", "K"}[cr.rng.Intn(2)]
			switch cr.rng.Intn(5) {
			case 0:
				how = fmt.Sprintf("w,a,%d,%s,0", 1+cr.rng.Intn(40), kk)
			case 1:
				how = fmt.Sprintf("w,n,%d,%s,0", 1+cr.rng.Intn(400), kk)
			case 2:
				how = fmt.Sprintf("*,F,%d,%s,0", 1+cr.rng.Intn(80), kk)
			case 3:
				how = fmt.Sprintf("*,*,%d,%s,0", 1+cr.rng.Intn(600), kk)
			default:
				budget = time.Duration(cr.rng.Intn(50000)) * time.Microsecond
				how = fmt.Sprintf("SIGKILL after %v", budget)
			}
			if !strings.HasPrefix(how, "SIG") {
				rules = how
			}
			switch cr.rng.Intn(5) {
			case 0:
				rules = strings.TrimPrefix(rules+";w,a,1,d,1,1", ";")
			case 1:
				rules = strings.TrimPrefix(rules+fmt.Sprintf(";w,a,%d,s,%d,1", 1+cr.rng.Intn(3), 1+cr.rng.Intn(30)), ";")
			}
			cr.history = append(cr.history, how+" ("+rules+")")
			cr.launch(false, rules, true)
			var beside func(*atomic.Bool)
			if cr.rng.Intn(3) == 0 {
				beside = cr.rewriter(30)
			}
			cr.drive(budget, nil, beside)
			if cr.s.exited() {
				h.count("kills at a system call", 1)
			} else {
				h.count("kills at a random time", 1)
			}
			h.eval(true, fmt.Sprintf("%s/%d %s", cr.name, cycle, how))
			cr.verify("killed: " + how)
		}
		h.sample(map[string]any{"run": cr.name, "kills": cr.history, "elements of the shared list": len(cr.pos)})
	})
	h.replyAfterWrite(false, []string{"always", "no", "everysec"})
	for i := 0; i < h.n(2, 8); i++ {
		h.largeBursts(i)
	}
}

// largeBursts: what is logged at a time is far larger than usual; the process is killed when the replies are there.
func (h *H) largeBursts(i int) {
	rng := h.rng(fmt.Sprintf("bursts-%d", i))
	s := h.newServer(h.buildPlain(), Conf{AOF: true, DBs: 3, Fsync: fsyncOf(i + int(h.seed))}).mustStart()
	defer s.discard()
	r := newRun(h, s, rng, 3)
	for n := 0; n < h.n(2, 4); n++ {
		mb := []int{9, 17, 34, 66}[(n+2*i)%4] + rng.Intn(2)
		v := strings.Repeat(token(n), mb<<20/tokenLen)
		cmds := [][]string{{"set", fmt.Sprintf("big%d", rng.Intn(2)), v}}
		for k := 0; k < 200; k++ {
			cmds = append(cmds, [][]string{{"rpush", "l", token(n*1000 + k)}, {"select", strconv.Itoa(rng.Intn(3))}, {"sadd", "s" + strconv.Itoa(k%7), token(k)}}[rng.Intn(3)])
		}
		r.batch(rng.Intn(3), cmds, 1, nil)
		s.kill()
		s.mustStart()
		r.connect(3)
		r.check(fmt.Sprintf("killed after the replies to %d MB and 200 small requests", mb))
		h.count("bursts of many megabytes before a kill", 1)
		h.eval(true, fmt.Sprintf("burst %d/%d of %d MB", i, n, mb))
	}
	debug.FreeOSMemory()
}

// replyAfterWrite records the system calls of runs without crashes and judges every reply.
func (h *H) replyAfterWrite(synced bool, policies []string) {
	h.parallel(h.n(9, 60), 6, func(i int) {
		pol := policies[i%len(policies)]
		conf := Conf{Fsync: pol}
		if i%2 == 1 {
			conf.RewritePct, conf.RewriteMin = 20, "1kb"
		}
		rules := []string{"", "", "w,a,1,d,1,1", "s,a,1,d,2,1", "w,t,1,d,1,1;s,t,1,d,10,1"}[i%5]
		h.tokenRun(fmt.Sprintf("order-%v-%d", synced, i), conf, rules, synced, i%3 != 2, false)
	})
}

// tokenRun lets clients write unique tokens and then judges the recorded system calls.
func (h *H) tokenRun(name string, conf Conf, rules string, synced, rewriting, faulty bool) {
	h.tokenWork(name, conf, rules, rewriting, faulty, func(s *Server, evs []Event, conns []*tokenConn) int {
		judged, bad := judgeLog(evs, s.aofPath(), conns, synced)
		if bad != "" {
			h.fail(map[string]any{"run": name, "config": s.conf, "delays": rules}, "policy %s: %s", conf.Fsync, bad)
		}
		return judged
	})
}

// tokenWork lets clients write unique tokens, kills the server and hands the recorded system calls to the judge.
func (h *H) tokenWork(name string, conf Conf, rules string, rewriting, faulty bool, judge func(s *Server, evs []Event, conns []*tokenConn) int) {
	rng := h.rng(name)
	conf.AOF = true
	s := h.newServer(h.bins["inst"], conf)
	defer s.discard()
	s.instrument(true, rules)
	s.page.Arm(false)
	if err := s.start(); err != nil {
		h.fail(map[string]any{"run": name}, "the server does not start: %v", err)
	}
	s.page.Arm(true)
	ctl := s.client()
	n := 1 + rng.Intn(6)
	var (
		conns []*tokenConn
		wg    sync.WaitGroup
		stop  atomic.Bool
		seq   atomic.Int64
		errs  = make([]string, n)
	)
	for i := 0; i < n; i++ {
		tc := &tokenConn{id: fmt.Sprintf("identity-%d-%d", i, rng.Int63())}
		if _, err := ctl.Do("set", fmt.Sprintf("id:%d", i), tc.id); err != nil {
			if !faulty {
				s.dead("setting up: " + err.Error())
			}
		}
		conns = append(conns, tc)
	}
	deadline := time.Now().Add(time.Duration(h.n(700, 3000)) * time.Millisecond)
	maxTok := h.n(3000, 20000)
	for i := 0; i < n; i++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(rng.Int63()))
		go func(i int, tc *tokenConn) {
			defer wg.Done()
			c, err := dial(s.addr())
			if err != nil {
				return
			}
			defer c.Close()
			// some connections keep sending without waiting for the replies
			ahead := []int{0, 60, 400}[r.Intn(3)]
			sent := make(chan []string, 100000)
			var open atomic.Int64
			var lost atomic.Bool
			rd := make(chan struct{})
			go func() {
				defer close(rd)
				for cmd := range sent {
					rep, err := c.Read()
					if err != nil {
						lost.Store(true)
						return
					}
					open.Add(-1)
					if rep.IsErr() && !faulty {
						errs[i] = fmt.Sprintf("%s: %v", quoteArgs(cmd), rep)
						lost.Store(true)
						return
					}
				}
			}()
			defer func() { close(sent); <-rd }()
			send := func(cmds [][]string) bool {
				var b bytes.Buffer
				for _, cmd := range cmds {
					encodeTo(&b, cmd)
					sent <- cmd
				}
				open.Add(int64(len(cmds)))
				for _, part := range split(r, b.Bytes(), 1+r.Intn(3)) {
					if err := c.Raw(part); err != nil {
						return false
					}
				}
				for t := time.Now(); open.Load() > int64(ahead); {
					if lost.Load() || s.exited() || time.Since(t) > replyTimeout {
						return false
					}
					runtime.Gosched()
				}
				return true
			}
			tc.tokens, tc.writes = append(tc.tokens, ""), append(tc.writes, false)
			if !send([][]string{{"get", fmt.Sprintf("id:%d", i)}}) {
				return
			}
			big := 0
			for k := 0; k < maxTok && time.Now().Before(deadline) && !stop.Load(); {
				var cmds [][]string
				if big < 4 && r.Intn(40) == 0 { // a request larger than any buffer
					big++
					tok := token(int(seq.Add(1)))
					cmds = append(cmds, []string{"hset", fmt.Sprintf("big%d", i), "f", strings.Repeat("0123456789abcdef", 1000*(1+r.Intn(220))), "t" + tok, tok})
					tc.tokens, tc.writes = append(tc.tokens, tok), append(tc.writes, true)
					k++
				}
				if r.Intn(60) == 0 { // and one with many arguments
					args := []string{[]string{"rpush", "sadd", "lpush", "del"}[r.Intn(4)], fmt.Sprintf("many%d", i)}
					for j := []int{64, 511, 1023, 1024, 1025, 4100}[r.Intn(6)] + r.Intn(3); j > 0; j-- {
						args = append(args, strconv.Itoa(j))
					}
					if args[0] == "del" {
						args = args[:2]
						tc.tokens, tc.writes = append(tc.tokens, ""), append(tc.writes, false)
					} else {
						tok := token(int(seq.Add(1)))
						args = append(args, tok)
						args[1] += args[0][:1]
						tc.tokens, tc.writes = append(tc.tokens, tok), append(tc.writes, true)
						k++
					}
					cmds = append(cmds, args)
				}
				for j := r.Intn(12); j >= 0; j-- {
					tok := token(int(seq.Add(1)))
					w := true
					switch r.Intn(7) {
					case 0:
						cmds = append(cmds, []string{"set", "k" + tok, tok})
					case 1:
						cmds = append(cmds, []string{"rpush", fmt.Sprintf("l%d", i), tok})
					case 2:
						cmds = append(cmds, []string{"sadd", "set", tok})
					case 3:
						cmds = append(cmds, []string{"zadd", "z", strconv.Itoa(r.Intn(10)), tok})
					case 4:
						cmds = append(cmds, []string{"hset", "h", "f" + tok, tok})
					case 5:
						cmds = append(cmds, []string{"select", strconv.Itoa(r.Intn(3))}, []string{"lpush", "sharedl", tok})
						tc.tokens, tc.writes = append(tc.tokens, ""), append(tc.writes, false)
					default:
						w = false
						cmds = append(cmds, []string{"get", "k" + tok})
					}
					tc.tokens, tc.writes = append(tc.tokens, tok), append(tc.writes, w)
					k++
				}
				if !send(cmds) {
					return
				}
			}
		}(i, conns[i])
	}
	wg.Add(1)
	go func() {
		defer wg.Done()
		for rewriting && time.Now().Before(deadline) && !stop.Load() {
			time.Sleep(time.Duration(rng.Intn(60)) * time.Millisecond)
			if _, err := ctl.Do("bgrewriteaof"); err != nil {
				return
			}
		}
	}()
	fin := make(chan struct{})
	go func() { wg.Wait(); close(fin) }()
	select {
	case <-fin:
	case <-s.done:
		stop.Store(true)
		<-fin
	}
	if s.exited() && !faulty {
		s.dead("writing")
	}
	for _, e := range errs {
		if e != "" {
			h.fail(map[string]any{"run": name, "config": s.conf}, "%s", e)
		}
	}
	s.kill()
	evs := parseEvents(s.logPath)
	judged := judge(s, evs, conns)
	syncs, ren, fws := 0, 0, 0
	for _, e := range evs {
		switch {
		case e.Op == 's' && e.Post && e.Class == 'a':
			syncs++
		case e.Op == 'r' && e.Post:
			ren++
		case e.Op == 'w' && e.Post && e.Class == 'a':
			fws++
		}
	}
	h.count("system calls recorded", int64(len(evs)))
	h.count("write replies judged by system calls", int64(judged))
	h.count("writes to the log seen", int64(fws))
	h.count("fsyncs of the log seen", int64(syncs))
	h.count("switches to a rewritten log seen", int64(ren))
	if judged == 0 && !faulty {
		giveUp("the event log of %s shows no reply to judge (%d events)", name, len(evs))
	}
	h.eval(judged > 0, fmt.Sprintf("%s %s %d replies", name, conf.Fsync, judged))
}

// ---- C16

func rewriteCrash(h *H) {
	h.buildInst()
	// how many system calls on files does a rewrite make?
	type point struct {
		variant, nth int
		act          string
	}
	prepare := func(v int) (*crashRun, func()) {
		cr := h.newCrashRun(fmt.Sprintf("rewrite-%d", v), Conf{Fsync: fsyncOf(v)}, 1+v%3)
		cr.launch(false, "", false)
		cr.drive(time.Duration(30+20*v%100)*time.Millisecond, nil, nil)
		return cr, func() { cr.s.discard() }
	}
	variants := h.n(3, 9)
	var points []point
	for v := 0; v < variants; v++ {
		cr, done := prepare(v)
		cr.verify("after preparing")
		cr.launch(false, "", false)
		before := cr.s.page.FileEvents() // counted only with a log or rules
		_ = before
		cr.s.kill()
		cr.launch(false, "w,x,1000000,d,0", true)
		r := &Run{h: h, s: cr.s, m: NewModel(16), now: realNow}
		e0 := cr.s.page.FileEvents()
		r.rewriteNow(nil)
		time.Sleep(20 * time.Millisecond)
		n := int(cr.s.page.FileEvents() - e0)
		if n < 4 {
			giveUp("a rewrite shows only %d system calls on files", n)
		}
		h.count("system calls of a rewrite (sum over variants)", int64(n))
		for k := 1; k <= n+10; k++ {
			for _, act := range []string{"k", "K"} {
				points = append(points, point{v, k, act})
			}
		}
		done()
	}
	rng := h.rng("points")
	rng.Shuffle(len(points), func(i, j int) { points[i], points[j] = points[j], points[i] })
	if m := h.n(600, 6000); len(points) > m {
		points = points[:m]
	}
	hit := make([]atomic.Int64, variants)
	h.parallel(len(points), 7, func(i int) {
		p := points[i]
		cr, done := prepare(p.variant)
		defer done()
		cr.rng = h.rng(fmt.Sprintf("point-%d", i))
		for _, c := range cr.conns {
			*c.rng = *rand.New(rand.NewSource(cr.rng.Int63()))
		}
		cr.verify("after preparing")
		class := "F"
		if i%3 == 2 {
			class = "t"
		}
		rule := fmt.Sprintf("*,%s,%d,%s,0", class, p.nth, p.act)
		delay := ""
		if i%2 == 0 {
			delay = ";s,t,1,d,3,1"
		}
		cr.history = append(cr.history, "during a rewrite: "+rule)
		cr.launch(false, rule+delay, false)
		pause := func() { time.Sleep(time.Duration(300+100*(i%5)) * time.Microsecond) }
		ino := inode(cr.s.aofPath())
		cr.drive(3*time.Second, pause, func(stop *atomic.Bool) {
			c, err := dial(cr.s.addr())
			if err != nil {
				return
			}
			defer c.Close()
			time.Sleep(time.Duration(i%7) * time.Millisecond / 2)
			cr.s.page.Arm(true)
			if _, err := c.Do("bgrewriteaof"); err != nil {
				return
			}
			// until killed, or well past the switch
			for t := time.Now(); time.Since(t) < 2*time.Second && !cr.s.exited(); time.Sleep(time.Millisecond) {
				if inode(cr.s.aofPath()) != ino && time.Since(t) > 60*time.Millisecond {
					break
				}
			}
			cr.s.signal(syscall.SIGKILL)
		})
		if st := cr.s; st.exited() {
			hit[p.variant].Add(1)
		}
		switched := inode(cr.s.aofPath()) != ino
		h.count("kills during a rewrite", 1)
		if switched {
			h.count("of these after the switch", 1)
		}
		h.eval(true, fmt.Sprintf("%d %s", p.variant, rule))
		cr.verify("killed during a rewrite (" + rule + ")")
		// logging goes on where it should
		cr.launch(false, "", false)
		var beside func(*atomic.Bool)
		if i%2 == 0 {
			beside = cr.rewriter(10)
		}
		cr.drive(15*time.Millisecond, nil, beside)
		cr.verify("after a kill during a rewrite (" + rule + "), a restart, more writes and another kill")
	})
	h.sample(map[string]any{"kill points": len(points), "example": fmt.Sprintf("%+v", points[0])})
}

// ---- C26

func termination(h *H) {
	h.buildInst()
	h.buildPlain()
	h.parallel(h.n(80, 800), 7, func(i int) {
		conf := Conf{Fsync: fsyncOf(i)}
		if i%4 == 1 {
			conf.RewritePct, conf.RewriteMin = 10, "1kb"
		}
		cr := h.newCrashRun(fmt.Sprintf("term-%d", i), conf, 1+i%5)
		defer cr.s.discard()
		for cycle := 0; cycle < 3; cycle++ {
			rules := []string{"", "", "w,t,1,d,1,1;s,t,1,d,10,1", "w,a,1,d,2,1", "s,a,1,d,4,1", "r,a,1,d,10,1", "o,t,1,d,5,1;c,t,1,d,5,1"}[cr.rng.Intn(7)]
			cr.launch(false, rules, true)
			var beside func(*atomic.Bool)
			if cr.rng.Intn(2) == 0 {
				beside = cr.rewriter(1 + cr.rng.Intn(20))
			}
			sigs := []syscall.Signal{syscall.SIGTERM, syscall.SIGINT}
			sig := sigs[cr.rng.Intn(2)]
			wait := time.Duration(cr.rng.Intn(60000)) * time.Microsecond
			again := cr.rng.Intn(4) == 0
			desc := fmt.Sprintf("%v after %v, rules %q, rewrites %v, again %v", sig, wait, rules, beside != nil, again)
			cr.history = append(cr.history, desc)
			quiet := make(chan struct{})
			go func() {
				defer close(quiet)
				time.Sleep(wait)
				cr.s.signal(sig)
				for again && !cr.s.exited() {
					time.Sleep(time.Millisecond)
					cr.s.signal(sigs[int(wait)%2])
				}
			}()
			cr.drive(wait+30*time.Second, nil, beside)
			if cr.s.exited() {
				<-quiet
			}
			cr.judgeExit(desc)
			cr.verify("stopped by " + desc)
		}
		h.sample(map[string]any{"run": cr.name, "stops": cr.history})
	})
	// idle servers, servers with open but silent connections, without a log, and right after they listen
	h.parallel(h.n(60, 500), 7, func(i int) {
		rng := h.rng(fmt.Sprintf("idle-%d", i))
		s := h.newServer(h.bins["plain"], Conf{AOF: i%2 == 0, Fsync: fsyncOf(i)})
		defer s.discard()
		s.mustStart()
		var cl []*Client
		for k := rng.Intn(4); k > 0; k-- {
			c := s.client()
			c.Raw([]byte("*2\r\n$3\r\nge")[:rng.Intn(11)])
			cl = append(cl, c)
		}
		if i%3 == 0 { // and clients which do not read what they asked for
			c := s.client()
			if _, err := c.Do("set", "big", strings.Repeat("v", 100000+rng.Intn(900000))); err != nil {
				s.dead("set: " + err.Error())
			}
			for k := 1 + rng.Intn(5); k > 0; k-- {
				c := s.client()
				for n := 10 + rng.Intn(60); n > 0; n-- {
					c.Raw(encode("get", "big"))
				}
				if rng.Intn(3) == 0 {
					c.c.SetReadDeadline(time.Now().Add(time.Second))
					c.r.Discard(rng.Intn(1 << 20))
				}
				cl = append(cl, c)
				h.count("clients that do not read, at a stop", 1)
			}
			if rng.Intn(2) == 0 { // the server has got to their requests
				c.Do("ping")
			}
		}
		acked := 0
		if rng.Intn(2) == 0 {
			c := s.client()
			for ; acked < rng.Intn(20); acked++ {
				if _, err := c.Do("rpush", "l", strconv.Itoa(acked)); err != nil {
					s.dead("rpush: " + err.Error())
				}
			}
		}
		time.Sleep(time.Duration(rng.Intn(20000)) * time.Microsecond)
		cr := &crashRun{h: h, s: s, name: fmt.Sprintf("idle-%d", i)}
		s.signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[rng.Intn(2)])
		s.waitExit(30 * time.Second)
		cr.judgeExit("idle server")
		for _, c := range cl {
			c.Close()
		}
		s.mustStart()
		c := s.client()
		rep, err := c.Do("llen", "l")
		want := int64(acked)
		if !s.conf.AOF {
			want = 0
		}
		if err != nil || rep.I != want {
			h.fail(nil, "after stopping an idle server with %d acknowledged pushes and starting it again, LLEN is %v %v", acked, rep, err)
		}
		// stop it while it loads or has just begun to serve
		s.kill()
		if i%2 == 0 {
			s.bin = h.bins["inst"]
			s.env = []string{"VERIF_NOTIFY=20"}
		}
		s.spawn()
		for t := time.Now(); time.Since(t) < 10*time.Second && !s.exited(); {
			c, err := net.Dial("tcp", s.addr())
			if err == nil {
				c.Close()
				break
			}
			time.Sleep(20 * time.Microsecond)
		}
		time.Sleep(time.Duration(rng.Intn(3)*rng.Intn(150)) * time.Microsecond)
		s.signal(syscall.SIGTERM)
		s.waitExit(30 * time.Second)
		cr.judgeExit("server that has just begun to listen")
	})
}

// judgeExit requires that the process has ended by itself with status 0 and without a panic.
func (cr *crashRun) judgeExit(desc string) {
	s := cr.s
	if !s.exited() {
		cr.fail(nil, "%s: the process has not ended 30 s after the signal", desc)
	}
	st := s.state
	out := s.output(0)
	if !st.Success() {
		cr.fail(s.outTail(), "%s: the process ended with %v\n%s", desc, st, s.outTail())
	}
	for _, w := range []string{"panic:", "fatal error:", "goroutine ", "\"level\":\"panic\"", "\"level\":\"fatal\"", "PANIC", "FATAL"} {
		if strings.Contains(out, w) {
			cr.fail(s.outTail(), "%s: the process ended with status 0 but its output has %q\n%s", desc, w, s.outTail())
		}
	}
	if l, err := os.ReadFile(s.dir + "/metis.log"); err == nil {
		for _, w := range []string{"panic", "fatal"} {
			if strings.Contains(strings.ToLower(string(l)), "\"level\":\""+w) {
				cr.fail(string(l), "%s: the log of the process has an entry of level %s", desc, w)
			}
		}
	}
	cr.h.count("stops by a signal", 1)
	cr.h.eval(true, cr.name+desc)
}

// ---- C30

func logFaults(h *H) {
	h.buildInst()
	h.parallel(h.n(150, 1500), 7, func(i int) {
		rng0 := h.rng(fmt.Sprintf("fault-%d", i))
		pol := fsyncOf(rng0.Intn(3))
		cr := h.newCrashRun(fmt.Sprintf("fault-%d", i), Conf{Fsync: pol}, 1+i%4)
		defer cr.s.discard()
		cr.faulty = true
		cr.heavy = i%4 == 0
		for cycle := 0; cycle < 2; cycle++ {
			rules := cr.faultRules(pol)
			cr.history = append(cr.history, rules)
			cr.launch(false, rules, true)
			var beside func(*atomic.Bool)
			if strings.Contains(rules, ",t,") || cr.rng.Intn(5) == 0 {
				beside = cr.rewriter(10)
			}
			cr.drive(250*time.Millisecond, nil, beside)
			if cr.s.exited() {
				h.count("faults that ended the process", 1)
			} else {
				h.count("faults not reached or survived", 1)
			}
			h.eval(true, fmt.Sprintf("%s/%d %s", cr.name, cycle, rules))
			cr.verify("after the fault " + rules)
		}
		h.sample(map[string]any{"run": cr.name, "faults": cr.history})
	})
	h.parallel(h.n(24, 200), 7, func(i int) {
		name := fmt.Sprintf("faultlog-%d", i)
		cr := &crashRun{rng: h.rng(name)}
		pol := fsyncOf(i)
		rules := cr.faultRules(pol)
		h.tokenRun(name, Conf{Fsync: pol}, rules, pol == "always", i%3 == 0, true)
		h.count("faulty runs with recorded system calls", 1)
	})
}

func (cr *crashRun) faultRules(pol string) string {
	n := 1 + cr.rng.Intn(30)
	if cr.rng.Intn(3) == 0 {
		n = 1 + cr.rng.Intn(4)
	}
	e := []int{28, 5, 122, 4}[cr.rng.Intn(3)] // ENOSPC EIO EDQUOT
	forever := cr.rng.Intn(2)
	switch k := cr.rng.Intn(8); {
	case k < 2:
		return fmt.Sprintf("w,a,%d,e,%d,%d", n, e, forever)
	case k < 5: // a part is written, then the disk is full
		return fmt.Sprintf("w,a,%d,s,%d,0;w,a,%d,e,%d,%d", n, cr.rng.Intn(40), n+1, e, forever)
	case k == 5 && pol == "always" || k == 6 && pol == "always":
		return fmt.Sprintf("s,a,%d,e,%d,%d", n, e, forever)
	case k == 6: // short writes only
		return fmt.Sprintf("w,a,%d,s,%d,1", n, 1+cr.rng.Intn(50))
	case k == 7: // the rewritten file cannot be written
		return fmt.Sprintf("%s,t,%d,e,%d,%d", []string{"w", "s", "o"}[cr.rng.Intn(3)], 1+cr.rng.Intn(5), e, forever)
	}
	return fmt.Sprintf("w,a,%d,e,%d,1", n, e)
}

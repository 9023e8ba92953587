package main

import (
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"strings"
	"time"
)

func init() {
	specs["C08"] = spec{run: lifetimes, level: "exploration",
		rule: "random histories with deadlines on keys of all types under a driven clock, with probes one millisecond before and after deadlines and every command on a key that has just expired; a case is one command with its reply, distinct by command, arguments and reply",
		note: []string{"the clock of the server is time.Now of an instrumented standard library, driven by the harness; a shorter run on the real clock confirms that it is the one in use"}}
	specs["C28"] = spec{run: reclaim, level: "exploration",
		rule: "populations of expired, live and deadline-free keys in several databases, none of them touched by a client; after a bounded number of rounds of the periodic task (one per step of a driven clock) the log is rewritten and read as a picture of memory; a case is one population, distinct by its sizes",
		note: []string{"a rewritten append only file is taken as the picture of what is in memory"}}
}

// deadlines lists the distinct deadlines in the model which lie ahead.
func (m *Model) deadlines(now int64) []int64 {
	seen := map[int64]bool{}
	var out []int64
	for _, db := range m.DBs {
		for _, k := range sortedKeys(db) {
			if v := db[k]; v.DHi >= now && !seen[v.DHi] {
				seen[v.DHi] = true
				out = append(out, v.DHi)
			}
		}
	}
	return out
}

// touchAll lists commands of every kind for a key.
func touchAll(g *Gen, k string) [][]string {
	return [][]string{{"get", k}, {"ttl", k}, {"keys", "*"}, {"randomget"}, {"lpush", k, "n"}, {"rpush", k, "n"}, {"lpop", k}, {"rpop", k}, {"llen", k}, {"lindex", k, "0"}, {"lrange", k, "0", "-1"},
		{"hset", k, "f", "n"}, {"hget", k, "f"}, {"hdel", k, "f"}, {"hexists", k, "f"}, {"hkeys", k}, {"hlen", k}, {"sadd", k, "n"}, {"srem", k, "m01"}, {"spop", k}, {"scard", k}, {"sismember", k, "m01"}, {"smembers", k},
		{"sunion", k, "t0"}, {"sunion", "t0", k}, {"sinter", k, "t0"}, {"sinter", "t0", k}, {"sdiff", "t0", k}, {"sdiff", k, "t0"}, {"zadd", k, "1", "n"}, {"zrange", k, "0", "100"}, {"zrangebyscore", k, "-inf", "inf"}, {"zrem", k, "m01"},
		{"zremrangebyrank", k, "0", "0"}, {"zremrangebyscore", k, "0", "1"}, {"zcard", k}, {"zcount", k, "-inf", "inf"}, {"zscore", k, "m01"}, {"expire", k, "100"}, {"expireat", k, "99999999"}, {"set", k, "n"}, {"setex", k, "5", "n"}, {"del", k}}
}

func lifetimes(h *H) {
	h.buildInst()
	h.buildPlain()
	masses := h.n(12, 60)
	h.parallel(masses+h.n(8, 40)+3, 7, func(i int) {
		if i >= 3 && i < masses+3 {
			h.masses(i - 3)
			return
		}
		if i >= 3 {
			i -= masses
		}
		switch i {
		case 0:
			h.realClock()
			return
		case 1:
			h.everyCommandAfterDeadline(6000)
			return
		case 2:
			h.everyCommandAfterDeadline(0)
			return
		}
		h.diffRun(fmt.Sprintf("life-%d", i), diffOpt{conf: Conf{AOF: i%3 == 0, DBs: 4}, inst: true, ops: h.n(9000, 60000), batch: 3, dbs: 2, conns: 2, checkEvery: 120,
			w: map[string]int{"expire": 40, "string": 14, "list": 10, "hash": 10, "set": 12, "zset": 12, "keyspace": 14, "drain": 2, "select": 2, "error": 2},
			tick: func(r *Run, g *Gen) {
				switch r.rng.Intn(10) {
				case 0, 1, 2:
					clockTick(r, r.rng.Int63n(3000))
				case 3:
					clockTick(r, r.rng.Int63n(20))
				case 4, 5: // just before and just after a deadline
					now := r.now()
					ds := r.m.deadlines(now + 2)
					if len(ds) == 0 {
						return
					}
					d := ds[r.rng.Intn(len(ds))]
					if d > now+1_000_000 && r.rng.Intn(20) > 0 || d > now+1<<40 {
						return
					}
					for _, t := range []int64{d - 1, d + 1} {
						if r.m.ambiguous(t) || t <= r.now() {
							continue
						}
						r.s.page.SetClock(t)
						r.log.note(fmt.Sprintf("clock -> %d (a deadline is at %d)", t, d))
						h.count("probes next to a deadline", 1)
						for _, db := range []int{0, 1} {
							r.do(0, "select", strconv.Itoa(db))
							ks := append([]string(nil), g.keys["s"]...)
							ks = append(ks, g.keys["l"]...)
							ks = append(ks, g.keys["h"]...)
							ks = append(ks, g.keys["t"]...)
							ks = append(ks, g.keys["z"]...)
							r.rng.Shuffle(len(ks), func(a, b int) { ks[a], ks[b] = ks[b], ks[a] })
							if t == d+1 { // the first command after the deadline may be any
								for _, k := range ks[:6] {
									all := touchAll(g, k)
									r.do(0, all[r.rng.Intn(len(all))]...)
								}
							}
							for _, k := range ks {
								r.batch(0, [][]string{{"ttl", k}}, 1, nil)
							}
						}
						r.check("next to a deadline")
					}
				}
			}})
	})
}

// everyCommandAfterDeadline: each command is the first to touch each kind of key 1 ms before and 1 ms after its deadline.
// With a large population of other keys with deadlines the periodic task hardly ever comes to the key before the command does.
func (h *H) everyCommandAfterDeadline(population int) {
	rng := h.rng(fmt.Sprintf("every-%d", population))
	s := h.newServer(h.bins["inst"], Conf{DBs: 2, AOF: population > 0})
	defer s.discard()
	s.instrument(false, "")
	s.page.SetClock(1_700_000_000_500)
	s.mustStart()
	r := newRun(h, s, rng, 1)
	g := newGen(rng, r.m, nil)
	create := map[string][]string{"s": {"set", "x", "v"}, "l": {"rpush", "x", "m01", "b"}, "h": {"hset", "x", "f", "v"}, "t": {"sadd", "x", "m01", "z"}, "z": {"zadd", "x", "1", "m01", "2", "b"}}
	r.do(0, "sadd", "t0", "m01", "m02")
	r.do(0, "sadd", "t1", "m01", "m03")
	for i := 0; i < population; {
		var cmds [][]string
		for j := 0; j < 200; j++ {
			cmds = append(cmds, []string{"setex", fmt.Sprintf("f%d", i), "1000000000", "v"})
			i++
		}
		r.batch(0, cmds, 1, nil)
	}
	look := func(what string) {
		if population == 0 {
			r.check(what)
			return
		}
		r.log.note(what)
		r.do(0, "keys", "^[^f]")
		var cmds [][]string
		for _, c := range r.m.readAll(0) {
			if c[1][0] != 'f' {
				cmds = append(cmds, c)
			}
		}
		r.batch(0, cmds, 1, nil)
	}
	all := touchAll(g, "x")
	if population > 0 {
		x := "x"
		all = append(all, []string{"sdiff", "t0", "t1", x}, []string{"sinter", "t0", "t1", x}, []string{"sunion", "t0", "t1", x}, []string{"sdiff", "t0", x, "t1"}, []string{"sinter", "t1", x, "t0"},
			[]string{"sunion", x, "t0", x}, []string{"sdiff", "t0", x, x}, []string{"del", "nothing", x}, []string{"hset", x, "f", "1", "g", "2"}, []string{"zadd", x, "7", "m01", "8", "b"},
			[]string{"sadd", x, "m01", "m02", "m03"}, []string{"keys", "^x"}, []string{"keys", "[xt]"}, []string{"setex", x, "500", "n"}, []string{"zrange", x, "0", "1", "withscores"}, []string{"lpush", x, "p", "q", "r"})
	}
	n := len(all)
	for _, ty := range []string{"s", "l", "h", "t", "z"} {
		for i := 0; i < n; i++ {
			for _, after := range []int64{-1, 1} {
				r.do(0, "del", "x")
				r.do(0, create[ty]...)
				var d int64
				if i%2 == 0 {
					r.do(0, "expire", "x", "7")
				} else {
					r.do(0, "expireat", "x", strconv.FormatInt(s.page.Clock()/1000+7, 10))
				}
				d = r.m.DBs[0]["x"].DHi
				s.page.SetClock(d + after)
				r.log.note(fmt.Sprintf("clock -> deadline %+d ms", after))
				r.do(0, all[i]...)
				look("after the first command next to a deadline")
				// what is left must have the right deadline: look again later
				if population == 0 {
					clockTick(r, 200_000)
				} else {
					s.page.SetClock(s.page.Clock() + 200_001)
					r.log.note("clock +200 s")
				}
				look("long after the deadline")
			}
		}
	}
	if population > 0 { // and the log must tell the same
		s.kill()
		r.m.restarted()
		s.mustStart()
		r.connect(1)
		r.do(0, "keys", "^[^f]")
		look("after a restart")
		r.check("after a restart")
	}
	h.count("first commands next to a deadline", int64(5*n*2))
}

// masses: very many keys of all types expire at once around a few others, and commands come to them before
// anything has reclaimed them; many are deleted at once and made again, which must leave no deadline behind.
func (h *H) masses(i int) {
	name := fmt.Sprintf("masses-%d", i)
	rng := h.rng(name)
	n := []int{200, 3000, 12000}[i%3]
	live := []int{1, 0, 3, 60}[i/3%4]
	s := h.newServer(h.bins["inst"], Conf{DBs: 3, AOF: i%2 == 1})
	defer s.discard()
	s.instrument(false, "")
	s.page.SetClock(1_700_000_000_000 + rng.Int63n(100000))
	s.mustStart()
	r := newRun(h, s, rng, 2)
	send := func(cmds [][]string) {
		for len(cmds) > 0 {
			k := min(len(cmds), 1000)
			r.batch(0, cmds[:k], 1, nil)
			cmds = cmds[k:]
		}
	}
	make_ := func(k string) []string {
		return [][]string{{"set", k, "v"}, {"rpush", k, "a", "b"}, {"hset", k, "f", "v"}, {"sadd", k, "a"}, {"zadd", k, "1", "a"}, {"lpush", k, "x"}}[rng.Intn(6)]
	}
	db := strconv.Itoa(rng.Intn(3))
	for c := range r.cl {
		r.do(c, "select", db)
	}
	for round := 0; round < h.n(3, 8); round++ {
		var cmds [][]string
		for k := 0; k < n; k++ {
			key := fmt.Sprintf("m%d", k)
			if rng.Intn(3) == 0 {
				cmds = append(cmds, []string{"setex", key, "10", "v"})
			} else {
				cmds = append(cmds, make_(key), []string{"expire", key, "10"})
			}
		}
		for k := 0; k < live; k++ {
			key := fmt.Sprintf("live%d", k)
			cmds = append(cmds, make_(key))
			if rng.Intn(2) == 0 {
				cmds = append(cmds, []string{"expire", key, "100000"})
			}
		}
		rng.Shuffle(len(cmds), func(a, b int) {
			if cmds[a][0] != "expire" && cmds[b][0] != "expire" && (a+1 == len(cmds) || cmds[a+1][0] != "expire") && (b+1 == len(cmds) || cmds[b+1][0] != "expire") {
				cmds[a], cmds[b] = cmds[b], cmds[a]
			}
		})
		send(cmds)
		var all []string
		for _, k := range rng.Perm(n) {
			all = append(all, fmt.Sprintf("m%d", k))
		}
		if (round+i/12)%3 == 1 { // they are deleted while they live, and made again
			for len(all) > 0 {
				k := min(len(all), []int{2, 5, 40, 1000}[rng.Intn(4)])
				part := all[:k]
				all = all[k:]
				again := [][]string{append([]string{"del"}, part...)}
				for _, key := range part[:min(k, 60)] {
					again = append(again, make_(key), []string{"ttl", key})
				}
				send(again)
			}
			h.count("keys with a deadline deleted many at a time", int64(n))
		} else { // they expire together
			s.page.SetClock(s.page.Clock() + 10_002)
			r.log.note("clock +10 s")
			var first [][]string
			switch rng.Intn(3) {
			case 0:
				for k := 0; k < 50; k++ {
					first = append(first, []string{"randomget"})
				}
			case 1:
				first = append(first, append([]string{"del"}, all[:n/2]...), []string{"randomget"}, []string{"keys", "*"}, append([]string{"del"}, all...))
			default:
				for _, key := range all[:min(n, 400)] {
					t := touchAll(nil, key)
					first = append(first, t[rng.Intn(len(t))])
				}
			}
			send(append(first, []string{"randomget"}, []string{"randomget"}, []string{"keys", "^m"}))
			var again [][]string
			for _, key := range all[:min(n, 500)] {
				again = append(again, make_(key), []string{"ttl", key})
			}
			send(again)
			h.count("keys which expired together", int64(n))
		}
		clockTick(r, rng.Int63n(30_000))
		var ttls [][]string
		for k := 0; k < min(n, 2000); k++ {
			ttls = append(ttls, []string{"ttl", fmt.Sprintf("m%d", rng.Intn(n))})
		}
		send(append(ttls, []string{"keys", "*"}, []string{"randomget"}))
		r.check("after very many keys expired or were deleted")
		var left [][]string
		for _, k := range sortedKeys(r.m.DBs[r.sess[0].DB]) {
			left = append(left, []string{"del", k})
		}
		send(left)
	}
}

func (h *H) realClock() {
	s := h.newServer(h.bins["plain"], Conf{}).mustStart()
	defer s.discard()
	c := s.client()
	must := func(want Want, args ...string) {
		rep, err := c.Do(args...)
		if err != nil {
			s.dead("real clock: " + err.Error())
		}
		if !want.match(rep) {
			h.fail(map[string]any{"command": args}, "real clock: %s: got %v, want %v", quoteArgs(args), rep, want)
		}
		h.eval(true, "real "+quoteArgs(args)+rep.String())
	}
	t0 := time.Now()
	must(wOK, "setex", "a", "2", "v")
	must(wOK, "set", "b", "v")
	must(wNonErr, "expire", "b", "2")
	at := t0.Unix() + 3
	must(wInt(2), "rpush", "c", "x", "y")
	must(wNonErr, "expireat", "c", strconv.FormatInt(at, 10))
	t1 := time.Now()
	if t1.Sub(t0) < 500*time.Millisecond {
		time.Sleep(time.Until(t0.Add(1500 * time.Millisecond)))
		ra, _ := c.Do("get", "a")
		rb, _ := c.Do("get", "b")
		if time.Since(t0) < 1900*time.Millisecond && (ra.S != "v" || rb.S != "v") {
			h.fail(nil, "real clock: keys with a deadline 2 s ahead are absent after 1.5 s: %v %v", ra, rb)
		}
	}
	time.Sleep(time.Until(t1.Add(2100 * time.Millisecond)))
	must(wNil, "get", "a")
	must(wInt(-2), "ttl", "b")
	time.Sleep(time.Until(time.Unix(at, 0).Add(100 * time.Millisecond)))
	must(wInt(0), "llen", "c")
	must(Want{Kind: "set"}, "keys", "*")
}

// ---- C28

// dumpKeys reads the keys per database out of an append only file.
func dumpKeys(path string) (map[int]map[string]bool, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, err
	}
	out := map[int]map[string]bool{}
	db := 0
	cmds, rest := parseAOF(b)
	if len(rest) > 0 {
		return nil, fmt.Errorf("%d bytes at the end are no command", len(rest))
	}
	for _, c := range cmds {
		switch strings.ToLower(c[0]) {
		case "select":
			db, _ = strconv.Atoi(c[1])
		case "del":
			for _, k := range c[1:] {
				delete(out[db], k)
			}
		default:
			if len(c) < 2 {
				continue
			}
			if out[db] == nil {
				out[db] = map[string]bool{}
			}
			out[db][c[1]] = true
		}
	}
	return out, nil
}

// parseAOF splits a log into its complete commands and the rest.
func parseAOF(b []byte) (cmds [][]string, rest []byte) {
	line := func(b []byte) (int, []byte, bool) {
		i := strings.Index(string(b[:min(len(b), 32)]), "\r\n")
		if i < 2 {
			return 0, b, false
		}
		n, err := strconv.Atoi(string(b[1:i]))
		return n, b[i+2:], err == nil
	}
	for len(b) > 0 {
		if b[0] != '*' {
			return cmds, b
		}
		n, p, ok := line(b)
		if !ok {
			return cmds, b
		}
		args := make([]string, 0, n)
		for i := 0; i < n; i++ {
			if len(p) == 0 || p[0] != '$' {
				return cmds, b
			}
			l, q, ok := line(p)
			if !ok || l < 0 || len(q) < l+2 {
				return cmds, b
			}
			args = append(args, string(q[:l]))
			p = q[l+2:]
		}
		cmds = append(cmds, args)
		b = p
	}
	return cmds, nil
}

// rewriteNow has the log rewritten and waits for it; step lets the clock of an instrumented server go on.
func (r *Run) rewriteNow(step func()) {
	before, err := os.Stat(r.s.aofPath())
	if err != nil {
		giveUp("%v", err)
	}
	c := r.s.client()
	defer c.Close()
	rep, err := c.Do("bgrewriteaof")
	if err != nil {
		r.ioFail(-1, err, []string{"bgrewriteaof"})
	}
	if rep.IsErr() {
		r.h.fail(r.replay(nil), "BGREWRITEAOF: %v", rep)
	}
	deadline := time.Now().Add(60 * time.Second)
	for {
		if step != nil {
			step()
		} else {
			time.Sleep(2 * time.Millisecond)
		}
		now, err := os.Stat(r.s.aofPath())
		if err == nil && !os.SameFile(before, now) {
			break
		}
		if r.s.exited() {
			r.ioFail(-1, fmt.Errorf("exited"), []string{"bgrewriteaof"})
		}
		if time.Now().After(deadline) {
			r.h.fail(r.replay(nil), "BGREWRITEAOF has not replaced the append only file within 60 s")
		}
	}
	r.h.count("rewrites", 1)
}

func reclaim(h *H) {
	h.buildInst()
	type pop struct{ dbs, expired, live, plain int }
	pops := []pop{{3, 40, 0, 0}, {16, 5, 5, 5}, {2, 300, 100, 50}, {1, 1, 0, 0}, {5, 1, 1, 1}, {2, 1000, 10, 10}, {1, 1500, 1500, 300}, {4, 90, 400, 0}, {2, 0, 200, 200}, {1, 3000, 0, 0},
		// few deadlines among many keys without one, and the other way round
		{1, 1, 0, 200}, {2, 2, 0, 500}, {3, 3, 1, 2000}, {2, 1, 300, 0}, {1, 12, 0, 5000}}
	rng0 := h.rng("pops")
	for i := 0; i < h.n(14, 120); i++ {
		pops = append(pops, pop{1 + rng0.Intn(8), rng0.Intn(300), rng0.Intn(200), rng0.Intn(100)})
	}
	mass := h.n(2, 8)
	h.parallel(mass+len(pops), 7, func(i int) {
		if i < mass {
			h.massExpiry(i)
			return
		}
		p := pops[i-mass]
		h.reclaimOne(fmt.Sprintf("population-%d", i), []int{16, 16, 40, 1, 130}[i%5], p.dbs, p.expired, p.live, p.plain)
	})
}

// massExpiry: after very many keys have expired around a few with later deadlines, the periodic task must not
// take the server away from its clients.
func (h *H) massExpiry(i int) {
	name := fmt.Sprintf("mass-%d", i)
	rng := h.rng(name)
	n := h.n(250_000, 1_000_000)
	live := []int{1, 3, 0, 20}[i%4]
	s := h.newServer(h.bins["inst"], Conf{AOF: i%2 == 1, DBs: 4})
	defer s.discard()
	s.instrument(false, "")
	s.page.SetClock(1_700_000_000_000)
	s.mustStart()
	r := newRun(h, s, rng, 1)
	db := strconv.Itoa(rng.Intn(4))
	cmds := [][]string{{"select", db}}
	for k := 0; k < n; k++ {
		cmds = append(cmds, []string{"setex", fmt.Sprintf("m%d", k), "10", "v"})
	}
	for k := 0; k < live; k++ {
		cmds = append(cmds, []string{"setex", fmt.Sprintf("live%d", k), "1000000", "v"})
	}
	for len(cmds) > 0 {
		k := min(len(cmds), 2000)
		reps, err := r.cl[0].Pipe(cmds[:k])
		if err != nil {
			r.ioFail(0, err, cmds[min(len(reps), k-1)])
		}
		for j, rep := range reps {
			if rep.T != '+' {
				h.fail(r.replay(nil), "%s: %v", quoteArgs(cmds[j]), rep)
			}
		}
		cmds = cmds[k:]
	}
	r.log.note(fmt.Sprintf("%d keys with a deadline in 10 s, %d with one in 1000000 s, in database %s", n, live, db))
	ctl := s.client()
	s.page.SetClock(s.page.Clock() + 11_000)
	var total, worst time.Duration
	quick := 0
	start := time.Now()
	rounds := 0
	for ; quick < 2000; rounds++ { // the last ones are measured when hardly any is left to expire
		s.page.SetClock(s.page.Clock() + 2)
		t := time.Now()
		r.served(ctl, "while very many keys expire")
		el := time.Since(t)
		if rounds > n/50 {
			quick++
			total += el
			worst = max(worst, el)
			if total > 30*time.Second {
				h.fail(r.replay(nil), "%d keys have expired in one database and %d with a later deadline are left: %d PING took %v", n, live, quick, total)
			}
		}
		if time.Since(start) > 150*time.Second {
			h.fail(r.replay(nil), "%d keys have expired in one database and %d with a later deadline are left: %d rounds of the periodic task with a PING took %v", n, live, rounds, time.Since(start))
		}
	}
	reps, err := r.cl[0].Pipe([][]string{{"keys", "*"}, {"ping"}})
	if err != nil {
		r.ioFail(0, err, []string{"keys", "*"})
	}
	if len(reps[0].A) != live {
		h.fail(r.replay(nil), "%d of %d keys are left after expiry, want %d", len(reps[0].A), n+live, live)
	}
	h.count("keys expired in large databases", int64(n))
	h.count("rounds with a PING around mass expiry", int64(rounds))
	h.atLeast("longest PING after mass expiry (us)", worst.Microseconds())
	h.eval(true, fmt.Sprintf("%s %d keys %d live", name, n, live))
}

func (h *H) reclaimOne(name string, ndb, dbs, expired, live, plain int) {
	rng := h.rng(name)
	if dbs > ndb {
		dbs = ndb
	}
	s := h.newServer(h.bins["inst"], Conf{AOF: true, DBs: ndb})
	defer s.discard()
	s.instrument(false, "")
	s.page.SetClock(1_700_000_000_000 + rng.Int63n(1e6))
	s.mustStart()
	r := newRun(h, s, rng, 1)
	if rng.Intn(3) == 0 { // the administrator or a time daemon corrects the clock
		ctl := s.client()
		for k := 0; k < 5; k++ {
			clockTick(r, 2)
			r.served(ctl, "the periodic task")
		}
		d := []int64{500, 5_000, 3_600_000, 400 * 86_400_000}[rng.Intn(4)]
		s.page.SetClock(s.page.Clock() - d)
		clockTick(r, 0)
		r.log.note(fmt.Sprintf("clock set back by %d ms", d))
		r.served(ctl, "the periodic task")
		h.count("clock set back", 1)
	}
	order := rng.Perm(ndb)
	if first := rng.Intn(2) * (ndb - 1); ndb > 1 { // the first database or the last, and others
		for j, d := range order {
			if d == first {
				order[0], order[j] = order[j], order[0]
			}
		}
	}
	order = order[:dbs]
	make_ := func(k string) [][]string {
		switch rng.Intn(5) {
		case 0:
			return [][]string{{"rpush", k, "a", "b"}}
		case 1:
			return [][]string{{"hset", k, "f", "v"}}
		case 2:
			return [][]string{{"sadd", k, "a"}}
		case 3:
			return [][]string{{"zadd", k, "1", "a"}}
		}
		return [][]string{{"set", k, "v"}}
	}
	late := map[int][][]string{} // deadlines in the past, which no command is to notice
	for _, d := range order {
		cmds := [][]string{{"select", strconv.Itoa(d)}}
		var names []string
		for i := 0; i < expired; i++ {
			names = append(names, fmt.Sprintf("exp%d", i))
		}
		for i := 0; i < live; i++ {
			names = append(names, fmt.Sprintf("live%d", i))
		}
		for i := 0; i < plain; i++ {
			names = append(names, fmt.Sprintf("plain%d", i))
		}
		rng.Shuffle(len(names), func(a, b int) { names[a], names[b] = names[b], names[a] })
		for _, k := range names {
			switch k[0] {
			case 'e':
				t := strconv.Itoa(1 + rng.Intn(20))
				if c := rng.Intn(6); c == 5 {
					cmds = append(cmds, make_(k)...)
					late[d] = append(late[d], [][]string{{"expireat", k, "0"}, {"expireat", k, "1"}, {"expireat", k, "-7"}, {"expire", k, "0"}, {"expire", k, "-5"}, {"expire", k, "-2000000000"},
						{"expire", k, "-1700000000"}, {"set", k, "v", "EXAT", "0"}, {"expireat", k, "1600000000"}}[rng.Intn(9)])
				} else if c < 2 {
					cmds = append(cmds, []string{"setex", k, t, "v"})
				} else {
					cmds = append(cmds, make_(k)...)
					cmds = append(cmds, []string{"expire", k, t})
				}
			case 'l':
				cmds = append(cmds, make_(k)...)
				cmds = append(cmds, []string{"expire", k, strconv.Itoa(100 + rng.Intn(100000))})
			default:
				cmds = append(cmds, make_(k)...)
				if rng.Intn(4) == 0 { // had a deadline once
					cmds = append(cmds, []string{"expire", k, "5"}, []string{"set", k, "again"})
				}
			}
		}
		for len(cmds) > 0 {
			n := min(len(cmds), 500)
			r.batch(0, cmds[:n], 1, nil)
			cmds = cmds[n:]
		}
	}
	ctl := s.client()
	step := func(ms int64) {
		clockTick(r, ms)
		r.served(ctl, "the periodic task")
	}
	// before the deadlines nothing may go
	for i := 0; i < 5; i++ {
		step(3)
	}
	r.check("before the deadlines")
	for _, d := range order {
		if len(late[d]) > 0 {
			r.batch(0, append([][]string{{"select", strconv.Itoa(d)}}, late[d]...), 1, nil)
			h.count("deadlines set in the past", int64(len(late[d])))
		}
	}
	r.do(0, "select", strconv.Itoa(order[0]))
	clockTick(r, 40_000) // all short deadlines have passed
	// every step of the clock is at least one round; each round samples keys with a deadline at random
	with := expired + live
	rounds := 60 + 15*(with/100+1)
	x := float64(0)
	for k := 1; k <= expired; k++ {
		x += float64(live+k) / float64(k)
	}
	rounds += int(x / 100 * 15)
	for i := 0; i < rounds; i++ {
		step(2)
	}
	h.count("rounds of the periodic task", int64(rounds))
	r.rewriteNow(func() { step(2) })
	dump, err := dumpKeys(s.aofPath())
	if err != nil {
		h.fail(r.replay(nil), "the rewritten file is not readable: %v", err)
	}
	for _, d := range order {
		leftE, haveL, haveP := 0, 0, 0
		ex := ""
		for k := range dump[d] {
			switch k[0] {
			case 'e':
				leftE++
				ex = k
			case 'l':
				haveL++
			case 'p':
				haveP++
			}
		}
		if leftE > 0 {
			h.fail(r.replay(map[string]any{"databases used": order}), "database %d: %d of %d expired keys (for example %s) are still held after %d rounds of the periodic task (%d keys had deadlines)", d, leftE, expired, ex, rounds, with)
		}
		if haveL != live || haveP != plain {
			h.fail(r.replay(map[string]any{"databases used": order}), "database %d: of %d keys with a future deadline %d are left, of %d without one %d", d, live, haveL, plain, haveP)
		}
	}
	r.check("after the periodic task")
	h.count("expired keys reclaimed", int64(expired*dbs))
	h.eval(expired > 0, fmt.Sprintf("%d databases, %d expired, %d live, %d without deadline", dbs, expired, live, plain))
	h.sample(map[string]any{"population": name, "databases": order, "expired": expired, "live": live, "without deadline": plain, "rounds": rounds})
}

var _ = rand.Int

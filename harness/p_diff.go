package main

import (
	"bytes"
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

type diffOpt struct {
	conf       Conf
	inst       bool
	w          map[string]int
	ops        int
	conns      int
	batch      int
	segs       int
	checkEvery int
	dbs        int
	maxVal     int
	bulkMax    int
	setup      func(g *Gen)
	tick       func(r *Run, g *Gen)
	after      func(r *Run)
}

// diffRun runs one random history and compares every reply and, from time to time, the whole dataset.
func (h *H) diffRun(name string, o diffOpt) {
	rng := h.rng(name)
	bin := h.bins["plain"]
	if o.inst {
		bin = h.bins["inst"]
	}
	s := h.newServer(bin, o.conf)
	defer s.discard()
	if o.inst {
		s.instrument(false, "")
		s.page.SetClock(1_700_000_000_000 + rng.Int63n(1e9))
	}
	s.mustStart()
	if o.conns == 0 {
		o.conns = 1
	}
	r := newRun(h, s, rng, o.conns)
	g := newGen(rng, r.m, o.w)
	g.now = r.now
	if o.dbs > 0 {
		g.dbs = o.dbs
	}
	if o.maxVal > 0 {
		g.maxVal = o.maxVal
	}
	if o.bulkMax > 0 {
		g.bulkMax = o.bulkMax
	}
	if o.setup != nil {
		o.setup(g)
	}
	if o.batch == 0 {
		o.batch = 8
	}
	lastCheck := 0
	for n := 0; n < o.ops; {
		conn := rng.Intn(o.conns)
		var cmds [][]string
		for k := rng.Intn(o.batch) + 1; k > 0; k-- {
			cmds = append(cmds, g.Next(r.sess[conn])...)
		}
		segs := 1
		if o.segs > 1 && rng.Intn(2) == 0 {
			segs = o.segs
		}
		if o.conns > 1 && rng.Intn(4) == 0 { // every command on another connection
			for _, c := range cmds {
				r.batch(rng.Intn(o.conns), [][]string{c}, 1, nil)
			}
		} else {
			r.batch(conn, cmds, segs, nil)
		}
		n += len(cmds)
		if o.tick != nil {
			o.tick(r, g)
		}
		if n-lastCheck >= o.checkEvery && o.checkEvery > 0 {
			lastCheck = n
			r.check("after " + strconv.Itoa(n) + " commands")
		}
	}
	r.check("at the end")
	if o.after != nil {
		o.after(r)
	}
	h.sample(map[string]any{"run": name, "config": fmt.Sprintf("%+v", o.conf), "last commands": tail(r.log.ops, 6), "keys at the end": r.m.Keys()})
	for _, c := range r.cl {
		c.Close()
	}
}

func tail(l []string, n int) []string {
	if len(l) > n {
		l = l[len(l)-n:]
	}
	out := make([]string, len(l))
	for i, s := range l {
		out[i] = clip(s)
	}
	return out
}

// diffMany runs the option set k times in parallel with different seeds.
func (h *H) diffMany(name string, k int, mk func(i int) diffOpt) {
	h.parallel(k, 6, func(i int) { h.diffRun(fmt.Sprintf("%s-%d", name, i), mk(i)) })
}

const diffRule = "random command histories generated from the seed; every reply is judged by a sequential reference model and the whole dataset is read back and compared at intervals; a case is one command with its reply, non-trivial if the reply is not an error, distinct by command, arguments and reply"

func init() {
	note := []string{"the reference model in harness/model.go states the intended meaning of the commands", "negative ranks for LINDEX/ZRANGE, an LRANGE start before the head, and SET options are not specified and not generated"}
	reg := func(id string, run func(h *H)) {
		specs[id] = spec{run: run, level: "exploration", rule: diffRule, note: note}
	}
	reg("C03", func(h *H) {
		h.buildPlain()
		h.diffMany("keyspace", h.n(8, 40), func(i int) diffOpt {
			return diffOpt{conf: Conf{AOF: i%3 == 2}, ops: h.n(40000, 250000), checkEvery: 300, dbs: 2, conns: 1 + i%3, maxVal: []int{40, 3000, 100000}[i%3],
				w: map[string]int{"string": 30, "keyspace": 25, "list": 6, "hash": 6, "set": 6, "zset": 6, "drain": 3, "select": 2, "error": 4, "ping": 4, "around": 8},
				setup: func(g *Gen) {
					if i%2 == 1 { // many keys: the key table grows through several sizes
						for j := 0; j < 400; j++ {
							g.keys["s"] = append(g.keys["s"], fmt.Sprintf("k%d", j))
						}
						for j := 0; j < 100; j++ {
							g.keys["any"] = append(g.keys["any"], fmt.Sprintf("user:%d:%s", j%20, []string{"name", "mail", "s1", "s*", "x.y"}[j/20]))
						}
						g.w = map[string]int{"string": 30, "keyspace": 8, "list": 3, "hash": 3, "set": 3, "zset": 3, "drain": 1, "error": 2, "ping": 1, "around": 6}
					}
				}}
		})
		h.manyKeys()
		h.buildInst()
		h.huge("keys", h.n(20000, 100000))
	})
	reg("C04", func(h *H) {
		h.buildPlain()
		h.diffMany("list", h.n(8, 40), func(i int) diffOpt {
			w := map[string]int{"around": 8, "list": 60, "biglist": 8, "drain": 2, "string": 2, "error": 2, "keyspace": 1}
			if i%2 == 0 {
				w["biglist"] = 0
			}
			return diffOpt{conf: Conf{AOF: i%4 == 3}, ops: h.n(60000, 300000), checkEvery: 1500, w: w, conns: 1 + i%4/3*2, maxVal: 60, bulkMax: 300, batch: 6}
		})
		h.huge("list", h.n(40000, 400000))
	})
	reg("C05", func(h *H) {
		h.buildPlain()
		h.diffMany("hash", h.n(8, 40), func(i int) diffOpt {
			w := map[string]int{"around": 8, "hash": 60, "bighash": 4, "drain": 1, "string": 2, "error": 3, "keyspace": 2}
			if i%2 == 0 {
				w["bighash"] = 0
			}
			return diffOpt{conf: Conf{AOF: i%4 == 3}, ops: h.n(40000, 250000), checkEvery: 500, w: w, conns: 1 + i%4/3*2, maxVal: 400, bulkMax: 100}
		})
		h.huge("hash", h.n(30000, 200000))
	})
	reg("C06", func(h *H) {
		h.buildPlain()
		h.diffMany("set", h.n(8, 40), func(i int) diffOpt {
			w := map[string]int{"around": 8, "set": 60, "bigset": 4, "drain": 2, "string": 2, "error": 3, "keyspace": 2}
			if i%2 == 0 {
				w["bigset"] = 0
			}
			return diffOpt{conf: Conf{AOF: i%4 == 3}, ops: h.n(40000, 250000), checkEvery: 400, w: w, conns: 1 + i%4/3*2, bulkMax: 100}
		})
		h.huge("set", h.n(30000, 200000))
	})
	reg("C07", func(h *H) {
		h.buildPlain()
		h.diffMany("zset", h.n(8, 40), func(i int) diffOpt {
			w := map[string]int{"around": 8, "zset": 60, "bigzset": 4, "drain": 1, "string": 2, "error": 4, "keyspace": 1}
			if i%2 == 0 {
				w["bigzset"] = 0
			}
			return diffOpt{conf: Conf{AOF: i%4 == 3}, ops: h.n(40000, 250000), checkEvery: 300, w: w, conns: 1 + i%4/3*2, bulkMax: 100}
		})
		h.huge("zset", h.n(30000, 150000))
	})
	reg("C11", func(h *H) {
		h.buildInst()
		h.errorsChangeNothing()
	})
	specs["C09"] = spec{run: isolation, level: "exploration", rule: diffRule + "; several connections issue partial requests, SELECTs and AUTHs between each other's commands", note: note}
}

// manyKeys grows one database to thousands of keys and samples it while it shrinks again.
func (h *H) manyKeys() {
	rng := h.rng("manykeys")
	s := h.newServer(h.buildPlain(), Conf{}).mustStart()
	defer s.discard()
	r := newRun(h, s, rng, 1)
	n := h.n(3000, 30000)
	seen := map[string]bool{}
	for i := 0; i < n; {
		var cmds [][]string
		for j := 0; j < 100; j++ {
			cmds = append(cmds, []string{"set", fmt.Sprintf("key:%d", i), strconv.Itoa(i)})
			i++
		}
		cmds = append(cmds, []string{"randomget"}, []string{"get", fmt.Sprintf("key:%d", rng.Intn(i))})
		if i%700 == 0 {
			cmds = append(cmds, []string{"keys", "*"})
		}
		for _, rep := range r.batch(0, cmds, 1, nil) {
			if rep.T == '$' {
				seen[rep.S] = true
			}
		}
	}
	r.do(0, "keys", "*")
	h.count("largest keyspace", int64(n))
	for i := 0; i < n; {
		var cmds [][]string
		for j := 0; j < 100; j++ {
			cmds = append(cmds, []string{"del", fmt.Sprintf("key:%d", i)})
			i++
		}
		cmds = append(cmds, []string{"randomget"}, []string{"get", fmt.Sprintf("key:%d", rng.Intn(n))})
		if i%1000 == 0 {
			cmds = append(cmds, []string{"keys", "*"})
		}
		r.batch(0, cmds, 1, nil)
	}
	r.do(0, "keys", "*")
	r.do(0, "randomget")
}

// errorsChangeNothing: between commands that succeed, commands that must fail; after every failing
// one the dataset is compared with the model, and at the end also after a restart.
func (h *H) errorsChangeNothing() {
	runs := h.n(8, 40)
	h.parallel(runs, 6, func(i int) {
		name := fmt.Sprintf("errors-%d", i)
		rng := h.rng(name)
		conf := Conf{AOF: true, Fsync: []string{"always", "no", "everysec"}[i%3], DBs: 4}
		s := h.newServer(h.bins["inst"], conf)
		defer s.discard()
		s.instrument(false, "")
		s.page.SetClock(1_700_000_000_000 + rng.Int63n(1e9))
		s.mustStart()
		r := newRun(h, s, rng, 2)
		g := newGen(rng, r.m, map[string]int{"string": 4, "list": 6, "hash": 6, "set": 6, "zset": 8, "error": 40, "select": 3, "keyspace": 2})
		g.now = r.now
		g.dbs = 3
		errs := 0
		for errs < h.n(2500, 20000) {
			conn := rng.Intn(2)
			cmds := g.Next(r.sess[conn])
			if rng.Intn(4) == 0 { // deadlines far in the future: they must survive failing commands too
				cmds = append(cmds, []string{"expire", g.anyKey(), strconv.Itoa(1000000 + rng.Intn(1000))})
			}
			reps := r.batch(conn, cmds, 1+rng.Intn(3), nil)
			bad := 0
			for j, rep := range reps {
				if rep.IsErr() {
					bad++
					h.eval(true, "error "+strings.ToLower(cmds[j][0])+" "+clip(quoteArgs(cmds[j][1:])))
				}
			}
			errs += bad
			if bad > 0 && rng.Intn(2) == 0 {
				r.check("after the error reply to " + quoteArgs(cmds[len(cmds)-1]))
			}
		}
		h.count("error replies", int64(errs))
		r.check("at the end")
		s.kill()
		r.m.restarted()
		s.mustStart()
		r.connect(2)
		r.check("after a restart")
		h.sample(map[string]any{"run": name, "last commands": tail(r.log.ops, 6)})
	})
}

// isolation: C09
func isolation(h *H) {
	h.buildPlain()
	h.buildInst()
	h.parallel(h.n(6, 30), 6, func(i int) {
		name := fmt.Sprintf("isolation-%d", i)
		rng := h.rng(name)
		dbs := []int{1, 2, 3, 16, 40}[i%5]
		conf := Conf{DBs: dbs, AOF: i%2 == 0}
		if i%3 == 1 {
			conf.Pass = "s3cret pass"
		}
		s := h.newServer(h.bins["inst"], conf)
		defer s.discard()
		s.instrument(false, "")
		s.page.SetClock(1_700_000_000_123)
		s.mustStart()
		conns := 5
		r := newRun(h, s, rng, conns)
		g := newGen(rng, r.m, map[string]int{"string": 20, "list": 8, "hash": 8, "set": 8, "zset": 8, "select": 30, "expire": 10, "keyspace": 10, "error": 5, "around": 6})
		g.now = r.now
		g.dbs = dbs
		pending := make([][]byte, conns) // the rest of a request of which a part was sent
		pendCmd := make([][]string, conns)
		for n := 0; n < h.n(12000, 60000); n++ {
			c := rng.Intn(conns)
			if pending[c] != nil { // complete it
				r.log.note(fmt.Sprintf("c%d rest of %s", c, quoteArgs(pendCmd[c])))
				reps, err := r.cl[c].PipeRaw([][]byte{pending[c]}, 1, nil)
				if err != nil {
					r.ioFail(c, err, pendCmd[c])
				}
				if w, ok := r.m.Exec(r.sess[c], pendCmd[c], r.now(), &reps[0]); !ok {
					h.fail(r.replay(nil), "%s (connection %d, db %d, sent in two parts with other connections' commands between): got %s, want %s",
						quoteArgs(pendCmd[c]), c, r.sess[c].DB, reps[0].String(), w.String())
				}
				h.eval(true, "split "+quoteArgs(pendCmd[c])+reps[0].String())
				pending[c] = nil
				continue
			}
			cmds := g.Next(r.sess[c])
			if conf.Pass != "" && rng.Intn(12) == 0 {
				cmds = [][]string{{"auth", []string{conf.Pass, "wrong", "", conf.Pass + "x", strings.ToUpper(conf.Pass)}[rng.Intn(5)]}}
			}
			if len(cmds) == 1 && rng.Intn(4) == 0 {
				b := encode(cmds[0]...)
				k := 1 + rng.Intn(len(b)-1)
				r.log.note(fmt.Sprintf("c%d first %d bytes of %s", c, k, quoteArgs(cmds[0])))
				if err := r.cl[c].Raw(b[:k]); err != nil {
					r.ioFail(c, err, cmds[0])
				}
				pending[c], pendCmd[c] = b[k:], cmds[0]
				continue
			}
			if rng.Intn(40) == 0 { // a new connection starts in database 0
				r.cl[c].Close()
				r.cl[c] = s.client()
				r.sess[c] = &Sess{Authed: conf.Pass != ""}
				if conf.Pass != "" && rng.Intn(2) == 0 {
					r.cl[c].Close()
					cl, err := dial(s.addr())
					if err != nil {
						s.dead("connect: " + err.Error())
					}
					r.cl[c] = cl
					r.sess[c] = &Sess{}
				}
				h.count("reconnects", 1)
			}
			r.batch(c, cmds, 1, nil)
			if rng.Intn(30) == 0 {
				clockTick(r, rng.Int63n(3000))
			}
			if n%400 == 399 {
				r.check("isolation")
			}
		}
		r.check("at the end")
		// every configured database is usable and independent
		all := s.client()
		for d := 0; d < dbs; d++ {
			if rep, err := all.Do("select", strconv.Itoa(d)); err != nil || rep.T != '+' {
				h.fail(r.replay(nil), "SELECT %d of %d databases: %v %v", d, dbs, rep, err)
			}
			all.Do("set", "own", strconv.Itoa(d))
		}
		for d := dbs - 1; d >= 0; d-- {
			all.Do("select", strconv.Itoa(d))
			if rep, err := all.Do("get", "own"); err != nil || rep.S != strconv.Itoa(d) {
				h.fail(r.replay(nil), "value of database %d is %v %v", d, rep, err)
			}
			if rep, err := all.Do("select", strconv.Itoa(dbs+rng.Intn(3))); err != nil || rep.T != '-' {
				h.fail(r.replay(nil), "SELECT beyond the configured %d databases: %v %v", dbs, rep, err)
			}
		}
		h.sample(map[string]any{"run": name, "databases": dbs, "last commands": tail(r.log.ops, 5)})
	})
}

// clockTick advances the virtual clock by about ms, past uncertain deadlines and never onto a deadline.
func clockTick(r *Run, ms int64) {
	t := r.s.page.Clock() + ms + 1
	for r.m.ambiguous(t) {
		t++
		for _, db := range r.m.DBs {
			for _, v := range db {
				if v.DHi != 0 && t >= v.DLo && t <= v.DHi {
					t = v.DHi + 1
				}
			}
		}
	}
	r.s.page.SetClock(t)
	r.log.note(fmt.Sprintf("clock +%d -> %d", ms, t))
}

var _ = bytes.MinRead
var _ = os.Args
var _ = time.Now

package main

import (
	"fmt"
	"math/rand"
	"strconv"
)

// huge drives one collection of every kind asked for to tens of thousands of elements and back, reading it
// in the whole and in large parts.
func (h *H) huge(kind string, n int) {
	h.parallel(h.n(2, 6), 2, func(i int) {
		rng := h.rng(fmt.Sprintf("huge-%s-%d", kind, i))
		n := n + rng.Intn(n)
		bin := h.bins["plain"]
		if kind == "keys" {
			bin = h.bins["inst"]
		}
		s := h.newServer(bin, Conf{AOF: i%2 == 1})
		defer s.discard()
		if kind == "keys" {
			s.instrument(false, "")
			s.page.SetClock(1_700_000_000_000 + rng.Int63n(1e9))
		}
		s.mustStart()
		r := newRun(h, s, rng, 1)
		hg := &hugeRun{Run: r, n: n, rng: rng}
		for round := 0; round < 2; round++ {
			switch kind {
			case "list":
				hg.list()
			case "hash":
				hg.hash()
			case "set":
				hg.set()
			case "zset":
				hg.zset()
			case "keys":
				hg.keys()
			}
		}
		r.check("at the end")
		h.mu.Lock()
		if int64(n) > h.counts["most elements in one collection"] {
			h.counts["most elements in one collection"] = int64(n)
		}
		h.mu.Unlock()
		h.sample(map[string]any{"run": fmt.Sprintf("huge %s of %d", kind, n), "last commands": tail(r.log.ops, 4)})
		for _, c := range r.cl {
			c.Close()
		}
	})
}

type hugeRun struct {
	*Run
	n   int
	rng *rand.Rand
}

// feed sends the elements in commands of different sizes; each element is one or two arguments.
func (g *hugeRun) feed(cmd, key string, el [][]string) {
	var cmds [][]string
	for i := 0; i < len(el); {
		k := []int{1, 3, 100, 1000, 6000}[g.rng.Intn(5)]
		if i+k > len(el) {
			k = len(el) - i
		}
		args := []string{cmd, key}
		for _, e := range el[i : i+k] {
			args = append(args, e...)
		}
		cmds = append(cmds, args)
		i += k
		if len(cmds) == 4 {
			g.batch(0, cmds, 1, nil)
			cmds = nil
		}
	}
	if len(cmds) > 0 {
		g.batch(0, cmds, 1, nil)
	}
}

func (g *hugeRun) elems(prefix string, n int) [][]string {
	var l [][]string
	for i := 0; i < n; i++ {
		l = append(l, []string{prefix + strconv.Itoa(i)})
	}
	return l
}

func (g *hugeRun) list() {
	g.feed([]string{"rpush", "lpush"}[g.rng.Intn(2)], "big", g.elems("v", g.n))
	g.feed("lpush", "big", g.elems("w", 1000))
	n := g.n + 1000
	g.do(0, "llen", "big")
	for i := 0; i < 6; i++ {
		g.do(0, "lrange", "big", strconv.Itoa(g.rng.Intn(1+n/4)*(i%2)), strconv.Itoa(-1-g.rng.Intn(1+n/4)*(i%3)))
		g.do(0, "lrange", "big", strconv.Itoa(g.rng.Intn(1+n/4)*(i%2)), strconv.Itoa(n+i%4-2-g.rng.Intn(1+n/4)*(i%3)))
	}
	for i := 0; i < 200; i++ {
		g.batch(0, [][]string{{"lindex", "big", strconv.Itoa(g.rng.Intn(n))}, {"lindex", "big", strconv.Itoa(n - 1 - g.rng.Intn(50))}}, 1, nil)
	}
	for n > 300 {
		var cmds [][]string
		for j := 0; j < 500 && n > 0; j++ {
			cmds = append(cmds, []string{[]string{"lpop", "rpop"}[g.rng.Intn(2)], "big"})
			n--
		}
		g.batch(0, cmds, 1, nil)
		if g.rng.Intn(40) == 0 {
			g.do(0, "lrange", "big", "0", "-1")
		}
	}
	g.check("large list, mostly popped")
	g.do(0, "del", "big")
}

func (g *hugeRun) hash() {
	var el [][]string
	for i := 0; i < g.n; i++ {
		el = append(el, []string{"f" + strconv.Itoa(i), "v" + strconv.Itoa(g.rng.Intn(1000))})
	}
	g.feed("hset", "big", el)
	g.do(0, "hlen", "big")
	g.do(0, "hkeys", "big")
	g.check("large hash")
	// some fields again, with other values
	for i := 0; i < g.n/8; i++ {
		el[i] = []string{"f" + strconv.Itoa(g.rng.Intn(g.n+g.n/8)), "w" + strconv.Itoa(i)}
	}
	g.feed("hset", "big", el[:g.n/8])
	g.do(0, "hkeys", "big")
	g.feed("hdel", "big", g.elems("f", g.n-200))
	g.check("large hash, mostly deleted")
	g.do(0, "del", "big")
}

func (g *hugeRun) set() {
	g.feed("sadd", "big", g.elems("m", g.n))
	g.feed("sadd", "other", g.elems("m", g.n/3))
	g.feed("sadd", "other", g.elems("x", g.n/3))
	for _, c := range []string{"sunion", "sinter", "sdiff"} {
		g.do(0, c, "big", "other")
		g.do(0, c, "other", "big", "none")
		g.do(0, c, "none", "big")
	}
	g.do(0, "scard", "big")
	g.do(0, "smembers", "big")
	for i := 0; i < 30; i++ {
		g.do(0, "spop", "big")
	}
	for i := 0; i < 300; i++ {
		g.do(0, "sismember", "big", "m"+strconv.Itoa(g.rng.Intn(g.n+100)))
	}
	g.check("large sets")
	// operations on many sets
	var sets [][]string
	for i := 0; i < 700; i++ {
		sets = append(sets, []string{"sadd", "small" + strconv.Itoa(i), "all", "u" + strconv.Itoa(i)})
	}
	g.feed("sadd", "mid", g.elems("u", 800))
	g.do(0, "sadd", "mid", "all")
	g.batch(0, sets, 1, nil)
	for _, n := range []int{50 + g.rng.Intn(100), 200 + g.rng.Intn(200), 699} {
		names := []string{}
		for i := 0; i <= n; i++ {
			names = append(names, "small"+strconv.Itoa(i))
		}
		g.do(0, append([]string{"sunion"}, names...)...)
		g.do(0, append([]string{"sinter"}, names...)...)
		g.do(0, append([]string{"sdiff", "mid"}, names...)...)
		g.do(0, "srem", names[n], "all")
		g.do(0, append([]string{"sinter"}, names...)...)
		g.do(0, "sadd", "mid", "u"+strconv.Itoa(n))
		g.do(0, append([]string{"sdiff", "mid"}, names...)...)
		g.do(0, append([]string{"del"}, names...)...)
		g.batch(0, sets, 1, nil)
	}
	g.do(0, "del", "mid")
	for i := range sets {
		sets[i] = []string{"del", sets[i][1]}
	}
	g.batch(0, sets, 1, nil)
	g.feed("srem", "big", g.elems("m", g.n-300))
	g.check("large set, mostly removed")
	g.do(0, "del", "big")
	g.do(0, "del", "other")
}

func (g *hugeRun) zset() {
	var el [][]string
	few := g.rng.Intn(3) == 0
	for i := 0; i < g.n; i++ {
		s := strconv.Itoa(g.rng.Intn(4 * g.n))
		if few {
			s = strconv.Itoa(g.rng.Intn(5))
		} else if i%5 == 0 {
			s = strconv.FormatFloat(g.rng.NormFloat64()*1e4, 'g', -1, 64)
		}
		el = append(el, []string{s, "m" + strconv.Itoa(i)})
	}
	g.feed("zadd", "big", el)
	n := g.n
	score := func() string { return el[g.rng.Intn(len(el))][0] }
	read := func() {
		g.do(0, "zcard", "big")
		g.do(0, "zcount", "big", "-inf", "+inf")
		g.do(0, "zrange", "big", "0", strconv.Itoa(n+5))
		g.do(0, "zrangebyscore", "big", "-inf", "+inf", "withscores")
		for i := 0; i < 5; i++ {
			a := g.rng.Intn(1 + n/3)
			g.do(0, "zrange", "big", strconv.Itoa(a), strconv.Itoa(a+g.rng.Intn(n)), "withscores")
			g.do(0, "zrangebyscore", "big", "-inf", score())
			g.do(0, "zrangebyscore", "big", score(), "+inf")
			g.do(0, "zcount", "big", score(), score())
		}
		for i := 0; i < 200; i++ {
			g.do(0, "zscore", "big", "m"+strconv.Itoa(g.rng.Intn(g.n+10)))
		}
	}
	read()
	for i := range el { // some move
		el[i][0] = strconv.Itoa(g.rng.Intn(1000) - 500)
	}
	g.feed("zadd", "big", el[:g.n/6])
	read()
	g.do(0, "zremrangebyrank", "big", strconv.Itoa(g.rng.Intn(100)), strconv.Itoa(g.n/5))
	g.do(0, "zremrangebyscore", "big", "-2", score())
	g.do(0, "zrange", "big", "0", strconv.Itoa(n))
	g.feed("zrem", "big", g.elems("m", g.n/3))
	read()
	g.do(0, "zremrangebyrank", "big", "200", strconv.Itoa(g.n))
	g.check("large sorted set, mostly removed")
	g.do(0, "zremrangebyscore", "big", "-inf", "+inf")
}

func (g *hugeRun) keys() {
	var cmds [][]string
	for i := 0; i < g.n; i++ {
		cmds = append(cmds, []string{"set", "k" + strconv.Itoa(i), strconv.Itoa(i)})
		if len(cmds) == 1000 || i == g.n-1 {
			g.batch(0, cmds, 1, nil)
			cmds = nil
		}
	}
	g.do(0, "keys", "*")
	g.do(0, "keys", "7$")
	g.do(0, "keys", "^k1")
	for i := 0; i < 20; i++ {
		g.do(0, "randomget")
	}
	first := 0
	if g.rng.Intn(2) == 0 { // many in one command, also absent ones
		first = g.n / 2
		g.feed("del", "none", append(g.elems("k", first), g.elems("none", 50)...))
	}
	for i := first; i < g.n-100; i++ {
		cmds = append(cmds, []string{"del", "k" + strconv.Itoa(i)})
		if len(cmds) == 1000 || i == g.n-101 {
			g.batch(0, cmds, 1, nil)
			cmds = nil
		}
	}
	g.check("large keyspace, mostly deleted")
	g.do(0, "keys", "*")

	// nearly all of the keys expire at once: those that are left are found all the same
	left := g.rng.Intn(4)
	for i := g.n - 100; i < g.n-left; i++ {
		cmds = append(cmds, []string{"del", "k" + strconv.Itoa(i)})
	}
	for i := 0; i < g.n/2; i++ {
		cmds = append(cmds, []string{"setex", "x" + strconv.Itoa(i), "5", "v"})
		if len(cmds) >= 1000 || i == g.n/2-1 {
			g.batch(0, cmds, 1, nil)
			cmds = nil
		}
	}
	clockTick(g.Run, 5000)
	for i := 0; i < 8; i++ {
		g.do(0, "randomget")
	}
	g.do(0, "keys", "*")
	g.do(0, "randomget")
	g.check("keyspace, mostly expired")
}

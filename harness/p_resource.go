package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"net"
	"os"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	specs["C34"] = spec{run: resources, level: "exploration",
		rule: "phases of churn (every type, deadlines, connections of all fates, rewrites, syncs, errors) that end where they began; after a first and after a three times longer second phase the live heap reported by the garbage collector of the server, its descriptors, threads and, at the end, goroutines are compared. Datasets whose large parts have been removed, and reloaded ones, are compared with what their elements need. A case is one phase or one dataset, distinct by kind, round and figures",
		note: []string{"the live heap is the figure which GODEBUG=gctrace=1 makes the Go runtime print, to the megabyte", "tables that stay as large as they have been are allowed"}}
}

type churn struct {
	name string
	n    int
	inst bool
	conf Conf
	run  func(p *plant, n int)
}

// plant is a server under churn.
type plant struct {
	h    *H
	s    *Server
	rng  *rand.Rand
	what string
	seq  int // for names that have not been used before
	left [][]string
	c    *Client
	base int // descriptors
}

func (p *plant) replay() any {
	return map[string]any{"kind": p.what, "config": p.s.conf, "names used": p.seq}
}

// put queues a command; full batches are sent.
func (p *plant) put(args ...string) {
	p.left = append(p.left, args)
	if len(p.left) >= 500 {
		p.flush()
	}
}

func (p *plant) flush() {
	if len(p.left) == 0 {
		return
	}
	reps, err := p.c.Pipe(p.left)
	if err != nil {
		p.s.dead(fmt.Sprintf("%s: %v", p.what, err))
	}
	p.h.count("requests", int64(len(reps)))
	p.left = p.left[:0]
}

func (p *plant) do(args ...string) Reply {
	p.flush()
	rep, err := p.c.Do(args...)
	if err != nil {
		p.s.dead(fmt.Sprintf("%s: %s: %v", p.what, quoteArgs(args), err))
	}
	p.h.count("requests", 1)
	return rep
}

func (p *plant) name(prefix string) string {
	p.seq++
	return prefix + strconv.Itoa(p.seq)
}

var gcLine = regexp.MustCompile(`(?m)^gc \d+ @.* (\d+)->(\d+)->(\d+) MB,`)

// live makes the garbage collector of the server run and returns the smallest live heap it reports, in megabytes.
func (p *plant) live() int {
	off := p.s.outSize()
	junk := strings.Repeat("j", 1<<20)
	least, seen := 1<<30, 0
	for i := 0; i < 400; i++ {
		c := p.s.client()
		for k := 0; k < 4; k++ {
			if rep, err := c.Do("get", junk); err != nil || rep.IsErr() {
				p.s.dead(fmt.Sprintf("%s: GET of a key of a megabyte: %v %v", p.what, rep, err))
			}
		}
		c.Close()
		out := p.s.output(off)
		seen = 0
		for _, m := range gcLine.FindAllStringSubmatch(out, -1) {
			seen++
			if n, err := strconv.Atoi(m[3]); err == nil && n < least {
				least = n
			}
		}
		if seen >= 8 {
			break
		}
		time.Sleep(time.Millisecond)
	}
	if seen < 3 {
		giveUp("the runtime of the server reports no garbage collections")
	}
	p.h.count("garbage collections read", int64(seen))
	return least
}

func (p *plant) nfds() int {
	d, err := os.ReadDir(fmt.Sprintf("/proc/%d/fd", p.s.cmd.Process.Pid))
	if err != nil {
		giveUp("%v", err)
	}
	return len(d)
}

func (p *plant) threads() int {
	d, _ := os.ReadDir(fmt.Sprintf("/proc/%d/task", p.s.cmd.Process.Pid))
	return len(d)
}

// start begins a server whose runtime reports its collections.
func (h *H) plantFor(name string, bin string, conf Conf, inst bool) *plant {
	p := &plant{h: h, what: name, rng: h.rng(name)}
	p.s = h.newServer(bin, conf)
	if inst {
		p.s.instrument(false, "")
		p.s.page.SetClock(1_700_000_000_000)
	}
	p.s.env = append(p.s.env, "GODEBUG=gctrace=1", "GOGC=20", "GOTRACEBACK=all", "GOMEMLIMIT=off")
	p.s.mustStart()
	p.c = p.s.client()
	p.do("ping")
	p.base = p.nfds()
	return p
}

// plantBegun begins a server as plantFor does, also one with a password.
func (h *H) plantBegun(name string, conf Conf) *plant {
	p := &plant{h: h, what: name, rng: h.rng(name)}
	p.s = h.newServer(h.bins["plain"], conf)
	p.s.env = append(p.s.env, "GOTRACEBACK=all")
	p.s.mustStart()
	p.c = p.s.client()
	return p
}

// settle waits until no more descriptors are open than before, or as few as there ever will be.
func (p *plant) settle(limit int) int {
	n := 0
	for end := time.Now().Add(15 * time.Second); time.Now().Before(end); time.Sleep(5 * time.Millisecond) {
		if n = p.nfds(); n <= limit {
			break
		}
		if rep, err := p.c.Do("ping"); err != nil || rep.IsErr() {
			p.s.dead(p.what + ": ping")
		}
	}
	return n
}

// ticks gives the processor time the server has used, in hundredths of a second.
func (p *plant) ticks() int {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", p.s.cmd.Process.Pid))
	if err != nil {
		giveUp("%v", err)
	}
	f := strings.Fields(string(b[bytes.LastIndexByte(b, ')')+1:]))
	u, _ := strconv.Atoi(f[11])
	k, _ := strconv.Atoi(f[12])
	return u + k
}

// idle gives the least processor time the server uses in half a second without requests, in several attempts while it is above limit.
func (p *plant) idle(limit int) int {
	least := 1 << 30
	for i := 0; i < 8 && least > limit; i++ {
		t := p.ticks()
		time.Sleep(500 * time.Millisecond)
		if t = p.ticks() - t; t < least {
			least = t
		}
	}
	p.h.count("idle servers watched", 1)
	p.h.atLeast("most processor time used in half a second of idleness (10 ms)", int64(least))
	return least
}

// idleSlack is processor time used in half a second, in hundredths of a second, that a server may use more than at its start.
const idleSlack = 15

func (p *plant) idleAtStart() int {
	idle := p.idle(2)
	if idle > 10+idleSlack {
		p.h.fail(p.replay(), "a server without data and requests used %d0 ms of processor time in half a second", idle)
	}
	return idle
}

const value50 = "01234567890123456789012345678901234567890123456789"

func (p *plant) elems(prefix string, k int) []string {
	var out []string
	for i := 0; i < k; i++ {
		out = append(out, p.name(prefix))
	}
	return out
}

func args(a ...any) []string {
	var out []string
	for _, x := range a {
		switch x := x.(type) {
		case string:
			out = append(out, x)
		case []string:
			out = append(out, x...)
		case int:
			out = append(out, strconv.Itoa(x))
		}
	}
	return out
}

// churns are the kinds; each leaves the dataset as it found it.
func (h *H) churns() []churn {
	aof := func(pol string) Conf { return Conf{AOF: true, Fsync: pol} }
	return []churn{
		{"strings", 40000, false, Conf{}, func(p *plant, n int) {
			for n > 0 {
				ks := p.elems("s", 200)
				for _, k := range ks {
					p.put("set", k, value50)
					p.put("set", k, value50+k)
					n -= 2
				}
				for i, k := range ks {
					switch i % 4 {
					case 0:
						p.put("expire", k, "1000")
					case 1:
						p.put("setex", k, "1000", "v")
					case 2:
						p.put("get", k)
					}
					n--
				}
				p.put("randomget")
				p.put(args("del", ks[:100])...)
				for _, k := range ks[100:] {
					p.put("del", k)
				}
				p.put("set", "stays", value50+ks[0])
			}
		}},
		{"strings with a log", 40000, false, aof("no"), func(p *plant, n int) {
			for ; n > 0; n -= 3 {
				k := p.name("s")
				p.put("set", k, value50)
				p.put("setex", "same", "100", k)
				p.put("del", k)
			}
		}},
		{"deadlines", 30000, true, aof("no"), func(p *plant, n int) {
			for n > 0 {
				for _, k := range p.elems("d", 400) {
					switch p.rng.Intn(5) {
					case 0:
						p.put("setex", k, strconv.Itoa(1+p.rng.Intn(3)), value50)
					case 1:
						p.put("rpush", k, value50, "x")
						p.put("expire", k, "2")
					case 2:
						p.put("sadd", k, value50, "x")
						p.put("expire", k, "2")
					case 3:
						p.put("hset", k, "f", value50)
						p.put("expire", k, "1")
					case 4:
						p.put("zadd", k, "1", value50)
						p.put("expire", k, "3")
						p.put("expire", k, "1")
					}
					n -= 2
				}
				p.flush()
				p.s.page.SetClock(p.s.page.Clock() + 4000)
				for i := 0; i < 8; i++ { // some are reclaimed by the periodic task
					p.do("ping")
					p.s.page.SetClock(p.s.page.Clock() + 150)
				}
				p.do("keys", "*")
			}
		}},
		{"lists", 60000, false, Conf{}, func(p *plant, n int) {
			in, out := "rpush", "lpop"
			size := 0
			for ; n > 0; n -= 2 {
				if p.rng.Intn(3000) == 0 {
					in, out = []string{"rpush", "lpush"}[p.rng.Intn(2)], []string{"lpop", "rpop"}[p.rng.Intn(2)]
				}
				p.put(in, "queue", p.name(value50))
				if size++; size > 300 {
					p.put(out, "queue")
					size--
				}
				if n%64 < 2 {
					k := p.name("l")
					p.put(args("rpush", k, p.elems("e", 30))...)
					for i := 0; i < 30; i++ {
						p.put([]string{"lpop", "rpop"}[i%2], k)
					}
					p.put(args("lpush", k, p.elems("e", 30))...)
					p.put("del", k)
				}
			}
			p.put("del", "queue")
		}},
		{"hashes", 40000, false, Conf{}, func(p *plant, n int) {
			for n > 0 {
				fs := p.elems("f", 100)
				for _, f := range fs {
					p.put("hset", "h", f, value50)
					p.put("hset", "h", f, value50+f)
					p.put("hget", "h", f)
					n -= 2
				}
				p.put("hkeys", "h")
				p.put(args("hdel", "h", fs[:50])...)
				if n%3 == 0 {
					p.put("del", "h")
				}
				for _, f := range fs[50:] {
					p.put("hdel", "h", f)
				}
			}
		}},
		{"sets", 40000, false, Conf{}, func(p *plant, n int) {
			for n > 0 {
				ms := p.elems(value50, 100)
				p.put(args("sadd", "t", ms[:60])...)
				for _, m := range ms {
					p.put("sadd", "t", m)
					n--
				}
				p.put("smembers", "t")
				p.put(args("srem", "t", ms[:30])...)
				for i := 0; i < 30; i++ {
					p.put("spop", "t")
				}
				for _, m := range ms {
					p.put("srem", "t", m)
					n--
				}
			}
		}},
		{"sorted sets", 40000, false, Conf{}, func(p *plant, n int) {
			for n > 0 {
				ms := p.elems(value50, 100)
				for i, m := range ms {
					p.put("zadd", "z", strconv.Itoa(i*7%50), m)
					n--
				}
				for _, m := range ms {
					p.put("zadd", "z", strconv.Itoa(p.rng.Intn(50)), m)
					n--
				}
				p.put("zrange", "z", "0", "100")
				p.put(args("zrem", "z", ms[:20])...)
				p.put("zremrangebyrank", "z", "0", "20")
				p.put("zremrangebyscore", "z", "10", "20")
				p.put("zcount", "z", "-inf", "inf")
				if n%3 == 0 {
					p.put("del", "z")
				}
				p.put("zremrangebyscore", "z", "-inf", "inf")
			}
		}},
		{"reads", 4000, false, Conf{}, func(p *plant, n int) {
			p.put(args("sadd", "ra", p.elems("a", 400))...)
			p.put(args("sadd", "rb", p.elems("a", 200), p.elems("b", 200))...)
			p.put(args("rpush", "rl", p.elems("a", 400))...)
			for i := 0; i < 400; i++ {
				p.put("hset", "rh", strconv.Itoa(i), value50)
				p.put("zadd", "rz", strconv.Itoa(i), strconv.Itoa(i))
			}
			for i := 0; i < n; i++ {
				p.put([][]string{{"sunion", "ra", "rb"}, {"sinter", "ra", "rb"}, {"sdiff", "ra", "rb"}, {"smembers", "ra"}, {"lrange", "rl", "0", "-1"}, {"hkeys", "rh"}, {"zrange", "rz", "0", "400", "withscores"},
					{"zrangebyscore", "rz", "0", "400"}, {"keys", "*"}, {"keys", p.name("r.*")}, {"get", "rl"}, {"lindex", "rl", "333"}, {"randomget"}}[i%13]...)
			}
			p.put("del", "ra", "rb", "rl", "rh", "rz")
		}},
		{"patterns", 3000, false, Conf{}, func(p *plant, n int) {
			p.put("set", "one", "v")
			for i := 0; i < n; i++ {
				p.put("keys", p.name("^o[a-z]e|"))
			}
			p.put("del", "one")
		}},
		{"errors", 40000, false, aof("no"), func(p *plant, n int) {
			p.put("set", "str", "v")
			for i := 0; i < n; i++ {
				p.put([][]string{{"nosuch", p.name("x")}, {"lpush", "str", p.name("x")}, {"hset", p.name("h"), "f"}, {"zadd", p.name("z"), "nan", "m"}, {"setex", p.name("s"), "x", "v"}, {"select", "77"},
					{"expire", p.name("s"), "10"}, {"auth", p.name("x")}, {"get"}, {"lpop", p.name("l")}, {"srem", p.name("t"), "m"}, {"hdel", p.name("h"), "f"}, {"zrem", p.name("z"), "m"}, {"keys", "["}, {"zadd", p.name("z"), "1"}}[i%15]...)
			}
			p.put("del", "str")
		}},
		{"connections", 1600, false, aof("everysec"), func(p *plant, n int) {
			p.put("set", "big", strings.Repeat("b", 300<<10))
			p.flush()
			for i := 0; i < n; i++ {
				c, err := net.DialTimeout("tcp", p.s.addr(), 20*time.Second)
				if err != nil {
					p.s.dead(fmt.Sprintf("%s: connect: %v", p.what, err))
				}
				c.SetDeadline(time.Now().Add(replyTimeout))
				t := c.(*net.TCPConn)
				one := make([]byte, 1)
				switch i % 8 {
				case 0: // nothing at all
				case 1:
					c.Write(encode("ping"))
					c.Read(one)
				case 2: // the middle of a request
					c.Write(encode("set", p.name("k"), value50)[:30])
				case 3: // of a large one
					c.Write([]byte("*3\r\n$3\r\nset\r\n$1\r\nk\r\n$1000000\r\n" + strings.Repeat("x", 60000)))
				case 4: // no reply is read
					for k := 0; k < 30; k++ {
						c.Write(encode("get", "big"))
					}
					c.Read(one)
					t.SetLinger(0)
				case 5: // malformed
					c.Write([]byte("*-7\r\n$x\r\n\r\n"))
					c.Read(one)
				case 6:
					c.Write(encode("set", "small", p.name("v")))
					t.CloseWrite()
					c.Read(one)
				case 7: // reset
					c.Write(encode("lpush", "small list", "v"))
					t.SetLinger(0)
				}
				c.Close()
				if i%50 == 49 {
					p.do("del", "small list", "small", "k")
				}
				p.h.count("connections", 1)
			}
			p.settle(p.base + 8)
			p.put("del", "big", "small list", "small", "k")
		}},
		{"many connections at once", 600, false, Conf{}, func(p *plant, n int) {
			p.put("set", "big", strings.Repeat("b", 100<<10))
			p.flush()
			for n > 0 {
				var cs []net.Conn
				for i := 0; i < 300; i++ {
					c, err := net.DialTimeout("tcp", p.s.addr(), 20*time.Second)
					if err != nil {
						p.s.dead(fmt.Sprintf("%s: connect: %v", p.what, err))
					}
					c.SetDeadline(time.Now().Add(replyTimeout))
					cs = append(cs, c)
					switch i % 3 {
					case 0:
						c.Write([]byte("*3\r\n$3\r\nset\r\n$1\r\nk\r\n$1000000\r\n" + strings.Repeat("x", 50000)))
					case 1:
						for k := 0; k < 8; k++ {
							c.Write(encode("get", "big"))
						}
					case 2:
						c.Write(encode("set", "small", strings.Repeat("s", 60000)))
					}
				}
				p.do("ping")
				for i, c := range cs {
					if i%2 == 0 {
						c.(*net.TCPConn).SetLinger(0)
					}
					c.Close()
				}
				n -= len(cs)
				p.h.count("connections", int64(len(cs)))
				p.settle(p.base + 8)
			}
			p.put("del", "big", "small", "k")
		}},
		{"large values", 24, false, aof("no"), func(p *plant, n int) {
			c := p.s.client()
			defer c.Close()
			for i := 0; i < n; i++ {
				v := strings.Repeat("l", 2<<20+p.rng.Intn(1<<20))
				for _, cmd := range [][]string{{"set", "large", v}, {"hset", "lh", "f", v}, {"lpush", "ll", v}, {"get", "large"}, {"lpop", "ll"}, {"hdel", "lh", "f"}, {"sadd", "lt", v}, {"spop", "lt"}, {"zadd", "lz", "1", v}, {"zremrangebyrank", "lz", "0", "5"}, {"del", "large"}} {
					if rep, err := c.Do(cmd...); err != nil || rep.IsErr() {
						p.s.dead(fmt.Sprintf("%s: %s: %v %v", p.what, cmd[0], rep, err))
					}
				}
			}
		}},
		{"rewrites", 50, false, aof("everysec"), func(p *plant, n int) {
			for _, k := range p.elems("r", 300) {
				p.put("set", k, value50)
				p.put("lpush", "rl", k)
				p.put("zadd", "rz", "1", k)
			}
			for i := 0; i < n; i++ {
				before := inode(p.s.aofPath())
				p.do("bgrewriteaof")
				for end := time.Now().Add(30 * time.Second); inode(p.s.aofPath()) == before; {
					if time.Now().After(end) {
						p.s.h.fail(p.replay(), "%s: BGREWRITEAOF number %d has not replaced the log within 30 s", p.what, i+1)
					}
					p.put("set", "during", p.name("v"))
					p.flush()
				}
				p.h.count("rewrites", 1)
			}
			p.removeAll("r")
			p.put("del", "rl", "rz", "during")
		}},
		{"syncs", 150, true, aof("everysec"), func(p *plant, n int) {
			for i := 0; i < n; i++ {
				p.do("set", "k", p.name("v"))
				p.s.page.SetClock(p.s.page.Clock() + 1100)
				p.do("set", "k2", p.name("v"))
				p.do("ping")
			}
			p.do("del", "k", "k2")
		}},
		{"databases", 20000, false, aof("no"), func(p *plant, n int) {
			for n > 0 {
				p.put("select", strconv.Itoa(p.rng.Intn(16)))
				ks := p.elems("k", 50)
				for _, k := range ks {
					p.put("setex", k, "1000", value50)
					p.put("sadd", k, "x")
					n -= 2
				}
				p.put(args("del", ks)...)
			}
			p.put("select", "0")
		}},
	}
}

// removeAll removes every key that is the prefix and a number.
func (p *plant) removeAll(prefix string) {
	var ks []string
	for _, k := range p.do("keys", "^"+prefix+"[0-9]").A {
		ks = append(ks, k.S)
	}
	if len(ks) > 0 {
		p.put(append([]string{"del"}, ks...)...)
	}
}

func resources(h *H) {
	h.buildPlain()
	h.buildInst()
	kinds := h.churns()
	h.parallel(len(kinds)+len(pinnedKinds)+2+len(largeKinds)+1, 6, func(i int) {
		switch j := i - len(kinds); {
		case j < 0:
			h.churnRun(kinds[i])
		case j < len(pinnedKinds):
			h.pinned(pinnedKinds[j])
		case j == len(pinnedKinds):
			h.emptied()
		case j == len(pinnedKinds)+1:
			h.afterRewrite()
		case j == len(pinnedKinds)+2+len(largeKinds):
			h.waiting()
		default:
			h.afterLarge(largeKinds[j-len(pinnedKinds)-2])
		}
	})
}

func (h *H) churnRun(k churn) {
	bin := h.bins["plain"]
	if k.inst {
		bin = h.bins["inst"]
	}
	p := h.plantFor(k.name, bin, k.conf, k.inst)
	defer p.s.discard()
	n := k.n * h.n(1, 6)
	phase := func(n int) (heap, fds int) {
		p.c.Close()
		p.c = p.s.client()
		k.run(p, n)
		p.flush()
		if rep := p.do("keys", "*"); rep.T != '*' || len(rep.A) > 1 {
			h.fail(p.replay(), "%s: after everything has been removed, KEYS * answers %v", k.name, rep)
		}
		fds = p.settle(p.base)
		return p.live(), fds
	}
	heap0 := p.live()
	idle0 := p.idleAtStart()
	heap1, fds1 := phase(n)
	if heap1 > heap0+5 {
		h.fail(p.replay(), "%s: live heap %d MB at the start, and %d MB after %d operations that have left nothing in the dataset", k.name, heap0, heap1, n)
	}
	heap2, fds2 := phase(3 * n)
	// a second look: what is left behind only once is no leak
	if heap2 > heap1+3 || fds2 > fds1+2 {
		heap3, fds3 := phase(3 * n)
		h.count("phases repeated", 1)
		if heap3 > heap2+3 {
			h.fail(p.replay(), "%s: memory accumulates: live heap %d MB after %d operations, %d MB after %d and %d MB after %d, though the dataset is the same", k.name, heap1, n, heap2, 4*n, heap3, 7*n)
		}
		if fds3 > fds2+2 {
			h.fail(p.replay(), "%s: descriptors accumulate: %d after %d operations, %d after %d and %d after %d", k.name, fds1, n, fds2, 4*n, fds3, 7*n)
		}
	}
	if idle := p.idle(idle0 + idleSlack); idle > idle0+idleSlack {
		h.fail(p.replay(), "%s: the server is not idle without requests: it used %d0 ms of processor time in half a second at the start, and uses %d0 ms after %d operations", k.name, idle0, idle, 4*n)
	}
	if th := p.threads(); th > 120 {
		h.fail(p.replay(), "%s: the server has %d threads after %d operations", k.name, th, 4*n)
	}
	// the runtime lists all goroutines when it is told to quit
	off := p.s.outSize()
	p.s.signal(syscall.SIGQUIT)
	if p.s.waitExit(20 * time.Second) {
		g := strings.Count(p.s.output(off), "\ngoroutine ")
		if g > 60 {
			h.fail(p.replay(), "%s: the server has %d goroutines after %d operations and no client", k.name, g, 4*n)
		}
		h.atLeast("most goroutines at the end", int64(g))
		if g > 0 {
			h.count("goroutine lists read", 1)
		}
	}
	h.eval(true, fmt.Sprintf("%s %d %d %d %d", k.name, n, heap1, heap2, fds2))
	h.sample(map[string]any{"kind": k.name, "operations": 4 * n, "live heap (MB)": []int{heap1, heap2}, "descriptors": []int{fds1, fds2}})
}

// afterRewrite compares the memory a dataset takes up before and after rewrites of its log.
func (h *H) afterRewrite() {
	p := h.plantFor("after rewrites", h.bins["plain"], Conf{AOF: true}, false)
	defer p.s.discard()
	base := p.live()
	val := strings.Repeat("e", 300)
	for i := 0; i < h.n(40000, 160000); i++ {
		k := p.name("k")
		switch i % 40 {
		case 0:
			p.put("rpush", k, val, val)
		default:
			p.put([][]string{{"set", k, val}, {"hset", k, "f", val}, {"sadd", k, val}, {"zadd", k, "1", val}}[i%4]...)
		}
	}
	p.flush()
	full := p.live()
	var after []int
	for r := 0; r < 3; r++ {
		before := inode(p.s.aofPath())
		p.do("bgrewriteaof")
		for k := 0; k < 300; k++ {
			p.put("set", "during", strings.Repeat("d", 20000))
		}
		for end := time.Now().Add(60 * time.Second); inode(p.s.aofPath()) == before; time.Sleep(5 * time.Millisecond) {
			if time.Now().After(end) {
				h.fail(p.replay(), "BGREWRITEAOF has not replaced the log within 60 s")
			}
			p.do("ping")
		}
		p.do("del", "during")
		after = append(after, p.live())
	}
	for _, a := range after {
		if a > full+3+(full-base)/10 {
			h.fail(p.replay(), "the live heap is %d MB before, and %v MB after each of three rewrites of the log, with the same dataset", full, after)
		}
	}
	h.eval(true, fmt.Sprintf("%s %d %v", p.what, full, after))
	h.sample(map[string]any{"kind": p.what, "live heap (MB)": []int{base, full}, "after each rewrite": after})
}

// pinned stores small values that arrive beside large ones and removes the large ones, in one server, and does the same with
// small ones instead of the large ones in another: both then take up the same memory, also after a restart.
func (h *H) pinned(kind string) {
	large := strings.Repeat("L", 12000)
	n := h.n(800, 3000)
	var heaps [2][2]int
	for v, junk := range []string{"J", large} {
		p := h.plantFor("small values that came with large ones: "+kind, h.bins["plain"], Conf{AOF: true}, false)
		func() {
			defer p.s.discard()
			for i := 0; i < n; i++ {
				k := p.name("small")
				switch kind {
				case "hash":
					p.put("hset", k, "f", "v", "large", junk, junk, "l")
					p.put("hdel", k, "large", junk)
				case "list tail":
					p.put("rpush", k, "v", junk)
					p.put("rpop", k)
				case "list head":
					p.put("rpush", k, junk, "v")
					p.put("lpop", k)
				case "set":
					p.put("sadd", k, junk, "v")
					p.put("srem", k, junk)
				case "sorted set":
					p.put("zadd", k, "1", junk, "2", "v")
					p.put([][]string{{"zrem", k, junk}, {"zremrangebyrank", k, "0", "0"}, {"zremrangebyscore", k, "1", "1"}}[i%3]...)
				case "string":
					p.put("set", k, junk)
					p.put("set", k, "v")
					p.put("set", "other", junk)
				case "other type":
					p.put("rpush", k, junk)
					p.put("set", k, "v")
				case "key beside":
					p.put("set", junk+k, "v")
					p.put("set", k, "v")
					p.put("del", junk+k)
				case "queue": // few lists with many elements, of which one is left
					k = "queue" + strconv.Itoa(i*7/n)
					p.put("rpush", k, junk)
					if i > 7 && i%3 == 0 {
						p.put("lpush", k, junk)
						p.put("rpop", k)
					}
				}
			}
			if kind == "queue" {
				for i := 0; i < 7; i++ {
					k := "queue" + strconv.Itoa(i)
					p.put("rpush", k, "v")
					p.put("lpush", k, "w")
					ln := int(p.do("llen", k).I)
					for j := 2; j < ln; j++ {
						if i%2 == 0 {
							p.put("lpop", k)
						} else {
							p.put("rpop", k)
						}
					}
				}
			}
			p.put("del", "other")
			p.flush()
			p.c.Close()
			p.c = p.s.client()
			heaps[v][0] = p.live()
			p.c.Close()
			p.s.kill()
			p.s.mustStart()
			p.c = p.s.client()
			heaps[v][1] = p.live()
		}()
	}
	for k, when := range []string{"", " after a restart"} {
		if heaps[1][k] > heaps[0][k]+2 {
			h.fail(map[string]any{"kind": kind}, "%s: large elements were stored beside small ones (%d times, %d MB in all) and removed again; the live heap is %d MB%s, and %d MB when the removed elements were small ones", kind, n, n*len(large)>>20, heaps[1][k], when, heaps[0][k])
		}
	}
	h.eval(true, fmt.Sprintf("%s %v", kind, heaps))
	h.sample(map[string]any{"kind": kind, "keys": n, "live heap (MB), restarted; with small and large elements removed": heaps})
}

var largeKinds = []string{"idle", "idle with a partial request", "request in one line", "refused", "read"}

// afterLarge lets connections send or read something large, of which nothing is to be left, and does the same with something
// small in another server: both then take up the same memory.
func (h *H) afterLarge(kind string) {
	n := h.n(30, 60)
	size := 2 << 20
	var heaps [2]int
	for v, junk := range []string{"J", strings.Repeat("L", size)} {
		p := h.plantFor("connections after large requests: "+kind, h.bins["plain"], Conf{}, false)
		func() {
			defer p.s.discard()
			if kind == "read" {
				p.do("rpush", "shared", junk)
			}
			for i := 0; i < n; i++ {
				c := p.s.client()
				do := func(raw string) {
					reps, err := c.PipeRaw([][]byte{[]byte(raw)}, 1, nil)
					if err != nil || len(reps) != 1 {
						p.s.dead(fmt.Sprintf("%s: %v %v", p.what, reps, err))
					}
					h.count("requests", 1)
				}
				k := "k" + strconv.Itoa(i)
				switch kind {
				case "refused":
					do(string(encode("nosuch", junk, junk)))
				case "read":
					do(string(encode("lrange", "shared", "0", "-1")))
				default:
					do(string(encode("set", "large", junk)))
				}
				switch kind {
				case "request in one line":
					do("+set " + k + " v\r\n")
					c.Close()
				case "idle with a partial request":
					do(string(encode("get", k)) + "*3\r\n$3\r\nset\r\n$5\r\nab")
					defer c.Close()
				default:
					defer c.Close()
				}
			}
			p.do("del", "large", "shared")
			p.c.Close()
			p.c = p.s.client()
			heaps[v] = p.live()
		}()
	}
	if heaps[1] > heaps[0]+4 {
		h.fail(map[string]any{"kind": kind}, "%s: %d connections have sent or read %d MB each, of which nothing is in the dataset any more; the live heap is %d MB, and %d MB when it was one byte instead", kind, n, size>>20, heaps[1], heaps[0])
	}
	h.eval(true, fmt.Sprintf("after large: %s %v", kind, heaps))
	h.sample(map[string]any{"kind": "after large: " + kind, "connections": n, "live heap (MB), small and large": heaps})
}

// waiting looks at the processor time a server uses while connections in all kinds of states are open and nothing is to be done.
func (h *H) waiting() {
	for _, conf := range []Conf{{}, {AOF: true, Fsync: "everysec", Pass: "secret"}} {
		conf := conf
		p := h.plantBegun("connections that wait", conf)
		func() {
			defer p.s.discard()
			auth := func(c *Client) {
				if conf.Pass != "" {
					if rep, err := c.Do("auth", conf.Pass); err != nil || rep.IsErr() {
						p.s.dead(fmt.Sprintf("%s: AUTH: %v %v", p.what, rep, err))
					}
				}
			}
			auth(p.c)
			idle0 := p.idleAtStart()
			large := strings.Repeat("w", 3<<20)
			p.do("set", "large", large)
			p.do("rpush", "list", value50, value50)
			states := []struct {
				name string
				put  func(c *Client)
			}{
				{"just connected", func(c *Client) {}},
				{"served", func(c *Client) { auth(c); c.Do("get", "large") }},
				{"refused", func(c *Client) { c.Do("nosuch"); c.Do("auth", "x") }},
				{"in the middle of a request", func(c *Client) { auth(c); c.Do("ping"); c.Raw([]byte("*3\r\n$3\r\nset\r\n$9\r\nabc")) }},
				{"in the middle of a length", func(c *Client) { c.Raw([]byte("*")) }},
				{"in the middle of a line", func(c *Client) { c.Raw([]byte("+pin")) }},
				{"not reading its reply", func(c *Client) { auth(c); c.Raw(bytes.Repeat(encode("get", "large"), 4)) }},
				{"not reading many replies", func(c *Client) {
					auth(c)
					for i := 0; i < 20; i++ {
						c.Raw(bytes.Repeat(encode("get", "large"), 2))
						c.Raw(bytes.Repeat(encode("ping"), 100))
					}
				}},
				{"having read its reply late", func(c *Client) {
					auth(c)
					c.Raw(bytes.Repeat(encode("get", "large"), 4))
					time.Sleep(30 * time.Millisecond)
					for i := 0; i < 4; i++ {
						c.Read()
					}
				}},
				{"having read half of its replies", func(c *Client) {
					auth(c)
					c.Raw(bytes.Repeat(encode("get", "large"), 6))
					time.Sleep(30 * time.Millisecond)
					for i := 0; i < 3; i++ {
						c.Read()
					}
				}},
				{"closed for writing", func(c *Client) { auth(c); c.Do("ping"); c.c.(*net.TCPConn).CloseWrite() }},
				{"closed for writing with replies to come", func(c *Client) {
					auth(c)
					c.Raw(bytes.Repeat(encode("get", "large"), 4))
					c.c.(*net.TCPConn).CloseWrite()
				}},
				{"closed with replies to come", func(c *Client) { auth(c); c.Raw(bytes.Repeat(encode("get", "large"), 4)); c.Close() }},
				{"reset", func(c *Client) {
					auth(c)
					c.Raw(bytes.Repeat(encode("get", "large"), 4))
					c.c.(*net.TCPConn).SetLinger(0)
					c.Close()
				}},
				{"ended for a bad request", func(c *Client) { auth(c); c.Raw([]byte("*1\r\n%4\r\nping\r\n")); c.Read() }},
			}
			for _, i := range p.rng.Perm(len(states)) {
				st := states[i]
				for k := 0; k < 3; k++ {
					c := p.s.client()
					defer c.Close()
					st.put(c)
				}
				p.do("ping")
				if idle := p.idle(idle0 + idleSlack); idle > idle0+idleSlack {
					h.fail(p.replay(), "the server is not idle without requests when connections are %s: it used %d0 ms of processor time in half a second at the start, and uses %d0 ms now", st.name, idle0, idle)
				}
				h.eval(true, "waiting: "+st.name)
			}
		}()
	}
}

var pinnedKinds = []string{"hash", "list tail", "list head", "set", "sorted set", "string", "other type", "key beside", "queue"}

// emptied fills the server, removes everything in every way, and looks at what is left.
func (h *H) emptied() {
	for i, way := range []string{"del", "elements", "deadline", "overwrite"} {
		p := h.plantFor("emptied by "+way, h.bins["inst"], Conf{AOF: i%2 == 1}, true)
		func() {
			defer p.s.discard()
			base := p.live()
			n := h.n(20000, 80000)
			val := strings.Repeat("e", 500)
			var ks []string
			for j := 0; j < n; j++ {
				k := p.name("k")
				ks = append(ks, k)
				switch j % 4 {
				case 0:
					p.put("rpush", k, val, val)
				case 1:
					p.put("hset", k, val, val)
				case 2:
					p.put("sadd", k, val, val+"2")
				case 3:
					p.put("zadd", k, "1", val, "2", val+"2")
				}
			}
			p.flush()
			full := p.live()
			if full < base+n*500>>20 {
				giveUp("the live heap after storing %d MB is given as %d MB", n*1000>>20, full)
			}
			for j, k := range ks {
				switch {
				case way == "del":
					p.put("del", k)
				case way == "overwrite":
					p.put("set", k, "")
				case way == "deadline":
					p.put("expire", k, strconv.Itoa(1+j%3))
				case j%4 == 0:
					p.put("lpop", k)
					p.put("rpop", k)
				case j%4 == 1:
					p.put("hdel", k, val)
				case j%4 == 2:
					p.put("spop", k)
					p.put("spop", k)
				case j%4 == 3:
					p.put("zremrangebyscore", k, "1", "1")
					p.put("zrem", k, val+"2")
				}
			}
			p.flush()
			if way == "deadline" {
				p.s.page.SetClock(p.s.page.Clock() + 5000)
				p.do("keys", "*")
			}
			p.c.Close()
			p.c = p.s.client()
			left := p.live()
			// the table may stay as large as it was
			if lim := base + 6 + n*250>>20; left > lim {
				h.fail(p.replay(), "%s: live heap %d MB when empty, %d MB with %d keys, and %d MB after all elements have been removed", p.what, base, full, n, left)
			}
			h.eval(true, fmt.Sprintf("%s %d %d %d", p.what, base, full, left))
			h.sample(map[string]any{"kind": p.what, "keys": n, "live heap (MB)": []int{base, full, left}})
		}()
	}
}

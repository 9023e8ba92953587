package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/anishathalye/porcupine"
)

func init() {
	specs["C18"] = spec{run: concurrent, level: "exploration",
		rule: "histories of several connections (pipelines, reconnections, rewrites and slow system calls beside them) are recorded with call and return times and checked for a linearization against the sequential model which keeps the order within each connection; larger histories of up to 60 connections are checked for conservation: every pushed token is popped at most once, acknowledged list positions are unique and increasing, exactly one of many adders of a member succeeds; in further histories up to 60 connections run long pipelines on keys of their own, so that a model for each determines every reply. A case is one history"}
	specs["C19"] = spec{run: races, level: "exploration",
		rule: "the server built with the race detector runs concurrent clients under every fsync policy, with rewrites (asked for and automatic) while collections of every type are modified, expiring keys, slow system calls, and SIGTERM or SIGINT at random moments; a case is one run, judged by the detector's reports and by the exit status"}
}

// ---- C18

type linOp struct {
	Conn int
	Seq  int
	Args []string
}

type linState struct {
	m    *Model
	sess []Sess
	next []int
	key  string
}

func (s *linState) canon() string {
	if s.key == "" {
		var b strings.Builder
		fmt.Fprint(&b, s.sess, s.next)
		for i, db := range s.m.DBs {
			for _, k := range sortedKeys(db) {
				v := db[k]
				fmt.Fprintf(&b, "%d%q%d%q%q", i, k, v.K, v.Str, v.List)
				l := make([]string, 0, len(v.Hash)+len(v.Set)+len(v.Z))
				for f, x := range v.Hash {
					l = append(l, fmt.Sprintf("%q=%q", f, x))
				}
				for f := range v.Set {
					l = append(l, strconv.Quote(f))
				}
				for f, x := range v.Z {
					l = append(l, fmt.Sprintf("%q:%v", f, x))
				}
				sort.Strings(l)
				fmt.Fprint(&b, l)
			}
		}
		s.key = b.String()
	}
	return s.key
}

func linModel(conns int) porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} {
			return &linState{m: NewModel(2), sess: make([]Sess, conns), next: make([]int, conns)}
		},
		Step: func(state, input, output interface{}) (bool, interface{}) {
			s, op, rep := state.(*linState), input.(linOp), output.(Reply)
			if s.next[op.Conn] != op.Seq {
				return false, s
			}
			n := &linState{m: s.m.clone(), sess: append([]Sess(nil), s.sess...), next: append([]int(nil), s.next...)}
			n.next[op.Conn]++
			if _, ok := n.m.Exec(&n.sess[op.Conn], op.Args, 0, &rep); !ok {
				return false, s
			}
			return true, n
		},
		Equal: func(a, b interface{}) bool { return a.(*linState).canon() == b.(*linState).canon() },
		DescribeOperation: func(in, out interface{}) string {
			return quoteArgs(in.(linOp).Args) + " -> " + out.(Reply).String()
		},
	}
}

// linCommand makes a command on a handful of keys, with values that are unique.
func linCommand(r *rand.Rand, uniq *atomic.Int64) []string {
	v := func() string { return strconv.FormatInt(uniq.Add(1), 10) }
	mem := func() string { return "m" + strconv.Itoa(r.Intn(4)) }
	sk := func() string { return "t" + strconv.Itoa(r.Intn(2)) }
	switch r.Intn(34) {
	case 0, 1:
		return []string{"set", "s" + strconv.Itoa(r.Intn(2)), v()}
	case 2, 3:
		return []string{"get", "s" + strconv.Itoa(r.Intn(2))}
	case 4, 5:
		return []string{"rpush", "l", v()}
	case 6:
		return []string{"lpush", "l", v(), v()}
	case 7, 8:
		return []string{"lpop", "l"}
	case 9:
		return []string{"rpop", "l"}
	case 10:
		return []string{"lrange", "l", "0", "-1"}
	case 11:
		return []string{"llen", "l"}
	case 12, 13:
		return []string{"sadd", sk(), mem(), mem()}
	case 14:
		return []string{"srem", sk(), mem()}
	case 15:
		return []string{"smembers", sk()}
	case 16:
		return []string{"spop", sk()}
	case 17:
		return []string{"sinter", "t0", "t1"}
	case 18:
		return []string{"sdiff", "t0", "t1"}
	case 19:
		return []string{"sunion", "t0", "t1"}
	case 20, 21:
		return []string{"hset", "h", mem(), v()}
	case 22:
		return []string{"hget", "h", mem()}
	case 23:
		return []string{"hdel", "h", mem()}
	case 24, 25:
		return []string{"zadd", "z", strconv.Itoa(r.Intn(5)), mem()}
	case 26:
		return []string{"zrange", "z", "0", "100", "withscores"}
	case 27:
		return []string{"zremrangebyrank", "z", "0", "0"}
	case 28:
		return []string{"zscore", "z", mem()}
	case 29:
		return []string{"del", []string{"l", "h", "z", "t0", "s0"}[r.Intn(5)], []string{"l", "h", "z", "t1", "s1"}[r.Intn(5)]}
	case 30:
		return []string{"keys", "*"}
	case 31:
		return []string{"select", strconv.Itoa(r.Intn(2))}
	case 32:
		return []string{"scard", sk()}
	}
	return []string{"hlen", "h"}
}

func concurrent(h *H) {
	h.buildInst()
	h.parallel(h.n(60, 600), 6, h.linearizable)
	h.parallel(h.n(8, 60), 2, h.conserve)
	h.parallel(h.n(6, 60), 3, h.ownKeys)
}

// ownKeys runs many connections at once, each on keys of its own, so that a model of its own
// determines every reply, however long the pipelines and however large the keyspace.
func (h *H) ownKeys(i int) {
	name := fmt.Sprintf("own-%d", i)
	rng := h.rng(name)
	conf := Conf{DBs: 3, AOF: i%3 != 1, Fsync: fsyncOf(i)}
	s := h.newServer(h.bins["inst"], conf)
	defer s.discard()
	s.instrument(false, []string{"", "w,n,97,s,2,2", "w,n,150,d,1,2"}[i%3])
	s.mustStart()
	workers := []int{8, 24, 60}[i%3]
	per := h.n(40000, 300000) / workers
	var (
		mu  sync.Mutex
		bad string
		det []string
		wg  sync.WaitGroup
	)
	for w := 0; w < workers; w++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(rng.Int63()))
		m := NewModel(conf.DBs)
		m.Slack = realSlack
		g := newGen(r, m, map[string]int{"string": 10, "list": 10, "hash": 10, "set": 10, "zset": 10, "error": 4, "drain": 1, "ping": 3, "select": 3, "around": 6, "biglist": 1, "bighash": 1})
		g.dbs = conf.DBs
		g.own(fmt.Sprintf("w%d:", w))
		for j := 0; j < 800/workers; j++ {
			g.keys["s"] = append(g.keys["s"], fmt.Sprintf("%sk%d", g.prefix, j))
		}
		go func(w int) {
			defer wg.Done()
			sess := &Sess{Authed: true}
			c, err := dial(s.addr())
			if err != nil {
				mu.Lock()
				bad = err.Error()
				mu.Unlock()
				return
			}
			defer func() { c.Close() }()
			for k := 0; k < per; {
				mu.Lock()
				over := bad != ""
				mu.Unlock()
				if over {
					return
				}
				var cmds [][]string
				for n := 1 + r.Intn(30)*r.Intn(2); n > 0; n-- {
					cmds = append(cmds, g.Next(sess)...)
					if r.Intn(12) == 0 {
						cmds = append(cmds, [][]string{g.all(), {"keys", "^" + g.prefix + "k.*[02468]$"}, {"keys", "^" + g.prefix + "[lhtz]"}, {"keys", "["}}[r.Intn(3)])
					}
				}
				reps, err := c.Pipe(cmds)
				for j := range reps {
					if want, ok := m.Exec(sess, cmds[j], realNow(), &reps[j]); !ok {
						mu.Lock()
						if bad == "" {
							bad = fmt.Sprintf("connection %d, which shares no key with the others, in a pipeline of %d: %s: got %s, want %s", w, len(cmds), quoteArgs(cmds[j]), reps[j].String(), want.String())
							for x := max(0, j-40); x <= j; x++ {
								det = append(det, quoteArgs(cmds[x])+" -> "+reps[x].String())
							}
						}
						mu.Unlock()
						return
					}
				}
				if err != nil {
					mu.Lock()
					if bad == "" {
						bad = fmt.Sprintf("connection %d: %v", w, err)
					}
					mu.Unlock()
					return
				}
				h.count("replies judged beside other connections", int64(len(reps)))
				k += len(cmds)
				if r.Intn(30) == 0 {
					c.Close()
					if c, err = dial(s.addr()); err != nil {
						mu.Lock()
						bad = err.Error()
						mu.Unlock()
						return
					}
					sess.DB = 0
				}
				if w == 0 && conf.AOF && r.Intn(10) == 0 {
					c.Do("bgrewriteaof")
				}
			}
		}(w)
	}
	wg.Wait()
	if bad != "" {
		if s.exited() {
			s.dead(bad)
		}
		h.fail(map[string]any{"run": name, "config": s.conf, "pipeline": det}, "%s", bad)
	}
	h.eval(true, fmt.Sprintf("%s %d", name, workers))
}

func (h *H) linearizable(i int) {
	name := fmt.Sprintf("lin-%d", i)
	rng := h.rng(name)
	conf := Conf{DBs: 2, AOF: i%3 != 2, Fsync: fsyncOf(i)}
	s := h.newServer(h.bins["inst"], conf)
	defer s.discard()
	s.instrument(false, []string{"", "", "w,n,3,d,1,1", "w,n,1,s,3,1", "w,a,1,d,1,1"}[i%5])
	s.mustStart()
	base := time.Now()
	clock := func() int64 { return int64(time.Since(base)) }
	for round := 0; round < 6; round++ {
		workers := 2 + rng.Intn(6)
		perWorker := 240 / workers
		var (
			mu    sync.Mutex
			ops   []porcupine.Operation
			conns int
			uniq  atomic.Int64
			wg    sync.WaitGroup
			bad   error
			ready = make(chan struct{})
		)
		ctl := s.client()
		if _, err := ctl.Pipe([][]string{{"select", "0"}, {"del", "s0", "s1", "l", "h", "z", "t0", "t1"}, {"select", "1"}, {"del", "s0", "s1", "l", "h", "z", "t0", "t1"}}); err != nil {
			s.dead("clearing: " + err.Error())
		}
		ctl.Close()
		for w := 0; w < workers; w++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(rng.Int63()))
			go func() {
				defer wg.Done()
				<-ready
				for left := perWorker; left > 0; {
					mu.Lock()
					id := conns
					conns++
					mu.Unlock()
					c, err := dial(s.addr())
					if err != nil {
						mu.Lock()
						bad = err
						mu.Unlock()
						return
					}
					seq := 0
					for life := 1 + r.Intn(40); life > 0 && left > 0; {
						var (
							cmds [][]string
							b    bytes.Buffer
						)
						for k := r.Intn(5) * r.Intn(2); k >= 0; k-- {
							cmd := linCommand(r, &uniq)
							cmds = append(cmds, cmd)
							encodeTo(&b, cmd)
						}
						call := clock()
						err := c.Raw(b.Bytes())
						for _, cmd := range cmds {
							var rep Reply
							if err == nil {
								rep, err = c.Read()
							}
							if err != nil {
								mu.Lock()
								bad = fmt.Errorf("%s: %w", quoteArgs(cmd), err)
								mu.Unlock()
								c.Close()
								return
							}
							mu.Lock()
							ops = append(ops, porcupine.Operation{ClientId: id, Input: linOp{id, seq, cmd}, Call: call, Output: rep, Return: clock()})
							mu.Unlock()
							seq++
							left--
							life--
						}
						if r.Intn(4) == 0 {
							time.Sleep(time.Duration(r.Intn(300)) * time.Microsecond)
						}
					}
					c.Close()
				}
			}()
		}
		var stopRW atomic.Bool
		rw := make(chan struct{})
		go func() {
			defer close(rw)
			if i%2 == 0 && conf.AOF {
				c, err := dial(s.addr())
				if err != nil {
					return
				}
				defer c.Close()
				for !stopRW.Load() {
					if _, err := c.Do("bgrewriteaof"); err != nil {
						return
					}
					time.Sleep(time.Millisecond)
				}
			}
		}()
		close(ready)
		wg.Wait()
		stopRW.Store(true)
		<-rw
		if bad != nil {
			s.dead(bad.Error())
		}
		// porcupine takes client ids below the number of clients as given
		res := porcupine.CheckOperationsTimeout(linModel(conns), ops, 20*time.Second)
		sort.Slice(ops, func(a, b int) bool { return ops[a].Call < ops[b].Call })
		overlap := 0
		for k := 1; k < len(ops); k++ {
			if ops[k].Call < ops[k-1].Return && ops[k].ClientId != ops[k-1].ClientId {
				overlap++
			}
		}
		switch res {
		case porcupine.Illegal:
			var l []string
			for _, o := range ops {
				l = append(l, fmt.Sprintf("conn %d #%d [%d..%d us] %s -> %s", o.ClientId, o.Input.(linOp).Seq, o.Call/1000, o.Return/1000, quoteArgs(o.Input.(linOp).Args), o.Output.(Reply).String()))
			}
			h.fail(map[string]any{"run": name, "config": s.conf, "history": l}, "the replies of %d connections (%d requests) cannot be explained by any sequential execution in an order consistent with real time and the order on each connection", conns, len(ops))
		case porcupine.Unknown:
			h.count("histories not decided within the time limit", 1)
			continue
		}
		h.count("histories with a linearization found", 1)
		h.count("operations in checked histories", int64(len(ops)))
		h.count("connections in checked histories", int64(conns))
		h.count("operations overlapping an operation of another connection", int64(overlap))
		h.eval(overlap > 0, fmt.Sprintf("%s/%d %d %d %v", name, round, len(ops), overlap, hashOps(ops)))
	}
}

func hashOps(ops []porcupine.Operation) string {
	var b strings.Builder
	for _, o := range ops {
		b.WriteString(o.Output.(Reply).String())
	}
	return b.String()
}

// conserve runs many connections which push, pop and claim unique tokens.
func (h *H) conserve(i int) {
	name := fmt.Sprintf("conserve-%d", i)
	rng := h.rng(name)
	s := h.newServer(h.bins["inst"], Conf{AOF: i%2 == 0, Fsync: fsyncOf(i)})
	defer s.discard()
	s.instrument(false, "")
	s.mustStart()
	n := 10 + rng.Intn(50)
	per := h.n(300, 3000)
	var (
		mu      sync.Mutex
		pushed  = map[string]bool{}
		popped  = map[string]int{}
		spopped = map[string]int{}
		sadded  = map[string]int{}
		claims  = map[string]int{}
		posOf   = map[string]int64{}
		bad     string
		wg      sync.WaitGroup
		replies int64
	)
	fail := func(f string, a ...any) {
		mu.Lock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
		mu.Unlock()
	}
	for w := 0; w < n; w++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(rng.Int63()))
		go func(w int) {
			defer wg.Done()
			c, err := dial(s.addr())
			if err != nil {
				fail("connect: %v", err)
				return
			}
			defer c.Close()
			last := int64(0)
			for k := 0; k < per; {
				var cmds [][]string
				for j := r.Intn(8); j >= 0; j-- {
					tok := fmt.Sprintf("%d-%d", w, k)
					k++
					switch r.Intn(7) {
					case 0:
						cmds = append(cmds, []string{"rpush", "q", tok})
					case 1:
						cmds = append(cmds, []string{"lpop", "q"})
					case 2:
						cmds = append(cmds, []string{"rpush", "log", tok})
					case 3:
						cmds = append(cmds, []string{"sadd", "pool", tok})
					case 4:
						cmds = append(cmds, []string{"spop", "pool"})
					case 5:
						cmds = append(cmds, []string{"sadd", "claims", fmt.Sprint(r.Intn(per * 2))})
					default:
						cmds = append(cmds, []string{"zadd", "z", strconv.Itoa(k), tok})
					}
				}
				reps, err := c.Pipe(cmds)
				if err != nil {
					fail("connection %d: %v", w, err)
					return
				}
				mu.Lock()
				for j, rep := range reps {
					a := cmds[j]
					replies++
					ok := true
					switch a[0] + a[1] {
					case "rpushq":
						pushed[a[2]] = true
						ok = rep.T == ':' && rep.I > 0
					case "lpopq":
						ok = rep.T == '$'
						if !rep.Null {
							popped[rep.S]++
						}
					case "rpushlog":
						ok = rep.T == ':' && rep.I > last
						last = rep.I
						posOf[a[2]] = rep.I
					case "saddpool":
						ok = rep.T == ':' && rep.I == 1
						sadded[a[2]]++
					case "spoppool":
						ok = rep.T == '$'
						if !rep.Null {
							spopped[rep.S]++
						}
					case "saddclaims":
						ok = rep.T == ':' && rep.I >= 0 && rep.I <= 1
						claims[a[2]] += int(rep.I)
					case "zaddz":
						ok = rep.T == ':' && rep.I == 1
					}
					if !ok && bad == "" {
						bad = fmt.Sprintf("connection %d: %s: got %v (previous acknowledged length of the log: %d)", w, quoteArgs(a), rep, last)
					}
				}
				mu.Unlock()
			}
		}(w)
	}
	if s.conf.AOF {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := dial(s.addr())
			if err != nil {
				return
			}
			defer c.Close()
			for k := 0; k < 15; k++ {
				c.Do("bgrewriteaof")
				time.Sleep(5 * time.Millisecond)
			}
		}()
	}
	wg.Wait()
	if bad != "" {
		if s.exited() {
			s.dead(bad)
		}
		h.fail(map[string]any{"run": name}, "%s", bad)
	}
	c := s.client()
	get := func(args ...string) []Reply {
		rep, err := c.Do(args...)
		if err != nil || rep.T != '*' {
			h.fail(map[string]any{"run": name}, "%s: %v %v", quoteArgs(args), rep, err)
		}
		return rep.A
	}
	for _, e := range get("lrange", "q", "0", "-1") {
		popped[e.S]++
	}
	for _, e := range get("smembers", "pool") {
		spopped[e.S]++
	}
	oneEach := func(what string, got map[string]int, want func(string) bool, total int) {
		for k, v := range got {
			if v != 1 || !want(k) {
				h.fail(map[string]any{"run": name}, "%s: token %q was added: %v, and popped or left over %d times", what, k, want(k), v)
			}
		}
		if len(got) != total {
			h.fail(map[string]any{"run": name}, "%s: %d tokens were added, %d were popped or are left", what, total, len(got))
		}
	}
	oneEach("list", popped, func(k string) bool { return pushed[k] }, len(pushed))
	oneEach("set", spopped, func(k string) bool { return sadded[k] == 1 }, len(sadded))
	for k, v := range claims {
		if v != 1 {
			h.fail(map[string]any{"run": name}, "set: adding %q was reported as new %d times", k, v)
		}
	}
	l := get("lrange", "log", "0", "-1")
	if len(l) != len(posOf) {
		h.fail(map[string]any{"run": name}, "list: %d pushes acknowledged, %d elements", len(posOf), len(l))
	}
	for k, p := range posOf {
		if int(p) > len(l) || l[p-1].S != k {
			h.fail(map[string]any{"run": name}, "list: the push of %q was acknowledged with length %d, but that element is another one", k, p)
		}
	}
	h.count("replies checked for conservation", replies)
	h.count("tokens checked for conservation", int64(len(pushed)+len(sadded)+len(posOf)+len(claims)))
	h.eval(true, fmt.Sprintf("%s %d %d", name, n, replies))
}

// ---- C19

func races(h *H) {
	h.buildRace()
	h.parallel(h.n(36, 400), 5, func(i int) {
		name := fmt.Sprintf("race-%d", i)
		rng := h.rng(name)
		conf := Conf{AOF: i%6 != 5, Fsync: fsyncOf(i), DBs: 4}
		if i%2 == 0 {
			conf.RewritePct, conf.RewriteMin = 1, "1kb"
		}
		s := h.newServer(h.bins["race"], conf)
		defer s.discard()
		s.env = []string{"GORACE=halt_on_error=0 exitcode=66"}
		// the first start writes a file that the second one loads
		starts := 3
		for st := 0; st < starts; st++ {
			if st == 2 {
				// stop it while it starts or loads
				s.spawn()
				for k := 0; k < 4000; k++ {
					c, err := dial(s.addr())
					if err == nil {
						c.Close()
						break
					}
					time.Sleep(time.Millisecond)
				}
				time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
			} else {
				s.mustStart()
				h.raceLoad(s, rng, time.Duration(h.n(500, 1500))*time.Millisecond, i)
			}
			s.signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[rng.Intn(2)])
			if !s.waitExit(60 * time.Second) {
				h.fail(map[string]any{"run": name, "config": s.conf}, "the server (race detector build) does not end within 60 s after a signal")
			}
			out := s.output(0)
			if k := strings.Index(out, "WARNING: DATA RACE"); k >= 0 {
				rep := out[k:min(len(out), k+4000)]
				h.fail(map[string]any{"run": name, "config": s.conf, "report": rep}, "the race detector reports:\n%s", rep)
			}
			for _, w := range []string{"fatal error: concurrent map", "fatal error:", "panic:", "checkptr:"} {
				if k := strings.Index(out, w); k >= 0 {
					rep := out[k:min(len(out), k+3000)]
					h.fail(map[string]any{"run": name, "config": s.conf, "report": rep}, "the race detector build ends with: %s", rep)
				}
			}
			h.count("runs of the race detector build", 1)
			h.eval(true, fmt.Sprintf("%s/%d %v", name, st, conf))
		}
	})
}

// raceLoad keeps a server busy for a while.
func (h *H) raceLoad(s *Server, rng *rand.Rand, d time.Duration, i int) {
	if i%3 == 0 { // edits of the configuration file
		for k := 0; k < 5; k++ {
			s.edit(rng, filepath.Join(s.dir, "config.toml"), i%2 == 0)
			time.Sleep(3 * time.Millisecond)
		}
	}
	var wg sync.WaitGroup
	deadline := time.Now().Add(d)
	var n atomic.Int64
	for w := 0; w < 5; w++ {
		wg.Add(1)
		r := rand.New(rand.NewSource(rng.Int63()))
		go func(w int) {
			defer wg.Done()
			m := NewModel(4)
			g := newGen(r, m, map[string]int{"string": 10, "list": 14, "hash": 14, "set": 14, "zset": 14, "keyspace": 4, "expire": 14, "select": 4, "biglist": 1, "bighash": 2, "bigset": 2, "bigzset": 2, "error": 2, "drain": 1})
			g.bulkMax = 100
			g.dbs = 3
			for time.Now().Before(deadline) {
				c, err := dial(s.addr())
				if err != nil {
					return
				}
				sess := &Sess{}
				for k := 0; k < 80 && time.Now().Before(deadline); k++ {
					var cmds [][]string
					for j := r.Intn(6); j >= 0; j-- {
						cmds = append(cmds, g.Next(sess)...)
					}
					if r.Intn(6) == 0 { // a short life, so that keys expire under way
						cmds = append(cmds, []string{"setex", "e" + strconv.Itoa(r.Intn(20)), "1", "v"}, []string{"expire", g.anyKey(), "1"}, []string{"expireat", g.anyKey(), "1"})
					}
					reps, err := c.Pipe(cmds)
					n.Add(int64(len(reps)))
					if err != nil {
						break
					}
					for j := range reps {
						m.Exec(sess, cmds[j], realNow(), nil)
					}
				}
				if r.Intn(2) == 0 {
					c.Raw([]byte("*2\r\n$3\r\nget\r\n$100\r\nhalf"))
				}
				c.Close()
			}
		}(w)
	}
	if s.conf.AOF {
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := dial(s.addr())
			if err != nil {
				return
			}
			defer c.Close()
			for time.Now().Before(deadline) {
				if _, err := c.Do("bgrewriteaof"); err != nil {
					return
				}
				time.Sleep(time.Duration(1+i%5) * 3 * time.Millisecond)
			}
		}()
	}
	if i%4 == 1 { // large collections, many keys, many deadlines, large values
		wg.Add(1)
		r := rand.New(rand.NewSource(rng.Int63()))
		go func() {
			defer wg.Done()
			c, err := dial(s.addr())
			if err != nil {
				return
			}
			defer c.Close()
			var cmds [][]string
			for at := 0; at < 12000; at += 3000 {
				l, t, hs, z := []string{"rpush", "LL"}, []string{"sadd", "LT"}, []string{"hset", "LH"}, []string{"zadd", "LZ"}
				for j := at; j < at+3000; j++ {
					x := "x" + strconv.Itoa(j)
					l, t, hs, z = append(l, x), append(t, x), append(hs, x, x), append(z, strconv.Itoa(j%700), x)
					if j%3 == 0 {
						cmds = append(cmds, []string{"setex", "D" + x, strconv.Itoa(1 + j%3), x})
					} else {
						cmds = append(cmds, []string{"set", "K" + x, x})
					}
				}
				cmds = append(cmds, l, t, hs, z)
			}
			if _, err := c.Pipe(cmds); err != nil {
				return
			}
			large := strings.Repeat("x", 3<<20)
			for time.Now().Before(deadline.Add(700 * time.Millisecond)) {
				all := [][]string{{"keys", "*"}, {"keys", "^K"}, {"lrange", "LL", "0", "-1"}, {"smembers", "LT"}, {"hkeys", "LH"}, {"zrange", "LZ", "0", "20000", "withscores"}, {"zrangebyscore", "LZ", "-inf", "inf"},
					{"sunion", "LT", "LT"}, {"sinter", "LT", "LT"}, {"sdiff", "LT", "LU"}, {"zcount", "LZ", "0", "300"}, {"lindex", "LL", "6000"}, {"set", "LV", large}, {"get", "LV"}, {"randomget"},
					{"zremrangebyrank", "LZ", "0", "20"}, {"zremrangebyscore", "LZ", "600", "601"}, {"lpop", "LL"}, {"spop", "LT"}, {"hset", "LH", "new", "v"}, {"del", "LV"}, {"expire", "LZ", "100"}}
				r.Shuffle(len(all), func(a, b int) { all[a], all[b] = all[b], all[a] })
				reps, err := c.Pipe(all[:6])
				n.Add(int64(len(reps)))
				if err != nil {
					return
				}
			}
			h.count("loads with large collections", 1)
		}()
	}
	// stop in the middle of the load, or just after it
	if i%2 == 0 {
		time.Sleep(d * time.Duration(40+i%50) / 100)
		s.signal([]syscall.Signal{syscall.SIGTERM, syscall.SIGINT}[i/2%2])
	}
	wg.Wait()
	h.count("requests answered by the race detector build", n.Load())
}

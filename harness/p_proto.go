package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	specs["C01"] = spec{run: framing, level: "exploration",
		rule: "streams of well-formed requests cut at every position (and every pair of positions, and at every byte) with a barrier between the segments, arguments around multiples of the read size, long pipelines and many interleaved connections; a case is one request with its reply, distinct by command, arguments and reply"}
	specs["C02"] = spec{run: hostileInput, level: "exploration",
		rule: "malformed streams from a table, mutations of valid streams and every command with random hostile arguments; a case is one stream or command with what became of it, distinct by input; after each group a control connection is served and stored data are compared",
		note: []string{"memory is judged by the peak resident set of the process"}}
	specs["C10"] = spec{run: authentication, level: "exploration",
		rule: "random histories of AUTH attempts and commands in several framings on several connections to a server with a password; a case is one command with its reply; the dataset is compared with the model during the run and after a restart"}
}

// ---- C01

func framingPipelines(rng *rand.Rand) [][][]string {
	k := func(i int) string { return fmt.Sprintf("fk%d", i) }
	return [][][]string{
		{{"set", k(1), ""}, {"get", k(1)}},
		{{"set", "", "\r\n"}, {"GET", ""}},
		{{"set", k(2), "$3\r\nfoo\r\n*1\r\n"}, {"get", k(2)}, {"ping"}},
		{{"rpush", k(3), "", "\r", "\n", "\r\n", "\x00"}, {"lrange", k(3), "0", "-1"}},
		{{"ping"}, {"ping"}, {"ping"}, {"nosuch"}, {"ping"}},
		{{"get", "a\r\nb"}, {"set", "a\r\nb", "-1"}, {"get", "a\r\nb"}},
		{{"hset", k(4), "f", "*3\r\n$3\r\nset", "", ""}, {"hget", k(4), "f"}, {"hget", k(4), ""}},
		{{"set", k(5), strings.Repeat("0123456789", 10)}, {"get", k(5)}, {"set", k(5), "x"}, {"get", k(5)}},
		{{"get"}, {"set", k(6)}, {"set", k(6), "1"}, {"get", k(6), "x"}, {"get", k(6)}},
		{{"lpush", k(7), "1"}, {"lpop", k(7)}, {"lpop", k(7)}, {"sadd", k(8), "", " "}, {"smembers", k(8)}, {"spop", k(8)}, {"scard", k(8)}},
	}
}

func framing(h *H) {
	h.buildPlain()
	type job func()
	var jobs []job
	ctlOf := func(r *Run) (*Client, func()) {
		ctl := r.s.client()
		return ctl, func() {
			if rep, err := ctl.Do("ping"); err != nil || rep.T != '+' {
				r.ioFail(-1, fmt.Errorf("control connection: %v %v", rep, err), []string{"ping"})
			}
		}
	}
	encodeAll := func(r *Run, cmds [][]string, conn int) []byte {
		var b bytes.Buffer
		for _, c := range cmds {
			encodeTo(&b, c)
			r.log.add(conn, c)
		}
		return b.Bytes()
	}
	cutRun := func(r *Run, cmds [][]string, barrier func(), cuts ...int) {
		b := encodeAll(r, cmds, 0)
		var parts [][]byte
		last := 0
		for _, c := range cuts {
			parts = append(parts, b[last:c])
			last = c
		}
		parts = append(parts, b[last:])
		r.log.note(fmt.Sprintf("(the commands above were sent in segments cut at %v)", cuts))
		r.judge(0, cmds, parts, barrier)
		h.count("segmentations", 1)
	}
	np := len(framingPipelines(h.rng("x")))
	for i := 0; i < np; i++ {
		i := i
		jobs = append(jobs, func() {
			rng := h.rng(fmt.Sprintf("cut-%d", i))
			s := h.newServer(h.bins["plain"], Conf{AOF: i%2 == 0}).mustStart()
			defer s.discard()
			r := newRun(h, s, rng, 1)
			_, barrier := ctlOf(r)
			cmds := framingPipelines(rng)[i]
			var all bytes.Buffer
			for _, c := range cmds {
				encodeTo(&all, c)
			}
			n := all.Len()
			for c := 1; c < n; c++ { // every cut
				cutRun(r, cmds, barrier, c)
			}
			pairs := h.n(2500, 40000)
			if pairs > n*n/2 {
				pairs = n * n / 2
			}
			for p := 0; p < pairs; p++ {
				a, b := 1+rng.Intn(n-1), 1+rng.Intn(n-1)
				if a > b {
					a, b = b, a
				}
				if a != b {
					cutRun(r, cmds, barrier, a, b)
				}
			}
			var every []int
			for c := 1; c < n; c++ {
				every = append(every, c)
			}
			cutRun(r, cmds, barrier, every...)
			r.check("after cutting the pipeline everywhere")
			h.sample(map[string]any{"pipeline": fmt.Sprintf("%q", all.String()), "bytes": n, "single cuts": n - 1, "pairs of cuts": pairs})
		})
	}
	// requests around multiples of the read size; many values stay stored while others follow
	for i := 0; i < 4; i++ {
		i := i
		jobs = append(jobs, func() {
			rng := h.rng(fmt.Sprintf("large-%d", i))
			s := h.newServer(h.bins["plain"], Conf{}).mustStart()
			defer s.discard()
			r := newRun(h, s, rng, 2)
			_, barrier := ctlOf(r)
			g := newGen(rng, r.m, nil)
			for n := 0; n < h.n(1500, 12000); n++ {
				base := 4096 * (1 + rng.Intn([]int{2, 4, 16, 50}[rng.Intn(4)]))
				size := base + rng.Intn(81) - 60
				v := g.bytes(size)
				key := fmt.Sprintf("L%d", rng.Intn(60))
				cmds := [][]string{{"set", key, v}}
				for rng.Intn(2) == 0 { // the next request begins near the border too
					cmds = append(cmds, []string{"set", "S" + strconv.Itoa(rng.Intn(50)), g.val()})
				}
				cmds = append(cmds, []string{"get", fmt.Sprintf("L%d", rng.Intn(60))}, []string{"get", "S" + strconv.Itoa(rng.Intn(50))})
				b := encodeAll(r, cmds, n%2)
				var parts [][]byte
				var bar func()
				switch rng.Intn(4) {
				case 0:
					parts = [][]byte{b}
				case 1: // segments of the read size and a little more or less
					d := rng.Intn(9) - 4
					for len(b) > 4096+d {
						parts = append(parts, b[:4096+d])
						b = b[4096+d:]
					}
					parts = append(parts, b)
					bar = barrier
				case 2:
					parts = split(rng, b, 6)
					bar = barrier
				default:
					parts = split(rng, b, 40)
				}
				r.judge(n%2, cmds, parts, bar)
				h.count("large requests", 1)
				if n%100 == 99 {
					r.check("large arguments")
				}
			}
			r.check("large arguments, at the end")
		})
	}
	// very large single arguments
	jobs = append(jobs, func() {
		rng := h.rng("huge")
		s := h.newServer(h.bins["plain"], Conf{AOF: true}).mustStart()
		defer s.discard()
		r := newRun(h, s, rng, 1)
		g := newGen(rng, r.m, nil)
		for n := 0; n < h.n(3, 12); n++ {
			v := g.bytes(1<<20*(1+n%4) + rng.Intn(5000))
			r.batch(0, [][]string{{"set", "huge", v}, {"get", "huge"}, {"rpush", "hugel", v[:len(v)/2], "", v[len(v)/2:]}, {"lrange", "hugel", "0", "-1"}, {"ping"}}, 1+n%20, nil)
			h.count("huge requests", 1)
			if n%4 == 3 {
				r.do(0, "del", "hugel")
			}
		}
		// requests with very many arguments
		for n := 0; n < h.n(3, 8); n++ {
			args := []string{"rpush", "manyargs"}
			for i := 0; i < 20000+rng.Intn(30000); i++ {
				args = append(args, strconv.Itoa(i))
			}
			r.batch(0, [][]string{args, {"llen", "manyargs"}, {"lrange", "manyargs", "0", "-1"}, {"del", "manyargs"}}, 8, nil)
		}
		r.check("huge arguments")
	})
	// the largest requests: many more bytes and arguments than any buffer starts with
	jobs = append(jobs, func() { h.largest() })
	jobs = append(jobs, func() { h.inlineKept() })
	// the shortest requests: as many of them as possible in what the server reads at a time
	for i := 0; i < 2; i++ {
		i := i
		jobs = append(jobs, func() { h.dense(i) })
	}
	// long pipelines
	for i := 0; i < 2; i++ {
		i := i
		jobs = append(jobs, func() {
			rng := h.rng(fmt.Sprintf("pipe-%d", i))
			s := h.newServer(h.bins["plain"], Conf{AOF: i == 1, Fsync: "always"}).mustStart()
			defer s.discard()
			r := newRun(h, s, rng, 1)
			for n := 0; n < h.n(10, 60); n++ {
				g := newGen(rng, r.m, map[string]int{"string": 30, "list": 10, "hash": 10, "error": 3, "ping": 6})
				g.noPop = true
				var cmds [][]string
				for len(cmds) < 1000+rng.Intn(6000) {
					cmds = append(cmds, g.Next(r.sess[0])...)
				}
				r.batch(0, cmds, 1+rng.Intn(60), nil)
				h.count("longest pipelines", 1)
			}
			r.check("long pipelines")
		})
	}
	// many connections, each sending its requests in small pieces between the others' pieces
	for i := 0; i < 2; i++ {
		i := i
		jobs = append(jobs, func() { h.interleave(i) })
	}
	h.parallel(len(jobs), 7, func(i int) { jobs[i]() })
}

// largest sends requests of up to a hundred million bytes and a million arguments.
// inlineKept stores values by requests in one line as well, between others: what is stored must stay as it is.
func (h *H) inlineKept() {
	rng := h.rng("inline")
	s := h.newServer(h.bins["plain"], Conf{DBs: 1}).mustStart()
	defer s.discard()
	r := newRun(h, s, rng, 2)
	word := func() string {
		n := 1 + rng.Intn(30)
		if rng.Intn(12) == 0 {
			n = 1 + rng.Intn(9000)
		}
		b := make([]byte, n)
		for i := range b {
			b[i] = "abcdefghijklmnopqrstuvwxyz0123456789"[rng.Intn(36)]
		}
		return string(b)
	}
	for n := 0; n < h.n(1500, 15000); n++ {
		var (
			cmds [][]string
			b    bytes.Buffer
		)
		for k := 1 + rng.Intn(6); k > 0; k-- {
			i := strconv.Itoa(rng.Intn(40))
			cmd := [][]string{{"set", "s" + i, word()}, {"set", "s" + i, word()}, {"rpush", "l" + i, word(), word()}, {"hset", "h" + i, word(), word()},
				{"sadd", "m" + i, word(), word()}, {"zadd", "z" + i, strconv.Itoa(rng.Intn(9)), word()}, {"set", "s" + word(), word()}, {"lpop", "l" + i}, {"get", "s" + i}}[rng.Intn(9)]
			if rng.Intn(6) == 0 {
				cmd = []string{[]string{"ping", "PING", "get", "nosuch", "x", word()}[rng.Intn(6)]}
			}
			cmds = append(cmds, cmd)
			r.log.add(n%2, cmd)
			if len(cmd) == 1 && rng.Intn(2) == 0 {
				fmt.Fprintf(&b, "$%d\r\n%s\r\n", len(cmd[0]), cmd[0])
				h.count("requests of one bulk string", 1)
			} else if rng.Intn(3) == 0 {
				encodeTo(&b, cmd)
			} else {
				b.WriteString(" " + strings.Join(cmd, " ") + "\r\n")
				h.count("requests in one line", 1)
			}
		}
		r.judge(n%2, cmds, split(rng, b.Bytes(), 1+rng.Intn(4)), nil)
		if n%250 == 249 {
			r.check("requests in one line among others")
		}
	}
	r.check("requests in one line among others")
}

func (h *H) largest() {
	rng := h.rng("largest")
	s := h.newServer(h.bins["plain"], Conf{DBs: 1}).mustStart()
	defer s.discard()
	r := newRun(h, s, rng, 1)
	for _, mb := range []int{20, h.n(140, 500)} {
		v := strings.Repeat(pattern("largest", 1<<20), mb)
		r.batch(0, [][]string{{"set", "largest", v}, {"ping"}, {"get", "largest"}, {"ping"}, {"del", "largest"}}, 1, nil)
		h.atLeast("MB in the largest request", int64(mb))
		debug.FreeOSMemory()
	}
	for _, n := range []int{200_000, 1_000_000 + rng.Intn(48_000)} {
		args := []string{"rpush", "most"}
		for i := 0; i < n; i++ {
			args = append(args, strconv.Itoa(i%1000))
		}
		r.batch(0, [][]string{args, {"llen", "most"}, {"lindex", "most", strconv.Itoa(n - 1)}, {"lrange", "most", "-3", "-1"}, {"del", "most"}}, 1+rng.Intn(20), nil)
		h.atLeast("arguments in the largest request", int64(n))
	}
	r.check("the largest requests")
}

// dense sends pipelines of the shortest requests, which make the most commands for what is read at a time, in one
// piece and in few, and expects every reply without sending anything more.
func (h *H) dense(i int) {
	rng := h.rng(fmt.Sprintf("dense-%d", i))
	s := h.newServer(h.bins["plain"], Conf{DBs: 1, AOF: i%2 == 1}).mustStart()
	defer s.discard()
	r := newRun(h, s, rng, 2)
	short := [][]string{{"x"}, {"get", "a"}, {"del", "a"}, {"ping"}, {"ttl", ""}, {""}, {"set", "a", ""}, {"get", ""}}
	one := func(conn, n, kind, segs int) {
		cmds := make([][]string, n)
		for k := range cmds {
			switch {
			case kind < len(short):
				cmds[k] = short[kind]
			default:
				cmds[k] = short[rng.Intn(len(short))]
			}
		}
		r.batch(conn, cmds, segs, nil)
		h.count("dense pipelines", 1)
	}
	for n := 0; n < h.n(250, 3000); n++ {
		count := 1 + rng.Intn(3000)
		switch rng.Intn(4) {
		case 0: // about a power of two
			count = 1<<(1+rng.Intn(12)) + rng.Intn(3) - 1
		case 1:
			count = 1 + rng.Intn(600)
		}
		one(n%2, count, rng.Intn(12), 1+rng.Intn(3)*rng.Intn(4))
	}
	// lines without a command are shorter still; a request among or behind very many of them is answered all the same
	for n := 0; n < h.n(40, 500); n++ {
		conn := n % 2
		var b strings.Builder
		want := 0
		for k, pings := 0, 1+rng.Intn(3); k < pings; k++ {
			for e := []int{100, 1023, 1024, 1365, 2048, 2700, 4095, 5000, 9000}[rng.Intn(9)] + rng.Intn(3); e > 0; e-- {
				b.WriteString([]string{"\r\n", "\r\n", "x\r\n", "*0\r\n"}[rng.Intn(4)*(n%2)])
			}
			for e := rng.Intn(600) * rng.Intn(2); e > 0; e-- {
				b.WriteString(" ping\r\n")
				want++
			}
			b.WriteString("*1\r\n$4\r\nping\r\n")
			want++
			if rng.Intn(2) == 0 {
				b.WriteString(strings.Repeat("\r\n", rng.Intn(3000)))
			}
		}
		c := r.cl[conn]
		if err := c.Raw([]byte(b.String())); err != nil {
			s.dead("writing: " + err.Error())
		}
		for k := 0; k < want; k++ {
			if rep, err := c.Read(); err != nil || rep.S != "PONG" {
				h.fail(map[string]any{"sent": b.String()}, "%d empty lines and requests in one piece of %d bytes: reply %d of %d is %v (%v)", strings.Count(b.String(), "\n"), b.Len(), k+1, want, rep, err)
			}
		}
		h.count("requests behind many empty lines", int64(want))
	}
	one(0, 60000, 3, 1)
	one(1, 60000, 12, 3)
	r.check("dense pipelines")
}

// interleave: connections own their keys, so the order between connections does not matter.
func (h *H) interleave(i int) {
	rng := h.rng(fmt.Sprintf("interleave-%d", i))
	s := h.newServer(h.bins["plain"], Conf{}).mustStart()
	defer s.discard()
	conns := h.n(60, 300)
	r := newRun(h, s, rng, conns)
	for round := 0; round < h.n(10, 40); round++ {
		cmds := make([][][]string, conns)
		data := make([][]byte, conns)
		total := 0
		for c := range cmds {
			g := newGen(rng, r.m, nil)
			var b bytes.Buffer
			for k := rng.Intn(12); k >= 0; k-- {
				key := fmt.Sprintf("c%d-%d", c, rng.Intn(4))
				var cmd []string
				switch rng.Intn(4) {
				case 0:
					cmd = []string{"get", key}
				case 1:
					cmd = []string{"set", key, g.bytes(rng.Intn(6000))}
				case 2:
					cmd = append([]string{"rpush", "l" + key}, g.val(), g.val())
				default:
					cmd = []string{"lrange", "l" + key, "0", "-1"}
				}
				cmds[c] = append(cmds[c], cmd)
				encodeTo(&b, cmd)
				r.log.add(c, cmd)
			}
			data[c] = b.Bytes()
			total += len(data[c])
		}
		open := rng.Perm(conns)
		for len(open) > 0 {
			j := rng.Intn(len(open))
			c := open[j]
			n := 1 + rng.Intn(len(data[c]))
			if rng.Intn(3) > 0 && n > 5 {
				n = 1 + rng.Intn(5)
			}
			if err := r.cl[c].Raw(data[c][:n]); err != nil {
				r.ioFail(c, err, nil)
			}
			data[c] = data[c][n:]
			h.count("interleaved pieces", 1)
			if len(data[c]) == 0 {
				open = append(open[:j], open[j+1:]...)
			} else if rng.Intn(8) == 0 && len(data[c]) > 60 {
				if err := r.cl[c].Raw(data[c][:len(data[c])-1]); err != nil {
					r.ioFail(c, err, nil)
				}
				data[c] = data[c][len(data[c])-1:]
			}
		}
		for c := range cmds {
			r.judge(c, cmds[c], nil, nil)
		}
	}
	r.check("interleaved connections")
}

// ---- C02

// sentinels stores values of all types under names no hostile stream contains.
type sentinels struct {
	m     *Model
	names map[string]bool
}

func plantSentinels(r *Run, rng *rand.Rand) *sentinels {
	st := &sentinels{m: NewModel(r.s.conf.DBs), names: map[string]bool{}}
	sess := &Sess{}
	c := r.s.client()
	defer c.Close()
	for d := 0; d < 3 && d < r.s.conf.DBs; d++ {
		tok := func() string { return fmt.Sprintf("sentinel-%016x", rng.Uint64()) }
		cmds := [][]string{{"select", strconv.Itoa(d)}, {"set", tok(), tok()},
			{"rpush", tok(), "a", "b", "", tok()}, {"hset", tok(), "f", tok(), "", ""}, {"sadd", tok(), "x", "y", tok()},
			{"zadd", tok(), "1", "x", "1", "y", "-5", tok()}, {"setex", tok(), "100000000", tok()}}
		for _, cmd := range cmds {
			rep, err := c.Do(cmd...)
			if err != nil {
				r.ioFail(-1, err, cmd)
			}
			if w, ok := st.m.Exec(sess, cmd, realNow(), &rep); !ok {
				r.h.fail(r.replay(nil), "%s: %v, want %v", quoteArgs(cmd), rep, w)
			}
		}
	}
	return st
}

// verify reads the planted values back.
func (st *sentinels) verify(r *Run, what string) {
	c, err := dial(r.s.addr())
	if err != nil {
		r.ioFail(-1, err, []string{"(connect)"})
	}
	defer c.Close()
	if r.s.conf.Pass != "" {
		c.Do("auth", r.s.conf.Pass)
	}
	for d, db := range st.m.DBs {
		if len(db) == 0 {
			continue
		}
		cmds := [][]string{{"select", strconv.Itoa(d)}}
		for _, k := range sortedKeys(db) {
			switch db[k].K {
			case KStr:
				cmds = append(cmds, []string{"get", k})
			case KList:
				cmds = append(cmds, []string{"lrange", k, "0", "-1"})
			case KHash:
				cmds = append(cmds, []string{"hkeys", k})
				for f := range db[k].Hash {
					cmds = append(cmds, []string{"hget", k, f})
				}
			case KSet:
				cmds = append(cmds, []string{"smembers", k})
			case KZset:
				cmds = append(cmds, []string{"zrange", k, "0", "100", "withscores"})
			}
		}
		reps, err := c.Pipe(cmds)
		if err != nil {
			r.ioFail(-1, err, []string{what, "(reading stored values back)"})
		}
		sess := &Sess{DB: d}
		for i, rep := range reps {
			rep := rep
			if w, ok := st.m.Exec(sess, cmds[i], realNow(), &rep); !ok {
				r.h.fail(r.replay(nil), "%s: stored data damaged: %s is %s, want %s", what, quoteArgs(cmds[i]), rep.String(), w.String())
			}
		}
	}
	r.h.count("stored values verified", 1)
}

// served requires that a control connection is answered.
func (r *Run) served(ctl *Client, what string) {
	if rep, err := ctl.Do("ping"); err != nil || rep.T != '+' {
		if err == nil {
			err = fmt.Errorf("reply %v", rep)
		}
		r.ioFail(-1, err, []string{what + ", then PING on another connection"})
	}
}

// afterBad reads what the offending connection gets once the server has seen the input: its replies, and whether it was closed.
func afterBad(c *Client) (reps []Reply, closed bool, err error) {
	for {
		c.c.SetReadDeadline(time.Now().Add(3 * time.Second))
		rep, e := readReply(c.r)
		if e != nil {
			var pe protoError
			if errors.As(e, &pe) {
				return reps, false, e
			}
			var ne net.Error
			if errors.As(e, &ne) && ne.Timeout() {
				return reps, false, nil
			}
			return reps, true, nil
		}
		reps = append(reps, rep)
		if rep.IsErr() {
			return reps, false, nil
		}
	}
}

// malformed are streams that break the protocol: the connection must be refused.
var malformed = []string{
	"*-1\r\n", "*-2\r\n$4\r\nping\r\n", "*abc\r\n", "*\r\n", "*1.5\r\n", "*9223372036854775807\r\n", "*9223372036854775808\r\n", "*99999999999999999999\r\n",
	"*1000000000\r\n", "*-9223372036854775808\r\n", "*0x10\r\n", "* 1\r\n$4\r\nping\r\n", "*2147483648\r\n",
	"*1\r\n$-1\r\n", "*1\r\n$-5\r\nhello\r\n", "*1\r\n$abc\r\n", "*1\r\n$\r\n", "*1\r\n$1.5\r\nx\r\n", "*1\r\n$9223372036854775807\r\n", "*1\r\n$18446744073709551615\r\n",
	"*1\r\n$99999999999999999999\r\nx\r\n", "*1\r\n$-9223372036854775808\r\n", "*1\r\n$4294967296\r\n", "*1\r\n$1073741824\r\n",
	"*1\r\nping\r\n", "*1\r\n:4\r\nping\r\n", "*1\r\n+ping\r\n", "*1\r\n*1\r\n$4\r\nping\r\n", "*1\r\n\r\n", "*1\r\n\r\n\r\n",
	"*1\r\n$4\r\npingXX", "*1\r\n$4\r\npingX\r\n", "*1\r\n$3\r\nping\r\n", "*1\r\n$4\r\nping\n\n\n\n", "*1\r\n$0\r\nXX",
	"*2\r\n$3\r\nget\r\n$-1\r\n", "*2\r\n$3\r\nget\r\n$99999999999\r\nx\r\n", "*2\r\n$3\r\nget\r\nfoo\r\n", "*3\r\n$3\r\nset\r\n$1\r\nk\r\n$-3\r\nabc\r\n",
	"$-1\r\n", "$-4\r\nping\r\n", "$abc\r\n", "$\r\n", "$9223372036854775807\r\n", "$99999999999999999999\r\n", "$4294967296\r\n", "$-9223372036854775808\r\n",
}

// benign oddities: whatever the answer, nothing else may happen.
var oddities = []string{
	"", "\r\n", "\r\n\r\n\r\n", "*0\r\n", "*0\r\n*0\r\n*0\r\n", "$0\r\n\r\n", "\r", "\n", "\n\n\n", " \r\n", "  \r\n", "*", "$", "*1", "*1\r", "*1\r\n", "*1\r\n$", "*1\r\n$4\r\nping\r",
	"PING\r\n", "xPING\r\n", "+PING\r\n", "-1\r\n", "+\r\n", ":\r\n", ":1\r\n", "\x00\r\n", "\x00", "\xff\xfe\r\n", "$4\r\nping\r\n", "$1\r\n", "GET / HTTP/1.1\r\nHost: x\r\n\r\n",
	"\x16\x03\x01\x02\x00\x01\x00\x01\xfc\x03\x03", "xset k v\r\n", "xget\r\n", "xget  \r\n", "x  \r\n", "x\r\n", "*1048576\r\n", "*1\r\n$536870912\r\n", "*1\r\n$0\r\n\r\n", "*2\r\n$0\r\n\r\n$0\r\n\r\n",
	"*1\r\n$4\r\nPING\r\n*", "\r\n*1\r\n$4\r\nping\r\n", "*0\r\n*1\r\n$4\r\nping\r\n", "*00001\r\n$000004\r\nping\r\n", "*+1\r\n$+4\r\nping\r\n",
}

func hostileInput(h *H) {
	h.buildPlain()
	variants := []Conf{{AOF: true, DBs: 4}, {DBs: 4}, {DBs: 4, NoAOFName: true}, {AOF: true, DBs: 4, Fsync: "always"}}
	type job struct {
		name string
		conf Conf
		f    func(r *Run, ctl *Client, rng *rand.Rand)
	}
	var jobs []job
	add := func(name string, conf Conf, f func(r *Run, ctl *Client, rng *rand.Rand)) {
		jobs = append(jobs, job{name, conf, f})
	}
	for i, v := range variants[:2] {
		add(fmt.Sprintf("malformed-%d", i), v, h.malformedStreams)
	}
	for i := 0; i < h.n(4, 24); i++ {
		add(fmt.Sprintf("mutated-%d", i), variants[i%4], h.mutatedStreams)
	}
	for i := 0; i < h.n(4, 16); i++ {
		add(fmt.Sprintf("arguments-%d", i), variants[i%4], h.hostileArguments)
	}
	add("lengths", variants[1], h.hugeClaims)
	add("floods", variants[1], h.floods)
	add("disconnects", variants[0], h.abruptEnds)
	add("patterns", variants[1], h.longPatterns)
	add("descriptors", variants[0], h.fewDescriptors)
	h.serviceAfter()
	h.parallel(len(jobs), 6, func(i int) {
		j := jobs[i]
		rng := h.rng(j.name)
		s := h.newServer(h.bins["plain"], j.conf)
		if j.name == "descriptors" {
			s.shell = "ulimit -n 48"
		}
		s.mustStart()
		defer s.discard()
		r := newRun(h, s, rng, 0)
		st := plantSentinels(r, rng)
		ctl := s.client()
		j.f(r, ctl, rng)
		r.served(ctl, "at the end of "+j.name)
		st.verify(r, j.name)
		if j.conf.AOF { // what hostile input left in the log must load
			ctl.Close()
			s.kill()
			if err := s.start(); err != nil {
				h.fail(r.replay(s.outTail()), "after %s: the server does not start from its append only file: %v\n%s", j.name, err, s.outTail())
			}
			st.verify(r, j.name+" and a restart")
		}
	})
}

// serviceAfter: what a small, young server was asked in vain must not slow it down when it grows.
func (h *H) serviceAfter() {
	n := h.n(240_000, 600_000)
	grow := func(prepare func(s *Server, c *Client) []string) (time.Duration, []string) {
		s := h.newServer(h.bins["plain"], Conf{DBs: 2}).mustStart()
		defer s.discard()
		c := s.client()
		hist := prepare(s, c)
		start := time.Now()
		for i := 0; i < n; {
			var cmds [][]string
			for k := 0; k < 500; k++ {
				x := strconv.Itoa(i)
				switch i % 8 {
				default:
					cmds = append(cmds, []string{"set", "g" + x, "v"})
				case 1:
					cmds = append(cmds, []string{"hset", "gh", "f" + x, "v"})
				case 2:
					cmds = append(cmds, []string{"sadd", "gs", "m" + x})
				case 3:
					cmds = append(cmds, []string{"set", "e" + x, "v"}, []string{"expire", "e" + x, "100000"})
				}
				i++
			}
			reps, err := c.Pipe(cmds)
			if err != nil || reps[len(reps)-1].IsErr() {
				s.dead(fmt.Sprintf("growing after %q: %v", tail(hist, 10), err))
			}
			if el := time.Since(start); el > 120*time.Second {
				return el, hist
			}
		}
		return time.Since(start), hist
	}
	fresh, _ := grow(func(*Server, *Client) []string { return nil })
	for kind := 0; kind < 3; kind++ {
		kind := kind
		took, hist := grow(func(s *Server, c *Client) (hist []string) {
			do := func(args ...string) {
				hist = append(hist, quoteArgs(args))
				if _, err := c.Do(args...); err != nil {
					s.dead(quoteArgs(args) + ": " + err.Error())
				}
			}
			if kind > 0 {
				do("set", "g0", "v")
				do("hset", "gh", "f1", "v")
				do("sadd", "gs", "m2", "m6")
				do("sadd", "gs2", "m2")
				do("setex", "e3", "1000", "v")
			}
			for _, p := range []string{"[", "(", "*a[", "a{2,1}", "\\", "(?P<", "[z-a]", "\xff", "x**", "(?!a)", "*", ".*", "g0", ""} {
				do("keys", p)
				if kind == 2 {
					do("keys")
					do("keys", p, p)
				}
			}
			for _, k := range []string{"gh", "gs", "g0", "e3", "none"} {
				for _, name := range []string{"hkeys", "hvals", "hgetall", "smembers", "spop", "srandmember", "scard", "hlen", "lrange", "zrange"} {
					if name == "spop" && kind == 1 {
						continue
					}
					do(name, k)
					do(name, k, "x")
					do(name, k, "0", "-1")
				}
				do("sinter", k, "gs2")
				do("sunion", k, "none", "g0")
				do("sdiff", k, "gs2")
				do("sdiff", "gs", k)
			}
			return hist
		})
		slow := func() bool { return took > 8*fresh+3*time.Second }
		if slow() { // or is it the machine?
			again, _ := grow(func(*Server, *Client) []string { return nil })
			fresh = max(fresh, again)
		}
		if slow() {
			h.fail(map[string]any{"commands before": hist}, "%d writes took %v on a server that had refused some commands when it was small, %v on a new one", n, took, fresh)
		}
		h.atLeast("slowdown of growth after refused commands (per cent)", int64(100*took/fresh))
		h.eval(true, fmt.Sprintf("growth after refusals, kind %d", kind))
	}
}

func (h *H) malformedStreams(r *Run, ctl *Client, rng *rand.Rand) {
	try := func(prefix [][]string, in string, cut int) {
		c, err := dial(r.s.addr())
		if err != nil {
			r.ioFail(-1, err, []string{"(connect)"})
		}
		defer c.Close()
		var b bytes.Buffer
		for _, p := range prefix {
			encodeTo(&b, p)
		}
		r.log.note(fmt.Sprintf("new connection, %d PINGs, then raw %q cut at %d", len(prefix), in, cut))
		full := append(b.Bytes(), in...)
		c.Raw(full[:len(full)-cut])
		if cut > 0 {
			r.served(ctl, fmt.Sprintf("part of the stream %q", in))
			c.Raw(full[len(full)-cut:])
		}
		r.served(ctl, fmt.Sprintf("the stream %q", in))
		h.eval(true, fmt.Sprintf("odd %d %q", len(prefix), in))
	}
	ping := []string{"ping"}
	for _, in := range oddities {
		try(nil, in, 0)
		try([][]string{ping}, in, 0)
		if len(in) > 2 {
			try(nil, in, 1+rng.Intn(len(in)-1))
		}
	}
	h.parallel(len(malformed), 6, func(i int) {
		in := malformed[i]
		ctl := r.s.client()
		defer ctl.Close()
		one := func(prefix [][]string, cut int) {
			c, err := dial(r.s.addr())
			if err != nil {
				r.ioFail(-1, err, []string{"(connect)"})
			}
			defer c.Close()
			var b bytes.Buffer
			for _, p := range prefix {
				encodeTo(&b, p)
			}
			full := append(b.Bytes(), in...)
			c.Raw(full[:len(full)-cut])
			if cut > 0 {
				r.served(ctl, fmt.Sprintf("part of the malformed stream %q", in))
				c.Raw(full[len(full)-cut:])
			}
			r.served(ctl, fmt.Sprintf("the malformed stream %q", in))
			reps, closed, err := afterBad(c)
			if err != nil {
				h.fail(map[string]any{"stream": string(full)}, "after the malformed stream %q: %v", in, err)
			}
			good := 0
			for _, rep := range reps {
				if !rep.IsErr() {
					good++
				}
			}
			if !closed && good == len(reps) {
				h.fail(map[string]any{"stream": string(full)}, "the malformed stream %q (after %d valid requests) is neither answered with an error nor refused: replies %v", in, len(prefix), reps)
			}
			if good > len(prefix) {
				h.fail(map[string]any{"stream": string(full)}, "the malformed stream %q (after %d valid requests) got %d successful replies: %v", in, len(prefix), good, reps)
			}
			h.eval(true, fmt.Sprintf("malformed %d %d %q", len(prefix), cut, in))
			h.count("malformed streams refused", 1)
		}
		one(nil, 0)
		one([][]string{ping, ping}, 0)
		for cut := 1; cut < len(in) && cut < 12; cut++ {
			one(nil, cut)
		}
	})
}

var fuzzSeeds = [][]string{
	{"set", "fz1", "value"}, {"get", "fz1"}, {"setex", "fz2", "100", "v"}, {"expire", "fz1", "100"}, {"expireat", "fz1", "99999999999"}, {"ttl", "fz1"},
	{"keys", "*"}, {"keys", "fz*"}, {"keys", "["}, {"keys", "(("}, {"keys", ""}, {"randomget"}, {"del", "fz1", "fz2"}, {"ping"}, {"select", "3"}, {"auth", "x"}, {"bgrewriteaof"},
	{"hset", "fh", "f", "v", "g", "w"}, {"hget", "fh", "f"}, {"hdel", "fh", "f"}, {"hexists", "fh", "f"}, {"hkeys", "fh"}, {"hlen", "fh"},
	{"lpush", "fl", "a", "b", "c"}, {"rpush", "fl", "d"}, {"lpop", "fl"}, {"rpop", "fl"}, {"llen", "fl"}, {"lindex", "fl", "1"}, {"lrange", "fl", "0", "-1"},
	{"sadd", "fs", "a", "b"}, {"srem", "fs", "a"}, {"scard", "fs"}, {"sismember", "fs", "a"}, {"smembers", "fs"}, {"sdiff", "fs", "ft"}, {"sinter", "fs", "ft"}, {"sunion", "fs", "ft"}, {"spop", "fs"},
	{"zadd", "fz", "1", "a", "2", "b"}, {"zrange", "fz", "0", "-1", "withscores"}, {"zrangebyscore", "fz", "-inf", "inf"}, {"zrem", "fz", "a"}, {"zremrangebyrank", "fz", "0", "1"},
	{"zremrangebyscore", "fz", "0", "1"}, {"zcard", "fz"}, {"zcount", "fz", "0", "5"}, {"zscore", "fz", "a"}, {"set", "fz1", "v", "exat", "99999999999"}, {"set", "fz1", "v", "nx"},
}

var numbers = []string{"0", "-1", "1", "2", "3", "-2", "4096", "65536", "1048576", "1048577", "536870912", "536870913", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296",
	"9223372036854775807", "-9223372036854775808", "9223372036854775808", "18446744073709551615", "99999999999999999999999", "nan", "inf", "-inf", "1e400", "1e9", "0x7f", "1_000", "", " 1", "+5", "1.5", "-0"}

func (h *H) mutatedStreams(r *Run, ctl *Client, rng *rand.Rand) {
	n := h.n(4000, 60000)
	for i := 0; i < n; i++ {
		var b bytes.Buffer
		for k := 1 + rng.Intn(4); k > 0; k-- {
			cmd := append([]string(nil), fuzzSeeds[rng.Intn(len(fuzzSeeds))]...)
			if rng.Intn(3) == 0 && len(cmd) > 1 {
				cmd[1+rng.Intn(len(cmd)-1)] = numbers[rng.Intn(len(numbers))]
			}
			encodeTo(&b, cmd)
		}
		in := b.Bytes()
		for m := rng.Intn(4); m >= 0 && len(in) > 0; m-- {
			p := rng.Intn(len(in))
			switch rng.Intn(9) {
			case 0:
				in[p] = byte(rng.Intn(256))
			case 1:
				in[p] ^= 1 << rng.Intn(8)
			case 2:
				in = append(in[:p], in[p+1:]...)
			case 3:
				q := p + rng.Intn(len(in)-p)
				in = append(in[:p], in[q:]...)
			case 4:
				ins := []string{"\r\n", "\n", "\r", "*", "$", "\x00", "\r\n\r\n", "$-1\r\n", "*-1\r\n", "*0\r\n", "$0\r\n\r\n"}[rng.Intn(11)]
				in = []byte(string(in[:p]) + ins + string(in[p:]))
			case 5:
				q := p + rng.Intn(len(in)-p)
				in = []byte(string(in[:q]) + string(in[p:]))
			case 6:
				in = in[:p]
			case 7: // replace a length
				var at []int
				for j, x := range in {
					if x == '*' || x == '$' {
						at = append(at, j)
					}
				}
				if len(at) > 0 {
					j := at[rng.Intn(len(at))]
					e := j + 1
					for e < len(in) && in[e] != '\r' {
						e++
					}
					in = []byte(string(in[:j+1]) + numbers[rng.Intn(len(numbers))] + string(in[e:]))
				}
			default:
				in = append(in, []byte(numbers[rng.Intn(len(numbers))]+"\r\n")...)
			}
		}
		r.log.note(fmt.Sprintf("raw %q", in))
		c, err := dial(r.s.addr())
		if err != nil {
			r.ioFail(-1, err, []string{"(connect)"})
		}
		for _, p := range split(rng, in, 3) {
			c.Raw(p)
			if rng.Intn(2) == 0 {
				r.served(ctl, fmt.Sprintf("the stream %q", in))
			}
		}
		r.served(ctl, fmt.Sprintf("the stream %q", in))
		// what came back must be well-formed
		if rng.Intn(2) == 0 {
			c.c.(*net.TCPConn).CloseWrite()
			for {
				c.c.SetReadDeadline(time.Now().Add(20 * time.Second))
				if _, err := readReply(c.r); err != nil {
					var pe protoError
					if errors.As(err, &pe) || errors.Is(err, io.ErrUnexpectedEOF) && false {
						h.fail(r.replay(string(in)), "malformed reply to the stream %q: %v", in, err)
					}
					break
				}
			}
		}
		c.Close()
		h.eval(true, string(in))
		h.count("mutated streams", 1)
	}
}

// hostileArguments calls every command with arguments of all sorts; each call gets exactly one reply.
func (h *H) hostileArguments(r *Run, ctl *Client, rng *rand.Rand) {
	c := r.s.client()
	setup := [][]string{{"set", "kstr", "v"}, {"rpush", "klist", "a", "b", "c"}, {"hset", "khash", "f", "v"}, {"sadd", "kset", "a", "b", "c"}, {"zadd", "kzset", "1", "a", "2", "b", "2", "c"}, {"setex", "kexp", "1000000", "v"}}
	big := strings.Repeat("x", 70000)
	pool := append([]string{"kstr", "klist", "khash", "kset", "kzset", "kexp", "kmissing", "*", "a", "b", "f", "withscores", "(1", "[1", "(((((", "a{1000}{1000}", "\\", "[a-", "?", "*?*?*?*?*?*?*?*?*b", "nx", "xx", "ex", "px", "exat", "pxat", "keepttl", "get", big}, numbers...)
	pool = append(pool, hostile...)
	names := append([]string(nil), commandNames...)
	keyOf := map[byte]string{'h': "khash", 'l': "klist", 'r': "klist", 's': "kset", 'z': "kzset"}
	n := h.n(40000, 600000)
	batch := 60
	for done := 0; done < n; {
		var cmds [][]string
		cmds = append(cmds, setup...)
		for len(cmds) < batch {
			name := names[rng.Intn(len(names))]
			if name == "auth" && r.s.conf.Pass != "" || name == "bgrewriteaof" && rng.Intn(10) > 0 {
				continue
			}
			if name == "select" && rng.Intn(3) > 0 {
				continue
			}
			args := []string{name}
			ar := arity[name]
			k := rng.Intn(6)
			if rng.Intn(4) > 0 {
				if ar > 0 {
					k = ar - 1
				} else {
					k = -ar - 1 + rng.Intn(3)
				}
			}
			for i := 0; i < k; i++ {
				x := pool[rng.Intn(len(pool))]
				if i == 0 && rng.Intn(2) == 0 {
					if kk, ok := keyOf[name[0]]; ok {
						x = kk
					}
				}
				if len(x) > 1000 && rng.Intn(4) > 0 {
					x = "a"
				}
				args = append(args, x)
			}
			if rng.Intn(10) == 0 {
				args[0] = strings.ToUpper(args[0])
			}
			cmds = append(cmds, args)
		}
		for _, cmd := range cmds {
			r.log.add(0, cmd)
		}
		tag := fmt.Sprintf("end%d", rng.Int63())
		cmds = append(cmds, []string{"select", "0"}, []string{"set", "ktag", tag}, []string{"get", "ktag"})
		reps, err := c.Pipe(cmds)
		if err != nil {
			r.ioFail(0, err, cmds[min(len(reps), len(cmds)-1)])
		}
		if last := reps[len(reps)-1]; last.S != tag {
			h.fail(r.replay(nil), "requests and replies do not correspond: the last of %d replies is %v, want %q", len(reps), last, tag)
		}
		for i, rep := range reps {
			h.eval(true, quoteArgs(cmds[i])+"="+clip(rep.String()))
		}
		done += len(cmds)
		h.count("hostile commands", int64(len(cmds)))
		if done%2000 < batch {
			r.served(ctl, "hostile arguments")
		}
	}
	c.Close()
}

// peak returns the high-water mark of the resident memory in kB.
func (r *Run) peak() int64 { return r.s.memKB("VmHWM") }

// hugeClaims: announced sizes far beyond what is sent must not be allocated.
func (h *H) hugeClaims(r *Run, ctl *Client, rng *rand.Rand) {
	base, mapped := r.peak(), r.s.memKB("VmData")
	var conns []*Client
	sent := int64(0)
	memory := func(what string) {
		if p := r.peak(); p-base > 96<<10 {
			h.fail(r.replay(nil), "after %d bytes of requests announcing huge lengths (%s) the peak memory grew from %d kB to %d kB", sent, what, base, p)
		}
		if p := r.s.memKB("VmData"); p-mapped > 224<<10 {
			h.fail(r.replay(nil), "after %d bytes of requests announcing huge lengths (%s) the memory allocated grew from %d kB to %d kB", sent, what, mapped, p)
		} else {
			h.atLeast("kB of data mapped beyond the start by huge announced lengths", p-mapped)
		}
	}
	raw := func(in string) {
		c, err := dial(r.s.addr())
		if err != nil {
			r.ioFail(-1, err, []string{"(connect)"})
		}
		r.log.note(fmt.Sprintf("raw %q", clip(in)))
		c.Raw([]byte(in))
		sent += int64(len(in))
		conns = append(conns, c)
	}
	for _, n := range []string{"536870912", "536870000", "400000000", "100000000", "1000000000", "4000000000", "9223372036854775807"} {
		for i := 0; i < 4; i++ {
			raw("*2\r\n$3\r\nget\r\n$" + n + "\r\nabc")
			raw("$" + n + "\r\nabc")
			raw("*" + n + "\r\n$3\r\nget\r\n")
		}
	}
	for _, n := range []string{"1048576", "1048575", "1000000", "2000000", "16777216", "134217728"} {
		for i := 0; i < 8; i++ {
			raw("*" + n + "\r\n$3\r\nget\r\n$1\r\na")
		}
	}
	r.served(ctl, "huge announced lengths")
	memory("first part")
	// the rest comes in small pieces, read one by one
	for k, part := range []string{"d", "efgh", "ijklmnop"} {
		for i, c := range conns {
			if k > 0 && i%4 != 0 {
				continue
			}
			r.log.note(fmt.Sprintf("raw %q on the same connection", part))
			c.Raw([]byte(part))
			sent += int64(len(part))
			if i%4 == 0 {
				r.served(ctl, "huge announced lengths, continued")
				memory("continued")
			}
		}
	}
	r.served(ctl, "huge announced lengths")
	memory("continued")
	// commands whose numbers announce more than there is
	cmds := [][]string{{"rpush", "hl", "a", "b"}, {"zadd", "hz", "1", "a", "2", "b"}}
	for _, x := range []string{"9223372036854775807", "9223372036854775806", "4611686018427387904", "1000000000", "100000000"} {
		for _, y := range []string{"9223372036854775807", "1000000001", "4611686018427387905"} {
			cmds = append(cmds, []string{"lrange", "hl", "0", y}, []string{"lrange", "hl", x, y}, []string{"zrange", "hz", "0", y}, []string{"zrange", "hz", x, y},
				[]string{"zrange", "hz", "1", y, "withscores"}, []string{"lindex", "hl", x}, []string{"zremrangebyrank", "hz", x, y}, []string{"lrange", "hl", "1", y}, []string{"zrange", "hz", y, x},
				[]string{"lrange", "hl", "-" + x, y}, []string{"lrange", "hl", "-" + x, "-" + y})
		}
	}
	for _, cmd := range cmds {
		r.log.add(0, cmd)
		if rep, err := ctl.Do(cmd...); err != nil {
			r.ioFail(0, err, cmd)
		} else {
			h.eval(true, quoteArgs(cmd)+rep.String())
		}
	}
	memory("and huge indexes")
	h.count("huge announced lengths", int64(len(conns)+len(cmds)))
	for _, c := range conns {
		c.Close()
	}
	r.served(ctl, "closing the connections")
}

// floods: lots of bytes that never make a request, lots of connections with a part of one.
func (h *H) floods(r *Run, ctl *Client, rng *rand.Rand) {
	base := r.peak()
	// endless lines
	for i, in := range []string{"x", "*", "$", "*1", "$1", "*1\r\n$", "*1\r\n$1", "*1\r\nx", "\x00", "*1\r\n"} {
		c, err := dial(r.s.addr())
		if err != nil {
			r.ioFail(-1, err, []string{"(connect)"})
		}
		fill := []byte(strings.Repeat([]string{"1", "\x00", "x"}[i%3], 64<<10))
		c.Raw([]byte(in))
		total := 0
		for total < h.n(24, 200)<<20 {
			c.c.SetWriteDeadline(time.Now().Add(20 * time.Second))
			n, err := c.c.Write(fill)
			total += n
			if err != nil {
				break
			}
		}
		r.log.note(fmt.Sprintf("%q and then %d bytes without a line end", in, total))
		if total >= h.n(24, 200)<<20 {
			h.fail(r.replay(nil), "%q followed by %d bytes without a line end is still being read", in, total)
		}
		c.Close()
		r.served(ctl, "an endless line")
		h.eval(true, "endless "+in)
	}
	if p := r.peak(); p-base > 96<<10 {
		h.fail(r.replay(nil), "endless lines grew the peak memory from %d kB to %d kB", base, p)
	}
	// lots of connections
	base = r.peak()
	var conns []*Client
	n := h.n(1500, 6000)
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
	if lim.Cur < uint64(2*n+200) {
		n = int(lim.Cur)/2 - 200
	}
	sent := 0
	for i := 0; i < n; i++ {
		c, err := dial(r.s.addr())
		if err != nil {
			r.ioFail(-1, err, []string{"(connect)"})
		}
		b := encode("set", "fk", strings.Repeat("v", rng.Intn(2000)))
		k := rng.Intn(len(b))
		c.Raw(b[:k])
		sent += k
		conns = append(conns, c)
	}
	r.served(ctl, "many connections")
	if p := r.peak(); p-base > int64(n)*48+96<<10 {
		h.fail(r.replay(nil), "%d connections with %d bytes grew the peak memory from %d kB to %d kB", n, sent, base, p)
	}
	h.count("connections with a partial request", int64(n))
	for _, c := range conns {
		c.Close()
	}
	r.served(ctl, "closing many connections")
	// a stream of empty requests, and of refused ones
	base = r.peak()
	for _, unit := range []string{"\r\n", "*0\r\n", "$0\r\n", " \r\n", "*1\r\n$1\r\nx\r\n"} {
		c, err := dial(r.s.addr())
		if err != nil {
			r.ioFail(-1, err, []string{"(connect)"})
		}
		go io.Copy(io.Discard, c.c)
		b := []byte(strings.Repeat(unit, (256<<10)/len(unit)))
		for i := 0; i < 8; i++ {
			if c.Raw(b) != nil {
				break
			}
		}
		r.served(ctl, fmt.Sprintf("a flood of %q", unit))
		c.Close()
		h.eval(true, "flood "+unit)
	}
}

// longPatterns: the time KEYS takes must not be the length of the pattern times the number of keys many times over.
func (h *H) longPatterns(r *Run, ctl *Client, rng *rand.Rand) {
	c := r.s.client()
	defer c.Close()
	var cmds [][]string
	n := h.n(4000, 10000)
	for i := 0; i < n; i++ {
		cmds = append(cmds, []string{"set", fmt.Sprintf("pk%d", i), "v"})
	}
	if _, err := c.Pipe(cmds); err != nil {
		r.ioFail(0, err, cmds[0])
	}
	var alt []string
	for i := 0; i < 14000; i++ {
		alt = append(alt, fmt.Sprintf("a%d", i))
	}
	long := strings.Join(alt, "|")
	for _, p := range []string{"(" + long + ")", long, strings.Repeat("a", 90000), strings.Repeat("*a", 600), strings.Repeat("?", 900), strings.Repeat("(", 900) + strings.Repeat(")", 900),
		strings.Repeat("[a-z]", 9000), strings.Repeat("(a|", 900), strings.Repeat("\\", 50000), strings.Repeat("[", 50000), strings.Repeat("\xff", 50000)} {
		r.log.note(fmt.Sprintf("KEYS with a pattern of %d bytes (%s) over %d keys", len(p), clip(p), n))
		start := time.Now()
		if err := c.Raw(encode("keys", p)); err != nil {
			r.ioFail(0, err, []string{"keys", clip(p)})
		}
		c.c.SetReadDeadline(time.Now().Add(20 * time.Second))
		if _, err := readReply(c.r); err != nil {
			r.ioFail(0, fmt.Errorf("after %v: %w", time.Since(start), err), []string{"keys", clip(p)})
		}
		r.served(ctl, "a long pattern")
		h.atLeast("longest time of KEYS with a long pattern (ms)", time.Since(start).Milliseconds())
		h.eval(true, "pattern "+clip(p))
	}
	h.count("keys matched against long patterns", int64(n)*11)
}

// fewDescriptors: the server runs out of file descriptors, when connections arrive and when it rewrites its log.
func (h *H) fewDescriptors(r *Run, ctl *Client, rng *rand.Rand) {
	for round := 0; round < h.n(6, 40); round++ {
		var conns []*Client
		more := 20 + rng.Intn(60)
		for i := 0; i < more; i++ { // beyond the limit they wait in the queue of the kernel
			c, err := dial(r.s.addr())
			if err != nil {
				r.ioFail(-1, err, []string{"(connect)"})
			}
			conns = append(conns, c)
			if rng.Intn(2) == 0 {
				c.Raw(encode("rpush", "fdl", strconv.Itoa(i))[:1+rng.Intn(20)])
			}
		}
		r.log.note(fmt.Sprintf("%d connections to a server with 48 descriptors, then rewrites", more))
		r.served(ctl, "more connections than descriptors")
		for k := 0; k < 3; k++ {
			if rep, err := ctl.Do("bgrewriteaof"); err != nil {
				r.ioFail(0, err, []string{"bgrewriteaof"})
			} else {
				h.eval(true, fmt.Sprintf("rewrite with %d connections waiting: %v", more, rep))
			}
			ctl.Do("set", "fdk", strconv.Itoa(round*10+k))
			time.Sleep(time.Duration(rng.Intn(20)) * time.Millisecond)
			r.served(ctl, "a rewrite without descriptors")
		}
		h.atLeast("descriptors in use", int64(len(r.s.fds())))
		for _, i := range rng.Perm(len(conns)) {
			conns[i].Close()
			if rng.Intn(8) == 0 {
				r.served(ctl, "closing some of too many connections")
			}
		}
		// there is room again
		for wait := time.Now(); ; time.Sleep(5 * time.Millisecond) {
			if c, err := dial(r.s.addr()); err == nil {
				c.Raw(encode("ping"))
				c.c.SetReadDeadline(time.Now().Add(2 * time.Second))
				rep, err := readReply(c.r)
				c.Close()
				if err == nil && rep.T == '+' {
					break
				}
			}
			r.served(ctl, "after closing connections")
			if time.Since(wait) > 30*time.Second {
				h.fail(r.replay(r.s.outTail()), "%d connections to a server with few descriptors were closed; 30 s later new connections are still not served", more)
			}
		}
		h.count("connections beyond the descriptors", int64(more))
	}
}

// abruptEnds: connections end in the middle of everything.
func (h *H) abruptEnds(r *Run, ctl *Client, rng *rand.Rand) {
	g := newGen(rng, r.m, nil)
	ctl.Do("set", "abig", strings.Repeat("v", 2<<20))
	for i := 0; i < h.n(600, 5000); i++ {
		c, err := dial(r.s.addr())
		if err != nil {
			r.ioFail(-1, err, []string{"(connect)"})
		}
		var b bytes.Buffer
		for k := rng.Intn(20); k >= 0; k-- {
			switch rng.Intn(4) {
			case 0:
				encodeTo(&b, []string{"get", "abig"})
			case 1:
				encodeTo(&b, []string{"set", "fk", g.val()})
			default:
				encodeTo(&b, []string{"lpush", "fl", g.val()})
			}
		}
		in := b.Bytes()
		if rng.Intn(2) == 0 {
			in = in[:rng.Intn(len(in)+1)]
		}
		c.Raw(in)
		t := c.c.(*net.TCPConn)
		switch rng.Intn(4) {
		case 0: // reset
			t.SetLinger(0)
			t.Close()
		case 1:
			t.CloseWrite()
			c.c.SetReadDeadline(time.Now().Add(10 * time.Millisecond))
			io.CopyN(io.Discard, c.c, int64(rng.Intn(100000)))
			t.SetLinger(0)
			t.Close()
		case 2:
			t.CloseRead()
			r.served(ctl, "a half-closed connection")
			t.Close()
		default:
			c.c.SetReadDeadline(time.Now().Add(time.Duration(rng.Intn(3)) * time.Millisecond))
			io.CopyN(io.Discard, c.c, int64(rng.Intn(100000)))
			t.Close()
		}
		h.eval(true, fmt.Sprintf("abrupt %d %d", i, len(in)))
		if i%10 == 0 {
			r.served(ctl, "connections ending abruptly")
		}
	}
	h.count("abrupt disconnects", int64(h.n(600, 5000)))
	r.served(ctl, "connections ending abruptly")
	deadline := time.Now().Add(20 * time.Second)
	for r.s.socketFds() > 2 {
		if time.Now().After(deadline) {
			h.fail(r.replay(r.s.fds()), "%d sockets are still open in the server after all but one connection ended", r.s.socketFds())
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// ---- C10

func authentication(h *H) {
	h.buildPlain()
	passwords := []string{"secret", "Secret Pass", "p", "пароль-密码", "0", strings.Repeat("long", 300), "tr@iling ", "a\"b\\c'd"}
	h.parallel(h.n(8, 32), 6, func(i int) {
		rng := h.rng(fmt.Sprintf("auth-%d", i))
		pass := passwords[i%len(passwords)]
		s := h.newServer(h.bins["plain"], Conf{Pass: pass, DBs: 3, AOF: i%2 == 0}).mustStart()
		defer s.discard()
		r := newRun(h, s, rng, 1)
		g := newGen(rng, r.m, map[string]int{"string": 20, "list": 8, "hash": 8, "set": 8, "zset": 8, "select": 6, "keyspace": 14, "error": 8, "ping": 5})
		g.dbs = 3
		secret := fmt.Sprintf("TOKEN%016x", rng.Uint64())
		var plant [][]string
		for d := 0; d < 3; d++ {
			plant = append(plant, []string{"select", strconv.Itoa(d)}, []string{"set", g.keys["s"][0], secret}, []string{"rpush", g.keys["l"][0], secret, secret}, []string{"hset", g.keys["h"][0], secret, secret},
				[]string{"sadd", g.keys["t"][0], secret}, []string{"zadd", g.keys["z"][0], "1", secret}, []string{"set", secret, secret})
		}
		r.batch(0, plant, 1, nil)
		anon := func() int {
			c, err := dial(s.addr())
			if err != nil {
				s.dead("connect: " + err.Error())
			}
			r.cl = append(r.cl, c)
			r.sess = append(r.sess, &Sess{})
			return len(r.cl) - 1
		}
		for k := 0; k < 5; k++ {
			anon()
		}
		wrong := func() string {
			l := []string{"", " ", pass + " ", " " + pass, pass + "\x00", pass + pass, pass[:len(pass)-1], pass[1:], strings.ToUpper(pass) + "!", strings.ToLower(pass) + "x", pass + "\r\n", "\x00", "x", "*", ".*", secret}
			if u := strings.ToUpper(pass); u != pass {
				l = append(l, u)
			}
			if u := strings.ToLower(pass); u != pass {
				l = append(l, u)
			}
			return l[rng.Intn(len(l))]
		}
		attempt := func() []string {
			name := []string{"auth", "AUTH", "Auth"}[rng.Intn(3)]
			if rng.Intn(4) == 0 {
				return []string{name, pass}
			}
			return []string{name, wrong()}
		}
		leak := func(conn int, reps []Reply, cmds [][]string, before bool) {
			for j, rep := range reps {
				if strings.Contains(rep.String(), secret) && before {
					h.fail(r.replay(nil), "a connection that has not authenticated got stored data: %s: %s", quoteArgs(cmds[j]), rep.String())
				}
			}
		}
		for n := 0; n < h.n(12000, 60000); {
			conn := rng.Intn(len(r.cl))
			if rng.Intn(25) == 0 && conn > 0 { // descriptors are reused
				r.endConnection(conn, pass)
				c, err := dial(s.addr())
				if err != nil {
					s.dead("connect: " + err.Error())
				}
				r.cl[conn], r.sess[conn] = c, &Sess{}
				h.count("reconnects", 1)
			}
			if !r.sess[conn].Authed && rng.Intn(12) == 0 {
				h.anonymousRaw(r, conn, rng, secret)
				c, err := dial(s.addr())
				if err != nil {
					s.dead("connect: " + err.Error())
				}
				r.cl[conn].Close()
				r.cl[conn], r.sess[conn] = c, &Sess{}
				continue
			}
			var cmds [][]string
			for k := 1 + rng.Intn(8); k > 0; k-- {
				if rng.Intn(6) == 0 {
					a := attempt()
					cmds = append(cmds, a)
					continue
				}
				next := g.Next(&Sess{DB: r.sess[conn].DB})
				for _, c := range next {
					if rng.Intn(8) == 0 {
						c[0] = strings.ToUpper(c[0])
					}
					if len(c) == 1 && strings.EqualFold(c[0], "auth") {
						continue
					}
					cmds = append(cmds, c)
				}
			}
			hasRight := r.sess[conn].Authed
			for _, c := range cmds {
				if len(c) == 2 && c[1] == pass {
					hasRight = true
				}
			}
			reps := r.batch(conn, cmds, 1+rng.Intn(3), nil)
			leak(conn, reps, cmds, !hasRight)
			for _, rep := range reps {
				if rep.IsErr() {
					h.count("commands refused", 1)
				} else {
					h.count("commands served", 1)
				}
			}
			n += len(cmds)
			if rng.Intn(60) == 0 {
				r.check("authentication")
			}
		}
		r.check("authentication, at the end")
		if s.conf.AOF {
			s.kill()
			s.mustStart()
			r.m.restarted()
			r.connect(1)
			r.check("authentication, after a restart")
			c, _ := dial(s.addr())
			if rep, err := c.Do("keys", "*"); err != nil || !rep.IsErr() {
				h.fail(r.replay(nil), "KEYS without AUTH after a restart: %v %v", rep, err)
			}
		}
		h.sample(map[string]any{"password": clip(pass), "last commands": tail(r.log.ops, 5)})
	})
	h.parallel(h.n(8, 24), 6, func(i int) { h.nearPasswords(i) })
	// every command, alone, unauthenticated
	s := h.newServer(h.bins["plain"], Conf{Pass: "every", DBs: 2}).mustStart()
	defer s.discard()
	c, _ := dial(s.addr())
	for _, name := range commandNames {
		if name == "auth" {
			continue
		}
		for n := 0; n < 5; n++ {
			for _, v := range []string{name, strings.ToUpper(name), strings.Title(name)} {
				args := append([]string{v}, []string{"k", "1", "k", "1"}[:n]...)
				rep, err := c.Do(args...)
				if err != nil || !rep.IsErr() {
					h.fail(map[string]any{"command": args}, "%s without AUTH: %v %v", quoteArgs(args), rep, err)
				}
				h.eval(true, "unauth "+quoteArgs(args))
			}
		}
	}
	ctl := s.client()
	if rep, err := ctl.Do("keys", "*"); err != nil || len(rep.A) != 0 {
		h.fail(nil, "commands without AUTH left keys behind: %v %v", rep, err)
	}
	// without a password everything is served
	s2 := h.newServer(h.bins["plain"], Conf{DBs: 2}).mustStart()
	defer s2.discard()
	r := newRun(h, s2, h.rng("open"), 1)
	for _, cmd := range [][]string{{"set", "k", "v"}, {"get", "k"}, {"auth", "whatever"}, {"get", "k"}, {"auth"}, {"get", "k"}, {"auth", ""}, {"get", "k"}} {
		r.do(0, cmd...)
	}
}

// nearPasswords: a connection that tries everything close to a password, of any length, stays out.
func (h *H) nearPasswords(i int) {
	rng := h.rng(fmt.Sprintf("near-%d", i))
	n := []int{1, 64, 65, 72, 73, 128, 256, 257, 16, 32, 33, 127, 255, 1024, 2000, 4096}[i%16]
	if i >= 16 {
		n = 1 + rng.Intn(3000)
	}
	b := make([]byte, n)
	for k := range b {
		b[k] = "abcdefghijkmnpqrstuvwxyzABCDEFGHIJKMNPQRSTUVWXYZ"[rng.Intn(48)]
	}
	pass := string(b)
	s := h.newServer(h.bins["plain"], Conf{Pass: pass, AOF: i%2 == 0}).mustStart()
	defer s.discard()
	var try []string
	for k := 0; k < n; k++ {
		if n > 300 && k%8 != i%8 && k != n-1 {
			continue
		}
		c := []byte(pass)
		c[k] ^= []byte{1, 32, 128, 255}[rng.Intn(4)]
		try = append(try, string(c), pass[:k])
		if k > 0 {
			try = append(try, pass[k:])
		}
	}
	for k := 1; k < 40; k++ {
		try = append(try, pass+strings.Repeat("x", k), pass+strings.Repeat("\x00", k), pass[:n-1]+strings.Repeat("\x00", k))
	}
	try = append(try, strings.ToUpper(pass)+"!", pass+pass, strings.Repeat(pass[:1], n+1), strings.Repeat("\x00", n), "*"+strings.Repeat("?", n), "", strconv.Itoa(n))
	rng.Shuffle(len(try), func(a, b int) { try[a], try[b] = try[b], try[a] })
	c, err := dial(s.addr())
	if err != nil {
		s.dead("connect: " + err.Error())
	}
	for len(try) > 0 {
		k := min(len(try), 1+rng.Intn(20))
		var cmds [][]string
		for _, p := range try[:k] {
			cmds = append(cmds, []string{"auth", p}, []string{"set", "k", "v"})
		}
		try = try[k:]
		reps, err := c.Pipe(cmds)
		if err != nil {
			s.dead(fmt.Sprintf("AUTH with something close to the password: %v", err))
		}
		for j, rep := range reps {
			if !rep.IsErr() {
				h.fail(map[string]any{"password": pass, "sent": cmds[j]}, "a connection that never sent the password of %d bytes: %s: %v", n, clip(quoteArgs(cmds[j])), rep)
			}
			h.eval(true, "near "+cmds[j][1])
		}
	}
	for _, cmd := range [][]string{{"auth", pass}, {"get", "k"}, {"keys", "*"}} {
		rep, err := c.Do(cmd...)
		if err != nil || rep.IsErr() || rep.T == '$' && !rep.Null || len(rep.A) > 0 {
			h.fail(map[string]any{"password": pass}, "after many refused attempts, with a password of %d bytes: %s: %v %v", n, clip(quoteArgs(cmd)), rep, err)
		}
	}
	h.count("attempts with something close to the password", int64(n))
}

// endConnection ends a connection, which may have authenticated, in one of the ways a connection can end.
func (r *Run) endConnection(conn int, pass string) {
	rng, c := r.rng, r.cl[conn]
	if rng.Intn(2) == 0 {
		r.do(conn, "auth", pass)
	}
	way := rng.Intn(8)
	r.log.note(fmt.Sprintf("c%d ends, way %d", conn, way))
	r.h.count(fmt.Sprintf("connections ended in way %d", way), 1)
	switch way {
	case 0, 1:
	case 2: // reset
		c.c.(*net.TCPConn).SetLinger(0)
	case 3: // the server ends it
		c.Raw([]byte([]string{"*1\r\n!4\r\nping\r\n", "*x\r\n", "*1\r\n$-5\r\n", "*99999999999\r\n", "*1\r\n$4\r\npingXX"}[rng.Intn(5)]))
		c.c.(*net.TCPConn).CloseWrite()
		c.c.SetReadDeadline(time.Now().Add(replyTimeout))
		io.Copy(io.Discard, c.c)
	case 4: // authenticated and ended by the server in one go
		c.Raw(append(encode("auth", pass), "*1\r\n!4\r\n"...))
		c.c.(*net.TCPConn).CloseWrite()
		c.c.SetReadDeadline(time.Now().Add(replyTimeout))
		io.Copy(io.Discard, c.c)
	case 5: // half closed
		c.c.(*net.TCPConn).CloseWrite()
		c.c.SetReadDeadline(time.Now().Add(replyTimeout))
		io.Copy(io.Discard, c.c)
	case 6: // in the middle of a request
		c.Raw([]byte("*2\r\n$4\r\nauth\r\n$5\r\nab"))
	case 7: // with replies that are never read, then reset
		for i := 0; i < 50; i++ {
			c.Raw(encode("keys", "*"))
		}
		c.c.(*net.TCPConn).SetLinger(0)
	}
	c.Close()
	if rng.Intn(4) > 0 { // let the server notice
		ctl := r.s.client()
		r.served(ctl, "the end of a connection")
		ctl.Close()
		time.Sleep(time.Duration(rng.Intn(3)) * time.Millisecond)
	}
}

// anonymousRaw sends commands in other framings (inline, single bulk) without authentication.
func (h *H) anonymousRaw(r *Run, conn int, rng *rand.Rand, secret string) {
	in := []string{
		"xget s0\r\n", "xkeys *\r\n", "xset s0 hacked\r\n", "get s0\r\n", "keys *\r\n", "$4\r\nping\r\n", "$9\r\nrandomget\r\n", "xrandomget\r\n", "xauth wrong\r\nxget s0\r\n",
		"xlpop l0\r\n", "xspop t0\r\n", " set s0 hacked\r\n", "+del s0\r\n", "*1\r\n$9\r\nRANDOMGET\r\n", "*2\r\n$4\r\nKEYS\r\n$1\r\n*\r\n", "*0\r\n*2\r\n$4\r\nkeys\r\n$1\r\n*\r\n", "\r\nxkeys *\r\n",
		"xdel s0 l0 h0 t0 z0\r\n", "xexpire s0 -1\r\n", "xping\r\n",
	}[rng.Intn(20)]
	r.log.note(fmt.Sprintf("c%d (not authenticated) raw %q", conn, in))
	c := r.cl[conn]
	c.Raw([]byte(in))
	ctl := r.s.client()
	r.served(ctl, "an unauthenticated stream")
	ctl.Close()
	c.c.(*net.TCPConn).CloseWrite()
	c.c.SetReadDeadline(time.Now().Add(20 * time.Second))
	b, _ := io.ReadAll(c.r)
	if bytes.Contains(b, []byte(secret)) {
		h.fail(r.replay(string(b)), "the unauthenticated stream %q got stored data: %q", in, clip(string(b)))
	}
	for _, line := range strings.Split(string(b), "\r\n") {
		if line != "" && line[0] != '-' {
			h.fail(r.replay(string(b)), "the unauthenticated stream %q got a reply that is no error: %q", in, clip(string(b)))
		}
	}
	h.eval(true, "raw "+in)
	h.count("unauthenticated raw streams", 1)
}

var _ = os.Args

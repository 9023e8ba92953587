package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

func init() {
	specs["C25"] = spec{run: delivery, level: "exploration",
		rule: "many connections at once, with replies from nothing to megabytes, readers which are fast, slow, stalled, disconnect or reset at any moment, short and interrupted socket calls on the side of the server, and descriptors that are reused at once; every connection checks its byte stream against the exact replies it is owed, other clients must be answered meanwhile, and the descriptors of ended connections must be released. A case is one connection, distinct by its script",
		note: []string{"replies owed to a client which has closed its sending side are not asked for"}}
}

var valueSizes = []int{0, 1, 2, 10, 100, 1000, 4090, 4095, 4096, 4097, 8192, 20000, 65535, 65536, 70000, 262144, 1000000, 2600000}

// pattern makes content in which every position can be told from every other one, and keys from each other.
func pattern(id string, n int) string {
	var b bytes.Buffer
	for b.Len() < n {
		fmt.Fprintf(&b, "<%s@%d>", id, b.Len())
	}
	return b.String()[:n]
}

type scripted struct {
	req  []byte
	want []byte
	desc string
}

func bulk(s string) string { return "$" + strconv.Itoa(len(s)) + "\r\n" + s + "\r\n" }

// script makes a sequence of requests with the exact bytes they are answered with.
func (d *deliver) script(r *rand.Rand, id string, n, maxSize int) scripted {
	var req, want bytes.Buffer
	desc := ""
	add := func(w string, args ...string) {
		encodeTo(&req, args)
		want.WriteString(w)
		desc += " " + args[0]
	}
	seq := 0
	for i := 0; i < n; i++ {
		switch r.Intn(9) {
		case 0, 1:
			k := r.Intn(len(valueSizes))
			for valueSizes[k] > maxSize {
				k = r.Intn(len(valueSizes))
			}
			add(bulk(d.vals[k]), "get", "v"+strconv.Itoa(k))
			desc += strconv.Itoa(valueSizes[k])
		case 2:
			if maxSize > 30000 {
				add(d.listReply, "lrange", "list", "0", "-1")
			}
		case 3:
			a := r.Intn(50)
			add("*2\r\n"+bulk(d.list[a])+bulk(d.list[a+1]), "lrange", "list", strconv.Itoa(a), strconv.Itoa(a+1))
		case 4:
			seq++
			tok := id + "#" + strconv.Itoa(seq)
			add("+OK\r\n", "set", "own:"+id, tok)
			add(bulk(tok), "get", "own:"+id)
		case 5:
			add("+PONG\r\n", "ping")
		case 6:
			add("$-1\r\n", "get", "none:"+id)
		case 7:
			add(":"+strconv.Itoa(len(d.list))+"\r\n", "llen", "list")
		case 8:
			add(":0\r\n", "hlen", "none:"+id)
		}
	}
	seq++
	tok := id + "#end" + strconv.Itoa(seq)
	add("+OK\r\n", "set", "own:"+id, tok)
	add(bulk(tok), "get", "own:"+id)
	return scripted{req.Bytes(), want.Bytes(), desc}
}

type deliver struct {
	h         *H
	s         *Server
	name      string
	vals      []string
	list      []string
	listReply string
	conns     atomic.Int64
	bytes     atomic.Int64
}

func (d *deliver) fill() {
	c := d.s.client()
	defer c.Close()
	for i, n := range valueSizes {
		d.vals = append(d.vals, pattern(fmt.Sprintf("v%d", i), n))
		if rep, err := c.Do("set", "v"+strconv.Itoa(i), d.vals[i]); err != nil || rep.T != '+' {
			d.h.fail(nil, "SET of %d bytes: %v %v", n, rep, err)
		}
	}
	var b bytes.Buffer
	cmd := []string{"rpush", "list"}
	for i := 0; i < 3000; i++ {
		e := pattern("e"+strconv.Itoa(i), i%57)
		d.list = append(d.list, e)
		cmd = append(cmd, e)
		b.WriteString(bulk(e))
	}
	d.listReply = fmt.Sprintf("*%d\r\n%s", len(d.list), b.String())
	if rep, err := c.Do(cmd...); err != nil || rep.T != ':' {
		d.h.fail(nil, "RPUSH: %v %v", rep, err)
	}
}

func (d *deliver) dial(rcvbuf int) (net.Conn, error) {
	dl := net.Dialer{Timeout: 30 * time.Second}
	if rcvbuf > 0 {
		dl.Control = func(_, _ string, c syscall.RawConn) error {
			return c.Control(func(fd uintptr) { syscall.SetsockoptInt(int(fd), syscall.SOL_SOCKET, syscall.SO_RCVBUF, rcvbuf) })
		}
	}
	return dl.Dial("tcp", d.s.addr())
}

// conn is the life of one connection; it returns what is wrong with the replies.
func (d *deliver) conn(r *rand.Rand, id string, stall bool) (bad, desc string) {
	mode := r.Intn(10)
	if stall {
		mode = 6
	}
	rcv := 0
	if mode >= 3 {
		rcv = []int{0, 2048, 4096, 65536}[r.Intn(4)]
	}
	size := []int{100, 5000, 70000, 3000000}[r.Intn(4)]
	n := 1 + r.Intn(25)
	if size > 1000000 {
		n = 1 + r.Intn(6)
	}
	if stall {
		size, n = 3000000, 20
	}
	sc := d.script(r, id, n, size)
	desc = fmt.Sprintf("mode %d rcvbuf %d:%s", mode, rcv, sc.desc)
	c, err := d.dial(rcv)
	if err != nil {
		return "connect: " + err.Error(), desc
	}
	defer c.Close()
	d.conns.Add(1)
	if r.Intn(5) == 0 {
		c.(*net.TCPConn).SetNoDelay(false)
	}
	werr := make(chan error, 1)
	cut := len(sc.req)
	if mode == 7 {
		cut = r.Intn(len(sc.req))
	}
	parts := split(r, sc.req[:cut], 1+r.Intn(6))
	pauses := r.Intn(3) == 0
	go func() {
		for _, p := range parts {
			c.SetWriteDeadline(time.Now().Add(replyTimeout))
			if _, err := c.Write(p); err != nil {
				werr <- err
				return
			}
			if pauses {
				time.Sleep(200 * time.Microsecond)
			}
		}
		werr <- nil
	}()
	limit := len(sc.want)
	switch mode {
	case 6, 5:
		time.Sleep(time.Duration(50+r.Intn(400)) * time.Millisecond)
	case 7, 8, 9:
		limit = 0
		if r.Intn(3) != 0 {
			limit = r.Intn(len(sc.want))
		}
		if mode == 7 { // the request is never completed: only what is certainly answered
			limit = 0
		}
	}
	buf := make([]byte, 1<<16)
	for got := 0; got < limit; {
		k := len(buf)
		if mode == 3 || mode == 4 {
			k = 1 + r.Intn(3000)
			if limit > 500000 {
				k *= 20
			}
			if r.Intn(8) == 0 {
				time.Sleep(time.Duration(r.Intn(2000)) * time.Microsecond)
			}
		}
		c.SetReadDeadline(time.Now().Add(replyTimeout))
		n, err := c.Read(buf[:min(k, limit-got)])
		if !bytes.Equal(buf[:n], sc.want[got:got+n]) {
			at := 0
			for at < n && buf[at] == sc.want[got+at] {
				at++
			}
			lo, hi := max(0, got+at-60), min(len(sc.want), got+at+60)
			return fmt.Sprintf("byte %d of the replies differs: got %q..., want %q, with %q before", got+at, clip(string(buf[at:n])), clip(string(sc.want[got+at:hi])), clip(string(sc.want[lo:got+at]))), desc
		}
		got += n
		d.bytes.Add(int64(n))
		if err != nil {
			return fmt.Sprintf("after %d of the %d bytes of the replies: %v", got, limit, err), desc
		}
	}
	switch mode {
	case 8: // reset
		c.(*net.TCPConn).SetLinger(0)
	case 7, 9:
		time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
	default:
		if err := <-werr; err != nil {
			return "sending: " + err.Error(), desc
		}
		// nothing may follow
		c.SetWriteDeadline(time.Now().Add(replyTimeout))
		if _, err := c.Write(encode("ping")); err != nil {
			return "sending: " + err.Error(), desc
		}
		c.SetReadDeadline(time.Now().Add(replyTimeout))
		p := make([]byte, 7)
		if n, err := io.ReadFull(c, p); err != nil || string(p) != "+PONG\r\n" {
			return fmt.Sprintf("after all replies, PING is answered with %q %v", p[:n], err), desc
		}
	}
	return "", desc
}

func delivery(h *H) {
	h.buildInst()
	h.buildPlain()
	h.dense(2)
	rules := []string{"", "", "w,n,1,s,1000,1", "w,n,5,s,1,0;w,n,9,e,11,0;w,n,14,e,4,0;w,n,20,s,0,0;w,n,30,e,11,0;w,n,31,e,4,0", "i,n,1,s,7,1", "i,n,3,e,11,0;i,n,8,e,4,0;i,n,12,s,1,0;w,n,4,s,3,1", "w,n,1,s,60000,1;i,n,1,s,900,1"}
	h.parallel(h.n(14, 140), 4, func(i int) {
		d := &deliver{h: h, name: fmt.Sprintf("deliver-%d", i)}
		rng := h.rng(d.name)
		d.s = h.newServer(h.bins["inst"], Conf{AOF: i%3 == 0, Fsync: fsyncOf(i)})
		d.s.instrument(false, rules[i%len(rules)])
		d.s.page.Arm(false)
		defer d.s.discard()
		d.s.mustStart()
		d.fill()
		d.s.page.Arm(true)
		base := 0
		h.until(5*time.Second, func() bool { base = d.s.socketFds(); return base == 1 })
		workers := []int{4, 20, 60}[rng.Intn(3)]
		var (
			wg   sync.WaitGroup
			mu   sync.Mutex
			bad  string
			stop atomic.Bool
			seq  atomic.Int64
		)
		fail := func(f string, a ...any) {
			mu.Lock()
			if bad == "" {
				bad = fmt.Sprintf(f, a...)
			}
			mu.Unlock()
			stop.Store(true)
		}
		deadline := time.Now().Add(time.Duration(h.n(2200, 8000)) * time.Millisecond)
		for w := 0; w < workers; w++ {
			wg.Add(1)
			r := rand.New(rand.NewSource(rng.Int63()))
			go func(w int) {
				defer wg.Done()
				for first := true; !stop.Load() && time.Now().Before(deadline); first = false {
					id := fmt.Sprintf("c%d", seq.Add(1))
					b, desc := d.conn(r, id, first && w < 2)
					h.eval(true, desc)
					if b != "" {
						fail("connection %s (%s): %s", id, clip(desc), b)
						return
					}
				}
			}(w)
		}
		// somebody who only wants to be answered
		worst := time.Duration(0)
		wg.Add(1)
		go func() {
			defer wg.Done()
			c, err := dial(d.s.addr())
			if err != nil {
				fail("connect: %v", err)
				return
			}
			defer c.Close()
			for k := 0; !stop.Load() && time.Now().Before(deadline); k++ {
				t := time.Now()
				rep, err := c.Do("get", "v3")
				if err != nil || rep.S != d.vals[3] {
					fail("a client beside the others: %v %v", rep, err)
					return
				}
				worst = max(worst, time.Since(t))
				time.Sleep(time.Millisecond)
			}
			h.count("requests of clients beside stalled ones", 1)
		}()
		wg.Wait()
		if bad != "" {
			if d.s.exited() {
				d.s.dead(bad)
			}
			h.fail(map[string]any{"run": d.name, "config": d.s.conf, "faults": rules[i%len(rules)], "connections at once": workers}, "%s", bad)
		}
		// all connections have ended
		left := 0
		if !h.until(15*time.Second, func() bool { left = d.s.socketFds(); return left <= base }) {
			h.fail(map[string]any{"run": d.name, "connections": d.conns.Load(), "descriptors": d.s.fds()}, "%d sockets are open in the server 15 s after the last of %d connections has ended, %d before the first", left, d.conns.Load(), base)
		}
		if c := d.s.client(); c != nil {
			if rep, err := c.Do("get", "v5"); err != nil || rep.S != d.vals[5] {
				h.fail(nil, "after all connections have ended: %v %v", rep, err)
			}
			c.Close()
		}
		h.count("connections", d.conns.Load())
		h.count("bytes of replies compared", d.bytes.Load())
		h.mu.Lock()
		h.counts["slowest reply to a client beside stalled ones (ms)"] = max(h.counts["slowest reply to a client beside stalled ones (ms)"], worst.Milliseconds())
		h.mu.Unlock()
		h.sample(map[string]any{"run": d.name, "connections at once": workers, "connections": d.conns.Load(), "faults": rules[i%len(rules)]})
	})
	h.parallel(h.n(6, 40), 3, h.reuse)
	h.parallel(h.n(3, 20), 3, h.manyConns)
	h.parallel(h.n(2, 12), 2, h.longReplies)
	h.parallel(h.n(2, 12), 2, h.endings)
}

// until polls a condition.
func (h *H) until(d time.Duration, ok func() bool) bool {
	for t := time.Now(); ; time.Sleep(2 * time.Millisecond) {
		if ok() {
			return true
		}
		if time.Since(t) > d {
			return false
		}
	}
}

// reuse opens connections in the place of others which had much left to receive.
func (h *H) reuse(i int) {
	d := &deliver{h: h, name: fmt.Sprintf("reuse-%d", i)}
	rng := h.rng(d.name)
	d.s = h.newServer(h.bins["inst"], Conf{})
	d.s.instrument(false, []string{"", "w,n,1,s,5000,1"}[i%2])
	d.s.page.Arm(false)
	defer d.s.discard()
	d.s.mustStart()
	d.fill()
	d.s.page.Arm(true)
	for k := 0; k < h.n(60, 600); k++ {
		var old []net.Conn
		n := 1 + rng.Intn(6)
		for j := 0; j < n; j++ {
			c, err := d.dial(2048)
			if err != nil {
				d.s.dead("connect: " + err.Error())
			}
			var b bytes.Buffer
			for q := 0; q < 1+rng.Intn(4); q++ {
				encodeTo(&b, []string{"get", "v" + strconv.Itoa(rng.Intn(len(valueSizes)))})
				encodeTo(&b, []string{"lrange", "list", "0", "-1"})
			}
			if rng.Intn(3) == 0 {
				b.WriteString("*2\r\n$3\r\nget\r\n$9\r\nunfin")
			}
			c.Write(b.Bytes())
			old = append(old, c)
		}
		if rng.Intn(2) == 0 {
			time.Sleep(time.Duration(rng.Intn(3000)) * time.Microsecond)
		}
		var fresh []net.Conn
		for _, c := range old {
			if rng.Intn(2) == 0 {
				c.(*net.TCPConn).SetLinger(0)
			}
			c.Close()
			if rng.Intn(4) != 0 {
				f, err := d.dial(0)
				if err != nil {
					d.s.dead("connect: " + err.Error())
				}
				fresh = append(fresh, f)
			}
		}
		for j, f := range fresh {
			id := fmt.Sprintf("f%d-%d", k, j)
			sc := d.script(rng, id, 5, 5000)
			f.SetDeadline(time.Now().Add(replyTimeout))
			if rng.Intn(2) == 0 { // nothing may arrive unasked
				f.SetReadDeadline(time.Now().Add(300 * time.Microsecond))
				one := make([]byte, 100)
				if n, _ := f.Read(one); n > 0 {
					h.fail(map[string]any{"run": d.name}, "a new connection received %q without having sent anything", one[:n])
				}
				f.SetReadDeadline(time.Now().Add(replyTimeout))
			}
			f.Write(sc.req)
			got := make([]byte, len(sc.want))
			if n, err := io.ReadFull(f, got); err != nil || !bytes.Equal(got, sc.want) {
				if err != nil && d.s.exited() {
					d.s.dead("reading: " + err.Error())
				}
				h.fail(map[string]any{"run": d.name, "got": clip(string(got[:n])), "want": clip(string(sc.want))}, "a connection opened while others with unread replies were closed got wrong replies (%v): %q, want %q", err, clip(string(got[:n])), clip(string(sc.want)))
			}
			f.Close()
			h.eval(true, d.name+id+sc.desc)
		}
		h.count("connections in the place of others", int64(len(fresh)))
	}
	left := 0
	if !h.until(15*time.Second, func() bool { left = d.s.socketFds(); return left <= 1 }) {
		h.fail(map[string]any{"run": d.name, "descriptors": d.s.fds()}, "%d sockets are open in the server 15 s after the last connection has ended", left)
	}
}

// longReplies: replies of several hundred thousand parts, and as many replies, which nobody reads for a while.
func (h *H) longReplies(i int) {
	d := &deliver{h: h, name: fmt.Sprintf("long-%d", i)}
	rng := h.rng(d.name)
	d.s = h.newServer(h.buildPlain(), Conf{})
	defer d.s.discard()
	d.s.mustStart()
	c := d.s.client()
	n := 100_000 * (1 + rng.Intn(4))
	elem := func(j int) string { return "e" + strconv.Itoa(j) }
	for at := 0; at < n; at += 5000 {
		l, hs := []string{"rpush", "long"}, []string{"hset", "longh"}
		for j := at; j < at+5000; j++ {
			l = append(l, elem(j))
			hs = append(hs, elem(j), "v")
		}
		if reps, err := c.Pipe([][]string{l, hs}); err != nil || reps[0].IsErr() || reps[1].IsErr() {
			h.fail(nil, "building a list of %d elements: %v %v", n, reps, err)
		}
	}
	for _, kind := range []int{0, 1, 2} {
		u, err := d.dial(4096)
		if err != nil {
			d.s.dead("connect: " + err.Error())
		}
		pings := n * 3 / 2
		var req bytes.Buffer
		switch kind {
		case 0:
			req.Write(encode("lrange", "long", "0", "-1"))
		case 1:
			req.Write(bytes.Repeat(encode("ping"), pings))
		case 2:
			req.Write(encode("hkeys", "longh"))
		}
		req.Write(encode("llen", "long"))
		werr := make(chan error, 1)
		go func() {
			u.SetDeadline(time.Now().Add(replyTimeout))
			_, err := u.Write(req.Bytes())
			werr <- err
		}()
		for k := 0; k < 20; k++ { // others are served meanwhile
			if rep, err := c.Do("lindex", "long", strconv.Itoa(n-1-k)); err != nil || rep.S != elem(n-1-k) {
				h.fail(map[string]any{"run": d.name}, "LINDEX beside a client that does not read %d parts of its reply: %v %v", n, rep, err)
			}
			time.Sleep(5 * time.Millisecond)
		}
		rd := bufio.NewReaderSize(u, 1<<16)
		u.SetReadDeadline(time.Now().Add(replyTimeout))
		bad := ""
		switch kind {
		case 0, 2:
			rep, err := readReply(rd)
			if err != nil || rep.T != '*' || len(rep.A) != n {
				bad = fmt.Sprintf("%d elements of %d, %v", len(rep.A), n, err)
				break
			}
			seen := map[string]bool{}
			for j, e := range rep.A {
				if kind == 0 && e.S != elem(j) {
					bad = fmt.Sprintf("element %d is %v", j, e)
					break
				}
				seen[e.S] = true
			}
			if len(seen) != n && bad == "" {
				bad = fmt.Sprintf("%d different elements of %d", len(seen), n)
			}
		case 1:
			for j := 0; j < pings && bad == ""; j++ {
				if rep, err := readReply(rd); err != nil || rep.S != "PONG" {
					bad = fmt.Sprintf("PING %d of %d: %v %v", j, pings, rep, err)
				}
			}
		}
		if bad == "" {
			if rep, err := readReply(rd); err != nil || rep.T != ':' || rep.I != int64(n) {
				bad = fmt.Sprintf("the reply behind it: %v %v, want :%d", rep, err, n)
			}
		}
		if bad == "" {
			if err := <-werr; err != nil {
				bad = "sending: " + err.Error()
			}
		}
		if bad != "" {
			if d.s.exited() {
				d.s.dead(bad)
			}
			h.fail(map[string]any{"run": d.name, "kind": kind}, "%s: %s", []string{"LRANGE of a long list", "many pipelined PING", "HKEYS of a large hash"}[kind], bad)
		}
		u.Close()
		h.eval(true, fmt.Sprintf("%s %d %d", d.name, kind, n))
	}
	h.atLeast("most parts of one reply", int64(n))
}

// endings: connections end in every way while the system calls of the server are recorded. None may concern a
// descriptor which is not open: by then its number may be that of another connection, or of a file.
func (h *H) endings(i int) {
	name := fmt.Sprintf("endings-%d", i)
	rng := h.rng(name)
	s := h.newServer(h.bins["inst"], Conf{AOF: i%2 == 1, Pass: []string{"", "pw"}[i/2%2]})
	defer s.discard()
	s.instrument(true, []string{"", "w,n,9,e,32,0;w,n,20,e,104,0;w,n,33,e,32,0;w,n,60,e,104,0"}[i/4%2])
	s.page.Arm(false)
	s.mustStart()
	s.page.Arm(true)
	r := newRun(h, s, rng, 1)
	for k := 0; k < h.n(250, 2000); k++ {
		c, err := dial(s.addr())
		if err != nil {
			s.dead("connect: " + err.Error())
		}
		r.cl = append(r.cl, c)
		r.sess = append(r.sess, &Sess{})
		j := 1 + rng.Intn(len(r.cl)-1)
		if len(r.cl) > 12 {
			if rng.Intn(2) == 0 && s.conf.Pass == "" {
				r.do(j, "rpush", "l", strconv.Itoa(k))
			}
			r.endConnection(j, "pw")
			r.cl = append(r.cl[:j], r.cl[j+1:]...)
			r.sess = append(r.sess[:j], r.sess[j+1:]...)
		}
		if k%50 == 49 && s.conf.AOF {
			r.do(0, "bgrewriteaof")
		}
	}
	for _, c := range r.cl {
		c.Close()
	}
	left := 0
	if !h.until(15*time.Second, func() bool { left = s.socketFds(); return left <= 1 }) {
		h.fail(r.replay(s.fds()), "%d sockets are open in the server 15 s after the last connection has ended", left)
	}
	s.kill()
	evs := parseEvents(s.logPath)
	closed := 0
	for j, e := range evs {
		if e.Class == 'b' {
			h.fail(r.replay(nil), "%s", badDescriptor(evs, j))
		}
		if e.Class == 'n' && e.Op == 'c' && e.Post {
			closed++
		}
	}
	h.count("recorded ends of connections", int64(closed))
	if closed == 0 {
		giveUp("the event log of %s shows no end of a connection", name)
	}
	h.eval(true, fmt.Sprintf("%s %d", name, closed))
}

// manyConns opens more connections than there are descriptors.
func (h *H) manyConns(i int) {
	h.buildPlain()
	d := &deliver{h: h, name: fmt.Sprintf("many-%d", i)}
	rng := h.rng(d.name)
	d.s = h.newServer(h.bins["plain"], Conf{})
	lim := 0
	if i%3 == 1 {
		lim = 60
		d.s.shell = "ulimit -n 60"
	}
	defer d.s.discard()
	d.s.mustStart()
	d.fill()
	n := 1300 // beyond 1024
	var rl syscall.Rlimit
	if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &rl); err != nil || rl.Cur < 4*1300 {
		n = int(rl.Cur) / 8
	}
	if i%6 == 0 && rl.Cur > 12000 {
		n = 9500
	}
	if i%3 == 2 {
		n /= 3
	}
	if lim > 0 {
		n = 100
	}
	var cs []net.Conn
	served := 0
	check := func(j int, c net.Conn, must bool) bool {
		sc := d.script(rng, fmt.Sprintf("m%d", j), 4, 5000)
		c.SetDeadline(time.Now().Add(replyTimeout))
		if !must {
			c.SetDeadline(time.Now().Add(100 * time.Millisecond))
		}
		c.Write(sc.req)
		got := make([]byte, len(sc.want))
		k, err := io.ReadFull(c, got)
		if err != nil && !must && k == 0 {
			return false
		}
		if err != nil || !bytes.Equal(got, sc.want) {
			if d.s.exited() {
				d.s.dead("reading")
			}
			h.fail(map[string]any{"run": d.name}, "connection %d of %d (at most %d descriptors): %v, got %q, want %q", j, n, lim, err, clip(string(got[:k])), clip(string(sc.want)))
		}
		served++
		h.eval(true, fmt.Sprintf("%s %d %s", d.name, j, sc.desc))
		return true
	}
	for j := 0; j < n; j++ {
		c, err := d.dial(0)
		if err != nil {
			if d.s.exited() || lim == 0 {
				d.s.dead("connect: " + err.Error())
			}
			break
		}
		cs = append(cs, c)
	}
	sure := len(cs)
	if lim > 0 {
		sure = lim / 2
	}
	for j := 0; j < sure; j++ {
		check(j, cs[j], true)
	}
	if lim > 0 {
		check(len(cs)-1, cs[len(cs)-1], false)
		for j := 0; j < sure; j++ {
			check(j, cs[j], true)
		}
	}
	for _, c := range cs {
		c.Close()
	}
	left := 0
	if !h.until(20*time.Second, func() bool { left = d.s.socketFds(); return left <= 1 }) {
		h.fail(map[string]any{"run": d.name, "descriptors": d.s.fds()}, "%d sockets are open in the server 20 s after the last of %d connections has ended", left, len(cs))
	}
	c, err := d.dial(0)
	if err != nil {
		d.s.dead("connect: " + err.Error())
	}
	check(n, c, true)
	c.Close()
	h.count("connections", int64(len(cs)))
	h.count("of these open at the same time", int64(served))
}

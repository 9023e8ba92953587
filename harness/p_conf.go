package main

import (
	"bufio"
	"fmt"
	"net"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	specs["C27"] = spec{run: autoRewrite, level: "exploration",
		rule: "histories of overwrites, growth and restarts for several percentages and minimum sizes; with a driven clock each batch of writes is followed by rounds of the periodic task, and the harness decides from the sizes of the file whether a rewrite must, may or must not have happened; a rewrite shows as a new inode. A case is one batch",
		note: []string{"sizes within 2 % of a threshold are not judged"}}
	specs["C29"] = spec{run: configured, level: "exploration",
		rule: "one server per configuration; listening sockets are read from the kernel's table, addresses probed with connections, and database count, password, log file and level, file name, fsync policy and rewrite thresholds judged by their effects; a case is one configuration"}
}

// ---- C27

func autoRewrite(h *H) {
	h.buildInst()
	h.buildPlain()
	under := h.n(6, 30)
	h.parallel(under+h.n(28, 250)+2, 7, func(i int) {
		if i < 2 {
			h.boundedReal(i)
			return
		}
		if i < under+2 {
			h.growthDuringRewrite(i - 2)
			return
		}
		h.autoRewriteRun(i - under)
	})
}

type sizeText struct {
	text string
	n    int64
}

func (h *H) autoRewriteRun(i int) {
	name := fmt.Sprintf("auto-%d", i)
	rng := h.rng(name)
	pct := []int{100, 50, 10, 1, 300, 0, 100, 20}[i%8]
	min := []sizeText{{"1kb", 1024}, {"8kb", 8192}, {"64kb", 65536}, {"700", 700}, {"1mb", 1 << 20}, {"2500b", 2500}}[i/8%6]
	if i%7 == 0 {
		min = sizeText{"0", 0}
	}
	s := h.newServer(h.bins["inst"], Conf{AOF: true, Fsync: fsyncOf(i), RewritePct: pct, RewriteMin: min.text})
	defer s.discard()
	s.instrument(false, "")
	now := int64(1700000000000)
	s.page.SetClock(now)
	s.mustStart()
	c := s.client()
	vals := map[string]string{}
	var hist []string
	replay := func() any { return map[string]any{"run": name, "config": s.conf, "history": hist} }
	do := func(args ...string) {
		if rep, err := c.Do(args...); err != nil || rep.IsErr() {
			if err != nil {
				s.dead(quoteArgs(args) + ": " + err.Error())
			}
			h.fail(replay(), "%s: %v", quoteArgs(args), rep)
		}
	}
	round := func() {
		now += 2
		s.page.SetClock(now)
		if c == nil {
			time.Sleep(3 * time.Millisecond)
			return
		}
		do("ping")
		do("ping")
	}
	ino := inode(s.aofPath())
	base := int64(0) // 0: this process has made no rewrite
	keys := 1 + rng.Intn(40)
	valLen := []int{5, 60, 400}[rng.Intn(3)]
	if min.n >= 1<<20 {
		keys, valLen = 40, 2000
	}
	rewrites, must, mustNot := 0, 0, 0
	for b := 0; b < h.n(60, 300); b++ {
		growth, still := false, false
		switch rng.Intn(25) {
		case 0: // a dataset which really grows
			growth = true
			keys += rng.Intn(keys + 2)
			if keys > 300 {
				keys = 10
				for k := range vals {
					do("del", k)
					delete(vals, k)
				}
			}
		case 1:
			if b > 3 {
				s.kill()
				if rng.Intn(2) == 0 { // an incomplete command at the end, which is discarded
					n := 1 + rng.Intn(3000)
					if size := fileSize(s.aofPath()); size < min.n && rng.Intn(4) > 0 {
						n = int(min.n-size) + rng.Intn(int(min.n)+2)
					}
					f, err := os.OpenFile(s.aofPath(), os.O_APPEND|os.O_WRONLY, 0)
					if err != nil {
						giveUp("%v", err)
					}
					fmt.Fprintf(f, "*3\r\n$3\r\nset\r\n$2\r\nk0\r\n$%d\r\n%s", n+1, strings.Repeat("t", n))
					f.Close()
					h.count("incomplete commands at the end of the file", 1)
				}
				s.page.SetClock(now)
				s.mustStart()
				c.Close()
				c = s.client()
				base = 0
				ino = inode(s.aofPath())
				hist = append(hist, fmt.Sprintf("restart with %d bytes", fileSize(s.aofPath())))
				still = rng.Intn(2) == 0
			}
		}
		n := 1 + rng.Intn(60)
		if rng.Intn(10) == 0 {
			n = 300
		}
		if still { // nothing is written after a restart
			n = 0
		}
		cmds := [][]string{{"ping"}}
		for k := 0; k < n; k++ {
			key := "k" + strconv.Itoa(rng.Intn(keys))
			v := pattern(fmt.Sprintf("%d", rng.Int31()), valLen/2+rng.Intn(valLen))
			vals[key] = v
			cmds = append(cmds, []string{"set", key, v})
		}
		if reps, err := c.Pipe(cmds); err != nil || reps[0].IsErr() {
			s.dead(fmt.Sprintf("writing: %v", err))
		}
		size := fileSize(s.aofPath())
		hist = append(hist, fmt.Sprintf("batch of %d, growth %v: %d bytes, %d after the last rewrite", n, growth, size, base))
		if len(hist) > 60 {
			hist = hist[1:]
		}
		if now := inode(s.aofPath()); now != ino {
			h.fail(replay(), "the file was replaced though the clock of the server stands still")
		}
		grown := func(base int64, slack float64, abs int64) bool {
			return float64(size) >= float64(base)*float64(100+pct)/100*slack+float64(abs)
		}
		due := pct > 0 && size > min.n+min.n/50+64
		never := pct == 0 || size < min.n-min.n/50-64
		due = due && (base == 0 || grown(base, 1.02, 64))
		never = never || base > 0 && !grown(base, 0.98, -64)
		if due && rng.Intn(5) == 0 { // nobody is connected
			c.Close()
			c = nil
			h.count("rewrites due while no client was connected", 1)
		}
		round()
		for t := time.Now(); ; {
			if cur := inode(s.aofPath()); cur != ino {
				if never {
					h.fail(replay(), "an automatic rewrite took place with %d bytes in the file, %d after the last rewrite, minimum %s, percentage %d", size, base, min.text, pct)
				}
				ino = cur
				round()
				base = fileSize(s.aofPath())
				rewrites++
				hist = append(hist, fmt.Sprintf("rewritten to %d bytes", base))
				break
			}
			if !due && time.Since(t) > 3*time.Millisecond && (never || time.Since(t) > 20*time.Millisecond) {
				break
			}
			if time.Since(t) > 15*time.Second {
				h.fail(replay(), "no automatic rewrite takes place with %d bytes in the file, %d after the last rewrite by this process, minimum %s, percentage %d", size, base, min.text, pct)
			}
			round()
		}
		if c == nil {
			c = s.client()
		}
		if due {
			must++
		}
		if never {
			mustNot++
		}
		h.eval(due || never, fmt.Sprintf("%d %s %d %d %v %v", pct, min.text, base, size, due, never))
	}
	for k, v := range vals {
		if rep, err := c.Do("get", k); err != nil || rep.S != v {
			h.fail(replay(), "GET %s after %d rewrites: %v %v", k, rewrites, rep, err)
		}
	}
	c.Close()
	h.count("automatic rewrites seen", int64(rewrites))
	h.count("batches after which a rewrite was due", int64(must))
	h.count("batches after which none was allowed", int64(mustNot))
	if i == 2 {
		h.sample(replay())
	}
}

// growthDuringRewrite writes much while a rewrite is under way. The file begins, after it, with the size which
// includes that; only growth from there on may cause another rewrite, and must.
func (h *H) growthDuringRewrite(i int) {
	name := fmt.Sprintf("during-%d", i)
	rng := h.rng(name)
	pct := []int{100, 50, 200}[i%3]
	s := h.newServer(h.bins["inst"], Conf{AOF: true, Fsync: fsyncOf(i), RewritePct: pct, RewriteMin: "4kb"})
	defer s.discard()
	s.instrument(false, "s,t,1,d,120,1") // the rewrite takes a while to sync its file
	now := int64(1700000000000)
	s.page.SetClock(now)
	s.mustStart()
	c := s.client()
	defer c.Close()
	var hist []string
	replay := func() any { return map[string]any{"run": name, "config": s.conf, "history": hist} }
	write := func(n int) {
		var cmds [][]string
		for k := 0; k < n; k++ {
			cmds = append(cmds, []string{"set", "k" + strconv.Itoa(rng.Intn(20)), pattern(strconv.Itoa(rng.Intn(1000)), 100)})
		}
		if _, err := c.Pipe(cmds); err != nil {
			s.dead("writing: " + err.Error())
		}
		hist = append(hist, fmt.Sprintf("%d writes: %d bytes in the file", n, fileSize(s.aofPath())))
	}
	round := func() {
		now += 2
		s.page.SetClock(now)
		for k := 0; k < 2; k++ {
			if _, err := c.Do("ping"); err != nil {
				s.dead("ping: " + err.Error())
			}
		}
	}
	tmp := func() bool { // a rewrite is under way
		l, _ := os.ReadDir(s.dataDir())
		return len(l) > 1
	}
	write(100)
	for cycle := 0; cycle < h.n(3, 6); cycle++ {
		ino := inode(s.aofPath())
		began := h.until(15*time.Second, func() bool { round(); return tmp() || inode(s.aofPath()) != ino })
		if !began {
			h.fail(replay(), "no automatic rewrite takes place with %d bytes in the file, percentage %d, minimum %s", fileSize(s.aofPath()), pct, s.conf.RewriteMin)
		}
		during := tmp()
		write([]int{0, 200, 1500, 40}[rng.Intn(4)])
		if !h.until(15*time.Second, func() bool { round(); return inode(s.aofPath()) != ino }) {
			h.fail(replay(), "an automatic rewrite does not come to its end")
		}
		ino = inode(s.aofPath())
		round()
		base := fileSize(s.aofPath())
		hist = append(hist, fmt.Sprintf("rewritten to %d bytes (writes fell into the rewrite: %v)", base, during))
		h.count("rewrites with writes beside them", 1)
		again := func(what string) {
			for t := time.Now(); time.Since(t) < 250*time.Millisecond; {
				round()
				if inode(s.aofPath()) != ino || tmp() {
					h.fail(replay(), "another rewrite takes place %s: %d bytes in the file, %d after the last rewrite, percentage %d", what, fileSize(s.aofPath()), base, pct)
				}
			}
		}
		again("though nothing was written")
		write(int(base) * pct / 100 * 6 / 10 / 135)
		again("too early")
		for fileSize(s.aofPath()) < base+base*int64(pct)/100+base/20+64 || fileSize(s.aofPath()) < 4200 {
			write(20)
		}
		h.eval(during, fmt.Sprintf("%s %d %d", name, cycle, base))
	}
}

// boundedReal overwrites a small dataset for a while on the real clock.
func (h *H) boundedReal(i int) {
	s := h.newServer(h.bins["plain"], Conf{AOF: true, Fsync: "no", RewritePct: 100, RewriteMin: "64kb"})
	defer s.discard()
	s.mustStart()
	c := s.client()
	defer c.Close()
	rng := h.rng(fmt.Sprintf("bounded-%d", i))
	ino := inode(s.aofPath())
	var total, peak int64
	rewrites := 0
	val := pattern("x", 300)
	for total < int64(h.n(40, 200))<<20 {
		var cmds [][]string
		for k := 0; k < 300; k++ {
			key := "k" + strconv.Itoa(rng.Intn(20))
			if i == 1 && k%3 == 0 { // a list of bounded length
				cmds = append(cmds, []string{"rpush", "l" + key, val}, []string{"lpop", "l" + key})
				total += 500
				continue
			}
			cmds = append(cmds, []string{"set", key, val})
			total += int64(len(val)) + 35
		}
		if _, err := c.Pipe(cmds); err != nil {
			s.dead("writing: " + err.Error())
		}
		peak = max(peak, fileSize(s.aofPath()))
		if n := inode(s.aofPath()); n != ino {
			rewrites++
			ino = n
		}
	}
	// what was written during a rewrite counts towards the size after it, so the load decreases at the end
	for k := 0; k < 400; k++ {
		if _, err := c.Pipe([][]string{{"set", "k0", val}, {"set", "k1", val}, {"set", "k2", val}}); err != nil {
			s.dead("writing: " + err.Error())
		}
		time.Sleep(500 * time.Microsecond)
	}
	size := int64(0)
	if !h.until(15*time.Second, func() bool { size = fileSize(s.aofPath()); return size < 200<<10 }) || rewrites < 2 || peak > total*6/10 {
		h.fail(map[string]any{"config": s.conf}, "after overwriting 20 keys with %d MB in all the file has %d bytes (at most %d at any time), %d rewrites seen", total>>20, size, peak, rewrites)
	}
	h.count("bytes overwritten on the real clock", total)
	h.count("largest file on the real clock", peak)
	h.count("automatic rewrites seen", int64(rewrites))
	h.eval(true, fmt.Sprint("real ", i, rewrites))
}

// ---- C29

// listeners reads the listening TCP sockets of a process from the kernel.
func (s *Server) listeners() []string {
	own := map[string]bool{}
	for _, f := range s.fds() {
		if strings.HasPrefix(f, "socket:[") {
			own[strings.TrimSuffix(strings.TrimPrefix(f, "socket:["), "]")] = true
		}
	}
	var out []string
	for _, file := range []string{"tcp", "tcp6"} {
		f, err := os.Open(fmt.Sprintf("/proc/%d/net/%s", s.cmd.Process.Pid, file))
		if err != nil {
			continue
		}
		sc := bufio.NewScanner(f)
		for sc.Scan() {
			p := strings.Fields(sc.Text())
			if len(p) < 10 || p[3] != "0A" || !own[p[9]] {
				continue
			}
			a := strings.Split(p[1], ":")
			port, _ := strconv.ParseInt(a[1], 16, 32)
			if file == "tcp" {
				ip, _ := strconv.ParseUint(a[0], 16, 32)
				out = append(out, fmt.Sprintf("%d.%d.%d.%d:%d", byte(ip), byte(ip>>8), byte(ip>>16), byte(ip>>24), port))
			} else {
				out = append(out, fmt.Sprintf("[%s]:%d", a[0], port))
			}
		}
		f.Close()
	}
	return out
}

func configured(h *H) {
	h.buildInst()
	h.buildPlain()
	h.parallel(h.n(24, 200), 6, h.boundWhere)
	h.parallel(len(invalidAddrs), 6, func(i int) { h.invalidBind(invalidAddrs[i]) })
	h.parallel(len(invalidPorts), 6, func(i int) { h.invalidPort(invalidPorts[i]) })
	h.parallel(h.n(24, 150), 6, h.settings)
	h.portTaken()
	h.logLevels()
	h.parallel(h.n(8, 40), 4, h.startedAgain)
	h.fsyncInEffect()
	h.rewriteInEffect()
}

var loopbacks = []string{"127.0.0.1", "127.0.0.2", "127.1.2.3", "127.255.255.254", "127.0.1.0", "127.200.0.9"}

func (h *H) boundWhere(i int) {
	rng := h.rng(fmt.Sprintf("bind-%d", i))
	bind := append(append([]string{}, loopbacks...), "0.0.0.0")[i%7]
	s := h.newServer(h.bins["plain"], Conf{Bind: bind})
	defer s.discard()
	switch rng.Intn(3) {
	case 0:
		// ports whose bytes differ, and large ones
		for k := 0; k < 200 && s.conf.Port == 0; k++ {
			p := 32768 + rng.Intn(32000)
			if l, err := net.Listen("tcp4", "0.0.0.0:"+strconv.Itoa(p)); err == nil {
				l.Close()
				s.conf.Port = p
			}
		}
	}
	s.mustStart()
	want := net.JoinHostPort(bind, strconv.Itoa(s.conf.Port))
	got := s.listeners()
	if len(got) != 1 || got[0] != want {
		h.fail(map[string]any{"config": s.conf}, "configured for %s, the process listens on %v", want, got)
	}
	for _, ip := range loopbacks {
		c, err := net.DialTimeout("tcp", net.JoinHostPort(ip, strconv.Itoa(s.conf.Port)), 10*time.Second)
		if should := ip == bind || bind == "0.0.0.0"; should != (err == nil) {
			if err == nil { // is it ours?
				c.Close()
			}
			h.fail(map[string]any{"config": s.conf}, "bound to %s, a connection to %s gives %v", bind, ip, err)
		}
		if err == nil {
			c.SetDeadline(time.Now().Add(20 * time.Second))
			c.Write(encode("ping"))
			b := make([]byte, 7)
			c.Read(b)
			if string(b) != "+PONG\r\n" {
				h.fail(map[string]any{"config": s.conf}, "bound to %s, a PING sent to %s is answered with %q", bind, ip, b)
			}
			c.Close()
		}
		h.count("addresses probed", 1)
	}
	h.count("listening sockets read from the kernel", int64(len(got)))
	h.eval(true, want)
	if i == 0 {
		h.sample(map[string]any{"bind": bind, "port": s.conf.Port, "listening": got})
	}
}

var invalidAddrs = []string{"", "256.1.1.1", "1.2.3", "::1", "::", "abc", "localhost", "127.0.0.1 ", "127.0.0.1:80", "-1", "127.0.0.1.1", "0x7f.0.0.1", "127.0.0.01", "fe80::1", "2001:db8::1", "127.0.0", "127,0,0,1", "127.0.0.-1", "0", "1::2::3", "192.0.2.77"}

// invalidBind expects a visible failure: the process ends with an error and nobody listens.
func (h *H) invalidBind(addr string) {
	s := h.newServer(h.bins["plain"], Conf{Bind: "127.0.0.1"})
	defer s.discard()
	s.conf.Port = freePort("127.0.0.1")
	s.conf.Bind = addr
	if addr == "" {
		s.conf.Bind = ""
	}
	s.spawn()
	deadline := time.Now().Add(20 * time.Second)
	for !s.exited() {
		if l := s.listeners(); len(l) > 0 && !s.exited() {
			h.fail(map[string]any{"config": s.conf}, "configured for the address %q, which is not a valid local IPv4 address, the process listens on %v", addr, l)
		}
		if time.Now().After(deadline) {
			h.fail(map[string]any{"config": s.conf, "output": s.outTail()}, "configured for the address %q, which is not a valid local IPv4 address, the process neither ends nor listens", addr)
		}
		time.Sleep(time.Millisecond)
	}
	s.waitExit(time.Second)
	if s.state.Success() {
		h.fail(map[string]any{"config": s.conf, "output": s.outTail()}, "configured for the address %q, which is not a valid local IPv4 address, the process ends with status 0", addr)
	}
	h.count("invalid addresses refused", 1)
	h.eval(true, "invalid "+addr)
}

var invalidPorts = []string{"65536", "70000", "88992", "-1", "-30000", "4294967297", "4294990000", "1e9", "99999999999", `"65537"`}

// invalidPort expects a visible failure rather than another port.
func (h *H) invalidPort(port string) {
	s := h.newServer(h.bins["plain"], Conf{Bind: "127.0.0.1"})
	defer s.discard()
	s.conf.Port = freePort("127.0.0.1")
	s.confEdit = func(text string) string {
		return strings.Replace(text, fmt.Sprintf("port = %d\n", s.conf.Port), "port = "+port+"\n", 1)
	}
	s.spawn()
	deadline := time.Now().Add(20 * time.Second)
	for !s.exited() {
		if l := s.listeners(); len(l) > 0 && !s.exited() {
			h.fail(map[string]any{"config": s.confText()}, "configured for port %s, which does not exist, the process listens on %v", port, l)
		}
		if time.Now().After(deadline) {
			h.fail(map[string]any{"config": s.confText(), "output": s.outTail()}, "configured for port %s, which does not exist, the process neither ends nor listens", port)
		}
		time.Sleep(time.Millisecond)
	}
	s.waitExit(time.Second)
	if s.state.Success() {
		h.fail(map[string]any{"config": s.confText(), "output": s.outTail()}, "configured for port %s, which does not exist, the process ends with status 0", port)
	}
	h.count("invalid ports refused", 1)
	h.eval(true, "invalid port "+port)
}

func (h *H) settings(i int) {
	name := fmt.Sprintf("settings-%d", i)
	rng := h.rng(name)
	conf := Conf{DBs: []int{1, 2, 3, 5, 15, 16, 17, 64, 200}[rng.Intn(9)]}
	if i%4 == 1 { // far more than anybody is used to
		conf.DBs = []int{127, 128, 129, 255, 256, 257, 1000, 1023, 1024, 1025, 2000, 2049, 5000, 10001}[rng.Intn(14)]
	}
	if rng.Intn(2) == 0 {
		conf.Pass = []string{"secret", "Ünïcode", "with space", strings.Repeat("long", 60), "0", "a\\\"b"}[rng.Intn(6)]
	}
	conf.AOF = rng.Intn(2) == 0
	conf.Fsync = fsyncOf(i)
	s := h.newServer(h.bins["plain"], conf)
	defer s.discard()
	s.conf.LogFile = filepath.Join(s.dir, []string{"a.log", "other-name", "sub/dir/x.log"}[rng.Intn(3)])
	level := []string{"debug", "info", "warn", "error"}[i%4]
	s.confName = []string{"config.toml", "other.yaml", "third.json", "x.y.toml", "fourth.yml"}[i%5]
	relative, implicit := rng.Intn(3) == 0, i%6 == 2
	if implicit { // the option is left out
		conf.DBs = 16
		s.conf.DBs = 16
	}
	s.confEdit = func(text string) string {
		if relative { // to the directory the server is started in
			for _, p := range []string{s.aofPath(), s.conf.LogFile} {
				if rel, err := filepath.Rel(s.dir, p); err == nil {
					text = strings.Replace(text, strconv.Quote(p), strconv.Quote("./"+rel), 1)
				}
			}
		}
		if implicit {
			text = strings.Replace(text, "databases = 16\n", "", 1)
		}
		return strings.Replace(text, `loglevel = "warn"`, fmt.Sprintf("loglevel = %q", level), 1)
	}
	s.mustStart()
	replay := map[string]any{"config": s.conf, "level": level, "file": s.confName, "text": inFormat(s.confText(), filepath.Ext(s.confName))}
	c, err := dial(s.addr())
	if err != nil {
		s.dead("connect: " + err.Error())
	}
	defer c.Close()
	want := func(ok bool, args ...string) {
		rep, err := c.Do(args...)
		if err != nil || rep.IsErr() == ok {
			h.fail(replay, "databases %d, password %q: %s is answered with %v %v", conf.DBs, conf.Pass, quoteArgs(args), rep, err)
		}
	}
	if conf.Pass != "" {
		want(false, "get", "x")
		want(false, "auth", conf.Pass+"x")
		want(false, "auth", conf.Pass[:len(conf.Pass)-1])
		want(false, "get", "x")
		want(true, "auth", conf.Pass)
	}
	want(true, "get", "x")
	for k := 0; k < conf.DBs; k++ {
		want(true, "select", strconv.Itoa(k))
		want(true, "set", "k", strconv.Itoa(k))
	}
	for k := conf.DBs; k < conf.DBs+3; k++ {
		want(false, "select", strconv.Itoa(k))
	}
	want(false, "select", "-1")
	for k := 0; k < conf.DBs; k++ {
		want(true, "select", strconv.Itoa(k))
		if rep, err := c.Do("get", "k"); err != nil || rep.S != strconv.Itoa(k) {
			h.fail(replay, "database %d of %d holds %v %v", k, conf.DBs, rep, err)
		}
	}
	c.Raw([]byte("*1\r\n$99999999999\r\n")) // provokes an entry of level error
	c.Read()
	if conf.AOF != (fileSize(s.aofPath()) > 0) {
		h.fail(replay, "appendonly is %v, the configured file has %d bytes", conf.AOF, fileSize(s.aofPath()))
	}
	// the log file, with nothing below the configured level
	s.signal(syscall.SIGTERM)
	s.waitExit(20 * time.Second)
	b, err := os.ReadFile(s.conf.LogFile)
	if err != nil && (level == "debug" || level == "info") {
		h.fail(replay, "the configured log file is not there: %v", err)
	}
	text := string(b)
	low := map[string][]string{"debug": nil, "info": {"debug"}, "warn": {"debug", "info"}, "error": {"debug", "info", "warn"}}
	for _, l := range low[level] {
		if strings.Contains(text, `"level":"`+l) {
			h.fail(replay, "log level %s, but the log has an entry of level %s: %s", level, l, clip(text))
		}
	}
	if (level == "debug" || level == "info") && !strings.Contains(text, `"level":"info"`) {
		h.fail(replay, "log level %s, but the log has no entry of level info", level)
	}
	other, _ := filepath.Glob(filepath.Join(s.dir, "*.log"))
	for _, o := range other {
		if o != s.conf.LogFile {
			h.fail(replay, "a log was written to %s instead of %s", o, s.conf.LogFile)
		}
	}
	h.count("databases selected and used", int64(conf.DBs))
	h.count("configuration files "+filepath.Ext(s.confName), 1)
	h.eval(true, fmt.Sprintf("%v %s %s %v %v", conf, level, s.confName, relative, implicit))
}

// logLevels: what the same run logs under level debug appears under any other level exactly from that level on.
func (h *H) logLevels() {
	order := []string{"debug", "info", "warn", "error"}
	run := func(level string) (map[string]bool, string) {
		s := h.newServer(h.bins["plain"], Conf{AOF: true})
		defer s.discard()
		s.conf.LogFile = filepath.Join(s.dir, "levels.log")
		s.confEdit = func(text string) string {
			return strings.Replace(text, `loglevel = "warn"`, fmt.Sprintf("loglevel = %q", level), 1)
		}
		// an incomplete command at the end
		os.WriteFile(s.aofPath(), []byte("*2\r\n$6\r\nselect\r\n$1\r\n0\r\n*3\r\n$3\r\nset\r\n$1\r\nk\r\n$1\r\nv\r\n*3\r\n$3\r\nset\r\n$1"), 0644)
		s.mustStart()
		for _, raw := range []string{"*1\r\n$99999999999\r\n", "*-5\r\n", "*1\r\n:5\r\n"} {
			c, err := dial(s.addr())
			if err != nil {
				s.dead("connect: " + err.Error())
			}
			c.Raw([]byte(raw))
			c.Read()
			c.Close()
		}
		if c, err := dial(s.addr()); err == nil {
			c.Do("bgrewriteaof")
			c.Do("ping")
			c.Close()
		}
		s.signal(syscall.SIGTERM)
		s.waitExit(20 * time.Second)
		b, _ := os.ReadFile(s.conf.LogFile)
		got := map[string]bool{}
		for _, l := range order {
			got[l] = strings.Contains(string(b), `"level":"`+l)
		}
		return got, string(b)
	}
	full, _ := run("debug")
	for k, level := range order[1:] {
		got, text := run(level)
		for j, l := range order {
			if want := full[l] && j >= k+1; got[l] != want {
				h.fail(map[string]any{"level": level, "log": clip(text)}, "log level %s: entries of level %s in the log: %v, want %v (the same run at level debug has some: %v)", level, l, got[l], want, full[l])
			}
		}
		h.eval(true, "log level "+level)
	}
	for l, ok := range full {
		if ok {
			h.count("log levels seen: "+l, 1)
		}
	}
}

// portTaken starts a second server on a port in use.
func (h *H) portTaken() {
	a := h.newServer(h.bins["plain"], Conf{})
	defer a.discard()
	a.mustStart()
	b := h.newServer(h.bins["plain"], Conf{Port: a.conf.Port})
	defer b.discard()
	b.spawn()
	if !b.waitExit(20*time.Second) || b.state.Success() {
		h.fail(map[string]any{"output": b.outTail(), "listening": b.listeners()}, "a second server on the same port does not end with an error")
	}
	c := a.client()
	if rep, err := c.Do("ping"); err != nil || rep.S != "PONG" {
		h.fail(nil, "the first server: %v %v", rep, err)
	}
	c.Close()
	h.eval(true, "port taken")
}

// startedAgain starts a server again on its port right after it has ended, while connections of the first one
// still linger in the kernel.
func (h *H) startedAgain(i int) {
	s := h.newServer(h.bins["plain"], Conf{AOF: i%2 == 0})
	defer s.discard()
	s.mustStart()
	port := s.conf.Port
	for k := 0; k < 3; k++ {
		var open []*Client
		for j := 0; j < 6; j++ {
			c := s.client()
			open = append(open, c)
			c.Do("set", "k", strconv.Itoa(k))
			switch j % 3 {
			case 0: // the server ends this one
				c.Raw([]byte("*1\r\n%x\r\n"))
				c.Read()
			case 1:
				c.Close()
			}
		}
		if (i+k)%2 == 0 {
			s.kill()
		} else {
			s.signal(syscall.SIGTERM)
			if !s.waitExit(20 * time.Second) {
				h.fail(nil, "the server does not end on SIGTERM within 20 s")
			}
		}
		for _, c := range open[:len(open)/2] {
			c.Close()
		}
		lingering := 0
		if b, err := os.ReadFile("/proc/net/tcp"); err == nil {
			for _, l := range strings.Split(string(b), "\n") {
				if f := strings.Fields(l); len(f) > 3 && strings.HasSuffix(f[1], fmt.Sprintf(":%04X", port)) && f[3] != "0A" {
					lingering++
				}
			}
		}
		off := s.outSize()
		s.spawn()
		if err := s.waitReady(30 * time.Second); err != nil {
			if s.exited() && strings.Contains(s.output(off), "address already in use") {
				l, e := net.Listen("tcp4", fmt.Sprintf("127.0.0.1:%d", port))
				if e != nil { // another process has taken it
					h.count("ports taken by others", 1)
					return
				}
				l.Close()
			}
			h.fail(map[string]any{"output": s.output(off)}, "the server does not start again on port %d, of which %d connections of the first one linger in the kernel and which is free for others: %v", port, lingering, err)
		}
		c := s.client()
		if rep, err := c.Do("ping"); err != nil || rep.S != "PONG" {
			h.fail(nil, "after another start on the same port: %v %v", rep, err)
		}
		c.Close()
		for _, c := range open {
			c.Close()
		}
		h.count("starts on a port with lingering connections", int64(min(lingering, 1)))
		h.eval(lingering > 0, fmt.Sprintf("started again %d %d", i, k))
	}
}

// fsyncInEffect and rewriteInEffect tell the settings apart by what they do.
func (h *H) fsyncInEffect() {
	for i, pol := range []string{"always", "everysec", "no"} {
		s := h.newServer(h.bins["inst"], Conf{AOF: true, Fsync: pol})
		s.instrument(true, "")
		s.page.SetClock(1700000000000)
		s.mustStart()
		c := s.client()
		for k := 0; k < 50; k++ {
			if _, err := c.Do("set", "k", strconv.Itoa(k)); err != nil {
				s.dead("set: " + err.Error())
			}
			if k == 20 || k == 40 {
				s.page.SetClock(1700000000000 + int64(k)*200)
			}
		}
		c.Do("ping")
		n := 0
		h.until(10*time.Second, func() bool {
			n = 0
			for _, e := range parseEvents(s.logPath) {
				if e.Class == 'a' && (e.Op == 's' || e.Op == 'd') && !e.Post {
					n++
				}
			}
			return pol != "everysec" || n > 0
		})
		if lo, hi := []int{50, 1, 0}[i], []int{1000, 6, 0}[i]; n < lo || n > hi {
			h.fail(map[string]any{"config": s.conf}, "policy %s: %d fsyncs for 50 writes within 8 s", pol, n)
		}
		s.discard()
		h.eval(true, fmt.Sprint(pol, n))
	}
}

func (h *H) rewriteInEffect() {
	for _, x := range []struct {
		pct  int
		min  string
		want bool
	}{{100, "1kb", true}, {100, "1mb", false}, {0, "1kb", false}, {50, "4kb", true}, {50, "1gb", false}} {
		s := h.newServer(h.bins["inst"], Conf{AOF: true, Fsync: "no", RewritePct: x.pct, RewriteMin: x.min})
		s.instrument(false, "")
		now := int64(1700000000000)
		s.page.SetClock(now)
		s.mustStart()
		ino := inode(s.aofPath())
		c := s.client()
		for k := 0; k < 100; k++ {
			c.Do("set", "k", pattern("p", 100))
		}
		done := h.until(map[bool]time.Duration{true: 10 * time.Second, false: 200 * time.Millisecond}[x.want], func() bool {
			now += 2
			s.page.SetClock(now)
			c.Do("ping")
			return inode(s.aofPath()) != ino
		})
		if done != x.want {
			h.fail(map[string]any{"config": s.conf}, "percentage %d, minimum %s, %d bytes written: rewritten %v", x.pct, x.min, fileSize(s.aofPath()), done)
		}
		c.Close()
		s.discard()
		h.eval(true, fmt.Sprint(x))
	}
}

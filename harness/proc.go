package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"

	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Conf is the configuration of one server instance.
type Conf struct {
	Bind       string
	Port       int
	DBs        int
	Pass       string
	AOF        bool
	Fsync      string
	RewritePct int
	RewriteMin string
	LogFile    string
	NoAOFName  bool
	Extra      string
}

// Page is memory shared with an instrumented server.
type Page struct {
	path string
	mem  []byte
}

func (p *Page) at(i int) *int64 { return (*int64)(unsafe.Pointer(&p.mem[8*i])) }

// SetClock sets the virtual time in milliseconds.
func (p *Page) SetClock(ms int64) { atomic.StoreInt64(p.at(0), ms*1e6) }
func (p *Page) Clock() int64      { return atomic.LoadInt64(p.at(0)) / 1e6 }
func (p *Page) Arm(on bool) {
	v := int64(1)
	if on {
		v = 0
	}
	atomic.StoreInt64(p.at(1), v)
}
func (p *Page) FileEvents() int64 { return atomic.LoadInt64(p.at(3)) }
func (p *Page) Events() int64     { return atomic.LoadInt64(p.at(2)) }

// Server is one running (or ended) server process.
type Server struct {
	h        *H
	dir      string
	bin      string
	conf     Conf
	page     *Page
	logPath  string // event log
	env      []string
	confName string
	confEdit func(string) string
	shell    string // run first, in the shell that becomes the server

	cmd   *exec.Cmd
	out   *os.File
	done  chan struct{}
	state *os.ProcessState
}

var portSeq, startSeq atomic.Int64

func freePort(ip string) int {
	for i := 0; i < 2000; i++ {
		p := 10000 + int((portSeq.Add(1)*7+int64(os.Getpid())*13)%21000)
		l, err := net.Listen("tcp4", net.JoinHostPort(ip, strconv.Itoa(p)))
		if err == nil {
			l.Close()
			return p
		}
	}
	giveUp("no free port")
	return 0
}

// newServer prepares a server with its own directory; nothing runs yet.
func (h *H) newServer(bin string, conf Conf) *Server {
	s := &Server{h: h, bin: bin, conf: conf, dir: h.tempDir("srv")}
	if s.conf.Bind == "" {
		s.conf.Bind = "127.0.0.1"
	}
	if s.conf.DBs == 0 {
		s.conf.DBs = 16
	}
	if s.conf.Fsync == "" {
		s.conf.Fsync = "no"
	}
	if s.conf.RewriteMin == "" {
		s.conf.RewriteMin = "1gb"
	}
	return s
}

// instrument makes the server use a shared page (virtual clock, arming) and keep an event log.
func (s *Server) instrument(withLog bool, rules string) {
	p := filepath.Join(s.dir, "page")
	if err := os.WriteFile(p, make([]byte, 4096), 0644); err != nil {
		giveUp("%v", err)
	}
	f, err := os.OpenFile(p, os.O_RDWR, 0)
	if err != nil {
		giveUp("%v", err)
	}
	defer f.Close()
	mem, err := syscall.Mmap(int(f.Fd()), 0, 4096, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		giveUp("mmap: %v", err)
	}
	s.page = &Page{p, mem}
	s.setEnv(withLog, rules)
}

func (s *Server) setEnv(withLog bool, rules string) {
	s.env = []string{"VERIF_PAGE=" + s.page.path, "VERIF_AOF=" + s.aofPath(), "VERIF_DIR=" + s.dataDir() + "/"}
	s.logPath = ""
	if withLog {
		s.logPath = filepath.Join(s.dir, fmt.Sprintf("events-%d", time.Now().UnixNano()))
		s.env = append(s.env, "VERIF_LOG="+s.logPath)
	}
	if rules != "" {
		s.env = append(s.env, "VERIF_RULES="+rules)
	}
}

func (s *Server) dataDir() string {
	d := filepath.Join(s.dir, "data")
	os.MkdirAll(d, 0755)
	return d
}

func (s *Server) aofPath() string { return filepath.Join(s.dataDir(), "appendonly.aof") }
func (s *Server) addr() string {
	ip := s.conf.Bind
	if ip == "0.0.0.0" {
		ip = "127.0.0.1"
	}
	return net.JoinHostPort(ip, strconv.Itoa(s.conf.Port))
}

func (s *Server) writeConf() string {
	name := "config.toml"
	text := s.confText()
	if s.confName != "" {
		name = s.confName
		text = inFormat(text, filepath.Ext(name))
	}
	p := filepath.Join(s.dir, name)
	os.RemoveAll(p)
	if err := os.WriteFile(p, []byte(text), 0644); err != nil {
		giveUp("%v", err)
	}
	return p
}

// inFormat turns lines of the form key = value into another format.
func inFormat(text, ext string) string {
	if ext != ".yaml" && ext != ".yml" && ext != ".json" {
		return text
	}
	var lines []string
	for _, l := range strings.Split(strings.TrimSpace(text), "\n") {
		k, v, _ := strings.Cut(l, " = ")
		if ext == ".json" {
			k = strconv.Quote(k)
		}
		lines = append(lines, k+": "+v)
	}
	if ext == ".json" {
		return "{\n" + strings.Join(lines, ",\n") + "\n}\n"
	}
	return strings.Join(lines, "\n") + "\n"
}

// confText is the configuration file of the server.
func (s *Server) confText() string {
	var b bytes.Buffer
	c := s.conf
	fmt.Fprintf(&b, "bind = %q\nport = %d\ndatabases = %d\n", c.Bind, c.Port, c.DBs)
	if c.Pass != "" {
		fmt.Fprintf(&b, "requirepass = %q\n", c.Pass)
	}
	lf := c.LogFile
	if lf == "" {
		lf = filepath.Join(s.dir, "metis.log")
	}
	fmt.Fprintf(&b, "logfile = %q\nloglevel = \"warn\"\n", lf)
	fmt.Fprintf(&b, "appendonly = %v\n", c.AOF)
	if !c.NoAOFName {
		fmt.Fprintf(&b, "appendfilename = %q\n", s.aofPath())
	}
	fmt.Fprintf(&b, "appendfsync = %q\nauto-aof-rewrite-percentage = %d\nauto-aof-rewrite-min-size = %q\n", c.Fsync, c.RewritePct, c.RewriteMin)
	b.WriteString(c.Extra)
	if s.confEdit != nil {
		return s.confEdit(b.String())
	}
	return b.String()
}

// spawn starts the process without waiting for anything.
func (s *Server) spawn() {
	if s.conf.Port == 0 {
		s.conf.Port = freePort("127.0.0.1")
	}
	cfg := s.writeConf()
	out, err := os.OpenFile(filepath.Join(s.dir, "output"), os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0644)
	if err != nil {
		giveUp("%v", err)
	}
	s.out = out
	s.cmd = exec.Command(s.bin, "-c", cfg)
	if s.shell != "" {
		s.cmd = exec.Command("/bin/sh", "-c", s.shell+`; exec "$0" -c "$1"`, s.bin, cfg)
	}
	s.cmd.Dir = s.dir
	s.cmd.Stdout, s.cmd.Stderr = out, out
	s.cmd.Env = append(os.Environ(), s.env...)
	if late := lateGo[s.h.prop]; late != nil {
		if ms := late[int(startSeq.Add(1))%len(late)]; ms > 0 {
			s.cmd.Env = append(s.cmd.Env, "VERIF_GO="+strconv.Itoa(ms))
			s.h.count("server starts with goroutines that begin late", 1)
		}
	}
	if s.h.otherFS != "" { // the directory for temporary files need not be on the file system of the data
		s.cmd.Env = append(s.cmd.Env, "TMPDIR="+s.h.otherFS)
	}
	s.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := s.cmd.Start(); err != nil {
		s.cmd = nil
		giveUp("cannot start the server: %v", err)
	}
	s.done = make(chan struct{})
	s.state = nil
	s.h.mu.Lock()
	s.h.procs[s] = true
	s.h.mu.Unlock()
	s.h.count("server starts", 1)
	go func(cmd *exec.Cmd, done chan struct{}) {
		cmd.Wait()
		s.state = cmd.ProcessState
		out.Close()
		close(done)
	}(s.cmd, s.done)
}

func (s *Server) exited() bool {
	select {
	case <-s.done:
		return true
	default:
		return false
	}
}

// start runs the server until it answers PING (after AUTH if there is a password).
func (s *Server) start() error {
	for attempt := 0; ; attempt++ {
		off := s.outSize()
		s.spawn()
		err := s.waitReady(60 * time.Second)
		if err == nil {
			return nil
		}
		if s.exited() && attempt < 5 && strings.Contains(s.output(off), "address already in use") {
			s.conf.Port = 0
			continue
		}
		s.kill()
		return err
	}
}

func (s *Server) outSize() int64 {
	fi, err := os.Stat(filepath.Join(s.dir, "output"))
	if err != nil {
		return 0
	}
	return fi.Size()
}

func (s *Server) output(off int64) string {
	b, err := os.ReadFile(filepath.Join(s.dir, "output"))
	if err != nil || int64(len(b)) < off {
		return ""
	}
	return string(b[off:])
}

func (s *Server) outTail() string {
	o := s.output(0)
	if l, err := os.ReadFile(filepath.Join(s.dir, "metis.log")); err == nil && !strings.Contains(o, "\"level\"") {
		o += string(l)
	}
	if i := strings.Index(o, "panic:"); i >= 0 && len(o)-i > 1500 {
		return o[i : i+1500]
	}
	if len(o) > 1500 {
		o = o[len(o)-1500:]
	}
	return o
}

func (s *Server) waitReady(d time.Duration) error {
	deadline := time.Now().Add(d)
	wait := time.Millisecond
	for time.Now().Before(deadline) {
		if s.exited() {
			return fmt.Errorf("the server exited at start: %v\n%s", s.state, s.outTail())
		}
		c, err := net.DialTimeout("tcp", s.addr(), 5*time.Second)
		if err == nil {
			cl := &Client{c, nil}
			cl.r = newReader(c)
			r, err := cl.Do("ping")
			cl.Close()
			if err == nil && (r.T == '+' || s.conf.Pass != "") {
				return nil
			}
		}
		select {
		case <-s.done:
		case <-time.After(wait):
		}
		if wait < 50*time.Millisecond {
			wait += wait / 2
		}
	}
	return fmt.Errorf("the server did not become ready within %v", d)
}

// mustStart starts the server; a server which does not come up breaks whatever is being checked.
func (s *Server) mustStart() *Server {
	if err := s.start(); err != nil {
		s.h.fail(map[string]any{"config": s.conf, "output": s.outTail()}, "server does not start: %v", err)
	}
	return s
}

func (s *Server) client() *Client {
	c, err := dial(s.addr())
	if err != nil {
		s.dead("connect: " + err.Error())
	}
	if s.conf.Pass != "" {
		if r, err := c.Do("auth", s.conf.Pass); err != nil || r.T != '+' {
			s.h.fail(nil, "AUTH with the configured password fails: %v %v", r, err)
		}
	}
	return c
}

// dead reports a server that does not serve any more.
func (s *Server) dead(what string) {
	select {
	case <-s.done:
		s.h.fail(map[string]any{"config": s.conf, "output": s.outTail()}, "%s: the server process ended: %v\n%s", what, s.state, s.outTail())
	case <-time.After(2 * time.Second):
		s.h.fail(map[string]any{"config": s.conf, "output": s.outTail()}, "%s (the server process is still running)", what)
	}
}

func (s *Server) signal(sig syscall.Signal) {
	if s.cmd != nil && s.cmd.Process != nil && !s.exited() {
		s.cmd.Process.Signal(sig)
	}
}

// kill ends the server with SIGKILL.
func (s *Server) kill() {
	if s.cmd == nil {
		return
	}
	s.signal(syscall.SIGKILL)
	<-s.done
	s.h.mu.Lock()
	delete(s.h.procs, s)
	s.h.mu.Unlock()
}

// waitExit waits for the process to end by itself.
func (s *Server) waitExit(d time.Duration) bool {
	select {
	case <-s.done:
		s.h.mu.Lock()
		delete(s.h.procs, s)
		s.h.mu.Unlock()
		return true
	case <-time.After(d):
		return false
	}
}

// discard kills the server and removes its directory.
func (s *Server) discard() {
	s.kill()
	if s.page != nil {
		syscall.Munmap(s.page.mem)
		s.page = nil
	}
	os.RemoveAll(s.dir)
}

func (h *H) killAll() {
	h.mu.Lock()
	var l []*Server
	for s := range h.procs {
		l = append(l, s)
	}
	h.mu.Unlock()
	for _, s := range l {
		s.signal(syscall.SIGKILL)
	}
	for _, s := range l {
		<-s.done
	}
}

// memKB reads a memory figure (VmRSS, VmHWM) of the server.
func (s *Server) memKB(name string) int64 {
	b, _ := os.ReadFile(fmt.Sprintf("/proc/%d/status", s.cmd.Process.Pid))
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, name+":") {
			f := strings.Fields(l)
			n, _ := strconv.ParseInt(f[1], 10, 64)
			return n
		}
	}
	return 0
}

func (s *Server) fds() []string {
	dir := fmt.Sprintf("/proc/%d/fd", s.cmd.Process.Pid)
	es, _ := os.ReadDir(dir)
	var out []string
	for _, e := range es {
		l, err := os.Readlink(filepath.Join(dir, e.Name()))
		if err == nil {
			out = append(out, l)
		}
	}
	return out
}

func (s *Server) socketFds() int {
	n := 0
	for _, f := range s.fds() {
		if strings.HasPrefix(f, "socket:") {
			n++
		}
	}
	return n
}

// Event is one record of the event log of an instrumented server.
type Event struct {
	Seq, Real, Virt int64
	Post            bool
	Op, Class       byte
	Fd, N           int64
	Errno           int64
	Data            []byte
}

func (e Event) String() string {
	ph := "start"
	if e.Post {
		ph = "end"
	}
	return fmt.Sprintf("#%d %s %c/%c fd=%d n=%d errno=%d %q", e.Seq, ph, e.Op, e.Class, e.Fd, e.N, e.Errno, clip(string(e.Data)))
}

func parseEvents(path string) []Event {
	b, err := os.ReadFile(path)
	if err != nil {
		giveUp("event log: %v", err)
	}
	return parseEventBytes(b)
}

func parseEventBytes(b []byte) []Event {
	var out []Event
	const hdr = 8*4 + 4 + 8*3
	for len(b) >= hdr {
		n := int(binary.LittleEndian.Uint64(b))
		if n < 0 || len(b) < hdr+n {
			break
		}
		u := func(o int) int64 { return int64(binary.LittleEndian.Uint64(b[o:])) }
		out = append(out, Event{Seq: u(8), Real: u(16), Virt: u(24), Post: b[32] == 1, Op: b[33], Class: b[34],
			Fd: u(36), N: u(44), Errno: u(52), Data: b[hdr : hdr+n]})
		b = b[hdr+n:]
	}
	return out
}

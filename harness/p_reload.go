package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"
)

func init() {
	specs["C31"] = spec{run: liveEdits, level: "exploration",
		rule: "the configuration file of running servers is edited again and again (other values, wrong types, garbage, cut and empty files, removal, renaming, links, directories, many edits at once, also while the server starts) between commands judged by the model; listeners, password, databases, log and rewrite settings are observed to stay those of the start; at the end the dataset is compared after a restart. A case is one edit",
		note: []string{"a few milliseconds are left to the server to notice an edit; what it prints about unreadable files is counted"}}
}

var badValues = []string{`"abc"`, `""`, `[1, 2]`, `[]`, `{a = 1}`, `1979-05-27T07:32:00Z`, `3.5`, `-1`, `99999999999`, `9223372036854775807`, `true`, `"9999999999999999999999"`, `inf`, `nan`, `[["x"], [1]]`, `"\u0000"`}

// edit changes the configuration file; the description goes into the replay.
// With keep the file always exists: removing it ends the watching.
func (s *Server) edit(rng *rand.Rand, path string, keep bool) string {
	base := s.confText()
	lines := strings.Split(strings.TrimSpace(base), "\n")
	write := func(text string) {
		os.RemoveAll(path)
		os.WriteFile(path, []byte(text), 0644)
	}
	overwrite := func(text string) { // in place, as an editor without backup does
		if fi, err := os.Lstat(path); err != nil || !fi.Mode().IsRegular() {
			os.RemoveAll(path)
		}
		os.WriteFile(path, []byte(text), 0644)
	}
	set := func(key, val string) string {
		var out []string
		done := false
		for _, l := range lines {
			if strings.HasPrefix(l, key+" ") {
				l, done = key+" = "+val, true
			}
			out = append(out, l)
		}
		if !done {
			out = append(out, key+" = "+val)
		}
		return strings.Join(out, "\n") + "\n"
	}
	keys := []string{"bind", "port", "databases", "requirepass", "logfile", "loglevel", "appendonly", "appendfilename", "appendfsync", "auto-aof-rewrite-percentage", "auto-aof-rewrite-min-size"}
	good := map[string][]string{"bind": {`"127.0.0.2"`, `"0.0.0.0"`}, "port": {"1", "0", "65535"}, "databases": {"1", "2", "1000"}, "requirepass": {`"other"`, `"x"`, `""`},
		"logfile": {fmt.Sprintf("%q", filepath.Join(s.dir, "other.log")), `""`}, "loglevel": {`"debug"`, `"error"`}, "appendonly": {"true", "false"},
		"appendfilename": {fmt.Sprintf("%q", filepath.Join(s.dir, "data", "other.aof"))}, "appendfsync": {`"no"`, `"always"`, `"everysec"`},
		"auto-aof-rewrite-percentage": {"1", "0"}, "auto-aof-rewrite-min-size": {`"1b"`, `"0"`}}
	key := keys[rng.Intn(len(keys))]
	put := overwrite
	how := "overwritten"
	switch rng.Intn(4) {
	case 0:
		if !keep {
			put, how = write, "removed and written again"
		}
	case 1:
		put, how = func(text string) {
			tmp := filepath.Join(filepath.Dir(path), fmt.Sprintf("tmp-%d", rng.Int31()))
			os.WriteFile(tmp, []byte(text), 0644)
			if fi, err := os.Lstat(path); err == nil && fi.IsDir() {
				os.RemoveAll(path)
			}
			os.Rename(tmp, path)
		}, "replaced by renaming"
	}
	kind := rng.Intn(16)
	if keep && kind >= 10 && kind <= 11 {
		kind = 4
	}
	switch kind {
	case 0, 1, 2:
		v := good[key][rng.Intn(len(good[key]))]
		put(set(key, v))
		return how + ": " + key + " = " + v
	case 3, 4, 5, 6:
		v := badValues[rng.Intn(len(badValues))]
		put(set(key, v))
		return how + ": " + key + " = " + v
	case 7:
		var sb strings.Builder
		for _, k := range keys {
			v := badValues[rng.Intn(len(badValues))]
			if rng.Intn(2) == 0 {
				v = good[k][rng.Intn(len(good[k]))]
			}
			sb.WriteString(k + " = " + v + "\n")
		}
		put(sb.String())
		return how + ": " + sb.String()
	case 8:
		n := rng.Intn(len(base))
		put(base[:n])
		return how + ": cut to " + strconv.Itoa(n) + " bytes"
	case 9:
		t := []string{"", "\n", "garbage", "= = =", "[port]\nx = 1\n", "[[bind]]\n", "port = \"", "port = 1\nport = 2\n", "\x00\xff\xfe", strings.Repeat("[a.b]\n", 50), "port = 0x", "{\"port\": 1}", "port: 1\n", strings.Repeat("x = 1\n", 3), strings.Repeat("#", 300000), "bind.port = 3\nbind = 3\n"}[rng.Intn(16)]
		put(t)
		return how + ": " + strconv.Quote(clip(t))
	case 10:
		os.RemoveAll(path)
		return "removed"
	case 11:
		os.RemoveAll(path)
		os.Mkdir(path, 0755)
		return "replaced by a directory"
	case 12:
		other := filepath.Join(s.dir, fmt.Sprintf("linked-%d", rng.Int31()))
		os.WriteFile(other, []byte(set(key, badValues[rng.Intn(len(badValues))])), 0644)
		link := other + ".link"
		os.Symlink(other, link)
		if !keep {
			os.RemoveAll(path)
		}
		os.Rename(link, path)
		return "replaced by a link"
	case 13:
		for k := 0; k < 60; k++ {
			put(set(keys[rng.Intn(len(keys))], badValues[rng.Intn(len(badValues))]))
		}
		return "60 edits at once"
	case 14:
		f, err := os.OpenFile(path, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
		if err == nil {
			for _, l := range lines {
				f.WriteString(l + "\n")
				time.Sleep(time.Duration(rng.Intn(500)) * time.Microsecond)
			}
			f.Close()
		}
		return "written line by line"
	}
	put(base)
	return how + ": as at the start"
}

func liveEdits(h *H) {
	h.buildPlain()
	h.buildInst()
	more := h.n(14, 70)
	h.parallel(more+h.n(24, 200), 8, func(i int) {
		if i < more {
			h.liveSetting(i)
			return
		}
		h.liveEditRun(i - more)
	})
}

// liveSetting edits one setting of a running server and watches what the setting is about.
func (h *H) liveSetting(i int) {
	name := fmt.Sprintf("setting-%d", i)
	rng := h.rng(name)
	kind := i % 7
	conf := Conf{DBs: 3, AOF: true, Fsync: "no"}
	switch kind {
	case 1, 2:
		conf.RewritePct, conf.RewriteMin = 100, "4kb"
	case 3:
		conf.RewritePct, conf.RewriteMin = 100, "1gb"
	case 4:
		conf.Fsync = "always"
	case 6:
		conf.AOF = false
	}
	s := h.newServer(h.bins["inst"], conf)
	defer s.discard()
	s.instrument(kind == 4 || kind == 5, "")
	now := int64(1_700_000_000_000)
	s.page.SetClock(now)
	s.mustStart()
	r := newRun(h, s, rng, 1)
	path := filepath.Join(s.dir, "config.toml")
	start := s.confText()
	edit := func(pairs ...string) {
		text := start
		for k := 0; k < len(pairs); k += 2 {
			var out []string
			for _, l := range strings.Split(strings.TrimSpace(text), "\n") {
				if !strings.HasPrefix(l, pairs[k]+" ") {
					out = append(out, l)
				}
			}
			text = strings.Join(append(out, pairs[k]+" = "+pairs[k+1]), "\n") + "\n"
		}
		if rng.Intn(2) == 0 {
			os.WriteFile(path, []byte(text), 0644)
		} else {
			os.WriteFile(path+".new", []byte(text), 0644)
			os.Rename(path+".new", path)
		}
		r.log.note(fmt.Sprintf("edit: %v", pairs))
		time.Sleep(60 * time.Millisecond)
		h.eval(true, fmt.Sprint(name, pairs))
	}
	write := func(n int) {
		var cmds [][]string
		for k := 0; k < n; k++ {
			cmds = append(cmds, []string{"set", "k" + strconv.Itoa(rng.Intn(30)), pattern(strconv.Itoa(rng.Intn(100)), 100)})
		}
		r.batch(0, cmds, 1, nil)
	}
	round := func() {
		clockTick(r, 2)
		r.do(0, "ping")
	}
	file := s.aofPath()
	write(150)
	switch kind {
	case 0, 6: // where the log is, and whether there is one
		other := filepath.Join(s.dataDir(), "other.aof")
		if kind == 6 {
			edit("appendonly", "true", "appendfilename", fmt.Sprintf("%q", other))
		} else {
			edit("appendfilename", fmt.Sprintf("%q", other), "logfile", fmt.Sprintf("%q", filepath.Join(s.dir, "other.log")))
		}
		write(20)
		for k := 0; k < 3; k++ {
			if kind == 6 {
				r.do(0, "bgrewriteaof")
				for j := 0; j < 60; j++ {
					round()
					time.Sleep(time.Millisecond)
				}
			} else {
				r.rewriteNow(round)
			}
			write(20)
			if k == 1 {
				edit("appendfilename", fmt.Sprintf("%q", filepath.Join(s.dataDir(), "third.aof")), "appendonly", []string{"false", "true"}[rng.Intn(2)])
			}
		}
		// without a log BGREWRITEAOF may write one picture of memory, where the log was configured to be
		if l, _ := os.ReadDir(s.dataDir()); kind == 0 && len(l) != 1 || len(l) > 1 || len(l) == 1 && l[0].Name() != filepath.Base(file) {
			h.fail(r.replay(nil), "started with appendonly %v and the file %s; after edits of the configuration file and BGREWRITEAOF the directory holds %v", conf.AOF, filepath.Base(file), l)
		}
		if _, err := os.Stat(filepath.Join(s.dir, "other.log")); err == nil {
			h.fail(r.replay(nil), "a log file was made which only an edit of the configuration file names")
		}
	case 1, 2, 3: // when the log is rewritten by itself
		ino := inode(file)
		if kind != 3 {
			if !h.until(15*time.Second, func() bool { round(); return inode(file) != ino }) {
				h.fail(r.replay(nil), "no automatic rewrite with %d bytes", fileSize(file))
			}
			ino = inode(file)
			for k := 0; k < 4; k++ {
				round()
			}
		}
		base := fileSize(file)
		switch kind {
		case 1: // no sooner
			edit("auto-aof-rewrite-percentage", "1", "auto-aof-rewrite-min-size", `"1b"`)
			for fileSize(file) < max(base*14/10, 4400) {
				write(1)
			}
			if fileSize(file) > base*19/10 {
				giveUp("%d bytes in the file, %d at first", fileSize(file), base)
			}
		case 2: // no later
			edit("auto-aof-rewrite-percentage", []string{"0", "1000000", "100"}[rng.Intn(3)], "auto-aof-rewrite-min-size", `"1gb"`)
			for fileSize(file) < base*22/10+4200 {
				write(10)
			}
			if !h.until(15*time.Second, func() bool { round(); return inode(file) != ino }) {
				h.fail(r.replay(nil), "started with automatic rewriting at 100 %% and 4kb, and the configuration file edited since, the server does not rewrite a file of %d bytes which had %d after the last rewrite", fileSize(file), base)
			}
			ino = inode(file)
		case 3:
			edit("auto-aof-rewrite-min-size", `"1b"`)
			write(300)
			edit("auto-aof-rewrite-percentage", "1", "auto-aof-rewrite-min-size", `"0"`)
			write(30)
		}
		for k := 0; k < 100; k++ {
			round()
			time.Sleep(time.Millisecond)
		}
		if inode(file) != ino {
			h.fail(r.replay(nil), "the server was started with automatic rewriting at %d %% and %s; after the configuration file was edited it rewrites a file of %d bytes which had %d after the last rewrite", conf.RewritePct, conf.RewriteMin, fileSize(file), base)
		}
	case 4, 5: // how often it is synced
		count := func() (n int) {
			for _, e := range parseEvents(s.logPath) {
				if e.Class == 'a' && (e.Op == 's' || e.Op == 'd') && !e.Post {
					n++
				}
			}
			return n
		}
		for _, pol := range []string{"no", "everysec", "always"} {
			edit("appendfsync", fmt.Sprintf("%q", pol))
			was := count()
			for k := 0; k < 20; k++ {
				write(1)
				clockTick(r, 300)
			}
			time.Sleep(20 * time.Millisecond)
			if n := count() - was; kind == 4 && n < 20 || kind == 5 && n > 0 {
				h.fail(r.replay(nil), "the server was started with the policy %s; after the configuration file was edited to %s, 20 writes cause %d fsyncs", conf.Fsync, pol, n)
			}
		}
	}
	r.check("after edits of the configuration file")
	s.kill()
	s.mustStart()
	r.m.restarted()
	if kind == 6 {
		r.m = NewModel(conf.DBs)
	}
	r.connect(1)
	r.check("after edits of the configuration file and a restart")
	h.count("settings edited and their effects watched", 1)
}

func (h *H) liveEditRun(i int) {
	name := fmt.Sprintf("edits-%d", i)
	rng := h.rng(name)
	conf := Conf{DBs: 2 + i%4*5, AOF: i%4 != 3, Fsync: fsyncOf(i)}
	if i%2 == 0 {
		conf.Pass = "secret"
	}
	s := h.newServer(h.bins["plain"], conf)
	defer s.discard()
	path := filepath.Join(s.dir, "config.toml")
	starting := make(chan struct{})
	ended := make(chan struct{})
	go func() { // the same settings, replaced while the server reads them
		defer close(ended)
		for k := 0; i%4 == 0; k++ {
			select {
			case <-starting:
				return
			default:
				if _, err := os.Stat(path); err == nil {
					tmp := filepath.Join(s.dir, "tmp")
					os.WriteFile(tmp, []byte(s.confText()), 0644)
					os.Rename(tmp, path)
				}
				time.Sleep(200 * time.Microsecond)
			}
		}
	}()
	if conf.Port = freePort("127.0.0.1"); i%4 == 0 {
		s.conf.Port = conf.Port
	}
	s.mustStart()
	close(starting)
	<-ended
	want := s.listeners()
	r := newRun(h, s, rng, 2)
	defer func() {
		for _, c := range r.cl {
			c.Close()
		}
	}()
	g := newGen(rng, r.m, map[string]int{"string": 14, "list": 8, "hash": 8, "set": 8, "zset": 8, "keyspace": 4, "select": 6, "error": 2})
	g.dbs = conf.DBs
	g.bulkMax = 20
	ino := inode(s.aofPath())
	noticed := int64(0)
	for e := 0; e < h.n(45, 120); e++ {
		for k := 0; k < 3; k++ {
			conn := rng.Intn(2)
			r.batch(conn, g.Next(r.sess[conn]), 1, nil)
		}
		what := s.edit(rng, path, i%3 != 1)
		r.log.note("edit: " + what)
		time.Sleep(time.Duration(rng.Intn(6)) * time.Millisecond)
		for k := 0; k < 4; k++ {
			conn := rng.Intn(2)
			r.batch(conn, g.Next(r.sess[conn]), 1, nil)
		}
		if e%5 == 0 {
			h.settingsKept(r, want, what)
		}
		h.eval(true, name+what)
	}
	time.Sleep(150 * time.Millisecond)
	h.settingsKept(r, want, "all edits")
	r.check("after editing the configuration file")
	if conf.AOF && inode(s.aofPath()) != ino {
		h.fail(r.replay(nil), "the append-only file was replaced though the server was started without automatic rewriting")
	}
	for _, o := range []string{filepath.Join(s.dir, "other.log"), filepath.Join(s.dir, "data", "other.aof")} {
		if fileSize(o) > 0 {
			h.fail(r.replay(nil), "the server writes to %s, which an edit of the configuration file named", o)
		}
	}
	out := s.output(0)
	noticed = int64(strings.Count(out, "config"))
	if i%3 == 0 {
		s.signal(syscall.SIGTERM)
		if !s.waitExit(30*time.Second) || !s.state.Success() {
			h.fail(r.replay(s.outTail()), "SIGTERM after edits of the configuration file: %v", s.state)
		}
	}
	s.kill()
	os.RemoveAll(path)
	s.conf.DBs++
	if s.conf.Pass != "" {
		s.conf.Pass = "new"
	}
	s.mustStart()
	h.settingsKept(r, s.listeners(), "a restart with an edited file")
	if conf.AOF {
		r.m.DBs = append(r.m.DBs, NewModel(1).DBs[0])
		r.connect(2)
		r.check("after editing the configuration file and a restart")
	}
	h.count("edits of the configuration file", int64(h.n(45, 120)))
	h.count("lines the servers printed about unusable edits", noticed)
	if i == 0 {
		h.sample(map[string]any{"config": conf, "last steps": tail(r.log.ops, 12)})
	}
}

// settingsKept looks at the effects of the settings of a running server.
func (h *H) settingsKept(r *Run, want []string, what string) {
	s := r.s
	got := s.listeners()
	if fmt.Sprint(got) != fmt.Sprint(want) {
		if s.exited() || len(got) == 0 {
			s.dead("after " + what)
		}
		h.fail(r.replay(nil), "%s: the server listens on %v, at its start it was %v", what, got, want)
	}
	c, err := dial(s.addr())
	if err != nil {
		s.dead("after " + what + ": connect: " + err.Error())
	}
	defer c.Close()
	do := func(ok bool, args ...string) {
		rep, err := c.Do(args...)
		if err != nil {
			s.dead("after " + what + ": " + quoteArgs(args) + ": " + err.Error())
		}
		if rep.IsErr() == ok {
			h.fail(r.replay(nil), "%s: started with %d databases and password %q, the server answers %s with %v", what, s.conf.DBs, s.conf.Pass, quoteArgs(args), rep)
		}
	}
	if s.conf.Pass != "" {
		do(false, "get", "x")
		do(false, "auth", "other")
		do(false, "auth", "")
		do(false, "get", "x")
		do(true, "auth", s.conf.Pass)
	}
	do(true, "select", strconv.Itoa(s.conf.DBs-1))
	do(false, "select", strconv.Itoa(s.conf.DBs))
	do(true, "ping")
	h.count("comparisons of the settings in effect", 1)
}

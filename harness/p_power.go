package main

import (
	"bufio"
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
)

func init() {
	specs["C33"] = spec{run: powerFailure, level: "fault_enumeration",
		rule: "clients write unique tokens, with rewrites beside; from the recorded system calls the state of the disk after a power failure at any moment is computed: of each file what an fsync has covered, and some of what came after it. At every reply and every change of the file behind the name of the log the tokens promised are looked for in it, and a server is started on sampled states. A case is one run or one state started from, distinct by run, moment and size",
		note: []string{"a rename is taken to be on disk at once, or, at the moments right behind it, not at all", "the unsynced tail of a file is lost from some byte on; blocks out of order are not modelled"}}
}

// outage is the log on disk after a power failure at one moment.
type outage struct {
	what string
	disk []byte
	need map[string]bool // tokens
}

func powerFailure(h *H) {
	h.buildPlain()
	h.buildInst()
	h.parallel(h.n(10, 60), 5, func(i int) {
		pol := []string{"always", "always", "everysec"}[i%3]
		conf := Conf{Fsync: pol}
		if i%2 == 1 {
			conf.RewritePct, conf.RewriteMin = 20, "1kb"
		}
		rules := []string{"", "s,t,1,d,10,1", "w,t,1,d,1,1;s,t,1,d,5,1", "s,a,1,d,2,1", ""}[i%5]
		name := fmt.Sprintf("power-%d", i)
		rng := h.rng(name + "-moments")
		var outs []outage
		h.tokenWork(name, conf, rules, i%4 != 3, false, func(s *Server, evs []Event, conns []*tokenConn) int {
			replay := map[string]any{"run": name, "config": s.conf, "delays": rules}
			if pol == "always" {
				if _, bad := judgeLog(evs, s.aofPath(), conns, true); bad != "" {
					h.fail(replay, "policy %s: %s", pol, bad)
				}
			}
			n, o, bad := judgePower(rng, evs, s.aofPath(), conns, pol == "always", h.n(6, 20))
			if bad != "" {
				h.fail(replay, "policy %s: %s", pol, bad)
			}
			outs = o
			h.count("tokens followed from one file to the next", int64(n))
			if pol == "always" {
				return 1 + n
			}
			return 1
		})
		for _, o := range outs {
			h.recover(name, o)
		}
	})
}

// judgePower goes through the events: nothing that has been synced may become unsynced, and with the policy always
// nothing that has been acknowledged may. It returns states of the disk to start from.
func judgePower(rng *rand.Rand, evs []Event, aof string, conns []*tokenConn, always bool, states int) (followed int, outs []outage, bad string) {
	v := newVFS(aof)
	type stream struct {
		buf  []byte
		conn *tokenConn
		n    int
	}
	streams := map[int64]*stream{}
	sends := map[int64][]byte{}
	byID := map[string]*tokenConn{}
	for _, c := range conns {
		byID[c.id] = c
	}
	acked := map[string]bool{}
	// moments: some at random, and those around renames
	var rens []int
	for i, e := range evs {
		if e.Op == 'r' && e.Post && e.Errno == 0 {
			rens = append(rens, i)
		}
	}
	at := map[int]bool{}
	for k := 0; k < states; k++ {
		i := rng.Intn(len(evs))
		if k%2 == 0 && len(rens) > 0 {
			i = rens[rng.Intn(len(rens))] + []int{-1, 0, 0, 1, 2}[rng.Intn(5)]
		}
		at[i] = true
	}
	around := func(i int) string {
		var ctx []string
		for _, x := range evs[max(0, i-14):min(len(evs), i+3)] {
			ctx = append(ctx, x.String())
		}
		return strings.Join(ctx, "\n  ")
	}
	var before *inodeTrack // the file which the log was before the last rename
	for i, e := range evs {
		old := v.paths[aof]
		v.apply(e)
		cur := v.paths[aof]
		if cur != old && old != nil {
			before = old
			for tok, end := range old.find {
				if end > old.synced {
					continue
				}
				followed++
				there := false
				if cur != nil {
					e, ok := cur.find[tok]
					there = ok && e <= cur.synced
				}
				if !there {
					return followed, nil, fmt.Sprintf("the record of %q had been synced; now the append only file is another one, and a power failure at this moment would lose the record, since no fsync has covered it there; system calls around it:\n  %s", tok, around(i))
				}
			}
		}
		if e.Class == 'n' {
			switch {
			case e.Op == 'c' && e.Post:
				delete(streams, e.Fd)
			case e.Op == 'w' && !e.Post:
				sends[e.Seq] = e.Data
			case e.Op == 'w' && e.Post:
				data := sends[e.Seq]
				delete(sends, e.Seq)
				if e.N <= 0 || e.Errno != 0 || int(e.N) > len(data) {
					break
				}
				s := streams[e.Fd]
				if s == nil {
					s = &stream{}
					streams[e.Fd] = s
				}
				s.buf = append(s.buf, data[:e.N]...)
				for len(s.buf) > 0 {
					rd := bytes.NewReader(s.buf)
					br := bufio.NewReader(rd)
					rep, err := readReply(br)
					if err != nil {
						break
					}
					s.buf = s.buf[len(s.buf)-rd.Len()-br.Buffered():]
					if s.n == 0 {
						s.conn = byID[rep.S]
					}
					if s.conn != nil && s.n < len(s.conn.tokens) && s.conn.writes[s.n] && rep.T != '-' {
						acked[s.conn.tokens[s.n]] = true
					}
					s.n++
				}
			}
		}
		if !at[i] || cur == nil {
			continue
		}
		ino, what := cur, fmt.Sprintf("after event %d of %d (%s)", i, len(evs), e.String())
		if e.Op == 'r' && e.Post && before != nil && rng.Intn(2) == 0 {
			ino, what = before, what+", the rename not yet on disk"
		}
		n := min(ino.synced, len(ino.data))
		if left := len(ino.data) - n; left > 0 {
			n += rng.Intn(left + 1)
		}
		o := outage{what: fmt.Sprintf("%s: %d bytes of the log, %d of them synced", what, n, ino.synced), disk: append([]byte(nil), ino.data[:n]...), need: map[string]bool{}}
		for tok, end := range ino.find {
			if end <= ino.synced {
				o.need[tok] = true
			}
		}
		if always {
			for tok := range acked {
				o.need[tok] = true
			}
		}
		outs = append(outs, o)
	}
	return followed, outs, ""
}

// recover starts a server on what a power failure has left.
func (h *H) recover(name string, o outage) {
	s := h.newServer(h.bins["plain"], Conf{AOF: true})
	defer s.discard()
	if err := os.WriteFile(s.aofPath(), o.disk, 0644); err != nil {
		giveUp("%v", err)
	}
	replay := map[string]any{"run": name, "moment": o.what}
	if err := s.start(); err != nil {
		h.fail(replay, "power failure %s: the server does not start any more: %v\n%s", o.what, err, s.outTail())
	}
	c := s.client()
	defer c.Close()
	found := map[string]int{}
	ask := func(args ...string) Reply {
		rep, err := c.Do(args...)
		if err != nil || rep.IsErr() {
			h.fail(replay, "power failure %s: %s after the restart: %v %v", o.what, quoteArgs(args), rep, err)
		}
		return rep
	}
	see := func(t string) {
		if strings.HasPrefix(t, tokenPrefix) {
			found[t]++
		}
	}
	for db := 0; db < 3; db++ {
		ask("select", fmt.Sprint(db))
		var sets [][]string
		for _, k := range ask("keys", "*").A {
			k := k.S
			switch {
			case strings.HasPrefix(k, "k"+tokenPrefix):
				sets = append(sets, []string{"get", k})
			case k == "sharedl" || k[0] == 'l' || strings.HasPrefix(k, "many") && (strings.HasSuffix(k, "r") || strings.HasSuffix(k, "l")):
				for _, e := range ask("lrange", k, "0", "-1").A {
					see(e.S)
				}
			case k == "set" || strings.HasPrefix(k, "many"):
				for _, e := range ask("smembers", k).A {
					see(e.S)
				}
			case k == "z":
				for _, e := range ask("zrange", k, "0", "1000000").A {
					see(e.S)
				}
			case k == "h" || strings.HasPrefix(k, "big"):
				for _, e := range ask("hkeys", k).A {
					if e.S == "f" {
						continue
					}
					sets = append(sets, []string{"hget", k, e.S})
				}
			}
		}
		for len(sets) > 0 {
			n := min(len(sets), 2000)
			reps, err := c.Pipe(sets[:n])
			if err != nil {
				h.fail(replay, "power failure %s: reading the dataset after the restart: %v", o.what, err)
			}
			for _, r := range reps {
				see(r.S)
			}
			sets = sets[n:]
		}
	}
	var lost, twice []string
	for t := range o.need {
		if found[t] == 0 {
			lost = append(lost, t)
		}
	}
	for t, n := range found {
		if n > 1 {
			twice = append(twice, t)
		}
	}
	sort.Strings(lost)
	sort.Strings(twice)
	if len(lost) > 0 {
		h.fail(replay, "power failure %s: %d of %d writes that were synced or acknowledged are lost, among them %q", o.what, len(lost), len(o.need), lost[0])
	}
	if len(twice) > 0 {
		h.fail(replay, "power failure %s: the effect of %q is there %d times", o.what, twice[0], found[twice[0]])
	}
	h.count("starts after a computed power failure", 1)
	h.count("tokens found after them", int64(len(found)))
	h.eval(true, name+o.what)
	h.sample(map[string]any{"run": name, "power failure": o.what, "tokens needed": len(o.need), "tokens found": len(found)})
}

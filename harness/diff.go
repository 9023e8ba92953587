package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/rand"
	"strconv"
	"strings"
	"time"
)

// Oplog keeps what was sent, for the replay file.
type Oplog struct {
	ops []string
	max int
}

func (o *Oplog) add(conn int, args []string) {
	var sb strings.Builder
	fmt.Fprintf(&sb, "c%d", conn)
	for _, a := range args {
		if len(a) > 400 {
			fmt.Fprintf(&sb, " %q...(%d)", a[:100], len(a))
		} else {
			fmt.Fprintf(&sb, " %q", a)
		}
		if sb.Len() > 4000 {
			fmt.Fprintf(&sb, " ... (%d arguments)", len(args))
			break
		}
	}
	o.note(sb.String())
}

func (o *Oplog) note(s string) {
	o.ops = append(o.ops, s)
	if o.max == 0 {
		o.max = 4000
	}
	if len(o.ops) > 2*o.max {
		o.ops = append([]string(nil), o.ops[len(o.ops)-o.max:]...)
	}
}

// Run drives one server and the model side by side.
type Run struct {
	h    *H
	s    *Server
	m    *Model
	cl   []*Client
	sess []*Sess
	log  Oplog
	now  func() int64
	rng  *rand.Rand
}

func realNow() int64 { return time.Now().UnixMilli() }

func newRun(h *H, s *Server, rng *rand.Rand, conns int) *Run {
	r := &Run{h: h, s: s, m: NewModel(s.conf.DBs), rng: rng, now: realNow}
	if s.page != nil {
		r.now = s.page.Clock
	} else {
		r.m.Slack = realSlack
	}
	r.m.Pass = s.conf.Pass
	r.connect(conns)
	return r
}

func (r *Run) connect(conns int) {
	for _, c := range r.cl {
		c.Close()
	}
	r.cl, r.sess = nil, nil
	for i := 0; i < conns; i++ {
		r.cl = append(r.cl, r.s.client())
		r.sess = append(r.sess, &Sess{Authed: r.m.Pass != ""})
	}
}

func (r *Run) replay(extra any) any {
	return map[string]any{"config": r.s.conf, "ops": r.log.ops, "detail": extra}
}

func (r *Run) ioFail(conn int, err error, args []string) {
	var pe protoError
	if errors.As(err, &pe) {
		r.h.fail(r.replay(nil), "malformed reply to %s: %v", quoteArgs(args), err)
	}
	select {
	case <-r.s.done:
		r.h.fail(r.replay(r.s.outTail()), "the server process ended (%v) while running %s\n%s", r.s.state, quoteArgs(args), r.s.outTail())
	case <-time.After(time.Second):
	}
	if ne, ok := err.(interface{ Timeout() bool }); ok && ne.Timeout() {
		r.h.fail(r.replay(nil), "no reply within %v to %s", replyTimeout, quoteArgs(args))
	}
	r.h.fail(r.replay(nil), "connection lost (%v) at %s", err, quoteArgs(args))
}

func quoteArgs(args []string) string {
	var sb strings.Builder
	for i, a := range args {
		if i > 0 {
			sb.WriteByte(' ')
		}
		sb.WriteString(strconv.Quote(clip(a)))
		if sb.Len() > 600 {
			fmt.Fprintf(&sb, " ...(%d arguments)", len(args))
			break
		}
	}
	return sb.String()
}

// batch sends commands on one connection in a pipeline and judges every reply.
func (r *Run) batch(conn int, cmds [][]string, segs int, between func()) []Reply {
	var b bytes.Buffer
	for _, c := range cmds {
		encodeTo(&b, c)
		r.log.add(conn, c)
	}
	parts := [][]byte{b.Bytes()}
	if segs > 1 {
		parts = split(r.rng, b.Bytes(), segs)
	}
	return r.judge(conn, cmds, parts, between)
}

// judge sends the given segments, which hold exactly the given commands, and judges every reply.
func (r *Run) judge(conn int, cmds [][]string, parts [][]byte, between func()) []Reply {
	reps, err := r.cl[conn].PipeRaw(parts, len(cmds), between)
	for i, rep := range reps {
		rep := rep
		w, ok := r.m.Exec(r.sess[conn], cmds[i], r.now(), &rep)
		if !ok {
			r.h.fail(r.replay(map[string]any{"command": cmds[i], "got": rep.String(), "want": w.String(), "db": r.sess[conn].DB}),
				"%s (connection %d, db %d): got %s, want %s", quoteArgs(cmds[i]), conn, r.sess[conn].DB, rep.String(), w.String())
		}
		r.h.eval(rep.T != '-', strings.ToLower(cmds[i][0])+" "+clip(quoteArgs(cmds[i][1:]))+" "+clip(rep.String()))
	}
	r.h.count("replies judged", int64(len(reps)))
	if err != nil {
		var at []string
		if len(reps) < len(cmds) {
			at = cmds[len(reps)]
		}
		r.ioFail(conn, err, at)
	}
	return reps
}

func (r *Run) do(conn int, args ...string) Reply {
	return r.batch(conn, [][]string{args}, 1, nil)[0]
}

// check compares the whole dataset of the server with the model.
func (r *Run) check(what string) {
	c := r.s.client()
	defer c.Close()
	if d := r.m.diff(c, r.now()); d != "" {
		r.h.fail(r.replay(d), "%s: dataset differs from the model: %s", what, d)
	}
	r.h.count("whole-dataset comparisons", 1)
	r.h.count("keys compared", int64(r.m.Keys()))
}

// diff reads the whole dataset and returns the first difference from the model, or "".
func (m *Model) diff(c *Client, now int64) string {
	for i := range m.DBs {
		if d := m.diffDB(c, i, now); d != "" {
			return d
		}
	}
	return ""
}

// diffDB does so for one database.
func (m *Model) diffDB(c *Client, i int, now int64) string {
	m.purge(now)
	db := m.DBs[i]
	sel, err := c.Pipe([][]string{{"select", strconv.Itoa(i)}, {"keys", "*"}})
	if err != nil {
		return fmt.Sprintf("db %d: %v", i, err)
	}
	if sel[0].T != '+' {
		return fmt.Sprintf("db %d: SELECT: %v", i, sel[0])
	}
	w := Want{Kind: "set", L: sortedKeys(db)}
	if !w.match(sel[1]) {
		return fmt.Sprintf("db %d: keys are %v, want %q", i, sel[1], w.L)
	}
	cmds := m.readAll(i)
	st := &Sess{DB: i, Authed: true}
	reps, err := c.Pipe(cmds)
	for j, rep := range reps {
		rep := rep
		if w, ok := m.Exec(st, cmds[j], now, &rep); !ok {
			return fmt.Sprintf("db %d: %s is %s, want %s", i, quoteArgs(cmds[j]), rep.String(), w.String())
		}
	}
	if err != nil {
		return fmt.Sprintf("db %d: %v", i, err)
	}
	return ""
}

// readAll lists the commands which read every key of a database of the model.
func (m *Model) readAll(i int) (cmds [][]string) {
	db := m.DBs[i]
	for _, k := range sortedKeys(db) {
		cmds = append(cmds, []string{"ttl", k})
		switch v := db[k]; v.K {
		case KStr:
			cmds = append(cmds, []string{"get", k})
		case KList:
			cmds = append(cmds, []string{"lrange", k, "0", "-1"}, []string{"llen", k})
		case KHash:
			cmds = append(cmds, []string{"hkeys", k}, []string{"hlen", k})
			for f := range v.Hash {
				cmds = append(cmds, []string{"hget", k, f})
			}
		case KSet:
			cmds = append(cmds, []string{"smembers", k}, []string{"scard", k})
		case KZset:
			cmds = append(cmds, []string{"zrange", k, "0", "9223372036854775807", "withscores"}, []string{"zcard", k},
				[]string{"zrangebyscore", k, "-inf", "+inf", "withscores"})
		}
	}
	return cmds
}

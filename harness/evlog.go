package main

import (
	"bufio"
	"bytes"
	"fmt"
	"strings"
)

// The event-log oracle follows the files of the data directory through the recorded system calls and decides,
// for every reply on a socket, whether the record of the request it answers was in the log by then.

type inodeTrack struct {
	data    []byte
	synced  int
	scanned int
	find    map[string]int // where the record of a token ends
}

// A token is the last argument of its command and occurs once in a history.
const tokenPrefix, tokenLen = "~TK", 13

func token(n int) string { return fmt.Sprintf("%s%010d", tokenPrefix, n) }

func (ino *inodeTrack) scan() {
	if ino.find == nil {
		ino.find = map[string]int{}
	}
	for {
		i := bytes.Index(ino.data[ino.scanned:], []byte(tokenPrefix))
		if i < 0 {
			ino.scanned = max(ino.scanned, len(ino.data)-len(tokenPrefix)+1)
			return
		}
		at := ino.scanned + i
		if len(ino.data) < at+tokenLen+2 {
			ino.scanned = at
			return
		}
		tok := string(ino.data[at : at+tokenLen])
		if _, ok := ino.find[tok]; !ok && ino.data[at+tokenLen] == '\r' && ino.data[at+tokenLen+1] == '\n' {
			ino.find[tok] = at + tokenLen + 2
		}
		ino.scanned = at + len(tokenPrefix)
	}
}

type vfs struct {
	aof    string
	paths  map[string]*inodeTrack
	fds    map[int64]*inodeTrack
	fdPath map[int64]string
	pend   map[int64]pendOp // by sequence number
}

type pendOp struct {
	ev  Event
	ino *inodeTrack
	len int
}

func newVFS(aof string) *vfs {
	return &vfs{aof: aof, paths: map[string]*inodeTrack{}, fds: map[int64]*inodeTrack{}, fdPath: map[int64]string{}, pend: map[int64]pendOp{}}
}

// apply follows one event.
func (v *vfs) apply(e Event) {
	if e.Class == 'n' || e.Class == 'b' {
		return
	}
	if !e.Post {
		p := pendOp{ev: e}
		switch e.Op {
		case 'w', 's', 'd', 'c', 'f':
			p.ino = v.fds[e.Fd]
			if p.ino != nil {
				p.len = len(p.ino.data)
			}
			if e.Op == 'c' {
				delete(v.fds, e.Fd) // the number may be in use again before the call is seen to end
			}
		}
		v.pend[e.Seq] = p
		return
	}
	p, ok := v.pend[e.Seq]
	if !ok {
		return
	}
	delete(v.pend, e.Seq)
	if e.Errno != 0 {
		return
	}
	switch e.Op {
	case 'o':
		path := string(p.ev.Data)
		ino := v.paths[path]
		if ino == nil {
			ino = &inodeTrack{}
			v.paths[path] = ino
		}
		v.fds[e.N] = ino
	case 'w':
		if p.ino != nil && e.N > 0 {
			p.ino.data = append(p.ino.data, p.ev.Data[:min(int(e.N), len(p.ev.Data))]...)
			p.ino.scan()
		}
	case 's', 'd':
		if p.ino != nil && p.len > p.ino.synced {
			p.ino.synced = p.len
		}
	case 'r':
		parts := strings.SplitN(string(p.ev.Data), "\x00", 2)
		if len(parts) == 2 {
			if ino := v.paths[parts[0]]; ino != nil {
				v.paths[parts[1]] = ino
				delete(v.paths, parts[0])
			}
		}
	case 'l':
		parts := strings.SplitN(string(p.ev.Data), "\x00", 2)
		if len(parts) == 2 && v.paths[parts[0]] != nil {
			v.paths[parts[1]] = v.paths[parts[0]]
		}
	case 'u':
		delete(v.paths, string(p.ev.Data))
	}
}

// badDescriptor describes a call on a descriptor which was not open. The number may be another one's at any moment:
// a client's, or a file's.
func badDescriptor(evs []Event, i int) string {
	var ctx []string
	for _, x := range evs[max(0, i-6):min(len(evs), i+4)] {
		ctx = append(ctx, x.String())
	}
	return fmt.Sprintf("the server makes a system call (%c: c close, w write, i read) on descriptor %d, which is not open; system calls around it:\n  %s", evs[i].Op, evs[i].Fd, strings.Join(ctx, "\n  "))
}

// tokenConn is what a client has sent on one connection: requests with the token each leaves in the log ("" if none).
type tokenConn struct {
	id     string // the first reply contains it
	tokens []string
	writes []bool
}

// judgeLog checks every reply in the log. Returns the number of write replies judged.
func judgeLog(evs []Event, aof string, conns []*tokenConn, synced bool) (judged int, bad string) {
	v := newVFS(aof)
	type stream struct {
		buf   []byte
		start []int // event index per byte
		conn  *tokenConn
		n     int // replies parsed
		pos   int
	}
	streams := map[int64]*stream{}
	pendW := map[int64]int{}
	byID := map[string]*tokenConn{}
	for _, c := range conns {
		byID[c.id] = c
	}
	// what the log held when a send started is judged at that moment: remember per send which tokens are missing
	type sendState struct {
		ino    *inodeTrack
		length int
		synced int
	}
	states := map[int]sendState{}
	for i, e := range evs {
		if e.Class == 'b' {
			return judged, badDescriptor(evs, i)
		}
		v.apply(e)
		if e.Class == 'n' && e.Op == 'c' && e.Post {
			delete(streams, e.Fd)
			continue
		}
		if e.Class != 'n' || e.Op != 'w' {
			continue
		}
		if !e.Post {
			pendW[e.Seq] = i
			ino := v.paths[aof]
			st := sendState{ino: ino}
			if ino != nil {
				st.length, st.synced = len(ino.data), ino.synced
			}
			states[i] = st
			continue
		}
		at, ok := pendW[e.Seq]
		if !ok || e.N <= 0 || e.Errno != 0 {
			continue
		}
		delete(pendW, e.Seq)
		s := streams[e.Fd]
		if s == nil {
			s = &stream{}
			streams[e.Fd] = s
		}
		for k := 0; k < int(e.N); k++ {
			s.start = append(s.start, at)
		}
		s.buf = append(s.buf, evs[at].Data[:e.N]...)
		for s.pos < len(s.buf) {
			rd := bytes.NewReader(s.buf[s.pos:])
			br := bufio.NewReader(rd)
			rep, err := readReply(br)
			if err != nil {
				break
			}
			used := len(s.buf) - s.pos - rd.Len() - br.Buffered()
			if s.n == 0 {
				s.conn = byID[rep.S]
			}
			if s.conn != nil && s.n < len(s.conn.tokens) && s.conn.writes[s.n] && rep.T != '-' {
				tok := s.conn.tokens[s.n]
				st := states[s.start[s.pos]]
				okRec := false
				if st.ino != nil {
					lim := st.length
					if synced {
						lim = st.synced
					}
					end, there := st.ino.find[tok]
					okRec = there && end <= lim
				}
				if !okRec {
					what := "its record was completely written to the append only file"
					if synced {
						what = "an fsync of the append only file that covers its record had completed"
					}
					lo := max(0, s.start[s.pos]-12)
					var ctx []string
					for _, x := range evs[lo:min(len(evs), s.start[s.pos]+6)] {
						ctx = append(ctx, x.String())
					}
					return judged, fmt.Sprintf("the reply %s to the write %q left the server before %s; system calls around it:\n  %s", rep.String(), tok, what, strings.Join(ctx, "\n  "))
				}
				judged++
			}
			s.n++
			s.pos += used
		}
	}
	return judged, ""
}

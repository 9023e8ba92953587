package main

import (
	"math/rand"
	"syscall"
	"unsafe"

	"github.com/IfanTsai/metis/ae"
	"github.com/IfanTsai/metis/socket"
)

const (
	rd = 0
	wr = 1
)

var masks = [2]ae.TypeFileEvent{ae.TypeFileEventReadable, ae.TypeFileEventWritable}
var dirs = [2]string{"readable", "writable"}

type token struct {
	n   int
	fd  int
	dir int
	gen int
}

type end struct {
	fd, peer int
	gen      int
	reg      [2]*token
	wait     [2]int // rounds for which a registered and ready direction has not been handled
	ran      [2]bool
	touched  int // the round in which something was done to it
	peerGone bool
}

type fileRun struct {
	*mon
	el     *ae.EventLoop
	ends   map[int]*end
	order  []int
	seq    int
	gen    int
	round  int
	depth  int
	timers int
	ran    int
	closed []int // descriptors of ends closed earlier
}

func pollFds(fds []pollFd) {
	for {
		_, _, e := syscall.Syscall(syscall.SYS_POLL, uintptr(unsafe.Pointer(&fds[0])), uintptr(len(fds)), 0)
		if e == syscall.EINTR {
			continue
		}
		if e != 0 {
			panic(e)
		}
		return
	}
}

type pollFd struct {
	fd      int32
	events  int16
	revents int16
}

const (
	pollIn  = 1
	pollOut = 4
	pollErr = 8
	pollHup = 16
)

var buf = make([]byte, 1<<16)

func (r *fileRun) open() *end {
	p, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK|syscall.SOCK_CLOEXEC, 0)
	if err != nil {
		panic(err)
	}
	r.gen++
	e := &end{fd: p[0], peer: p[1], gen: r.gen, touched: r.round}
	r.ends[e.fd] = e
	r.order = append(r.order, e.fd)
	r.op("open %d (peer %d)", e.fd, e.peer)
	return e
}

// close removes what is registered and closes the descriptor.
func (r *fileRun) close(e *end) {
	for d := range e.reg {
		if e.reg[d] != nil {
			r.remove(e, d)
		}
	}
	r.op("close %d", e.fd)
	syscall.Close(e.fd)
	if !e.peerGone {
		syscall.Close(e.peer)
	}
	delete(r.ends, e.fd)
	for i, f := range r.order {
		if f == e.fd {
			r.order = append(r.order[:i], r.order[i+1:]...)
			break
		}
	}
	r.closed = append(r.closed, e.fd)
	if r.depth > 0 {
		r.counts["descriptors closed from callbacks"]++
	}
}

func (r *fileRun) pick() *end {
	if len(r.order) == 0 {
		return r.open()
	}
	return r.ends[r.order[r.rng.Intn(len(r.order))]]
}

func (r *fileRun) add(e *end, d int) {
	r.seq++
	t := &token{n: r.seq, fd: e.fd, dir: d, gen: e.gen}
	r.op("AddFileEvent %d %s token %d (registered %v)", e.fd, dirs[d], t.n, e.reg[d] != nil)
	err := r.el.AddFileEvent(socket.FD(e.fd), masks[d], r.proc(t), t)
	if (err == nil) != (e.reg[d] == nil) {
		r.fail("AddFileEvent(%d, %s), registered already %v, returned %v", e.fd, dirs[d], e.reg[d] != nil, err)
	}
	if e.reg[d] == nil {
		e.reg[d] = t
		e.wait[d] = 0
		r.counts["registrations"]++
	} else {
		r.counts["duplicate registrations refused"]++
	}
}

func (r *fileRun) remove(e *end, d int) {
	r.op("RemoveFileEvent %d %s (registered %v)", e.fd, dirs[d], e.reg[d] != nil)
	err := r.el.RemoveFileEvent(socket.FD(e.fd), masks[d])
	if (err == nil) != (e.reg[d] != nil) {
		r.fail("RemoveFileEvent(%d, %s), registered %v, returned %v", e.fd, dirs[d], e.reg[d] != nil, err)
	}
	if e.reg[d] != nil {
		e.reg[d] = nil
		r.counts["removals"]++
		if r.depth > 0 {
			r.counts["removals from callbacks"]++
		}
	} else {
		r.counts["absent removals refused"]++
	}
}

// bad uses descriptors that are not open.
func (r *fileRun) bad() {
	fd := -1
	if len(r.closed) > 0 && r.rng.Intn(3) != 0 {
		fd = r.closed[r.rng.Intn(len(r.closed))]
		// it may be in use again, also by a peer or by the process
		var st syscall.Stat_t
		if syscall.Fstat(fd, &st) == nil {
			return
		}
	}
	d := r.rng.Intn(2)
	if r.rng.Intn(2) == 0 {
		r.op("AddFileEvent %d %s (not open)", fd, dirs[d])
		if err := r.el.AddFileEvent(socket.FD(fd), masks[d], func(*ae.EventLoop, socket.FD, any) {
			r.fail("the handler of a registration that failed was run")
		}, nil); err == nil {
			r.fail("AddFileEvent(%d), which is not open, succeeded", fd)
		}
	}
	r.op("RemoveFileEvent %d %s (not open)", fd, dirs[d])
	if err := r.el.RemoveFileEvent(socket.FD(fd), masks[d]); err == nil {
		r.fail("RemoveFileEvent(%d, %s), which is not registered, succeeded", fd, dirs[d])
	}
}

func (r *fileRun) proc(t *token) ae.FileProc {
	return func(el *ae.EventLoop, fd socket.FD, data any) {
		r.op("handler of token %d (%d %s) runs", t.n, t.fd, dirs[t.dir])
		if int(fd) != t.fd || data != any(t) || el != r.el {
			r.fail("the handler registered for descriptor %d with token %d was called for descriptor %d with %v", t.fd, t.n, fd, data)
		}
		e := r.ends[t.fd]
		if e == nil || e.gen != t.gen {
			r.fail("the handler of descriptor %d %s was run after the descriptor was closed", t.fd, dirs[t.dir])
		}
		if e.reg[t.dir] != t {
			r.fail("the handler of token %d was run; registered for %d %s is %v", t.n, t.fd, dirs[t.dir], e.reg[t.dir])
		}
		if e.touched != r.round {
			p := []pollFd{{fd: int32(t.fd), events: []int16{pollIn, pollOut}[t.dir]}}
			pollFds(p)
			if p[0].revents == 0 {
				r.fail("the handler of %d %s was run, but the descriptor is not ready", t.fd, dirs[t.dir])
			}
		} else {
			r.counts["handlers run in a round that changed readiness"]++
		}
		if e.ran[t.dir] {
			r.fail("the handler of %d %s was run twice in one round", t.fd, dirs[t.dir])
		}
		e.ran[t.dir] = true
		e.wait[t.dir] = 0
		r.counts["handlers run, "+dirs[t.dir]]++
		r.depth++
		switch r.rng.Intn(7) {
		case 0, 1:
			if t.dir == rd {
				r.drain(e)
			} else {
				r.fill(e)
			}
		case 2:
			r.remove(e, t.dir)
		case 3:
			if e.reg[1-t.dir] == nil {
				r.add(e, 1-t.dir)
			}
		case 4:
			r.some(1 + r.rng.Intn(3))
		case 5:
			if r.rng.Intn(10) == 0 { // closed, and its number is reused at once
				had := e.reg
				r.close(e)
				n := r.open()
				if n.fd == t.fd {
					r.counts["descriptors reused in the same round"]++
				}
				for d := range had {
					if had[d] != nil || r.rng.Intn(2) == 0 {
						r.add(n, d)
					}
				}
			}
		}
		r.depth--
	}
}

func (r *fileRun) drain(e *end) {
	e.touched = r.round
	r.op("drain %d", e.fd)
	for {
		n, err := syscall.Read(e.fd, buf)
		if err == syscall.EINTR {
			continue
		}
		if n <= 0 {
			return
		}
	}
}

func (r *fileRun) fill(e *end) {
	e.touched = r.round
	r.op("fill %d", e.fd)
	if r.rng.Intn(3) == 0 {
		syscall.Write(e.fd, buf[:1])
		return
	}
	for {
		n, err := syscall.Write(e.fd, buf)
		if err == syscall.EINTR {
			continue
		}
		if n <= 0 {
			return
		}
	}
}

func (r *fileRun) some(n int) {
	for ; n > 0; n-- {
		e := r.pick()
		d := r.rng.Intn(2)
		switch r.rng.Intn(14) {
		case 0, 1, 2:
			r.add(e, d)
		case 3, 4:
			r.remove(e, d)
		case 5, 6, 7:
			if !e.peerGone {
				e.touched = r.round
				r.op("the peer of %d sends", e.fd)
				syscall.Write(e.peer, buf[:1+r.rng.Intn(100)])
			}
		case 8:
			if !e.peerGone {
				e.touched = r.round
				r.op("the peer of %d reads", e.fd)
				for {
					if n, err := syscall.Read(e.peer, buf); n <= 0 && err != syscall.EINTR {
						break
					}
				}
			}
		case 9:
			r.fill(e)
		case 10:
			r.drain(e)
		case 11:
			if !e.peerGone && r.rng.Intn(12) == 0 {
				r.op("the peer of %d closes", e.fd)
				e.touched = r.round
				e.peerGone = true
				syscall.Close(e.peer)
			}
		case 12:
			if r.rng.Intn(8) == 0 {
				r.close(e)
				n := r.open()
				for d := range n.reg {
					if r.rng.Intn(2) == 0 {
						r.add(n, d)
					}
				}
			}
		case 13:
			r.bad()
		}
	}
}

func (m *mon) files(ops int) {
	var lim syscall.Rlimit
	syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim)
	signalIgnore()
	for int(m.counts["operations"]) < ops {
		r := &fileRun{mon: m, el: m.loop(), ends: map[int]*end{}}
		n := []int{1, 2, 5, 30, 30, 30, 200, 200, 1300, 2600}[m.rng.Intn(10)]
		if uint64(2*n+50) > lim.Cur {
			n = int(lim.Cur-50) / 2
		}
		r.op("new loop, %d descriptors", n)
		for i := 0; i < n; i++ {
			e := r.open()
			if m.rng.Intn(2) == 0 {
				r.add(e, rd)
			}
			if m.rng.Intn(2) == 0 {
				r.add(e, wr)
			}
			if m.rng.Intn(2) == 0 || n > 1300 {
				syscall.Write(e.peer, []byte("x"))
			}
		}
		// timers act on file events as well
		for i := m.rng.Intn(3); i > 0; i-- {
			r.el.AddTimeEvent(ae.TypeTimeEventNormal, int64(m.rng.Intn(2)), func(el *ae.EventLoop, id int64, data any) {
				r.op("timer %d", id)
				r.depth++
				r.some(m.rng.Intn(3))
				r.depth--
			}, nil)
			r.timers++
		}
		r.el.AddTimeEvent(ae.TypeTimeEventNormal, 1, func(*ae.EventLoop, int64, any) {}, nil)
		rounds := 100 + m.rng.Intn(500)
		if n > 100 {
			rounds = 40
		}
		perRound := 1 + m.rng.Intn(n/4+4)
		r.el.SetBeforeSleepProc(func(el *ae.EventLoop) {
			m.counts["rounds"]++
			for _, e := range r.ends {
				e.ran = [2]bool{}
			}
			if r.round >= rounds {
				r.round++
				el.Stop()
				return
			}
			r.some(m.rng.Intn(perRound + 1))
			r.round++
			fds := make([]pollFd, 0, len(r.order)+1)
			for _, f := range r.order {
				fds = append(fds, pollFd{fd: int32(f), events: pollIn | pollOut})
			}
			if len(fds) == 0 {
				return
			}
			pollFds(fds)
			bound := len(fds)/1024 + 4
			ready := 0
			for _, p := range fds {
				e := r.ends[int(p.fd)]
				for d, bit := range []int16{pollIn, pollOut} {
					if e.reg[d] != nil && p.revents&bit != 0 {
						ready++
						if e.wait[d]++; e.wait[d] > bound {
							r.fail("descriptor %d has been registered and %s for %d rounds and its handler was not run", e.fd, dirs[d], e.wait[d]-1)
						}
					} else {
						e.wait[d] = 0
					}
				}
			}
			m.counts["most handlers ready at once"] = max(m.counts["most handlers ready at once"], int64(ready))
		})
		if err := r.el.Main(); err != nil {
			r.fail("Main: %v", err)
		}
		for _, f := range append([]int(nil), r.order...) {
			e := r.ends[f]
			syscall.Close(e.fd)
			if !e.peerGone {
				syscall.Close(e.peer)
			}
		}
		m.counts["loops"]++
	}
	_ = rand.Int
}

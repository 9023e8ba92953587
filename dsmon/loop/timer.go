package main

import (
	"fmt"
	"runtime"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/IfanTsai/metis/ae"
	"github.com/IfanTsai/metis/socket"
)

type timer struct {
	id       int64
	once     bool
	interval int64
	base     int64 // ms: not before base+interval
	due      int64 // ms: due at the latest then
	live     bool
	running  bool
	fired    int
	late     int // rounds spent overdue
	token    *int64
}

type timerRun struct {
	*mon
	el      *ae.EventLoop
	clock   *int64 // virtual, ns
	all     []*timer
	live    []*timer
	round   int
	depth   int
	fileAt  int
	max     int
	mixed   int
	inRound map[int64]int
	busy    bool
	plain   bool // file events do nothing else
}

func (r *timerRun) now() int64 { return time.Now().UnixMilli() }

func (r *timerRun) pick() *timer {
	if len(r.live) == 0 {
		return nil
	}
	return r.live[r.rng.Intn(len(r.live))]
}

func (r *timerRun) add() {
	once := r.rng.Intn(2) == 0
	iv := []int64{0, 1, 1, 2, 3, 5, 10, 100, 999, 1000, 1001, 5000, 86400000}[r.rng.Intn(13)]
	if r.rng.Intn(3) == 0 {
		iv = int64(r.rng.Intn(50))
	}
	id := int64(len(r.all))
	token := id
	t := &timer{id: id, once: once, interval: iv, base: r.now(), live: true, token: &token}
	t.due = t.base + iv
	r.all = append(r.all, t)
	r.live = append(r.live, t)
	mask := ae.TypeTimeEventNormal
	if once {
		mask = ae.TypeTimeEventOnce
	}
	r.op("AddTimeEvent %d once %v interval %d at %d", id, once, iv, t.base)
	if err := r.el.AddTimeEvent(mask, iv, r.fire(t), t.token); err != nil {
		r.fail("AddTimeEvent: %v", err)
	}
}

func (r *timerRun) drop(t *timer) {
	t.live = false
	for i, x := range r.live {
		if x == t {
			r.live = append(r.live[:i], r.live[i+1:]...)
			return
		}
	}
}

func (r *timerRun) remove(t *timer) {
	r.op("RemoveTimeEvent %d (running %v)", t.id, t.running)
	err := r.el.RemoveTimeEvent(t.id)
	if err != nil && !(t.running && t.once) {
		r.fail("RemoveTimeEvent(%d) of a registered timer: %v", t.id, err)
	}
	r.drop(t)
	r.counts["timers removed"]++
	if r.depth > 0 {
		r.counts["timers removed from callbacks"]++
	}
}

func (r *timerRun) removeAbsent() {
	id := int64(len(r.all) + r.rng.Intn(3))
	if len(r.all) > 0 && r.rng.Intn(2) == 0 {
		if t := r.all[r.rng.Intn(len(r.all))]; !t.live && !t.running {
			id = t.id
		}
	}
	if r.rng.Intn(6) == 0 {
		id = -1
	}
	r.op("RemoveTimeEvent %d (absent)", id)
	if err := r.el.RemoveTimeEvent(id); err == nil {
		r.fail("RemoveTimeEvent(%d) of a timer that is not registered succeeded", id)
	}
}

func (r *timerRun) advance() {
	if r.clock == nil {
		return
	}
	d := []int64{0, 0, 1, 1, 1, 2, 3, 10, 100, 1000, 5000}[r.rng.Intn(11)]
	if r.rng.Intn(4) == 0 {
		if t := r.pick(); t != nil { // just short of a deadline, or on it
			d = t.due - r.now() - int64(r.rng.Intn(3)) + 1
			if d > 90000000 {
				d = 1
			}
		}
	}
	if d > 0 {
		*r.clock += d * 1e6
		r.op("clock +%d", d)
	}
}

func (r *timerRun) some(n int) {
	for ; n > 0; n-- {
		switch r.rng.Intn(8) {
		case 0, 1:
			if len(r.live) < r.max {
				r.add()
			}
		case 2:
			if t := r.pick(); t != nil && r.rng.Intn(3) != 0 {
				r.remove(t)
			}
		case 3:
			r.removeAbsent()
		case 4:
			r.advance()
		}
	}
}

func (r *timerRun) fire(t *timer) ae.TimeProc {
	return func(el *ae.EventLoop, id int64, data any) {
		now := r.now()
		r.op("timer %d fires at %d (due %d)", t.id, now, t.due)
		if id != t.id || data != any(t.token) || el != r.el {
			r.fail("the callback of timer %d was called with id %d and data %v", t.id, id, data)
		}
		if t.running {
			r.fail("timer %d fired inside its own callback", t.id)
		}
		if !t.live {
			r.fail("timer %d (once %v, fired %d times before) fired after it was removed or done", t.id, t.once, t.fired)
		}
		if now < t.base+t.interval {
			r.fail("timer %d with interval %d fired at %d, %d ms after it was added or last fired", t.id, t.interval, now, now-t.base)
		}
		t.fired++
		t.late = 0
		t.base = now
		r.counts["firings"]++
		if r.clock == nil {
			if d := now - t.due; d > 2500 {
				r.fail("timer %d with interval %d fired %d ms late", t.id, t.interval, d)
			}
		}
		t.running = true
		r.depth++
		switch r.rng.Intn(6) {
		case 0:
			r.some(1 + r.rng.Intn(3))
		case 1: // another timer of this round, perhaps
			if x := r.pick(); x != nil && x != t && r.rng.Intn(2) == 0 {
				if x.due <= now {
					r.counts["due timers removed by another callback"]++
				}
				r.remove(x)
			}
		case 2:
			if r.rng.Intn(3) == 0 && t.live {
				r.remove(t)
			}
		case 3:
			if len(r.live) < r.max {
				r.add()
			}
		case 4:
			if r.rng.Intn(4) == 0 {
				r.advance()
			}
		}
		r.depth--
		t.running = false
		if t.once && t.live {
			r.drop(t)
		}
		t.due = r.now() + t.interval
	}
}

// beforeSleep is the boundary of rounds.
func (r *timerRun) beforeSleep(limit int, done func() bool) ae.BeforeSleepProc {
	return func(el *ae.EventLoop) {
		r.round++
		r.counts["rounds"]++
		now := r.now()
		for _, t := range r.live {
			if r.clock != nil {
				if t.late > 4 {
					r.fail("timer %d with interval %d has been due for %d rounds (since %d, it is %d) and has not fired", t.id, t.interval, t.late, t.due, now)
				}
			} else if now-t.due > 2500 {
				r.fail("timer %d with interval %d has been due for %d ms and has not fired", t.id, t.interval, now-t.due)
			}
		}
		if r.busy && r.round-r.fileAt > 5 {
			r.fail("a ready descriptor was not handled in %d rounds", r.round-r.fileAt)
		}
		if done() {
			r.el.Stop()
			return
		}
		r.some(r.rng.Intn(4))
		now = r.now()
		for _, t := range r.live {
			if now >= t.due {
				t.late++
			} else {
				t.late = 0
			}
		}
		r.counts["most timers at once"] = max(r.counts["most timers at once"], int64(len(r.live)))
	}
}

func (r *timerRun) ready() (a, b int) {
	p, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK, 0)
	if err != nil {
		panic(err)
	}
	syscall.Write(p[1], []byte("x"))
	if err := r.el.AddFileEvent(socket.FD(p[0]), ae.TypeFileEventReadable, func(el *ae.EventLoop, fd socket.FD, data any) {
		r.fileAt = r.round
		r.counts["file events between timers"]++
		r.prog.Add(1)
		if !r.plain && r.rng.Intn(20) == 0 {
			r.depth++
			r.some(1)
			r.depth--
		}
	}, nil); err != nil {
		r.fail("AddFileEvent: %v", err)
	}
	r.busy = true
	return p[0], p[1]
}

func (m *mon) loop() *ae.EventLoop {
	el, err := ae.NewEventLoop()
	if err != nil {
		panic(err)
	}
	return el
}

func (m *mon) timers(ops int) {
	clock := int64(1700000000000) * 1e6
	syscall.VerifClock = &clock
	for int(m.counts["operations"]) < ops {
		clock = (1700000000000 + m.rng.Int63n(1000000)) * 1e6
		r := &timerRun{mon: m, el: m.loop(), clock: &clock, max: []int{1, 3, 10, 60, 300}[m.rng.Intn(5)]}
		r.op("new loop, up to %d timers", r.max)
		a, b := r.ready()
		rounds := 200 + m.rng.Intn(1500)
		stopAt := int(m.counts["operations"]) + ops/4 + 2000
		r.el.SetBeforeSleepProc(r.beforeSleep(rounds, func() bool {
			return r.round >= rounds || int(m.counts["operations"]) > stopAt
		}))
		if err := r.el.Main(); err != nil {
			r.fail("Main: %v", err)
		}
		syscall.Close(a)
		syscall.Close(b)
		m.counts["loops"]++
	}
	for k := 0; k < 4+ops/6000; k++ {
		m.setBack()
	}
}

// setBack sets the clock back between two rounds: that must not delay any timer, nor make it fire early.
// The clock moves only at the beginning of a round, so that the loop has seen every value of it.
func (m *mon) setBack() {
	clock := (1700000000000 + m.rng.Int63n(1000000)) * int64(1e6)
	syscall.VerifClock = &clock
	r := &timerRun{mon: m, el: m.loop(), clock: &clock, plain: true}
	a, b := r.ready()
	defer syscall.Close(a)
	defer syscall.Close(b)
	back := int64(0) // by how much it has been set back so far
	elapsed := func() int64 { return clock/1e6 + back }
	type state struct {
		id, interval, base, due int64
		late, fired             int
		once, done              bool
	}
	var all []*state
	add := func() {
		t := &state{id: int64(len(all)), interval: []int64{1, 2, 7, 50, 300, 1000, 2500}[m.rng.Intn(7)], base: elapsed(), once: m.rng.Intn(3) == 0}
		t.due = t.base + t.interval
		all = append(all, t)
		mask := ae.TypeTimeEventNormal
		if t.once {
			mask = ae.TypeTimeEventOnce
		}
		m.op("AddTimeEvent %d once %v interval %d", t.id, t.once, t.interval)
		if err := r.el.AddTimeEvent(mask, t.interval, func(el *ae.EventLoop, id int64, data any) {
			now := elapsed()
			m.op("timer %d fires", t.id)
			if t.done {
				r.fail("one-shot timer %d fired again", t.id)
			}
			if now < t.base+t.interval {
				r.fail("timer %d with interval %d fired %d ms after it was added or last fired (the clock has been set back by %d ms in all)", t.id, t.interval, now-t.base, back)
			}
			t.base, t.due, t.late, t.done = now, now+t.interval, 0, t.once
			t.fired++
			m.counts["firings around a clock set back"]++
		}, nil); err != nil {
			r.fail("AddTimeEvent: %v", err)
		}
	}
	for k := 1 + m.rng.Intn(12); k > 0; k-- {
		add()
	}
	rounds, early := 300, m.rng.Intn(3) // the first rounds may be without a step
	r.el.SetBeforeSleepProc(func(el *ae.EventLoop) {
		r.round++
		m.prog.Add(1)
		for _, t := range all {
			if t.late > 6 {
				r.fail("timer %d with interval %d has been due for %d rounds and %d ms and has not fired; the clock has been set back by %d ms in all", t.id, t.interval, t.late, elapsed()-t.due, back)
			}
		}
		if r.round >= rounds {
			el.Stop()
			return
		}
		if r.round > early && m.rng.Intn(25) == 0 {
			d := []int64{1, 10, 999, 60_000, 3_600_000, 86_400_000, 10 * 365 * 86_400_000}[m.rng.Intn(7)]
			clock -= d * 1e6
			back += d
			m.op("clock -%d", d)
			m.counts["clock set back"]++
		} else {
			d := []int64{1, 1, 2, 10, 100, 900}[m.rng.Intn(6)]
			clock += d * 1e6
			m.op("clock +%d", d)
		}
		if m.rng.Intn(40) == 0 && r.round > 2 {
			add()
		}
		for _, t := range all {
			if !t.done && elapsed() >= t.due {
				t.late++
			}
		}
	})
	if err := r.el.Main(); err != nil {
		r.fail("Main: %v", err)
	}
}

// sleeping checks that an idle loop wakes up for the timer that is due next, whatever the others are.
// The deadlines are far apart, and only lateness that repeats in every one of several runs counts.
func (m *mon) sleeping() {
	n := 2 + m.rng.Intn(4)
	intervals := make([]int64, n)
	at := int64(20 + m.rng.Intn(200))
	for i := range intervals {
		intervals[i] = at
		at += int64(600 + m.rng.Intn(500))
	}
	// the last ones need not be reached
	order := m.rng.Perm(n)
	upto := min(n-1, 1+m.rng.Intn(2)) // up to which one is waited for
	decoy := m.rng.Intn(2) == 0       // one more that is removed again
	const tries, slack = 6, 350
	var what string
	for try := 0; try < tries; try++ {
		el := m.loop()
		begin := time.Now()
		worst := int64(0)
		add := func(i int) {
			m.op("AddTimeEvent once interval %d", intervals[i])
			el.AddTimeEvent(ae.TypeTimeEventOnce, intervals[i], func(el *ae.EventLoop, id int64, data any) {
				late := time.Since(begin).Milliseconds() - intervals[i]
				m.counts["timers an idle loop woke up for"]++
				m.prog.Add(1)
				if late > worst {
					worst = late
					what = fmt.Sprintf("an idle loop with one-time timers of %v ms, added in the order %v, fired the one of %d ms %d ms late", intervals, order, intervals[i], late)
				}
				if i == upto {
					el.Stop()
				}
			}, nil)
		}
		for _, i := range order {
			add(i)
		}
		if decoy {
			el.AddTimeEvent(ae.TypeTimeEventNormal, 86400000, func(el *ae.EventLoop, id int64, data any) {}, nil)
			if err := el.RemoveTimeEvent(int64(n)); err != nil {
				m.fail("RemoveTimeEvent: %v", err)
			}
		}
		if err := el.Main(); err != nil {
			m.fail("Main: %v", err)
		}
		m.counts["idle loops"]++
		if worst <= slack {
			return
		}
	}
	m.fail("%s, and no better in %d other runs", what, tries-1)
}

// timersReal uses the real clock, lets the loop sleep, and interrupts it with signals.
func (m *mon) timersReal(ops int) {
	for k := 0; k < 1+ops/1000; k++ {
		r := &timerRun{mon: m, el: m.loop(), max: []int{2, 10, 60}[m.rng.Intn(3)]}
		r.op("new loop on the real clock, up to %d timers, kind %d", r.max, k%3)
		var a, b int
		if k%3 == 2 {
			a, b = r.ready()
		}
		end := time.Now().Add(3 * time.Second)
		stop := make(chan struct{})
		if k%3 != 2 { // a descriptor that becomes ready while the loop sleeps
			p, err := syscall.Socketpair(syscall.AF_UNIX, syscall.SOCK_STREAM|syscall.SOCK_NONBLOCK, 0)
			if err != nil {
				panic(err)
			}
			a, b = p[0], p[1]
			var sent atomic.Int64
			go func() {
				for {
					select {
					case <-stop:
						return
					case <-time.After(60 * time.Millisecond):
						if sent.CompareAndSwap(0, time.Now().UnixMilli()) {
							syscall.Write(p[1], []byte("x"))
						}
					}
				}
			}()
			if err := r.el.AddFileEvent(socket.FD(a), ae.TypeFileEventReadable, func(el *ae.EventLoop, fd socket.FD, data any) {
				var x [8]byte
				if n, _ := fd.Read(x[:]); n != 1 {
					r.fail("the handler was run for a descriptor that is not ready")
				}
				if d := time.Now().UnixMilli() - sent.Load(); d > 2500 {
					r.fail("a ready descriptor was handled %d ms late", d)
				}
				sent.Store(0)
				m.counts["file events that woke the loop"]++
			}, nil); err != nil {
				r.fail("AddFileEvent: %v", err)
			}
		}
		if k%3 == 1 {
			go func() {
				for {
					select {
					case <-stop:
						return
					case <-time.After(40 * time.Millisecond):
						syscall.Kill(syscall.Getpid(), syscall.SIGURG)
					}
				}
			}()
		}
		// one that repeats whatever else happens
		ticks, last := 0, r.now()
		r.all = append(r.all, &timer{id: 0, live: true}) // not among those that are acted on
		r.el.AddTimeEvent(ae.TypeTimeEventNormal, 7, func(el *ae.EventLoop, id int64, data any) {
			n := r.now()
			if n-last < 7 {
				r.fail("a timer with interval 7 fired %d ms after it was added or last fired", n-last)
			}
			if n-last > 2500 {
				r.fail("a timer with interval 7 fired %d ms after it was added or last fired", n-last)
			}
			last = n
			ticks++
			r.prog.Add(1)
		}, nil)
		idle := k%3 == 0
		sleeper := r.beforeSleep(0, func() bool { return time.Now().After(end) })
		r.el.SetBeforeSleepProc(func(el *ae.EventLoop) {
			sleeper(el)
			if idle && r.round%50 == 0 {
				runtime.Gosched()
			}
		})
		if err := r.el.Main(); err != nil {
			r.fail("Main: %v", err)
		}
		close(stop)
		if ticks < 3 {
			r.fail("a timer with interval 7 fired %d times in 3 seconds", ticks)
		}
		if k%3 != 2 && m.counts["file events that woke the loop"] < 3 {
			r.fail("file events woke the loop %d times in 3 seconds", m.counts["file events that woke the loop"])
		}
		time.Sleep(100 * time.Millisecond) // the writer has ended
		syscall.Close(a)
		syscall.Close(b)
		m.counts["loops on the real clock"]++
		m.sleeping()
		m.sleeping()
		m.counts["firings of the 7 ms timers"] += int64(ticks)
		r.op("%s", fmt.Sprint("ticks ", ticks > 3))
	}
}

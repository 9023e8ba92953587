package main

import (
	"math"
	"sort"
	"strconv"

	"github.com/IfanTsai/metis/datastruct"
)

type el struct {
	s float64
	m string
}

func less(a, b el) bool { return a.s < b.s || a.s == b.s && a.m < b.m }

var scorePool = []float64{0, math.Copysign(0, -1), 1, -1, 0.5, math.Inf(1), math.Inf(-1), math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, 1e15, 2, 3}

type order struct {
	*mon
	mod    []el
	names  []string
	scores int // how scores are chosen
}

func (r *order) score() float64 {
	switch r.scores {
	case 0:
		return 1
	case 1:
		return float64(r.rng.Intn(4))
	case 2:
		return scorePool[r.rng.Intn(len(scorePool))]
	case 3:
		return float64(r.rng.Intn(2000)-1000) / 4
	case 4:
		return float64(len(r.mod))
	case 5:
		return -float64(len(r.mod))
	}
	return r.rng.NormFloat64()
}

// near picks a bound: a score in use, one next to it, or any.
func (r *order) near() float64 {
	if len(r.mod) > 0 && r.rng.Intn(3) != 0 {
		s := r.mod[r.rng.Intn(len(r.mod))].s
		switch r.rng.Intn(4) {
		case 0:
			return math.Nextafter(s, math.Inf(1))
		case 1:
			return math.Nextafter(s, math.Inf(-1))
		}
		return s
	}
	if r.rng.Intn(2) == 0 {
		return scorePool[r.rng.Intn(len(scorePool))]
	}
	return r.score()
}

func (r *order) pos(e el) int {
	return sort.Search(len(r.mod), func(i int) bool { return !less(r.mod[i], e) })
}

func (r *order) has(e el) (int, bool) {
	i := r.pos(e)
	return i, i < len(r.mod) && r.mod[i].s == e.s && r.mod[i].m == e.m
}

func (r *order) put(e el) {
	i := r.pos(e)
	r.mod = append(r.mod, el{})
	copy(r.mod[i+1:], r.mod[i:])
	r.mod[i] = e
}

func (r *order) cut(i, j int) []el {
	c := append([]el(nil), r.mod[i:j]...)
	r.mod = append(r.mod[:i], r.mod[j:]...)
	return c
}

// scoreSpan returns the positions of the elements with lo <= score <= hi.
func (r *order) scoreSpan(lo, hi float64) (int, int) {
	i := sort.Search(len(r.mod), func(i int) bool { return r.mod[i].s >= lo })
	j := sort.Search(len(r.mod), func(i int) bool { return r.mod[i].s > hi })
	if j < i {
		j = i
	}
	return i, j
}

// rankSpan picks a 1-based range of ranks.
func (r *order) rankSpan() (int64, int64) {
	n := len(r.mod)
	a := 1 + r.rng.Intn(n+3)
	b := a + r.rng.Intn(4)
	switch r.rng.Intn(8) {
	case 0:
		b = n + r.rng.Intn(4)
	case 1:
		b = 1 + r.rng.Intn(n+3)
	case 2:
		a, b = 1, n
	case 3:
		return int64(a), math.MaxInt64 - 1
	case 4:
		b = a
	case 5:
		b = r.rng.Intn(3) - 1
	}
	return int64(a), int64(b)
}

func rankCut(a, b int64, n int) (int, int) {
	if b > int64(n) {
		b = int64(n)
	}
	if a > b {
		return 0, 0
	}
	return int(a - 1), int(b)
}

func rev(l []el) []el {
	o := make([]el, len(l))
	for i := range l {
		o[len(l)-1-i] = l[i]
	}
	return o
}

func (r *order) sameEls(got, want []el, what string) {
	if len(got) != len(want) {
		r.fail("%s returned %d elements, want %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			r.fail("%s: element %d is %v, want %v", what, i, got[i], want[i])
		}
	}
}

func makeNames(n int) []string {
	var l []string
	for i := 0; i < n; i++ {
		l = append(l, "m"+strconv.Itoa(i))
	}
	return append(l, "", "\x00", "\xff\xfe\x00", "m", "M0", "m0 ")
}

// ---- skiplist

type skipRun struct {
	order
	l    *datastruct.Skiplist
	have map[string]float64
}

func elsOf(ns []*datastruct.SkiplistNode) []el {
	o := make([]el, len(ns))
	for i, n := range ns {
		o[i] = el{n.Score, n.Member}
	}
	return o
}

// structure checks every link, span and count against the expected sequence.
func (r *skipRun) structure() {
	l, n := r.l, len(r.mod)
	if l.Length != int64(n) {
		r.fail("Length is %d, want %d", l.Length, n)
	}
	pos := make(map[*datastruct.SkiplistNode]int, n+1)
	pos[l.Head] = 0
	i, top := 0, 1
	var prev *datastruct.SkiplistNode
	for x := l.Head.Levels[0].Forward; x != nil; x = x.Levels[0].Forward {
		if i >= n {
			r.fail("the bottom level is longer than the %d elements", n)
		}
		if (el{x.Score, x.Member}) != r.mod[i] {
			r.fail("element %d of %d is %v %q, want %v", i, n, x.Score, x.Member, r.mod[i])
		}
		if x.Backward != prev {
			r.fail("the backward link of element %d of %d is wrong", i, n)
		}
		if len(x.Levels) > 32 || len(x.Levels) < 1 {
			r.fail("element %d has %d levels", i, len(x.Levels))
		}
		top = max(top, len(x.Levels))
		i++
		pos[x] = i
		prev = x
	}
	if i != n {
		r.fail("the bottom level has %d elements, want %d", i, n)
	}
	if l.Tail != prev {
		r.fail("Tail is not the last of %d elements", n)
	}
	if int(l.Level) != top {
		r.fail("Level is %d, the highest element has %d", l.Level, top)
	}
	for lv := 0; lv < len(l.Head.Levels); lv++ {
		at, seen := 0, 0
		for x := l.Head; x != nil; {
			f := x.Levels[lv].Forward
			if f == nil {
				break
			}
			p, ok := pos[f]
			if !ok {
				r.fail("level %d links to an element that is not in the list", lv)
			}
			if p <= at {
				r.fail("level %d goes back from element %d to %d", lv, at, p)
			}
			if x.Levels[lv].Span != int64(p-at) {
				r.fail("level %d: the span from element %d to %d is %d (%d elements)", lv, at, p, x.Levels[lv].Span, n)
			}
			at, x = p, f
			seen++
		}
		want := 0
		for x := range pos {
			if x != l.Head && len(x.Levels) > lv {
				want++
			}
		}
		if seen != want {
			r.fail("level %d links %d elements, %d have that level", lv, seen, want)
		}
		if want == 0 {
			break
		}
		r.counts["levels checked"]++
	}
	r.counts["structures checked"]++
	r.counts["levels of the tallest lists"] = max(r.counts["levels of the tallest lists"], int64(top))
	r.prog.Add(1)
}

func (r *skipRun) insert() {
	m := r.names[r.rng.Intn(len(r.names))]
	if _, ok := r.have[m]; ok {
		return
	}
	e := el{r.score(), m}
	r.op("Insert %v %q", e.s, e.m)
	n := r.l.Insert(e.s, e.m)
	if n == nil || n.Score != e.s || n.Member != e.m {
		r.fail("Insert(%v, %q) returned %v", e.s, e.m, n)
	}
	r.put(e)
	r.have[m] = e.s
}

func (r *skipRun) pickOne() el {
	if len(r.mod) > 0 && r.rng.Intn(5) != 0 {
		e := r.mod[r.rng.Intn(len(r.mod))]
		switch r.rng.Intn(12) {
		case 0:
			e.m += "x"
		case 1:
			e.m = ""
		}
		return e
	}
	return el{r.near(), r.names[r.rng.Intn(len(r.names))]}
}

func (r *skipRun) remove() {
	e := r.pickOne()
	if len(r.mod) > 0 && r.rng.Intn(6) == 0 { // the right member, another score
		e = r.mod[r.rng.Intn(len(r.mod))]
		e.s = r.near()
	}
	r.op("Delete %v %q", e.s, e.m)
	n := r.l.Delete(e.s, e.m)
	i, ok := r.has(e)
	if (n != nil) != ok {
		r.fail("Delete(%v, %q), present %v, returned %v", e.s, e.m, ok, n)
	}
	if ok {
		if n.Score != e.s || n.Member != e.m {
			r.fail("Delete(%v, %q) returned %v %q", e.s, e.m, n.Score, n.Member)
		}
		r.cut(i, i+1)
		delete(r.have, e.m)
	}
}

func (r *skipRun) gone(c []el) {
	for _, e := range c {
		delete(r.have, e.m)
	}
}

func (r *skipRun) query() {
	n := len(r.mod)
	switch r.rng.Intn(7) {
	case 0:
		e := r.pickOne()
		i, ok := r.has(e)
		if _, other := r.have[e.m]; other && !ok {
			return // not specified: the member with another score
		}
		r.op("GetRank %v %q", e.s, e.m)
		want := int64(0)
		if ok {
			want = int64(i + 1)
		}
		if g := r.l.GetRank(e.s, e.m); g != want {
			r.fail("GetRank(%v, %q) is %d, want %d", e.s, e.m, g, want)
		}
	case 1:
		k := 1 + r.rng.Intn(n+3)
		r.op("GetElementByRank %d (of %d)", k, n)
		g := r.l.GetElementByRank(int64(k))
		if (g == nil) != (k > n) {
			r.fail("GetElementByRank(%d) of %d elements returned %v", k, n, g)
		}
		if g != nil && (el{g.Score, g.Member}) != r.mod[k-1] {
			r.fail("GetElementByRank(%d) is %v %q, want %v", k, g.Score, g.Member, r.mod[k-1])
		}
	case 2:
		a, b := r.rankSpan()
		rv := r.rng.Intn(2) == 0
		r.op("RangeByRank %d %d %v (of %d)", a, b, rv, n)
		i, j := rankCut(a, b, n)
		want := r.mod[i:j]
		if rv {
			want = rev(r.mod)[i:j]
		}
		r.sameEls(elsOf(r.l.RangeByRank(a, b, rv)), want, "RangeByRank")
	case 3:
		lo, hi := r.near(), r.near()
		limit := []int64{-1, -1, -5, 0, 1, 2, 10, 1 << 40}[r.rng.Intn(8)]
		rv := r.rng.Intn(2) == 0
		r.op("RangeByScore %v %v %d %v", lo, hi, limit, rv)
		i, j := r.scoreSpan(lo, hi)
		want := append([]el(nil), r.mod[i:j]...)
		if rv {
			want = rev(want)
		}
		if limit >= 0 && int64(len(want)) > limit {
			want = want[:limit]
		}
		r.sameEls(elsOf(r.l.RangeByScore(lo, hi, limit, rv)), want, "RangeByScore")
	case 4:
		lo, hi := r.near(), r.near()
		r.op("Count %v %v", lo, hi)
		i, j := r.scoreSpan(lo, hi)
		if g := r.l.Count(lo, hi); g != int64(j-i) {
			r.fail("Count(%v, %v) is %d, want %d", lo, hi, g, j-i)
		}
	default:
		lo, hi := r.near(), r.near()
		r.op("first and last in %v %v", lo, hi)
		i, j := r.scoreSpan(lo, hi)
		f, l := r.l.GetFirstInScoreRange(lo, hi), r.l.GetLastInScoreRange(lo, hi)
		if (f != nil) != (j > i) || (l != nil) != (j > i) {
			r.fail("the first and last of %d elements in [%v, %v] are %v and %v", j-i, lo, hi, f, l)
		}
		if j > i {
			if (el{f.Score, f.Member}) != r.mod[i] {
				r.fail("GetFirstInScoreRange(%v, %v) is %v %q, want %v", lo, hi, f.Score, f.Member, r.mod[i])
			}
			if (el{l.Score, l.Member}) != r.mod[j-1] {
				r.fail("GetLastInScoreRange(%v, %v) is %v %q, want %v", lo, hi, l.Score, l.Member, r.mod[j-1])
			}
		}
	}
}

func (m *mon) skips(ops int) {
	for int(m.counts["operations"]) < ops {
		n := []int{2, 6, 25, 120, 900}[m.rng.Intn(5)]
		r := &skipRun{order: order{mon: m, names: makeNames(n), scores: m.rng.Intn(7)}, l: datastruct.NewSkiplist(), have: map[string]float64{}}
		r.op("new skiplist, %d members, scores of kind %d", n, r.scores)
		r.structure()
		for phase := 0; phase < 6; phase++ {
			grow := []int{85, 60, 40, 15}[m.rng.Intn(4)]
			every := 1 + len(r.mod)/20
			if m.rng.Intn(3) == 0 {
				r.scores = m.rng.Intn(7)
			}
			for i := 0; i < n+20; i++ {
				switch x := m.rng.Intn(100); {
				case x < 60:
					if m.rng.Intn(100) < grow {
						r.insert()
					} else {
						r.remove()
					}
				case x < 62:
					lo, hi := r.near(), r.near()
					if m.rng.Intn(3) != 0 && hi > lo+50 {
						hi = lo
					}
					r.op("DeleteRangeByScore %v %v", lo, hi)
					a, b := r.scoreSpan(lo, hi)
					got := elsOf(r.l.DeleteRangeByScore(lo, hi))
					c := r.cut(a, b)
					r.sameEls(got, c, "DeleteRangeByScore")
					r.gone(c)
				case x < 64:
					a, b := r.rankSpan()
					if m.rng.Intn(3) != 0 && b > a+10 {
						b = a + 3
					}
					r.op("DeleteRangeByRank %d %d (of %d)", a, b, len(r.mod))
					i, j := rankCut(a, b, len(r.mod))
					got := elsOf(r.l.DeleteRangeByRank(a, b))
					c := r.cut(i, j)
					r.sameEls(got, c, "DeleteRangeByRank")
					r.gone(c)
				default:
					r.query()
				}
				if m.rng.Intn(every) == 0 {
					r.structure()
				}
			}
			r.structure()
			for k := range r.mod {
				if g := r.l.GetRank(r.mod[k].s, r.mod[k].m); g != int64(k+1) {
					r.fail("GetRank(%v, %q) is %d, want %d", r.mod[k].s, r.mod[k].m, g, k+1)
				}
				if g := r.l.GetElementByRank(int64(k + 1)); g == nil || g.Member != r.mod[k].m {
					r.fail("GetElementByRank(%d) is not %q", k+1, r.mod[k].m)
				}
			}
			r.counts["elements ranked"] += int64(len(r.mod))
		}
		for len(r.mod) > 0 {
			r.remove()
			if m.rng.Intn(1+len(r.mod)/10) == 0 {
				r.structure()
			}
		}
		r.structure()
		m.counts["skiplists"]++
	}
}

// ---- sorted set

type zsetRun struct {
	order
	t    *typ
	z    *datastruct.Zset
	have map[string]float64
}

func (r *zsetRun) els(l []*datastruct.ZsetElement, what string) []el {
	o := make([]el, len(l))
	for i, e := range l {
		if e == nil {
			r.fail("%s returned a nil element at %d", what, i)
		}
		o[i] = el{e.Score, e.Member}
	}
	return o
}

func (r *zsetRun) add() {
	m := r.names[r.rng.Intn(len(r.names))]
	s := r.score()
	old, had := r.have[m]
	r.op("Add %v %q (had %v)", s, m, had)
	if g := r.z.Add(s, m); g == had {
		r.fail("Add(%v, %q) of a member that was present %v returned %v", s, m, had, g)
	}
	if had {
		i, _ := r.has(el{old, m})
		r.cut(i, i+1)
		if s == old { // the score may keep its sign of zero
			s = old
		}
	}
	r.put(el{s, m})
	r.have[m] = s
	r.size()
}

func (r *zsetRun) size() {
	if g := r.z.Size(); g != int64(len(r.mod)) {
		r.fail("Size is %d, want %d", g, len(r.mod))
	}
}

func (r *zsetRun) remove() {
	m := r.names[r.rng.Intn(len(r.names))]
	if len(r.mod) > 0 && r.rng.Intn(4) != 0 {
		m = r.mod[r.rng.Intn(len(r.mod))].m
	}
	s, had := r.have[m]
	r.op("Delete %q (had %v)", m, had)
	if g := r.z.Delete(m); g != had {
		r.fail("Delete(%q) of a member that was present %v returned %v", m, had, g)
	}
	if had {
		i, _ := r.has(el{s, m})
		r.cut(i, i+1)
		delete(r.have, m)
	}
	r.size()
}

func (r *zsetRun) ranks() (int64, int64, int, int) {
	a, b := r.rankSpan()
	i, j := rankCut(a, b, len(r.mod))
	if r.rng.Intn(8) == 0 {
		i, j = rankCut(a, math.MaxInt64, len(r.mod))
		return a - 1, math.MaxInt64, i, j
	}
	return a - 1, b - 1, i, j
}

func (r *zsetRun) query() {
	switch r.rng.Intn(6) {
	case 0:
		m := r.names[r.rng.Intn(len(r.names))]
		s, had := r.have[m]
		r.op("Get %q", m)
		e := r.z.Get(m)
		if (e != nil) != had || had && (e.Member != m || e.Score != s) {
			r.fail("Get(%q) is %v; present %v with score %v", m, e, had, s)
		}
	case 1:
		m := r.names[r.rng.Intn(len(r.names))]
		if len(r.mod) > 0 && r.rng.Intn(4) != 0 {
			m = r.mod[r.rng.Intn(len(r.mod))].m
		}
		rv := r.rng.Intn(2) == 0
		s, had := r.have[m]
		want := int64(-1)
		if had {
			i, _ := r.has(el{s, m})
			want = int64(i)
			if rv {
				want = int64(len(r.mod) - 1 - i)
			}
		}
		r.op("GetRank %q %v", m, rv)
		if g := r.z.GetRank(m, rv); g != want {
			r.fail("GetRank(%q, %v) is %d, want %d", m, rv, g, want)
		}
	case 2, 3:
		a, b, i, j := r.ranks()
		rv := r.rng.Intn(2) == 0
		r.op("RangeByRank %d %d %v (of %d)", a, b, rv, len(r.mod))
		want := r.mod[i:j]
		if rv {
			want = rev(r.mod)[i:j]
		}
		r.sameEls(r.els(r.z.RangeByRank(a, b, rv), "RangeByRank"), want, "RangeByRank")
	case 4:
		lo, hi := r.near(), r.near()
		limit := []int64{-1, -1, -5, 0, 1, 2, 10}[r.rng.Intn(7)]
		rv := r.rng.Intn(2) == 0
		r.op("RangeByScore %v %v %d %v", lo, hi, limit, rv)
		i, j := r.scoreSpan(lo, hi)
		want := append([]el(nil), r.mod[i:j]...)
		if rv {
			want = rev(want)
		}
		if limit >= 0 && int64(len(want)) > limit {
			want = want[:limit]
		}
		r.sameEls(r.els(r.z.RangeByScore(lo, hi, limit, rv), "RangeByScore"), want, "RangeByScore")
	case 5:
		lo, hi := r.near(), r.near()
		r.op("Count %v %v", lo, hi)
		i, j := r.scoreSpan(lo, hi)
		if g := r.z.Count(lo, hi); g != int64(j-i) {
			r.fail("Count(%v, %v) is %d, want %d", lo, hi, g, j-i)
		}
	}
}

func (r *zsetRun) same(z *datastruct.Zset, want []el, what string) {
	if z.Size() != int64(len(want)) {
		r.fail("%s: Size is %d, want %d", what, z.Size(), len(want))
	}
	if len(want) > 0 {
		r.sameEls(r.els(z.RangeByRank(0, int64(len(want)-1), false), what), want, what)
		r.sameEls(r.els(z.RangeByRank(0, math.MaxInt64, true), what), rev(want), what+" in reverse")
	}
	for i, e := range want {
		if g := z.Get(e.m); g == nil || g.Score != e.s || g.Member != e.m {
			r.fail("%s: the member table has %v for %v", what, g, e)
		}
		if g := z.GetRank(e.m, false); g != int64(i) {
			r.fail("%s: GetRank(%q) is %d, want %d", what, e.m, g, i)
		}
	}
	for i := 0; i < 5; i++ {
		m := r.names[r.rng.Intn(len(r.names))]
		in := false
		for _, e := range want {
			in = in || e.m == m
		}
		if (z.Get(m) != nil) != in {
			r.fail("%s: Get(%q) is %v, present %v", what, m, z.Get(m), in)
		}
	}
	r.counts["whole sorted sets compared"]++
	r.prog.Add(1)
}

func (r *zsetRun) copyOf() {
	r.op("DeepCopy of %d elements", len(r.mod))
	c := r.z.DeepCopy()
	want := append([]el(nil), r.mod...)
	r.same(c, want, "copy")
	for i := 0; i < 4; i++ {
		r.add()
		r.remove()
	}
	if len(r.mod) > 0 { // a change of score must not show through
		e := r.mod[r.rng.Intn(len(r.mod))]
		i, _ := r.has(e)
		r.cut(i, i+1)
		r.z.Add(7777, e.m)
		r.put(el{7777, e.m})
		r.have[e.m] = 7777
	}
	r.same(c, want, "copy after changes of the original")
	if len(want) > 0 {
		c.Add(-7777, want[0].m)
		c.Delete(want[len(want)-1].m)
	}
	c.Add(1, "only in the copy")
	r.same(r.z, r.mod, "original after changes of its copy")
	if r.z.Get("only in the copy") != nil {
		r.fail("a member added to a copy is in the original")
	}
	r.counts["copies compared"]++
}

func (m *mon) zsets(ops int) {
	for int(m.counts["operations"]) < ops {
		n := []int{2, 6, 25, 120, 900}[m.rng.Intn(5)]
		t := &typ{kind: hashKinds[m.rng.Intn(len(hashKinds))], salt: m.rng.Int63()}
		r := &zsetRun{order: order{mon: m, names: makeNames(n), scores: m.rng.Intn(7)}, t: t, z: datastruct.NewZset(t), have: map[string]float64{}}
		r.op("new sorted set, %d members, scores of kind %d, hash %s", n, r.scores, t.kind)
		r.query()
		r.same(r.z, r.mod, "sorted set")
		for phase := 0; phase < 6; phase++ {
			grow := []int{85, 60, 40, 15}[m.rng.Intn(4)]
			if m.rng.Intn(3) == 0 {
				r.scores = m.rng.Intn(7)
			}
			for i := 0; i < n+20; i++ {
				switch x := m.rng.Intn(100); {
				case x < 60:
					if m.rng.Intn(100) < grow {
						r.add()
					} else {
						r.remove()
					}
				case x < 62:
					lo, hi := r.near(), r.near()
					if m.rng.Intn(3) != 0 && hi > lo+50 {
						hi = lo
					}
					r.op("DeleteRangeByScore %v %v", lo, hi)
					a, b := r.scoreSpan(lo, hi)
					got := r.els(r.z.DeleteRangeByScore(lo, hi), "DeleteRangeByScore")
					c := r.cut(a, b)
					r.sameEls(got, c, "DeleteRangeByScore")
					for _, e := range c {
						delete(r.have, e.m)
					}
					r.size()
				case x < 64:
					a, b, i, j := r.ranks()
					if m.rng.Intn(3) != 0 && b < math.MaxInt64 && b > a+10 {
						b = a + 3
						i, j = rankCut(a+1, b+1, len(r.mod))
					}
					r.op("DeleteRangeByRank %d %d (of %d)", a, b, len(r.mod))
					got := r.els(r.z.DeleteRangeByRank(a, b), "DeleteRangeByRank")
					c := r.cut(i, j)
					r.sameEls(got, c, "DeleteRangeByRank")
					for _, e := range c {
						delete(r.have, e.m)
					}
					r.size()
				default:
					r.query()
				}
				if m.rng.Intn(1+len(r.mod)/3) == 0 {
					r.same(r.z, r.mod, "sorted set")
				}
				if m.rng.Intn(60) == 0 {
					r.copyOf()
				}
			}
			r.same(r.z, r.mod, "sorted set")
		}
		for len(r.mod) > 0 {
			r.remove()
		}
		r.same(r.z, r.mod, "sorted set")
		m.counts["sorted sets"]++
	}
}

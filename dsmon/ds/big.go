package main

import (
	"math"
	"sort"
	"strconv"

	"github.com/IfanTsai/metis/datastruct"
)

// The structures with hundreds of thousands of values: levels, pages and tables which small ones do not have.

func (m *mon) bigSkip(n int) {
	r := &skipRun{order: order{mon: m, names: makeNames(50), scores: 3}, l: datastruct.NewSkiplist(), have: map[string]float64{}}
	t := &typ{kind: "fnv"}
	z := &zsetRun{order: order{mon: m, names: r.names, scores: 3}, t: t, z: datastruct.NewZset(t), have: map[string]float64{}}
	sortModel := func() {
		sort.Slice(r.mod, func(i, j int) bool { return less(r.mod[i], r.mod[j]) })
		z.mod = append([]el(nil), r.mod...)
		z.have = map[string]float64{}
		for _, e := range r.mod {
			z.have[e.m] = e.s
		}
		r.have = z.have
	}
	all := func() {
		r.structure()
		k := len(r.mod)
		step := 1 + k/40000
		for i := r.rng.Intn(step); i < k; i += step {
			e := r.mod[i]
			if g := r.l.GetRank(e.s, e.m); g != int64(i+1) {
				r.fail("GetRank(%v, %q) of %d elements is %d, want %d", e.s, e.m, k, g, i+1)
			}
			if g := r.l.GetElementByRank(int64(i + 1)); g == nil || g.Member != e.m {
				r.fail("GetElementByRank(%d) of %d elements is not %q", i+1, k, e.m)
			}
			if g := z.z.GetRank(e.m, false); g != int64(i) {
				r.fail("sorted set: GetRank(%q) of %d elements is %d, want %d", e.m, k, g, i)
			}
			if g := z.z.Get(e.m); g == nil || g.Score != e.s {
				r.fail("sorted set: Get(%q) of %d elements is %v, want score %v", e.m, k, g, e.s)
			}
			r.prog.Add(1)
		}
		r.counts["elements ranked"] += int64(k / step)
		for i := 0; i < 300; i++ {
			a, b := r.rankSpan()
			if r.rng.Intn(10) != 0 && b > a+2000 {
				b = a + 2000
			}
			x, y := rankCut(a, b, k)
			rv := r.rng.Intn(2) == 0
			want := r.mod[x:y]
			if rv {
				want = rev(r.mod[k-y : k-x])
			}
			r.op("RangeByRank %d %d %v (of %d)", a, b, rv, k)
			r.sameEls(elsOf(r.l.RangeByRank(a, b, rv)), want, "RangeByRank")
			if b > 0 {
				r.sameEls(z.els(z.z.RangeByRank(a-1, b-1, rv), "RangeByRank"), want, "sorted set RangeByRank")
			}
			lo := r.near()
			hi := lo + float64(r.rng.Intn(4))/4
			x, y = r.scoreSpan(lo, hi)
			r.op("Count and RangeByScore %v %v", lo, hi)
			if g := r.l.Count(lo, hi); g != int64(y-x) {
				r.fail("Count(%v, %v) of %d elements is %d, want %d", lo, hi, k, g, y-x)
			}
			if g := z.z.Count(lo, hi); g != int64(y-x) {
				r.fail("sorted set Count(%v, %v) of %d elements is %d, want %d", lo, hi, k, g, y-x)
			}
			r.sameEls(elsOf(r.l.RangeByScore(lo, hi, -1, false)), r.mod[x:y], "RangeByScore")
			r.sameEls(z.els(z.z.RangeByScore(lo, hi, -1, true), "RangeByScore"), rev(r.mod[x:y]), "sorted set RangeByScore")
		}
		// everything at once, and most of it
		for i := 0; i < 4 && k > 0; i++ {
			lo, hi := math.Inf(-1), math.Inf(1)
			if i > 1 {
				lo = r.mod[r.rng.Intn(1+k/8)].s
			}
			if i > 2 {
				hi = r.mod[k-1-r.rng.Intn(1+k/8)].s
			}
			x, y := r.scoreSpan(lo, hi)
			r.op("RangeByScore %v %v (%d of %d)", lo, hi, y-x, k)
			r.sameEls(elsOf(r.l.RangeByScore(lo, hi, -1, i%2 == 1)), order2(r.mod[x:y], i%2 == 1), "RangeByScore of many")
			r.sameEls(z.els(z.z.RangeByScore(lo, hi, -1, i%2 == 0), "RangeByScore"), order2(r.mod[x:y], i%2 == 0), "sorted set RangeByScore of many")
			r.sameEls(elsOf(r.l.RangeByRank(int64(x+1), int64(y), i%2 == 0)), order2(r.mod[rankFrom(x, y, k, i%2 == 0):rankTo(x, y, k, i%2 == 0)], i%2 == 0), "RangeByRank of many")
			if g := r.l.Count(lo, hi); g != int64(y-x) {
				r.fail("Count(%v, %v) of %d elements is %d, want %d", lo, hi, k, g, y-x)
			}
			r.counts["elements in large ranges"] += int64(3 * (y - x))
		}
		if z.z.Size() != int64(k) {
			r.fail("sorted set: Size is %d, want %d", z.z.Size(), k)
		}
		r.op("compared %d elements in the whole", k)
	}
	kind := r.rng.Intn(4)
	seq := 0
	grow := func(n int) {
		r.op("insert %d elements, order %d", n, kind)
		for i := 0; i < n; i++ {
			seq++
			e := el{m: "b" + strconv.Itoa(seq)}
			switch kind {
			case 0:
				e.s = float64(seq)
			case 1:
				e.s = -float64(seq)
			case 2:
				e.s = float64(r.rng.Intn(n))
			default:
				e.s = float64(r.rng.Intn(2000)) / 4
			}
			if x := r.l.Insert(e.s, e.m); x == nil || x.Member != e.m {
				r.fail("Insert(%v, %q) returned %v", e.s, e.m, x)
			}
			if !z.z.Add(e.s, e.m) {
				r.fail("sorted set: Add(%v, %q) of a new member returned false", e.s, e.m)
			}
			r.mod = append(r.mod, e)
			r.prog.Add(1)
		}
		sortModel()
		all()
	}
	shrink := func(part int) { // one in part stays
		r.op("delete all but one in %d of %d", part, len(r.mod))
		var keep []el
		for _, i := range r.rng.Perm(len(r.mod)) {
			e := r.mod[i]
			if r.rng.Intn(part) == 0 {
				keep = append(keep, e)
				continue
			}
			if x := r.l.Delete(e.s, e.m); x == nil || x.Member != e.m {
				r.fail("Delete(%v, %q) returned %v", e.s, e.m, x)
			}
			if !z.z.Delete(e.m) {
				r.fail("sorted set: Delete(%q) returned false", e.m)
			}
			r.prog.Add(1)
		}
		r.mod = keep
		sortModel()
		all()
	}
	grow(n)
	// ranges of many elements at once
	for i := 0; i < 3; i++ {
		a := 1 + r.rng.Intn(len(r.mod)/2)
		b := a + r.rng.Intn(len(r.mod)/8)
		r.op("DeleteRangeByRank %d %d (of %d)", a, b, len(r.mod))
		got := elsOf(r.l.DeleteRangeByRank(int64(a), int64(b)))
		r.sameEls(got, r.mod[a-1:b], "DeleteRangeByRank")
		r.sameEls(z.els(z.z.DeleteRangeByRank(int64(a-1), int64(b-1)), "DeleteRangeByRank"), r.mod[a-1:b], "sorted set DeleteRangeByRank")
		r.cut(a-1, b)
		sortModel()
		lo := r.mod[r.rng.Intn(len(r.mod))].s
		hi := lo + 3
		x, y := r.scoreSpan(lo, hi)
		r.op("DeleteRangeByScore %v %v (%d of %d)", lo, hi, y-x, len(r.mod))
		r.sameEls(elsOf(r.l.DeleteRangeByScore(lo, hi)), r.mod[x:y], "DeleteRangeByScore")
		r.sameEls(z.els(z.z.DeleteRangeByScore(lo, hi), "DeleteRangeByScore"), r.mod[x:y], "sorted set DeleteRangeByScore")
		r.cut(x, y)
		sortModel()
		all()
	}
	kind = r.rng.Intn(4)
	shrink(3)
	grow(n / 3)
	shrink(50)
	grow(1000)
	r.op("delete all %d", len(r.mod))
	r.sameEls(elsOf(r.l.DeleteRangeByScore(math.Inf(-1), math.Inf(1))), r.mod, "DeleteRangeByScore of everything")
	r.mod = nil
	r.structure()
	m.counts["large sorted sets"]++
}

func order2(l []el, backwards bool) []el {
	if backwards {
		return rev(l)
	}
	return l
}

// The ranks x+1..y of k elements, counted from the other end when backwards.
func rankFrom(x, y, k int, backwards bool) int {
	if backwards {
		return k - y
	}
	return x
}

func rankTo(x, y, k int, backwards bool) int {
	if backwards {
		return k - x
	}
	return y
}

func (m *mon) bigList(n int) {
	r := &listRun{mon: m, q: datastruct.NewQuicklist()}
	all := func() {
		r.op("compare all %d values, %d pages", len(r.mod), r.q.Size())
		r.meta()
		r.walk(r.q, r.mod, "large list")
		r.sameList(r.q.Range(0, -1), r.mod, "Range(0,-1)")
		for i := 0; i < 400 && len(r.mod) > 0; i++ {
			r.get(r.idx(len(r.mod)))
		}
		for i := 0; i < 60; i++ {
			a := r.idx(len(r.mod))
			b := min(a+r.rng.Intn(3000), len(r.mod)-1)
			if b >= a {
				r.sameList(r.q.Range(a, b), r.mod[a:b+1], "Range")
				r.sameList(r.q.Range(a-len(r.mod), b-len(r.mod)), r.mod[a:b+1], "Range")
			}
		}
		if len(r.mod) > 0 {
			r.find()
		}
		r.counts["whole lists compared"]++
		r.counts["pages in lists compared"] += int64(r.q.Size())
		r.prog.Add(1)
	}
	var front, back []any
	r.op("push %d values", n)
	only := r.rng.Intn(3)
	for i := 0; i < n; i++ {
		v := "v" + strconv.Itoa(i)
		if only == 0 || only == 2 && r.rng.Intn(2) == 0 {
			r.q.PushFront(v)
			front = append(front, v)
		} else {
			r.q.PushBack(v)
			back = append(back, v)
		}
		r.prog.Add(1)
	}
	for i := len(front) - 1; i >= 0; i-- {
		r.mod = append(r.mod, front[i])
	}
	r.mod = append(r.mod, back...)
	all()
	for i := 0; i < 400; i++ {
		r.insert(r.idx(len(r.mod) + 1))
		r.remove(r.idx(len(r.mod)))
	}
	all()
	c := r.q.DeepCopy()
	r.walk(c, r.mod, "copy of a large list")
	// most leave, from both ends; then it grows again
	for len(r.mod) > n/50 {
		if k := len(r.mod) - 1; r.rng.Intn(2) == 0 {
			if g := r.q.PopBack(); g != r.mod[k] {
				r.fail("PopBack of %d values returned %v, want %v", k+1, g, r.mod[k])
			}
			r.mod = r.mod[:k]
		} else {
			if g := r.q.PopFront(); g != r.mod[0] {
				r.fail("PopFront of %d values returned %v, want %v", k+1, g, r.mod[0])
			}
			r.mod = r.mod[1:]
		}
		r.prog.Add(1)
	}
	all()
	for i := 0; i < n/3; i++ {
		v := "w" + strconv.Itoa(i)
		r.q.PushBack(v)
		r.mod = append(r.mod, v)
	}
	all()
	for len(r.mod) > 0 {
		if g := r.q.PopFront(); g != r.mod[0] {
			r.fail("PopFront of %d values returned %v, want %v", len(r.mod), g, r.mod[0])
		}
		r.mod = r.mod[1:]
		r.prog.Add(1)
	}
	all()
	m.counts["large lists"]++
}

func (m *mon) bigDict(n int) {
	n += m.rng.Intn(n / 4)
	stride := 20 + m.rng.Intn(40)
	t := &typ{kind: "fnv", salt: m.rng.Int63()}
	d, s := datastruct.NewDict(t), datastruct.NewSet(t)
	mod := map[string]int{}
	all := func(what string) {
		m.op("%s: compare %d of %d entries", what, len(mod), n)
		if d.Size() != int64(len(mod)) || s.Size() != int64(len(mod)) {
			m.fail("%s: Size is %d and %d, want %d", what, d.Size(), s.Size(), len(mod))
		}
		seen := map[string]bool{}
		it := datastruct.NewDictIterator(d)
		for e := it.Next(); e != nil; e = it.Next() {
			k := e.Key.(string)
			if v, ok := mod[k]; !ok || e.Value != any(v) || seen[k] {
				m.fail("%s: iteration over %d entries returned %q with %v, present %v with %d, returned before %v", what, len(mod), k, e.Value, ok, v, seen[k])
			}
			seen[k] = true
			m.prog.Add(1)
		}
		it.Release()
		if len(seen) != len(mod) {
			m.fail("%s: iteration returned %d of %d entries", what, len(seen), len(mod))
		}
		if l := s.Range(); len(l) != len(mod) {
			m.fail("%s: Range of %d members returned %d", what, len(mod), len(l))
		}
		for k, v := range mod {
			if e := d.Find(k); e == nil || e.Value != any(v) || !s.Contains(k) {
				m.fail("%s: Find(%q) among %d entries is %v, want %d; in the set %v", what, k, len(mod), e, v, s.Contains(k))
			}
			m.prog.Add(1)
		}
		for i := 0; i < 200; i++ {
			if e := d.Find("absent" + strconv.Itoa(i)); e != nil {
				m.fail("%s: Find of an absent key is %v", what, e)
			}
		}
		eq := t.eq
		for i := 0; i < 2000; i++ {
			d.Find("k" + strconv.Itoa(m.rng.Intn(n)))
		}
		if c := float64(t.eq-eq) / 2000; c > 16 {
			m.fail("%s: a lookup among %d entries compares %.1f keys on average", what, len(mod), c)
		}
		m.counts["large tables compared"]++
	}
	// Copies and iterations also while the entries are on their way to a larger table.
	moving := func() {
		m.op("copy and iterate at %d entries", len(mod))
		c := d.DeepCopy()
		if c.Size() != int64(len(mod)) {
			m.fail("a copy of %d entries has %d", len(mod), c.Size())
		}
		l := s.Range()
		if len(l) != len(mod) {
			m.fail("Range of %d members returned %d", len(mod), len(l))
		}
		cs := s.DeepCopy()
		seen := map[string]bool{}
		it := datastruct.NewDictIterator(d)
		for e := it.Next(); e != nil; e = it.Next() {
			k := e.Key.(string)
			if v, ok := mod[k]; !ok || seen[k] || e.Value != any(v) {
				m.fail("iteration over %d entries returned %q with %v, present %v with %d, returned before %v", len(mod), k, e.Value, ok, v, seen[k])
			}
			seen[k] = true
			if g := c.Get(k); g != e.Value || !cs.Contains(k) {
				m.fail("a copy of %d entries has %v for %q, want %v; in the copy of the set %v", len(mod), g, k, e.Value, cs.Contains(k))
			}
			if m.rng.Intn(64) == 0 {
				if e := d.GetRandomKey(); e == nil || e.Value != any(mod[e.Key.(string)]) {
					m.fail("GetRandomKey among %d entries returned %v", len(mod), e)
				}
			}
			m.prog.Add(1)
		}
		it.Release()
		if len(seen) != len(mod) {
			m.fail("iteration returned %d of %d entries", len(seen), len(mod))
		}
		m.counts["large tables copied and iterated while they grow"]++
	}
	fill := func(lo, hi int) {
		next := 0
		for i := lo; i < hi; i++ {
			if len(mod) >= 1024 && len(mod) >= next {
				p := 1024
				for p*2 <= len(mod) {
					p *= 2
				}
				if next > 0 {
					moving()
				}
				if next = p + m.rng.Intn(p/3); next <= len(mod) {
					next = 2*p + m.rng.Intn(p/2)
				}
			}
			k := "k" + strconv.Itoa(i)
			_, had := mod[k]
			if d.Set(k, i) == had || s.Add(k) == had {
				m.fail("Set or Add of %q, present %v, returned otherwise", k, had)
			}
			mod[k] = i
			m.prog.Add(1)
		}
	}
	fill(0, n)
	all("filled")
	for i := 0; i < n; i++ {
		if i%stride == 5 {
			continue
		}
		k := "k" + strconv.Itoa(i)
		if err := d.Delete(k); err != nil {
			m.fail("Delete(%q): %v", k, err)
		}
		if err := s.Delete(k); err != nil {
			m.fail("Set.Delete(%q): %v", k, err)
		}
		delete(mod, k)
		m.prog.Add(1)
	}
	all("emptied")
	c := d.DeepCopy()
	fill(n/2, n+n/2)
	all("filled again")
	if c.Size() >= d.Size() {
		m.fail("a copy has %d entries after the original grew to %d", c.Size(), d.Size())
	}
	m.counts["large tables"]++
}

package main

import (
	"strconv"

	"github.com/IfanTsai/metis/datastruct"
)

const page = 1024

type listRun struct {
	*mon
	q   *datastruct.Quicklist
	mod []any
	seq int
}

// val is a fresh value, or sometimes one that is already there (Find must return the first).
func (r *listRun) val() any {
	r.seq++
	switch r.rng.Intn(12) {
	case 0:
		if len(r.mod) > 0 {
			return r.mod[r.rng.Intn(len(r.mod))]
		}
	case 1:
		return ""
	case 2:
		return r.seq
	}
	return "v" + strconv.Itoa(r.seq)
}

func (r *listRun) meta() {
	n := len(r.mod)
	if r.q.Len() != n {
		r.fail("Len is %d, want %d", r.q.Len(), n)
	}
	s := r.q.Size()
	if s > n || s == 0 && n > 0 {
		r.fail("Size (pages) is %d for %d values: an empty page is kept", s, n)
	}
}

// idx picks a position in [0,n), at borders of pages and of the list more often than elsewhere.
func (r *listRun) idx(n int) int {
	if n <= 1 {
		return 0
	}
	var i int
	switch r.rng.Intn(8) {
	case 0:
		i = 0
	case 1:
		i = n - 1
	case 2:
		i = n/2 + r.rng.Intn(3) - 1
	case 3:
		i = (page/2)*r.rng.Intn(n/(page/2)+1) + r.rng.Intn(5) - 2
	case 4:
		i = n - 1 - (page/2)*r.rng.Intn(n/(page/2)+1) + r.rng.Intn(5) - 2
	default:
		i = r.rng.Intn(n)
	}
	return max(0, min(i, n-1))
}

// off picks a position outside [0,n).
func (r *listRun) off(n int) int {
	return []int{-1, -2, -page, -n, -n - 1, n, n + 1, n + page, 1 << 40, -1 << 40}[r.rng.Intn(10)]
}

func (r *listRun) insert(i int) {
	v := r.val()
	r.op("Insert %d %v (len %d)", i, v, len(r.mod))
	ok := i >= 0 && i <= len(r.mod)
	if got := r.q.Insert(i, v); got != ok {
		r.fail("Insert(%d) into %d values returned %v", i, len(r.mod), got)
	}
	if ok {
		r.mod = append(r.mod, nil)
		copy(r.mod[i+1:], r.mod[i:])
		r.mod[i] = v
	}
	r.meta()
}

func (r *listRun) remove(i int) {
	r.op("Remove %d (len %d)", i, len(r.mod))
	got := r.q.Remove(i)
	r.removed(i, got, "Remove")
}

func (r *listRun) removed(i int, got any, what string) {
	if i < 0 || i >= len(r.mod) {
		if got != nil {
			r.fail("%s(%d) from %d values returned %v", what, i, len(r.mod), got)
		}
	} else {
		if got != r.mod[i] {
			r.fail("%s(%d) from %d values returned %v, want %v", what, i, len(r.mod), got, r.mod[i])
		}
		r.mod = append(r.mod[:i], r.mod[i+1:]...)
	}
	r.meta()
}

func (r *listRun) get(i int) {
	r.op("Get %d (len %d)", i, len(r.mod))
	var want any
	if i >= 0 && i < len(r.mod) {
		want = r.mod[i]
	}
	if got := r.q.Get(i); got != want {
		r.fail("Get(%d) of %d values is %v, want %v", i, len(r.mod), got, want)
	}
}

func (r *listRun) find() {
	var v any = "absent"
	if len(r.mod) > 0 && r.rng.Intn(5) != 0 {
		v = r.mod[r.idx(len(r.mod))]
	}
	r.op("Find %v (len %d)", v, len(r.mod))
	want := -1
	for i, x := range r.mod {
		if x == v {
			want = i
			break
		}
	}
	if got := r.q.Find(v); got != want {
		r.fail("Find(%v) in %d values is %d, want %d", v, len(r.mod), got, want)
	}
}

func (r *listRun) rng2() {
	n := len(r.mod)
	var a, b int
	switch r.rng.Intn(5) {
	case 0:
		a, b = r.idx(n), r.idx(n)
	case 1:
		a, b = r.idx(n)-n, r.idx(n)-n
	case 2:
		a, b = r.idx(n), r.idx(n)-n
	case 3:
		a, b = r.idx(n), r.idx(n)+r.rng.Intn(30)
	case 4:
		a, b = 0, -1
		if r.rng.Intn(2) == 0 {
			a, b = r.off(n), r.off(n)
		}
	}
	if a < -n { // not specified
		a = -n
	}
	r.op("Range %d %d (len %d)", a, b, n)
	if s, e := a, b; n > 0 {
		if s < 0 {
			s += n
		}
		if e < 0 {
			e += n
		}
		var want []any
		if s <= e && s < n && e >= 0 {
			want = r.mod[s:min(e+1, n)]
		}
		r.sameList(r.q.Range(a, b), want, "Range")
		return
	}
	r.sameList(r.q.Range(a, b), nil, "Range")
}

func (r *listRun) sameList(got, want []any, what string) {
	if len(got) != len(want) {
		r.fail("%s returned %d values, want %d", what, len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			r.fail("%s of %d values: value %d is %v, want %v", what, len(want), i, got[i], want[i])
		}
	}
}

func (r *listRun) walk(q *datastruct.Quicklist, want []any, what string) {
	it := datastruct.NewQuicklistIterator(q)
	for i, w := range want {
		if g := it.Next(); g != w {
			r.fail("%s: forward iteration over %d values: value %d is %v, want %v", what, len(want), i, g, w)
		}
		// some steps back and forth
		if i > 2 && r.rng.Intn(200) == 0 {
			k := 1 + r.rng.Intn(min(i, 3))
			if r.rng.Intn(4) == 0 {
				k = min(i, page+3)
			}
			for j := 1; j <= k; j++ {
				if g := it.Prev(); g != want[i-j] {
					r.fail("%s: Prev at %d of %d values is %v, want %v", what, i-j+1, len(want), g, want[i-j])
				}
			}
			for j := k - 1; j >= 0; j-- {
				if g := it.Next(); g != want[i-j] {
					r.fail("%s: Next at %d of %d values is %v, want %v", what, i-j-1, len(want), g, want[i-j])
				}
			}
		}
	}
	if len(want) == 0 {
		if g := it.Next(); g != nil {
			r.fail("%s: iteration over no values returned %v", what, g)
		}
		return
	}
	// back from the end
	if r.rng.Intn(2) == 0 {
		if g := it.Next(); g != nil {
			r.fail("%s: iteration over %d values returned a further one, %v", what, len(want), g)
		}
		return
	}
	for i := len(want) - 2; i >= 0; i-- {
		if g := it.Prev(); g != want[i] {
			r.fail("%s: backward iteration over %d values: value %d is %v, want %v", what, len(want), i, g, want[i])
		}
	}
	if g := it.Prev(); g != nil {
		r.fail("%s: backward iteration over %d values returned a further one, %v", what, len(want), g)
	}
	r.prog.Add(1)
}

func (r *listRun) all() {
	r.op("compare all %d values, %d pages", len(r.mod), r.q.Size())
	r.meta()
	r.walk(r.q, r.mod, "list")
	r.sameList(r.q.Range(0, -1), r.mod, "Range(0,-1)")
	if len(r.mod) <= 40 || r.rng.Intn(4) == 0 {
		for i := range r.mod {
			if g := r.q.Get(i); g != r.mod[i] {
				r.fail("Get(%d) of %d values is %v, want %v", i, len(r.mod), g, r.mod[i])
			}
		}
		r.counts["lists addressed at every index"]++
	}
	if len(r.mod) <= 24 { // every pair of positions
		n := len(r.mod)
		for a := -n; a <= n+1; a++ {
			for b := -n - 2; b <= n+2; b++ {
				s, e := a, b
				if s < 0 {
					s += n
				}
				if e < 0 {
					e += n
				}
				var want []any
				if s <= e && s < n && e >= 0 {
					want = r.mod[s:min(e+1, n)]
				}
				r.sameList(r.q.Range(a, b), want, "Range("+strconv.Itoa(a)+","+strconv.Itoa(b)+")")
			}
		}
		r.counts["lists ranged over every pair of positions"]++
	}
	r.counts["whole lists compared"]++
	r.counts["pages in lists compared"] += int64(r.q.Size())
}

func (r *listRun) copyOf() {
	r.op("DeepCopy of %d values", len(r.mod))
	c := r.q.DeepCopy()
	want := append([]any(nil), r.mod...)
	r.walk(c, want, "copy")
	for i := 0; i < 4; i++ {
		r.insert(r.idx(len(r.mod) + 1))
		if len(r.mod) > 0 {
			r.remove(r.idx(len(r.mod)))
		}
	}
	if c.Len() != len(want) {
		r.fail("copy has %d values, want %d", c.Len(), len(want))
	}
	r.walk(c, want, "copy after changes of the original")
	c.PushBack("x")
	c.Remove(0)
	c.Insert(0, "y")
	r.walk(r.q, r.mod, "original after changes of its copy")
	r.counts["copies compared"]++
	if r.rng.Intn(3) == 0 { // go on with the copy
		want = append(want, "x")
		want = append([]any{"y"}, want[1:]...)
		r.q, r.mod = c, want
		r.all()
	}
}

func (m *mon) lists(ops int) {
	for int(m.counts["operations"]) < ops {
		r := &listRun{mon: m, q: datastruct.NewQuicklist()}
		limit := []int{1, 4, 20, 600, 1100, 2100, 5000}[m.rng.Intn(7)]
		r.op("new list of up to about %d values", limit)
		r.all()
		r.get(r.off(0))
		r.remove(r.off(0))
		for phase := 0; phase < 7; phase++ {
			// where this phase adds and removes: anywhere, front, back, one fixed place, page borders
			where := m.rng.Intn(6)
			fixed := m.rng.Intn(limit + 1)
			grow := 80
			if phase%2 == 1 {
				grow = []int{45, 30, 5}[m.rng.Intn(3)]
			}
			place := func(n int) int {
				switch where {
				case 0:
					return 0
				case 1:
					return n - 1
				case 2:
					return max(0, min(fixed, n-1))
				case 3:
					return max(0, min(page/2*(1+fixed%8)+m.rng.Intn(3)-1, n-1))
				}
				return r.idx(n)
			}
			steps := limit + m.rng.Intn(limit+20)
			checkEvery := 30 + steps/3
			for i := 0; i < steps; i++ {
				switch x := m.rng.Intn(100); {
				case x < 70:
					if m.rng.Intn(100) < grow && len(r.mod) < limit+limit/4 || len(r.mod) == 0 {
						switch m.rng.Intn(6) {
						case 0:
							v := r.val()
							r.op("PushFront %v (len %d)", v, len(r.mod))
							r.q.PushFront(v)
							r.mod = append([]any{v}, r.mod...)
							r.meta()
						case 1:
							v := r.val()
							r.op("PushBack %v (len %d)", v, len(r.mod))
							r.q.PushBack(v)
							r.mod = append(r.mod, v)
							r.meta()
						case 2:
							r.insert(len(r.mod))
						default:
							r.insert(place(len(r.mod) + 1))
						}
					} else {
						switch m.rng.Intn(5) {
						case 0:
							r.op("PopFront (len %d)", len(r.mod))
							r.removed(0, r.q.PopFront(), "PopFront")
						case 1:
							r.op("PopBack (len %d)", len(r.mod))
							r.removed(len(r.mod)-1, r.q.PopBack(), "PopBack")
						default:
							r.remove(place(len(r.mod)))
						}
					}
				case x < 72:
					r.insert([]int{-1, -2, len(r.mod) + 1, len(r.mod) + page, -1 << 40, 1 << 40}[m.rng.Intn(6)])
				case x < 74:
					r.remove(r.off(len(r.mod)))
				case x < 76:
					r.get(r.off(len(r.mod)))
				case x < 86:
					r.get(r.idx(len(r.mod)))
				case x < 93:
					if len(r.mod) < 300 || m.rng.Intn(8) == 0 {
						r.find()
					}
				default:
					if len(r.mod) < 300 || m.rng.Intn(8) == 0 {
						r.rng2()
					}
				}
				if m.rng.Intn(checkEvery) == 0 {
					if m.rng.Intn(4) == 0 {
						r.copyOf()
					} else {
						r.all()
					}
				}
			}
			r.all()
		}
		fromEnd := m.rng.Intn(3)
		for len(r.mod) > 0 {
			switch fromEnd {
			case 0:
				r.remove(0)
			case 1:
				r.remove(len(r.mod) - 1)
			case 2:
				r.remove(r.idx(len(r.mod)))
			}
		}
		r.all()
		r.op("pops of the empty list")
		r.removed(0, r.q.PopFront(), "PopFront")
		r.removed(-1, r.q.PopBack(), "PopBack")
		m.counts["lists"]++
	}
}

package main

import (
	"encoding/binary"
	"hash/fnv"
	"math"
	"sort"
	"strconv"

	"github.com/IfanTsai/metis/datastruct"
)

// typ is a hash function chosen to be hostile, and counts the comparisons it is asked for.
type typ struct {
	kind string
	salt int64
	eq   int64
}

var hashKinds = []string{"fnv", "fnv", "fnv", "zero", "minus", "ident", "neg", "high", "two", "min", "low3", "salt"}

func (t *typ) Hash(a any) int64 {
	s := a.(string)
	f := fnv.New64a()
	f.Write([]byte(s))
	h := int64(f.Sum64())
	n := int64(len(s))
	if k, err := strconv.ParseInt(s[min(1, len(s)):], 10, 64); err == nil {
		n = k
	}
	switch t.kind {
	case "zero":
		return 0
	case "minus":
		return -1
	case "ident":
		return n
	case "neg":
		return -n
	case "high":
		return n << 8
	case "two":
		return h & 1
	case "min":
		return math.MinInt64 + n%3
	case "low3":
		return h &^ 7
	case "salt":
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(t.salt))
		f.Write(b[:])
		return int64(f.Sum64())
	}
	return h
}

func (t *typ) Equal(a, b any) bool { t.eq++; return a.(string) == b.(string) }

func (t *typ) flat() bool {
	return t.kind == "fnv" || t.kind == "ident" || t.kind == "salt" || t.kind == "neg"
}

type dictRun struct {
	*mon
	t    *typ
	d    *datastruct.Dict
	mod  map[string]int
	keys []string // universe
	seq  int
}

func sorted(m map[string]int) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// some returns a key of the model, if there is one.
func (r *dictRun) some() string {
	for i := 0; i < 20; i++ {
		k := r.keys[r.rng.Intn(len(r.keys))]
		if _, ok := r.mod[k]; ok {
			return k
		}
	}
	for k := range r.mod {
		return k
	}
	return r.keys[0]
}

func (r *dictRun) any() string { return r.keys[r.rng.Intn(len(r.keys))] }

func (r *dictRun) set(k string) {
	r.seq++
	_, had := r.mod[k]
	r.op("Set %s %d", k, r.seq)
	if got := r.d.Set(k, r.seq); got == had {
		r.fail("Set(%q) of a key that was present %v returned %v", k, had, got)
	}
	r.mod[k] = r.seq
	r.size()
}

func (r *dictRun) find(k string) {
	v, had := r.mod[k]
	if r.rng.Intn(2) == 0 {
		r.op("Find %s", k)
		e := r.d.Find(k)
		if (e != nil) != had || had && (e.Key != any(k) || e.Value != any(v)) {
			r.fail("Find(%q) returned %v; present %v with value %d", k, e, had, v)
		}
		return
	}
	r.op("Get %s", k)
	g := r.d.Get(k)
	if (g != nil) != had || had && g != any(v) {
		r.fail("Get(%q) returned %v; present %v with value %d", k, g, had, v)
	}
}

func (r *dictRun) del(k string) {
	_, had := r.mod[k]
	r.op("Delete %s", k)
	if err := r.d.Delete(k); (err == nil) != had {
		r.fail("Delete(%q) of a key that was present %v returned %v", k, had, err)
	}
	delete(r.mod, k)
	r.size()
}

func (r *dictRun) size() {
	if n := r.d.Size(); n != int64(len(r.mod)) {
		r.fail("Size is %d, want %d", n, len(r.mod))
	}
}

func (r *dictRun) random() {
	r.op("GetRandomKey")
	e := r.d.GetRandomKey()
	if (e == nil) != (len(r.mod) == 0) {
		r.fail("GetRandomKey returned %v with %d entries", e, len(r.mod))
	}
	if e != nil {
		v, ok := r.mod[e.Key.(string)]
		if !ok || e.Value != any(v) {
			r.fail("GetRandomKey returned %q -> %v; present %v with value %d", e.Key, e.Value, ok, v)
		}
	}
}

// randomAll requires every entry of a small table to be returned sooner or later.
func (r *dictRun) randomAll() {
	if len(r.mod) == 0 || len(r.mod) > 60 {
		return
	}
	r.op("GetRandomKey until all are seen")
	seen := map[string]bool{}
	// at most 8192 buckets, chains of at most 60
	for i := 0; i < 400000 && len(seen) < len(r.mod); i++ {
		e := r.d.GetRandomKey()
		if e == nil {
			r.fail("GetRandomKey returned nil with %d entries", len(r.mod))
		}
		k := e.Key.(string)
		if _, ok := r.mod[k]; !ok {
			r.fail("GetRandomKey returned the absent key %q", k)
		}
		seen[k] = true
		r.prog.Add(1)
	}
	if len(seen) != len(r.mod) {
		for k := range r.mod {
			if !seen[k] {
				r.fail("GetRandomKey never returned %q in 400000 draws from %d entries (%d distinct ones were returned)", k, len(r.mod), len(seen))
			}
		}
	}
	r.counts["tables of which every entry was drawn"]++
}

// iterate walks over the table; what is done meanwhile is chosen by style.
func (r *dictRun) iterate(style int) {
	r.op("iterate, style %d, %d entries", style, len(r.mod))
	it := datastruct.NewDictIterator(r.d)
	must := map[string]int{}
	for k, v := range r.mod {
		must[k] = v
	}
	start := len(must)
	stopAt := -1
	if style == 1 {
		stopAt = r.rng.Intn(start + 2)
	}
	visited := 0
	seen := map[string]bool{}
	for e := it.Next(); e != nil; e = it.Next() {
		k := e.Key.(string)
		if seen[k] {
			r.fail("iteration (style %d, %d entries at start) visited %q twice", style, start, k)
		}
		v, ok := r.mod[k]
		if !ok || e.Value != any(v) {
			r.fail("iteration (style %d) visited %q -> %v; present %v with value %d", style, k, e.Value, ok, v)
		}
		seen[k] = true
		delete(must, k)
		visited++
		if visited == stopAt {
			r.op("stop after %d", visited)
			it.Release()
			return
		}
		if visited > start+5 {
			r.fail("iteration (style %d) visited more than the %d entries", style, start)
		}
		switch style {
		case 2: // the current entry is deleted
			if r.rng.Intn(3) != 0 {
				r.del(k)
			}
		case 3: // other keys are looked up and updated
			for i := r.rng.Intn(4); i > 0; i-- {
				switch r.rng.Intn(4) {
				case 0:
					r.find(r.any())
				case 1:
					if len(r.mod) > 0 {
						r.set(r.some())
					}
				case 2:
					r.random()
				case 3:
					r.find(r.some())
				}
			}
		case 4: // both
			if r.rng.Intn(2) == 0 {
				r.del(k)
			}
			if len(r.mod) > 0 && r.rng.Intn(2) == 0 {
				r.set(r.some())
			}
			r.find(r.any())
		case 5: // an iteration inside, and iterators that are not used
			if r.rng.Intn(start/3+1) == 0 {
				r.iterate(r.rng.Intn(2))
			}
			if r.rng.Intn(4) == 0 {
				r.op("an iterator is made and released")
				in := datastruct.NewDictIterator(r.d)
				in.Release()
			}
			r.find(r.any())
			r.random()
		case 6: // the copy of a table under iteration
			if r.rng.Intn(start/2+1) == 0 {
				r.copyOf()
			}
		case 7: // draws from a table under iteration, which stays as it is, in the middle of a move or not
			if r.rng.Intn(start+1) == 0 {
				r.randomAll()
			}
		}
	}
	if stopAt < 0 || stopAt > visited || stopAt == 0 {
		for k := range must {
			if _, still := r.mod[k]; still {
				r.fail("iteration (style %d, %d entries at start) missed %q; %d visited", style, start, k, visited)
			}
		}
	}
	it.Release()
	r.size()
	r.counts["iterations"]++
	r.counts["entries visited by iterations"] += int64(visited)
}

func (r *dictRun) same(d *datastruct.Dict, want map[string]int, what string) {
	if d.Size() != int64(len(want)) {
		r.fail("%s: size %d, want %d", what, d.Size(), len(want))
	}
	for k, v := range want {
		if g := d.Get(k); g != any(v) {
			r.fail("%s: %q is %v, want %d", what, k, g, v)
		}
	}
	r.prog.Add(1)
}

func (r *dictRun) copyOf() {
	r.op("DeepCopy of %d entries", len(r.mod))
	c := r.d.DeepCopy()
	want := map[string]int{}
	for k, v := range r.mod {
		want[k] = v
	}
	r.same(c, want, "copy")
	// neither follows the other
	for i := 0; i < 5; i++ {
		k := r.any()
		if r.rng.Intn(2) == 0 {
			c.Set(k, -i)
			want[k] = -i
		} else {
			c.Delete(k)
			delete(want, k)
		}
	}
	for i := 0; i < 5 && len(r.mod) > 0; i++ {
		r.set(r.some())
	}
	r.same(c, want, "copy after changes")
	r.same(r.d, r.mod, "original after its copy was changed")
	r.counts["copies compared"]++
}

func (r *dictRun) all() {
	r.op("compare all %d", len(r.mod))
	r.same(r.d, r.mod, "table")
	for i := 0; i < 10; i++ {
		r.find(r.any())
	}
	r.counts["whole tables compared"]++
}

func (m *mon) dicts(ops int) {
	for int(m.counts["operations"]) < ops {
		r := &dictRun{mon: m, t: &typ{kind: hashKinds[m.rng.Intn(len(hashKinds))], salt: m.rng.Int63()}, mod: map[string]int{}}
		r.d = datastruct.NewDict(r.t)
		n := []int{3, 8, 9, 16, 40, 130, 300, 2000, 9000}[m.rng.Intn(9)]
		if !r.t.flat() && n > 400 {
			n = 400
		}
		for i := 0; i < n; i++ {
			r.keys = append(r.keys, "k"+strconv.Itoa(i))
		}
		if r.rng.Intn(3) == 0 {
			r.keys = append(r.keys, "", "\x00", "\xff\xfe")
		}
		r.op("new table, hash %s, %d keys", r.t.kind, len(r.keys))
		switch m.rng.Intn(4) { // on the uninitialised table
		case 0:
			r.find(r.any())
			r.random()
			r.del(r.any())
			r.size()
		case 1:
			r.iterate(m.rng.Intn(8))
			r.copyOf()
		case 2:
			it := datastruct.NewDictIterator(r.d)
			it.Release()
		}
		for phase := 0; phase < 6; phase++ {
			grow := []int{75, 90, 50, 20, 5, 60}[m.rng.Intn(6)]
			iterEvery := 20 + m.rng.Intn(3*n+20)
			steps := n/2 + m.rng.Intn(2*n)
			for i := 0; i < steps; i++ {
				switch x := m.rng.Intn(100); {
				case x < 50:
					if m.rng.Intn(100) < grow {
						r.set(r.any())
					} else {
						r.del(r.some())
					}
				case x < 55:
					r.del(r.any())
				case x < 75:
					r.find(r.any())
				case x < 85:
					r.find(r.some())
				case x < 92:
					r.random()
				default:
					if len(r.mod) > 0 {
						r.set(r.some())
					}
				}
				if m.rng.Intn(iterEvery) == 0 {
					switch m.rng.Intn(12) {
					case 0:
						r.copyOf()
					case 1:
						r.all()
					case 2:
						it := datastruct.NewDictIterator(r.d) // never used
						it.Release()
					case 3:
						r.randomAll()
					case 4:
						it := datastruct.NewDictIterator(r.d)
						it.Next()
						r.find(r.any())
						it.Release()
					default:
						r.iterate(m.rng.Intn(8))
					}
				}
			}
			r.all()
			r.iterate(m.rng.Intn(4))
		}
		r.randomAll()
		if r.t.flat() && r.t.kind != "neg" {
			r.fast()
		}
		for len(r.mod) > 0 {
			r.del(r.some())
		}
		r.random()
		r.iterate(0)
		m.counts["tables"]++
	}
}

// fast requires lookups to compare few keys, however the table came about.
func (r *dictRun) fast() {
	n := 3000 + r.rng.Intn(3000)
	for i := 0; i < n; i++ {
		k := "x" + strconv.Itoa(i)
		r.d.Set(k, i)
		r.mod[k] = i
	}
	// let a rehash finish
	for i := 0; i < 2*n; i++ {
		r.d.Find("x" + strconv.Itoa(i%n))
	}
	r.t.eq = 0
	for i := 0; i < 2000; i++ {
		r.d.Find("x" + strconv.Itoa(r.rng.Intn(n)))
	}
	r.op("%d entries added, %d comparisons for 2000 lookups", n, r.t.eq)
	if r.t.eq > 2000*20 {
		r.fail("2000 lookups in a table of %d entries made %d comparisons: the table does not grow any more", r.d.Size(), r.t.eq)
	}
	r.all()
	for i := 0; i < n; i++ {
		k := "x" + strconv.Itoa(i)
		if err := r.d.Delete(k); err != nil {
			r.fail("Delete(%q): %v", k, err)
		}
		delete(r.mod, k)
	}
	r.size()
	r.counts["tables in which lookups were counted"]++
}

// ---- sets

func (m *mon) sets(ops int) {
	for int(m.counts["operations"]) < ops {
		t := &typ{kind: hashKinds[m.rng.Intn(len(hashKinds))], salt: m.rng.Int63()}
		n := []int{2, 6, 20, 100, 600}[m.rng.Intn(5)]
		if !t.flat() && n > 300 {
			n = 300
		}
		var keys []string
		for i := 0; i < n; i++ {
			keys = append(keys, "k"+strconv.Itoa(i))
		}
		keys = append(keys, "")
		m.op("new sets, hash %s, %d members", t.kind, n)
		sets := make([]*datastruct.Set, 3)
		mods := make([]map[string]int, 3)
		for i := range sets {
			sets[i] = datastruct.NewSet(t)
			mods[i] = map[string]int{}
		}
		check := func(s *datastruct.Set, want map[string]int, what string) {
			if s.Size() != int64(len(want)) {
				m.fail("%s: size %d, want %d", what, s.Size(), len(want))
			}
			l := s.Range()
			if len(l) != len(want) {
				m.fail("%s: Range returns %d members, want %d", what, len(l), len(want))
			}
			seen := map[string]bool{}
			for _, x := range l {
				k := x.(string)
				if _, ok := want[k]; !ok || seen[k] {
					m.fail("%s: Range returns %q; member %v, seen before %v", what, k, ok, seen[k])
				}
				seen[k] = true
			}
			for i := 0; i < 4; i++ {
				k := keys[m.rng.Intn(len(keys))]
				_, ok := want[k]
				if s.Contains(k) != ok {
					m.fail("%s: Contains(%q) is %v, want %v", what, k, !ok, ok)
				}
			}
			if len(want) > 0 {
				if _, ok := want[s.GetRandom().(string)]; !ok {
					m.fail("%s: GetRandom returned a value that is no member", what)
				}
			}
			m.counts["sets compared"]++
		}
		clone := func(a map[string]int) map[string]int {
			b := map[string]int{}
			for k, v := range a {
				b[k] = v
			}
			return b
		}
		for phase := 0; phase < 8; phase++ {
			add := []int{80, 50, 25, 5}[m.rng.Intn(4)]
			for i := 0; i < n; i++ {
				j := m.rng.Intn(3)
				k := keys[m.rng.Intn(len(keys))]
				_, had := mods[j][k]
				if m.rng.Intn(100) < add {
					m.op("Add %d %s", j, k)
					if sets[j].Add(k) == had {
						m.fail("Add(%q) of a member that was present %v returned %v", k, had, had)
					}
					mods[j][k] = 1
				} else {
					m.op("Delete %d %s", j, k)
					if (sets[j].Delete(k) == nil) != had {
						m.fail("Delete(%q) of a member that was present %v: wrong report", k, had)
					}
					delete(mods[j], k)
				}
				if sets[j].Size() != int64(len(mods[j])) {
					m.fail("Size is %d, want %d", sets[j].Size(), len(mods[j]))
				}
			}
			for q := 0; q < 6; q++ {
				a, b := m.rng.Intn(3), m.rng.Intn(3)
				want := map[string]int{}
				var res *datastruct.Set
				kind := m.rng.Intn(4)
				m.op("algebra %d of %d and %d", kind, a, b)
				switch kind {
				case 0:
					res = sets[a].Union(sets[b])
					want = clone(mods[a])
					for k := range mods[b] {
						want[k] = 1
					}
				case 1:
					res = sets[a].Intersect(sets[b])
					for k := range mods[a] {
						if _, ok := mods[b][k]; ok {
							want[k] = 1
						}
					}
				case 2:
					res = sets[a].Difference(sets[b])
					for k := range mods[a] {
						if _, ok := mods[b][k]; !ok {
							want[k] = 1
						}
					}
				case 3:
					res = sets[a].DeepCopy()
					want = clone(mods[a])
				}
				check(res, want, []string{"union", "intersection", "difference", "copy"}[kind])
				// the result is independent of the operands
				for i := 0; i < 3; i++ {
					k := keys[m.rng.Intn(len(keys))]
					res.Add(k)
					want[k] = 1
					k = keys[m.rng.Intn(len(keys))]
					res.Delete(k)
					delete(want, k)
				}
				if k := keys[m.rng.Intn(len(keys))]; m.rng.Intn(2) == 0 {
					sets[a].Add(k)
					mods[a][k] = 1
				} else {
					sets[a].Delete(k)
					delete(mods[a], k)
				}
				check(res, want, "result after changes")
				check(sets[a], mods[a], "first operand")
				check(sets[b], mods[b], "second operand")
				if m.rng.Intn(4) == 0 {
					sets[a], mods[a] = res, want
				}
			}
		}
		// random members: every member of a small set comes up
		for j := range sets {
			if len(mods[j]) == 0 || len(mods[j]) > 30 {
				continue
			}
			seen := map[string]bool{}
			for i := 0; i < 300000 && len(seen) < len(mods[j]); i++ {
				seen[sets[j].GetRandom().(string)] = true
			}
			if len(seen) != len(mods[j]) {
				m.fail("GetRandom returned %d of %d members in 300000 draws", len(seen), len(mods[j]))
			}
		}
		if t.flat() && t.kind != "neg" { // algebra must leave the operands able to grow
			for i := 0; i < 3000; i++ {
				sets[0].Add("x" + strconv.Itoa(i))
			}
			for i := 0; i < 6000; i++ {
				sets[0].Contains("x" + strconv.Itoa(i%3000))
			}
			t.eq = 0
			for i := 0; i < 2000; i++ {
				sets[0].Contains("x" + strconv.Itoa(m.rng.Intn(3000)))
			}
			if t.eq > 60000 {
				m.fail("2000 lookups in a set of %d members made %d comparisons: the table does not grow any more", sets[0].Size(), t.eq)
			}
			m.counts["tables in which lookups were counted"]++
		}
		m.counts["groups of sets"]++
	}
}

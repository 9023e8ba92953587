package main

import (
	"strconv"
	"time"

	"github.com/IfanTsai/metis/datastruct"
)

// sparse: random picks stay quick in tables that were large once. A pick which probes slots of a
// table of n slots for the few entries left takes about n steps; the bound is far from both.
func (m *mon) sparse(ops int) {
	n := ops
	for round := 0; round < 4; round++ {
		t := &typ{salt: m.rng.Int63()}
		for _, k := range hashKinds {
			if (&typ{kind: k}).flat() && k != "neg" {
				t.kind = k
				break
			}
		}
		d, s := datastruct.NewDict(t), datastruct.NewSet(t)
		left := []int{1, 2, 7, 60}[round]
		keep := map[string]bool{}
		for i := 0; i < n; i++ {
			k := "s" + strconv.Itoa(i)
			d.Set(k, i)
			s.Add(k)
			m.prog.Add(1)
		}
		for len(keep) < left {
			keep["s"+strconv.Itoa(m.rng.Intn(n))] = true
		}
		order := m.rng.Perm(n)
		for _, i := range order {
			if k := "s" + strconv.Itoa(i); !keep[k] {
				if err := d.Delete(k); err != nil {
					m.fail("Delete(%q): %v", k, err)
				}
				if err := s.Delete(k); err != nil {
					m.fail("Set.Delete(%q): %v", k, err)
				}
				m.prog.Add(1)
			}
		}
		if d.Size() != int64(left) || s.Size() != int64(left) {
			m.fail("%d entries are left, Size says %d and %d", left, d.Size(), s.Size())
		}
		m.op("%d entries added and all but %d deleted, hash %s", n, left, t.kind)
		start := time.Now()
		seen := map[string]bool{}
		for i := 0; i < 3000; i++ {
			k := d.GetRandomKey().Key.(string)
			if !keep[k] {
				m.fail("GetRandomKey returned %q, which is not in the table", k)
			}
			seen[k] = true
			if k = s.GetRandom().(string); !keep[k] {
				m.fail("GetRandom returned %q, which is no member", k)
			}
			m.counts["random picks from sparse tables"] += 2
			if el := time.Since(start); el > 15*time.Second {
				m.fail("%d random picks from a table in which %d of %d entries are left took %v", 2*i+2, left, n, el)
			}
			m.prog.Add(1)
		}
		if len(seen) < min3(left, 40) {
			m.fail("3000 random picks from %d entries returned only %d of them", left, len(seen))
		}
		for k := range keep {
			if e := d.Find(k); e == nil || !s.Contains(k) {
				m.fail("Find(%q) after deleting other keys: nothing", k)
			}
		}
		// it serves again as a large table
		for i := 0; i < n/10; i++ {
			d.Set("t"+strconv.Itoa(i), i)
		}
		for i := 0; i < n/10; i++ {
			if e := d.Find("t" + strconv.Itoa(i)); e == nil || e.Value.(int) != i {
				m.fail("Find of an entry added to the emptied table: %v", e)
			}
		}
		if d.Size() != int64(left+n/10) {
			m.fail("Size is %d, want %d", d.Size(), left+n/10)
		}
		m.counts["sparse tables"]++
	}
}

func min3(a, b int) int {
	if a < b {
		return a
	}
	return b
}

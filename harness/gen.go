package main

import (
	"fmt"
	"math"
	"math/rand"
	"regexp"
	"strconv"
	"strings"
)

// Gen produces commands, using the model to aim at interesting places.
type Gen struct {
	rng     *rand.Rand
	m       *Model
	w       map[string]int // weight of each family
	keys    map[string][]string
	members []string
	maxVal  int
	dbs     int
	bulkMax int // largest number of elements pushed at once
	noPop   bool
	now     func() int64
	seq     int
	prefix  string // of every key, if set
}

var hostile = []string{
	"", " ", "\r\n", "\n", "a\r\nb", "$5\r\nhello\r\n", "*2\r\n", "\x00", "\x00\xff\xfe", "\xc3\x28", "nan", "inf", "-1", "0", "00",
	"1e3", "key with spaces", "-ERR x", ":1", "+OK\r\n", strings.Repeat("x", 300), strings.Repeat("\r\n", 40), "WITHSCORES", "(1", "select",
}

func newGen(rng *rand.Rand, m *Model, w map[string]int) *Gen {
	g := &Gen{rng: rng, m: m, w: w, maxVal: 200, dbs: 1, bulkMax: 60, keys: map[string][]string{}}
	for _, t := range []string{"s", "l", "h", "t", "z"} {
		for i := 0; i < 4; i++ {
			g.keys[t] = append(g.keys[t], fmt.Sprintf("%s%d", t, i))
		}
	}
	g.keys["any"] = []string{"", "x\r\ny", "\x00bin\xff"}
	for i := 0; i < 30; i++ {
		g.members = append(g.members, fmt.Sprintf("m%02d", i))
	}
	g.members = append(g.members, hostile...)
	return g
}

func (g *Gen) key(t string) string {
	switch r := g.rng.Intn(100); {
	case r < 5:
		ts := []string{"s", "l", "h", "t", "z"}
		t = ts[g.rng.Intn(5)]
	case r < 8:
		t = "any"
	case r < 10:
		return fmt.Sprintf("%smissing%d", g.prefix, g.rng.Intn(5))
	}
	l := g.keys[t]
	return l[g.rng.Intn(len(l))]
}

// own gives every key a prefix, so that several generators share a database without sharing a key.
func (g *Gen) own(prefix string) {
	g.prefix = prefix
	for t, l := range g.keys {
		for i := range l {
			g.keys[t][i] = prefix + l[i]
		}
	}
}

// all returns the command which lists every key of the generator.
func (g *Gen) all() []string {
	if g.prefix == "" {
		return []string{"keys", "*"}
	}
	return []string{"keys", "^" + regexp.QuoteMeta(g.prefix)}
}

func (g *Gen) anyKey() string {
	ts := []string{"s", "l", "h", "t", "z", "any"}
	l := g.keys[ts[g.rng.Intn(6)]]
	return l[g.rng.Intn(len(l))]
}

func (g *Gen) bytes(n int) string {
	b := make([]byte, n)
	switch g.rng.Intn(3) {
	case 0:
		for i := range b {
			b[i] = byte(g.rng.Intn(256))
		}
	case 1:
		for i := range b {
			b[i] = "\r\n$*:+-0123456789"[g.rng.Intn(17)]
		}
	default:
		for i := range b {
			b[i] = byte('a' + g.rng.Intn(26))
		}
	}
	return string(b)
}

func (g *Gen) val() string {
	switch r := g.rng.Intn(10); {
	case r < 2:
		return hostile[g.rng.Intn(len(hostile))]
	case r < 5:
		g.seq++
		return fmt.Sprintf("v%d", g.seq)
	default:
		n := g.rng.Intn(g.maxVal + 1)
		if g.rng.Intn(3) != 0 {
			n = g.rng.Intn(20)
		}
		return g.bytes(n)
	}
}

func (g *Gen) member() string {
	if g.rng.Intn(12) == 0 {
		return g.val()
	}
	return g.members[g.rng.Intn(len(g.members))]
}

// several returns a random number of values, sometimes many.
func (g *Gen) several(f func() string) []string {
	n := 1 + g.rng.Intn(3)
	if r := g.rng.Intn(20); r == 0 {
		n = 1 + g.rng.Intn(g.bulkMax)
	}
	out := make([]string, n)
	for i := range out {
		out[i] = f()
	}
	return out
}

func (g *Gen) score() string {
	switch g.rng.Intn(10) {
	case 0:
		return []string{"inf", "-inf", "+inf", "Inf"}[g.rng.Intn(4)]
	case 1:
		return []string{"1e300", "-1e300", "1e-300", "0.1", "0.30000000000000004", "9007199254740993", "1.7976931348623157e308", "5e-324", "123456789.987654321"}[g.rng.Intn(9)]
	case 2:
		return strconv.FormatFloat(g.rng.NormFloat64()*1e3, 'g', -1, 64)
	}
	return strconv.Itoa(g.rng.Intn(12) - 4)
}

func (g *Gen) bound() string {
	if g.rng.Intn(6) == 0 {
		return []string{"-inf", "inf", "+inf"}[g.rng.Intn(3)]
	}
	return g.score()
}

func (g *Gen) find(sess *Sess, key string) *Val { return g.m.DBs[sess.DB][key] }

func (g *Gen) index(n int) int {
	switch g.rng.Intn(6) {
	case 0:
		return 0
	case 1:
		return n
	case 2:
		if n > 0 {
			return n - 1
		}
		return 1
	case 3:
		return n + g.rng.Intn(5)
	case 4: // around page borders and the middle
		if g.rng.Intn(12) == 0 {
			return []int{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt32, math.MaxInt32 + 1, math.MaxUint32, math.MaxUint32 + 1, 1 << 62, 1 << 40}[g.rng.Intn(8)]
		}
		c := []int{n / 2, 511, 512, 513, 1023, 1024, 1025, 2047, 2048}[g.rng.Intn(9)]
		return c + g.rng.Intn(3) - 1 + 1
	}
	if n == 0 {
		return 0
	}
	return g.rng.Intn(n)
}

func (g *Gen) family() string {
	total := 0
	for _, f := range families {
		total += g.w[f]
	}
	r := g.rng.Intn(total)
	for _, f := range families {
		if r < g.w[f] {
			return f
		}
		r -= g.w[f]
	}
	return "string"
}

var families = []string{"string", "list", "hash", "set", "zset", "keyspace", "expire", "select", "error", "ping", "biglist", "bighash", "bigset", "bigzset", "drain", "huge", "around"}

// Next returns one command (or several to be run in a row).
func (g *Gen) Next(sess *Sess) [][]string {
	cmds := g.next(sess)
	if g.rng.Intn(5) == 0 { // names are written in any case
		for i, c := range cmds {
			c = append([]string(nil), c...)
			if g.rng.Intn(2) == 0 {
				c[0] = strings.ToUpper(c[0])
			} else {
				b := []byte(c[0])
				for j := range b {
					if g.rng.Intn(2) == 0 && b[j] >= 'a' && b[j] <= 'z' {
						b[j] -= 32
					}
				}
				c[0] = string(b)
			}
			cmds[i] = c
		}
	}
	return cmds
}

func (g *Gen) next(sess *Sess) [][]string {
	one := func(a ...string) [][]string { return [][]string{a} }
	with := func(name, key string, rest []string) [][]string {
		return [][]string{append([]string{name, key}, rest...)}
	}
	rng := g.rng
	switch g.family() {
	case "string":
		k := g.key("s")
		switch rng.Intn(5) {
		case 0, 1:
			return one("set", k, g.val())
		case 2:
			return one("GET", k)
		case 3:
			return one("get", g.key("s"))
		}
		return one("set", k, g.val())
	case "list":
		k := g.key("l")
		v := g.find(sess, k)
		n := 0
		if v != nil {
			n = len(v.List)
		}
		switch rng.Intn(9) {
		case 0, 1:
			return with("lpush", k, g.several(g.val))
		case 2, 3:
			return with("rpush", k, g.several(g.val))
		case 4:
			return one("lpop", k)
		case 5:
			return one("rpop", k)
		case 6:
			return one("llen", k)
		case 7:
			return one("lindex", k, strconv.Itoa(g.index(n)))
		}
		return one("lrange", k, strconv.Itoa(g.rangeStart(n)), strconv.Itoa(g.rangeStop(n)))
	case "biglist":
		k := g.key("l")
		v := g.find(sess, k)
		n := 0
		if v != nil {
			n = len(v.List)
		}
		if n < 4000 && rng.Intn(3) > 0 {
			cnt := 1 + rng.Intn(700)
			args := make([]string, cnt)
			for i := range args {
				g.seq++
				args[i] = "e" + strconv.Itoa(g.seq)
			}
			name := []string{"lpush", "rpush"}[rng.Intn(2)]
			return with(name, k, args)
		}
		switch rng.Intn(3) {
		case 0:
			name := []string{"lpop", "rpop"}[rng.Intn(2)]
			cnt := 1 + rng.Intn(600)
			var out [][]string
			for i := 0; i < cnt; i++ {
				if rng.Intn(20) == 0 {
					name = []string{"lpop", "rpop"}[rng.Intn(2)]
				}
				out = append(out, []string{name, k})
			}
			return out
		case 1:
			var out [][]string
			for i := 0; i < 20; i++ {
				out = append(out, []string{"lindex", k, strconv.Itoa(g.index(n))})
			}
			return out
		}
		return [][]string{{"lrange", k, "0", "-1"}, {"lrange", k, strconv.Itoa(g.index(n)), strconv.Itoa(g.index(n))}, {"llen", k}}
	case "hash":
		k := g.key("h")
		switch rng.Intn(8) {
		case 0, 1, 2:
			var args []string
			for range g.someMembers() {
				args = append(args, g.member(), g.val())
			}
			return with("hset", k, args)
		case 3:
			return one("hget", k, g.member())
		case 4:
			return with("hdel", k, g.someMembers())
		case 5:
			return one("hexists", k, g.member())
		case 6:
			return one("hkeys", k)
		}
		return one("hlen", k)
	case "set":
		k := g.key("t")
		switch rng.Intn(10) {
		case 0, 1:
			return with("sadd", k, g.someMembers())
		case 2:
			return with("srem", k, g.someMembers())
		case 3:
			if g.noPop {
				return one("scard", k)
			}
			return one("spop", k)
		case 4:
			return one("scard", k)
		case 5:
			return one("sismember", k, g.member())
		case 6:
			return one("smembers", k)
		}
		name := []string{"sunion", "sinter", "sdiff"}[rng.Intn(3)]
		args := []string{name, k, g.key("t")}
		for rng.Intn(2) == 0 && len(args) < 6 {
			args = append(args, g.key("t"))
		}
		if rng.Intn(30) == 0 {
			args = append(args, g.repeated(func() string { return g.key("t") })...)
		}
		return [][]string{args}
	case "zset":
		k := g.key("z")
		n := 0
		if v := g.find(sess, k); v != nil {
			n = len(v.Z)
		}
		ws := func(a ...string) [][]string {
			if rng.Intn(2) == 0 {
				a = append(a, []string{"withscores", "WITHSCORES"}[rng.Intn(2)])
			}
			return [][]string{a}
		}
		switch rng.Intn(12) {
		case 0, 1, 2:
			var args []string
			for range g.someMembers() {
				args = append(args, g.score(), g.member())
			}
			return with("zadd", k, args)
		case 3:
			return with("zrem", k, g.someMembers())
		case 4:
			return one("zscore", k, g.member())
		case 5:
			return one("zcard", k)
		case 6:
			return one("zcount", k, g.bound(), g.bound())
		case 7:
			return ws("zrange", k, strconv.Itoa(g.index(n)), strconv.Itoa(g.zstop(n)))
		case 8:
			return ws("zrangebyscore", k, g.bound(), g.bound())
		case 9:
			a := g.index(n)
			return one("zremrangebyrank", k, strconv.Itoa(a), strconv.Itoa(max(a, a+rng.Intn(4))))
		case 10:
			a := rng.Intn(12) - 4
			return one("zremrangebyscore", k, strconv.Itoa(a), strconv.Itoa(a+rng.Intn(3)))
		}
		return ws("zrange", k, "0", "9223372036854775807")
	case "bighash", "bigset", "bigzset":
		t := map[string]string{"h": "hset", "t": "sadd", "z": "zadd"}
		ty := []string{"h", "t", "z"}[rng.Intn(3)]
		if g.w["bighash"] == 0 && g.w["bigset"] == 0 {
			ty = "z"
		} else if g.w["bigset"] == 0 && g.w["bigzset"] == 0 {
			ty = "h"
		} else if g.w["bighash"] == 0 && g.w["bigzset"] == 0 {
			ty = "t"
		}
		k := g.keys[ty][rng.Intn(2)]
		cnt := 1 + rng.Intn(300)
		var args []string
		for i := 0; i < cnt; i++ {
			x := fmt.Sprintf("f%d", rng.Intn(1500))
			switch ty {
			case "h":
				args = append(args, x, strconv.Itoa(rng.Intn(100)))
			case "t":
				args = append(args, x)
			case "z":
				args = append(args, strconv.Itoa(rng.Intn(60)), x)
			}
		}
		return with(t[ty], k, args)
	case "drain":
		return g.drain(sess)
	case "huge":
		return g.huge()
	case "around":
		return g.around()
	case "keyspace":
		switch rng.Intn(8) {
		case 0:
			return one("keys", "*")
		case 6:
			return g.patterns()
		case 1:
			return one("randomget")
		case 2:
			return one("ttl", g.anyKey())
		case 3:
			if rng.Intn(4) == 0 { // some of them more than once
				return [][]string{append([]string{"del"}, g.repeated(g.anyKey)...)}
			}
			return one("del", g.anyKey(), g.anyKey())
		case 4:
			return one("get", g.anyKey())
		}
		return one("set", g.anyKey(), g.val())
	case "expire":
		return g.expire()
	case "select":
		r := rng.Intn(12)
		if r == 0 {
			return one("select", []string{"-1", strconv.Itoa(len(g.m.DBs)), "abc", "", "99999999999999999999", "1.5", "-9223372036854775808"}[rng.Intn(7)])
		}
		return one("select", strconv.Itoa(rng.Intn(g.dbs)))
	case "error":
		return [][]string{g.bad()}
	}
	return one("ping")
}

// drain removes many or all elements of a collection.
func (g *Gen) drain(sess *Sess) [][]string {
	var keys []string
	for k, v := range g.m.DBs[sess.DB] {
		if v.K != KStr {
			keys = append(keys, k)
		}
	}
	if len(keys) == 0 {
		return [][]string{g.all()}
	}
	// map order must not decide
	k := ""
	for _, x := range keys {
		if k == "" || x < k {
			k = x
		}
	}
	if g.rng.Intn(2) == 0 {
		for _, x := range keys {
			if x > k {
				k = x
			}
		}
	}
	v := g.m.DBs[sess.DB][k]
	var out [][]string
	left := g.rng.Intn(3)
	switch v.K {
	case KList:
		for i := 0; i < len(v.List)-left; i++ {
			out = append(out, []string{[]string{"lpop", "rpop"}[g.rng.Intn(2)], k})
		}
		out = append(out, []string{"llen", k})
	case KHash:
		l := []string{}
		for f := range v.Hash {
			l = append(l, f)
		}
		l = sortShuffle(g.rng, l)
		for i := 0; i < len(l)-left; i++ {
			out = append(out, []string{"hdel", k, l[i]})
		}
		out = append(out, []string{"hlen", k})
	case KSet:
		for i := 0; i < len(v.Set)-left; i++ {
			if g.noPop {
				out = append(out, []string{"srem", k, setKeys(v.Set)[i]})
			} else {
				out = append(out, []string{"spop", k})
			}
		}
		out = append(out, []string{"scard", k})
	case KZset:
		switch g.rng.Intn(3) {
		case 0:
			out = append(out, []string{"zremrangebyrank", k, strconv.Itoa(left), strconv.Itoa(len(v.Z) + 5)})
		case 1:
			out = append(out, []string{"zremrangebyscore", k, "-inf", "inf"})
		default:
			args := []string{"zrem", k}
			for _, p := range v.sorted() {
				args = append(args, p.m)
			}
			out = append(out, args)
		}
		out = append(out, []string{"zcard", k})
	}
	return append(out, g.all())
}

func sortShuffle(rng *rand.Rand, l []string) []string {
	m := map[string]bool{}
	for _, x := range l {
		m[x] = true
	}
	l = setKeys(m)
	rng.Shuffle(len(l), func(i, j int) { l[i], l[j] = l[j], l[i] })
	return l
}

func (g *Gen) rangeStart(n int) int {
	if n > 0 && g.rng.Intn(3) == 0 {
		return -1 - g.rng.Intn(n)
	}
	return g.index(n)
}

func (g *Gen) rangeStop(n int) int {
	switch g.rng.Intn(24) {
	case 0, 1, 2, 3, 4, 5:
		return -1 - g.rng.Intn(n+3)
	case 6, 7, 8, 9, 10:
		return n + g.rng.Intn(1000)
	case 11: // further than any list reaches
		return []int{math.MaxInt64, math.MaxInt64 - 1, math.MinInt64, math.MinInt64 + 1, math.MaxInt32, math.MaxInt32 + 1, math.MinInt32, math.MaxUint32, math.MaxUint32 + 1, 1 << 62, 1 << 40, -1 << 40, -1 << 62}[g.rng.Intn(13)]
	}
	return g.index(n)
}

func (g *Gen) zstop(n int) int {
	if g.rng.Intn(4) == 0 {
		if g.rng.Intn(8) == 0 {
			return []int{math.MaxInt64, math.MaxInt64 - 1, math.MaxInt32, math.MaxUint32, 1 << 62}[g.rng.Intn(5)]
		}
		return n + g.rng.Intn(100)
	}
	return g.index(n)
}

func (g *Gen) expire() [][]string {
	rng := g.rng
	now := int64(0)
	if g.now != nil {
		now = g.now()
	}
	ttl := []string{"1", "2", "3", "10", "100", "1000", "-1", "-100", "9000000000000000", "0", "-1700000000", "-3000000000", "-9000000000000000"}[rng.Intn(13)]
	k := g.anyKey()
	switch rng.Intn(11) {
	case 0, 1:
		return [][]string{{"expire", k, ttl}}
	case 9: // a deadline is set, and goes with a new value or with the key
		var out [][]string
		v := g.val()
		for n := 1 + rng.Intn(4); n > 0; n-- {
			out = append(out, [][]string{{"set", k, v}, {"set", k, v}, {"expire", k, "50000"}, {"setex", k, "60000", v}, {"ttl", k}, {"get", k}, {"del", k, g.anyKey(), k}}[rng.Intn(7)])
		}
		return append(out, []string{"ttl", k}, []string{"get", k})
	case 10:
		switch rng.Intn(4) {
		case 0: // points in time long past, at and before the beginning of time
			return [][]string{{"expireat", k, []string{"0", "-1", "1", "-5", "-1700000000", "-9000000000000000", "1000000000", "2147483647"}[rng.Intn(8)]}, {"ttl", k}}
		case 1:
			return [][]string{{"set", k, g.val(), []string{"EXAT", "exat", "Exat"}[rng.Intn(3)], strconv.FormatInt(now/1000+int64(rng.Intn(12))-1, 10)}, {"ttl", k}}
		}
		return [][]string{{"expireat", k, strconv.FormatInt(now/1000+int64(rng.Intn(1000000)), 10)}, {"ttl", k}}
	case 2, 3:
		return [][]string{{"expireat", k, strconv.FormatInt(now/1000+int64(rng.Intn(12))-1, 10)}}
	case 4:
		if rng.Intn(3) == 0 { // far ahead, at and around what fits smaller integers
			far := []int64{math.MaxInt32, math.MaxUint32, 1 << 33, 1 << 40, 253402300799, 253402300800, 1 << 50, 9_000_000_000_000_000, math.MaxInt32 * 1000, math.MaxUint32 * 1000}[rng.Intn(10)] + int64(rng.Intn(3)) - 1
			cmd := [][]string{{"expireat", k, strconv.FormatInt(far, 10)}, {"ttl", k}}
			if rng.Intn(2) == 0 && far < 1<<53 {
				cmd[0] = []string{"expire", k, strconv.FormatInt(far, 10)}
			}
			return cmd
		}
		pos := []string{"1", "2", "5", "100", "4294967296", "9000000000000"}[rng.Intn(6)]
		return [][]string{{"setex", g.anyKey(), pos, g.val()}}
	case 5, 6, 7:
		return [][]string{{"ttl", k}}
	}
	bad := []string{"9223372036854775807", "-9223372036854775808", "9223372036854775808", "abc", "", "1.5", "20000000000000000", "10000000000000000"}[rng.Intn(8)]
	return [][]string{{[]string{"expire", "expireat"}[rng.Intn(2)], k, bad}}
}

// around returns one read of a key again and again, with everything that may change its answer between.
func (g *Gen) around() [][]string {
	rng := g.rng
	ty := []string{"s", "l", "h", "t", "z"}[rng.Intn(5)]
	for g.w[map[string]string{"s": "string", "l": "list", "h": "hash", "t": "set", "z": "zset"}[ty]] == 0 {
		ty = []string{"s", "l", "h", "t", "z"}[rng.Intn(5)]
	}
	l := g.keys[ty]
	k, k2, x := l[rng.Intn(len(l))], l[rng.Intn(len(l))], g.members[rng.Intn(len(g.members))]
	var read, writes [][]string
	switch ty {
	case "s":
		read = [][]string{{"get", k}, {"get", k}, {"get", k}}
		writes = [][]string{{"set", k, g.val()}, {"set", k, ""}, {"set", k2, g.val()}}
	case "l":
		read = [][]string{{"llen", k}, {"lindex", k, "0"}, {"lindex", k, "1"}, {"lrange", k, "0", "-1"}, {"lrange", k, "-1", "-1"}, {"lrange", k, "0", "2"}}
		writes = [][]string{{"lpush", k, g.val()}, {"rpush", k, g.val()}, {"lpop", k}, {"rpop", k}, {"rpush", k, g.val(), g.val()}, {"rpush", k2, g.val()}}
	case "h":
		read = [][]string{{"hget", k, x}, {"hexists", k, x}, {"hlen", k}, {"hkeys", k}}
		writes = [][]string{{"hset", k, x, g.val()}, {"hset", k, x, ""}, {"hset", k, g.member(), g.val()}, {"hdel", k, x}, {"hdel", k, g.member()}, {"hset", k2, x, g.val()}}
	case "t":
		read = [][]string{{"scard", k}, {"smembers", k}, {"sismember", k, x}, {"sunion", k, k2}, {"sinter", k, k2}, {"sdiff", k, k2}, {"sdiff", k2, k}}
		writes = [][]string{{"sadd", k, x}, {"sadd", k2, x}, {"srem", k, x}, {"srem", k2, x}, {"sadd", k, g.member(), g.member()}, {"scard", k}}
		if !g.noPop {
			writes = append(writes, []string{"spop", k})
		}
	case "z":
		b1, b2 := g.bound(), g.bound()
		read = [][]string{{"zscore", k, x}, {"zcard", k}, {"zcount", k, b1, b2}, {"zrange", k, "0", "10", "withscores"}, {"zrange", k, "1", "2"}, {"zrangebyscore", k, b1, b2}, {"zrangebyscore", k, "-inf", "inf", "WITHSCORES"}}
		writes = [][]string{{"zadd", k, g.score(), x}, {"zadd", k, g.score(), x}, {"zadd", k, g.score(), g.member(), g.score(), g.member()}, {"zrem", k, x}, {"zremrangebyrank", k, "0", "0"},
			{"zremrangebyscore", k, "1", "3"}, {"zadd", k2, g.score(), x}}
	}
	read = append(read, []string{"ttl", k}, []string{"keys", "^" + regexp.QuoteMeta(k) + "$"})
	writes = append(writes, []string{"del", k}, []string{"set", k, g.val()}, []string{"setex", k, "100000", g.val()}, []string{"expire", k, "200000"}, []string{"expire", k, "-1"},
		[]string{"del", k2, k, k}, []string{"expireat", k, "1000"}, []string{"expireat", k, "9000000000"})
	rd := read[rng.Intn(len(read))]
	out := [][]string{rd}
	for n := 1 + rng.Intn(5); n > 0; n-- {
		if g.dbs > 1 && rng.Intn(4) == 0 {
			out = append(out, []string{"select", strconv.Itoa(rng.Intn(g.dbs))}, rd)
		}
		out = append(out, writes[rng.Intn(len(writes))], rd)
	}
	return out
}

// huge returns one command with very many arguments, around the sizes at which something might cut it.
func (g *Gen) huge() [][]string {
	rng := g.rng
	n := []int{255, 256, 511, 512, 513, 1022, 1023, 1024, 1025, 1026, 2047, 2048, 2049, 3000, 4096, 5000}[rng.Intn(16)] + rng.Intn(2)
	k := g.prefix + "hug" + strconv.Itoa(rng.Intn(2))
	name := []string{"rpush", "lpush", "sadd", "hset", "zadd", "srem", "hdel", "zrem", "del"}[rng.Intn(9)]
	ty := map[string]string{"rpush": "l", "lpush": "l", "sadd": "t", "srem": "t", "hset": "h", "hdel": "h", "zadd": "z", "zrem": "z", "del": "d"}[name]
	if ty != "d" {
		k += ty
	}
	args := []string{name, k}
	for i := 0; i < n; i++ {
		x := "e" + strconv.Itoa(rng.Intn(3*n/2))
		switch name {
		case "hset":
			args = append(args, x, strconv.Itoa(rng.Intn(100)))
		case "zadd":
			args = append(args, strconv.Itoa(rng.Intn(60)), x)
		case "del":
			args = append(args, g.prefix+"missing"+x)
		default:
			args = append(args, x)
		}
	}
	if name == "del" { // what exists is at the end, far behind
		for _, t := range "lthz" {
			args = append(args, k+string(t))
		}
	}
	return [][]string{args}
}

var patterns = []string{"^s", "^l[0-3]$", "s1", "[a-h]", ".", "", "^$", "0$", "^(s|t)[12]$", "z.", "k1.*", "^k3[0-9]+$", "nothing matches", "(?i)^S", "s0|l0", "\\r\\n", "\\x00", "^missing", "x{1,3}", "[^a-z]", "^[lhtz]\\d$", ".*", "^.*$", "^\\*$"}
var noPatterns = []string{"[", "(", "*a", "+", "a{2,1}", "\\", "a**", "?", "(?<", "[z-a]", "**", "x{1001}", "\xff", "[[:nope:]]"}

// patterns returns KEYS commands; the same patterns come back often, also right after ones that are none.
func (g *Gen) patterns() [][]string {
	var out [][]string
	for n := 1 + g.rng.Intn(3); n > 0; n-- {
		switch g.rng.Intn(11) {
		case 8, 9, 10: // a part of a key that is there
			out = append(out, []string{"keys", g.partOfKey()})
		case 0, 1:
			out = append(out, []string{"keys", noPatterns[g.rng.Intn(len(noPatterns))]})
		case 2:
			out = append(out, []string{"keys", "^" + regexp.QuoteMeta(g.anyKey()) + "$"})
		default:
			out = append(out, []string{"keys", patterns[g.rng.Intn(len(patterns))]})
		}
		if g.rng.Intn(3) == 0 {
			out = append(out, out[len(out)-1])
		}
		if g.rng.Intn(6) == 0 {
			out = append(out, []string{"keys", "*"})
		}
	}
	return out
}

// repeated returns a list which is mostly long, and in which some come again early, late or next to themselves.
func (g *Gen) repeated(f func() string) []string {
	n := []int{2, 3, 5, 8, 16, 17, 32, 33, 34, 64, 65, 100, 128, 129, 200}[g.rng.Intn(15)] + g.rng.Intn(2)
	out := make([]string, 0, n)
	for i := 0; i < n; i++ {
		switch {
		case i > 0 && g.rng.Intn(8) == 0:
			out = append(out, out[g.rng.Intn(i)])
		case i > 0 && g.rng.Intn(12) == 0:
			out = append(out, out[i-1])
		default:
			out = append(out, f())
		}
	}
	return out
}

// someMembers returns several members, now and then very many.
func (g *Gen) someMembers() []string {
	if g.rng.Intn(40) == 0 {
		return g.repeated(g.member)
	}
	return g.several(g.member)
}

// partOfKey returns a pattern made of a part of a key, by itself or bound to the beginning or the end.
func (g *Gen) partOfKey() string {
	k := g.anyKey()
	if db := g.m.DBs[g.rng.Intn(g.dbs)]; len(db) > 0 && len(db) < 1000 && g.rng.Intn(2) == 0 {
		l := sortedKeys(db)
		k = l[g.rng.Intn(len(l))]
	}
	if k == "" {
		return "^$"
	}
	a := g.rng.Intn(len(k))
	b := a + 1 + g.rng.Intn(len(k)-a)
	switch g.rng.Intn(8) {
	case 0:
		return "^" + regexp.QuoteMeta(k[:b])
	case 1:
		return regexp.QuoteMeta(k[a:]) + "$"
	case 2:
		return regexp.QuoteMeta(k[a:b]) + ".*" + regexp.QuoteMeta(k[b:])
	case 3:
		return ".*" + regexp.QuoteMeta(k[a:b]) + ".*"
	case 4:
		return "(?i)" + strings.ToUpper(regexp.QuoteMeta(k[a:b]))
	case 5:
		return "[" + regexp.QuoteMeta(k[a:b]) + "]+$"
	}
	return regexp.QuoteMeta(k[a:b])
}

// badNumber returns a command that is right but for one of its numbers or options.
func (g *Gen) badNumber() []string {
	b := []string{"abc", "", "1.5", "9223372036854775808", "-9223372036854775809", "1e3", " 1", "1 ", "0x1", "1_0", "--1", "-", "99999999999999999999"}[g.rng.Intn(13)]
	f := []string{"abc", "", "1.5x", "nan", "NaN", "-nan", "0x", "1 ", " 1", "1\r\n", "(1", "--1", "1..2", "1,5"}[g.rng.Intn(14)]
	low, high := []string{"0", "-1", "1", "-inf"}[g.rng.Intn(3)], []string{"0", "-1", "5", "100"}[g.rng.Intn(4)]
	l := [][]string{
		{"lindex", g.key("l"), b},
		{"lrange", g.key("l"), b, high}, {"lrange", g.key("l"), low, b},
		{"zrange", g.key("z"), b, high}, {"zrange", g.key("z"), low, b}, {"zrange", g.key("z"), "0", "-1", []string{"", "scores", "withscore", "0"}[g.rng.Intn(4)]},
		{"zremrangebyrank", g.key("z"), b, high}, {"zremrangebyrank", g.key("z"), low, b},
		{"zrangebyscore", g.key("z"), f, high}, {"zrangebyscore", g.key("z"), "-inf", f}, {"zrangebyscore", g.key("z"), "-inf", "inf", []string{"", "scores", "limit"}[g.rng.Intn(3)]},
		{"zcount", g.key("z"), f, high}, {"zcount", g.key("z"), "-inf", f},
		{"zremrangebyscore", g.key("z"), f, high}, {"zremrangebyscore", g.key("z"), "-inf", f},
		{"expire", g.anyKey(), b}, {"expireat", g.anyKey(), b}, {"setex", g.anyKey(), b, "v"},
		{"select", b},
		{"zadd", g.key("z"), f, g.member()}, {"zadd", g.key("z"), "1", g.member(), f, g.member()},
	}
	return l[g.rng.Intn(len(l))]
}

// bad returns a command which must be refused (or at least change nothing).
func (g *Gen) bad() []string {
	rng := g.rng
	switch rng.Intn(12) {
	case 9, 10:
		return g.badNumber()
	case 8: // a deadline that is none
		return []string{"set", g.anyKey(), g.val(), "EXAT", []string{"abc", "", "9223372036854775808", "1e3", "-9223372036854775808", "9223372036854775807", "1.5", "12 ", "99999999999999999999"}[rng.Intn(9)]}
	case 0: // unknown
		if rng.Intn(2) == 0 { // nearly a command, with as many arguments
			name := commandNames[rng.Intn(len(commandNames))]
			n := max(arity[name], -arity[name]) - 1
			switch rng.Intn(8) {
			case 0:
				name += []string{" ", "\r", "\n", "\x00", "\t", "s", "\xff"}[rng.Intn(7)]
			case 1:
				name = []string{" ", "\n", "\x00", "$", "*"}[rng.Intn(5)] + name
			case 2:
				name = name[:len(name)-1]
			case 3:
				name = name[1:]
			case 4:
				name += name
			case 5:
				name = "\"" + name + "\""
			case 6, 7:
				k := rng.Intn(len(name))
				name = name[:k] + string(rune('a'+rng.Intn(26))) + name[k:]
			}
			if _, ok := arity[name]; !ok {
				args := []string{name}
				for ; n > 0; n-- {
					args = append(args, []string{g.anyKey(), "1"}[rng.Intn(2)])
				}
				return args
			}
		}
		return []string{[]string{"foo", "", "gett", "se", "flushall\r\n", "\x00", "set\x00", "DEBUG", "lpushx"}[rng.Intn(9)], "a", "b"}
	case 1, 2: // wrong arity
		name := commandNames[rng.Intn(len(commandNames))]
		ar := arity[name]
		args := []string{name}
		n := 0
		if ar < 0 {
			n = rng.Intn(-ar - 1)
		} else {
			for n = rng.Intn(6); n == ar-1; n = rng.Intn(6) {
			}
		}
		if name == "bgrewriteaof" || name == "auth" {
			return []string{"get"}
		}
		for i := 0; i < n; i++ {
			args = append(args, g.anyKey())
		}
		return args
	case 3: // wrong type, write
		k := g.key("s")
		switch rng.Intn(7) {
		case 0:
			return []string{"lpush", k, "a"}
		case 1:
			return []string{"rpush", k, "a", "b"}
		case 2:
			return []string{"hset", g.key("l"), "a", "b"}
		case 3:
			return []string{"sadd", g.key("z"), "a", "b"}
		case 4:
			return []string{"zadd", g.key("t"), "1", "b"}
		case 5:
			return []string{"spop", g.key("h")}
		}
		return []string{"zremrangebyrank", g.key("s"), "0", "5"}
	case 4: // unparsable numbers
		b := []string{"abc", "", "1.5x", "nan", "NaN", "-nan", "0x", "1 ", " 1", "1\r\n"}[rng.Intn(10)]
		switch rng.Intn(5) {
		case 0:
			return []string{"zadd", g.key("z"), "1", "zz1", b, "zz2"}
		case 1:
			return []string{"zadd", g.key("z"), "1", "zz1", "2", "zz2", "3", "zz3", b, "zz4"}
		case 2:
			return []string{"zadd", g.key("z"), b, "zz1"}
		case 3:
			return []string{"zremrangebyscore", g.key("z"), b, "5"}
		}
		return []string{"zremrangebyscore", g.key("z"), "0", b}
	case 5:
		return []string{"hset", g.key("h"), "f1", "v1", "f2"}
	case 6:
		return []string{"zadd", g.key("z"), "1", "a", "2"}
	case 7:
		b := []string{"abc", "", "9223372036854775808", "1e3"}[rng.Intn(4)]
		switch rng.Intn(4) {
		case 0:
			return []string{"setex", g.anyKey(), b, "v"}
		case 1:
			return []string{"expire", g.anyKey(), b}
		case 2:
			return []string{"expireat", g.anyKey(), b}
		}
		return []string{"zremrangebyrank", g.key("z"), "0", b}
	}
	return []string{"setex", g.anyKey(), strconv.FormatInt(math.MaxInt64-int64(rng.Intn(1000)), 10), "v"}
}

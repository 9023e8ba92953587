package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// The reference model: a sequential store with the documented meaning of every command.

type Kind byte

const (
	KStr Kind = iota
	KList
	KHash
	KSet
	KZset
)

type Val struct {
	K    Kind
	Str  string
	List []string
	Hash map[string]string
	Set  map[string]bool
	Z    map[string]float64
	// the deadline in ms lies in [DLo, DHi]; DHi 0: none
	DLo, DHi int64
}

type DB map[string]*Val

type Model struct {
	DBs  []DB
	Pass string
	// how much earlier a deadline may look because the reply was made later than the model's clock was read
	Slack int64
	timed bool  // a deadline was ever given
	next  int64 // no deadline ends before this time
}

const realSlack = 30000

// Sess is the state of one connection.
type Sess struct {
	DB     int
	Authed bool
}

func NewModel(n int) *Model {
	m := &Model{}
	for i := 0; i < n; i++ {
		m.DBs = append(m.DBs, DB{})
	}
	return m
}

func (v *Val) clone() *Val {
	n := *v
	n.List = append([]string(nil), v.List...)
	if v.Hash != nil {
		n.Hash = map[string]string{}
		for k, x := range v.Hash {
			n.Hash[k] = x
		}
	}
	if v.Set != nil {
		n.Set = map[string]bool{}
		for k := range v.Set {
			n.Set[k] = true
		}
	}
	if v.Z != nil {
		n.Z = map[string]float64{}
		for k, x := range v.Z {
			n.Z[k] = x
		}
	}
	return &n
}

func (m *Model) clone() *Model {
	n := &Model{Pass: m.Pass, Slack: m.Slack, timed: m.timed, next: m.next}
	for _, db := range m.DBs {
		d := DB{}
		for k, v := range db {
			d[k] = v.clone()
		}
		n.DBs = append(n.DBs, d)
	}
	return n
}

// restarted turns exact deadlines into what a restart may make of them: never later, less than one second earlier.
func (m *Model) restarted() {
	for _, db := range m.DBs {
		for _, v := range db {
			if v.DHi != 0 && v.DLo == v.DHi && v.DHi%1000 != 0 {
				v.DLo = v.DHi - 999
			}
		}
	}
}

func (m *Model) deadline(d int64) {
	if !m.timed {
		m.timed, m.next = true, d
	}
	m.next = min(m.next, d)
}

func (m *Model) purge(now int64) {
	if !m.timed || now <= m.next {
		return
	}
	m.next = math.MaxInt64
	for _, db := range m.DBs {
		for k, v := range db {
			if v.DHi != 0 && now > v.DHi {
				delete(db, k)
			} else if v.DHi != 0 {
				m.next = min(m.next, v.DHi)
			}
		}
	}
}

// ambiguous reports whether the time falls into an uncertain deadline.
func (m *Model) ambiguous(now int64) bool {
	if !m.timed {
		return false
	}
	for _, db := range m.DBs {
		for _, v := range db {
			if v.DHi != 0 && now >= v.DLo && now <= v.DHi {
				return true
			}
		}
	}
	return false
}

func (m *Model) Keys() int {
	n := 0
	for _, db := range m.DBs {
		n += len(db)
	}
	return n
}

// Want is what the model allows as a reply.
type Want struct {
	Kind string // ok simple int bulk nil err list set score ttl member nonerr any alt pairs zlist
	I, J int64
	S    string
	L    []string
	F    float64
	Alt  []Want
}

func (w Want) String() string {
	switch w.Kind {
	case "int":
		return fmt.Sprintf(":%d", w.I)
	case "bulk", "simple":
		return strconv.Quote(clip(w.S))
	case "list", "set", "member", "zlist":
		s := fmt.Sprintf("%q", w.L)
		return w.Kind + " " + clip(s)
	case "err":
		if w.S != "" {
			return "an error that says " + w.S
		}
	case "score":
		return fmt.Sprintf("score %v", w.F)
	case "ttl":
		return fmt.Sprintf("ttl within one second of %d..%d ms", w.I, w.J)
	case "alt":
		var p []string
		for _, a := range w.Alt {
			p = append(p, a.String())
		}
		return strings.Join(p, " or ")
	}
	return w.Kind
}

func wInt(n int) Want     { return Want{Kind: "int", I: int64(n)} }
func wBulk(s string) Want { return Want{Kind: "bulk", S: s} }

var (
	wOK     = Want{Kind: "ok"}
	wNil    = Want{Kind: "nil"}
	wErr    = Want{Kind: "err"}
	wWrong  = Want{Kind: "err", S: "wrong type"}
	wAny    = Want{Kind: "any"}
	wNonErr = Want{Kind: "nonerr"}
	wEmpty  = Want{Kind: "list"}
)

func wAlt(w ...Want) Want { return Want{Kind: "alt", Alt: w} }

func elems(r Reply) []string {
	out := make([]string, 0, len(r.A))
	for _, e := range r.A {
		if e.T != '$' && e.T != '+' && e.T != ':' || e.Null {
			return nil
		}
		if e.T == ':' {
			out = append(out, strconv.FormatInt(e.I, 10))
		} else {
			out = append(out, e.S)
		}
	}
	return out
}

func (w Want) match(r Reply) bool {
	switch w.Kind {
	case "any":
		return true
	case "nonerr":
		return r.T != '-'
	case "err":
		// an error that denies the existence of a key of another type misleads
		return r.T == '-' && (w.S == "" || !strings.Contains(strings.ToLower(r.S), "not exist"))
	case "ok":
		return r.T == '+' && r.S == "OK"
	case "simple":
		return (r.T == '+' || r.T == '$') && r.S == w.S && !r.Null
	case "int":
		return r.T == ':' && r.I == w.I
	case "bulk":
		return r.T == '$' && !r.Null && r.S == w.S
	case "nil":
		return (r.T == '$' || r.T == '*') && r.Null
	case "list":
		if len(w.L) == 0 && (r.T == '*' || r.T == '$') && r.Null {
			return true
		}
		if r.T != '*' || len(r.A) != len(w.L) {
			return false
		}
		for i, e := range r.A {
			if e.T != '$' || e.Null || e.S != w.L[i] {
				return false
			}
		}
		return true
	case "zlist": // member, score, member, score ...
		if len(w.L) == 0 {
			return (r.T == '*' || r.T == '$') && (r.Null || r.T == '*' && len(r.A) == 0)
		}
		l := elems(r)
		if r.T != '*' || l == nil || len(l) != len(w.L) {
			return false
		}
		for i := range l {
			if i%2 == 0 && l[i] != w.L[i] {
				return false
			}
			if i%2 == 1 {
				a, err := strconv.ParseFloat(l[i], 64)
				b, _ := strconv.ParseFloat(w.L[i], 64)
				if err != nil || a != b {
					return false
				}
			}
		}
		return true
	case "set":
		if len(w.L) == 0 && (r.T == '*' || r.T == '$') && r.Null {
			return true
		}
		if r.T != '*' || len(r.A) != len(w.L) {
			return false
		}
		l := elems(r)
		if l == nil && len(r.A) > 0 {
			return false
		}
		a := append([]string(nil), l...)
		b := append([]string(nil), w.L...)
		sort.Strings(a)
		sort.Strings(b)
		for i := range a {
			if a[i] != b[i] {
				return false
			}
		}
		return true
	case "score":
		if r.T != '+' && r.T != '$' || r.Null {
			return false
		}
		f, err := strconv.ParseFloat(r.S, 64)
		return err == nil && f == w.F
	case "ttl":
		return r.T == ':' && r.I*1000 > w.I-1000 && r.I*1000 < w.J+1000
	case "member":
		if r.T != '$' || r.Null {
			return false
		}
		for _, s := range w.L {
			if s == r.S {
				return true
			}
		}
		return false
	case "alt":
		for _, a := range w.Alt {
			if a.match(r) {
				return true
			}
		}
		return false
	}
	panic("unknown expectation " + w.Kind)
}

var arity = map[string]int{
	"ping": 1, "select": 2, "auth": 2, "bgrewriteaof": 1, "expire": 3, "expireat": 3, "ttl": 2, "keys": 2, "del": -2,
	"set": -3, "setex": 4, "get": 2, "randomget": 1,
	"hset": -4, "hget": 3, "hdel": -3, "hexists": 3, "hkeys": 2, "hlen": 2,
	"lpush": -3, "rpush": -3, "lpop": 2, "rpop": 2, "llen": 2, "lindex": 3, "lrange": -4,
	"sadd": -3, "srem": -3, "spop": 2, "scard": 2, "sismember": 3, "smembers": 2, "sdiff": -3, "sinter": -3, "sunion": -3,
	"zadd": -4, "zrange": -4, "zrangebyscore": -4, "zrem": -3, "zremrangebyrank": -4, "zremrangebyscore": -4,
	"zcard": 2, "zcount": 4, "zscore": 3,
}

var commandNames = func() []string {
	var l []string
	for k := range arity {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}()

type zpair struct {
	m string
	s float64
}

func (v *Val) sorted() []zpair {
	l := make([]zpair, 0, len(v.Z))
	for m, s := range v.Z {
		l = append(l, zpair{m, s})
	}
	sort.Slice(l, func(i, j int) bool {
		if l[i].s != l[j].s {
			return l[i].s < l[j].s
		}
		return l[i].m < l[j].m
	})
	return l
}

func fmtScore(f float64) string { return strconv.FormatFloat(f, 'g', -1, 64) }

func parseScore(s string) (float64, bool) {
	f, err := strconv.ParseFloat(s, 64)
	return f, err == nil && !math.IsNaN(f)
}

// Exec runs a command in the model at virtual time now. If r is not nil it is the reply to judge
// (and decides where several outcomes are allowed); the returned Want is what is allowed.
func (m *Model) Exec(st *Sess, args []string, now int64, r *Reply) (Want, bool) {
	w, effect := m.step(st, args, now)
	if r != nil && !w.match(*r) {
		return w, false
	}
	if effect != nil {
		var rep Reply
		if r != nil {
			rep = *r
		}
		effect(rep)
	}
	return w, true
}

func (m *Model) step(st *Sess, args []string, now int64) (Want, func(Reply)) {
	name := strings.ToLower(args[0])
	ar, known := arity[name]
	if !known || (ar > 0 && len(args) != ar) || len(args) < -ar {
		return wErr, nil
	}
	if name == "auth" {
		if m.Pass == "" || args[1] == m.Pass {
			return wOK, func(Reply) { st.Authed = true }
		}
		return wErr, func(Reply) { st.Authed = false }
	}
	if m.Pass != "" && !st.Authed {
		return wErr, nil
	}
	db := m.DBs[st.DB]
	m.purge(now)
	find := func(key string, k Kind) (v *Val, wrong bool) {
		v = db[key]
		return v, v != nil && v.K != k
	}
	switch name {
	case "ping":
		return Want{Kind: "simple", S: "PONG"}, nil
	case "bgrewriteaof":
		return wAny, nil
	case "select":
		n, err := strconv.Atoi(args[1])
		if err != nil || n < 0 || n >= len(m.DBs) {
			return wErr, nil
		}
		return wOK, func(Reply) { st.DB = n }
	case "del":
		n := 0
		var keys []string
		seen := map[string]bool{}
		for _, k := range args[1:] {
			if db[k] != nil && !seen[k] {
				seen[k] = true
				n++
				keys = append(keys, k)
			}
		}
		return wInt(n), func(Reply) {
			for _, k := range keys {
				delete(db, k)
			}
		}
	case "set":
		if len(args) == 5 && strings.EqualFold(args[3], "exat") { // what the log holds for a key with a deadline
			n, err := strconv.ParseInt(args[4], 10, 64)
			if err != nil || n > math.MaxInt64/1000-2 || n < math.MinInt64/1000+2 {
				return wErr, nil
			}
			d := n * 1000
			if d == 0 {
				d = -1
			}
			return wOK, func(Reply) { m.deadline(d); db[args[1]] = &Val{K: KStr, Str: args[2], DLo: d, DHi: d} }
		}
		if len(args) != 3 {
			return wAny, nil
		}
		return wOK, func(Reply) { db[args[1]] = &Val{K: KStr, Str: args[2]} }
	case "setex", "expire", "expireat":
		n, err := strconv.ParseInt(args[2], 10, 64)
		var d int64
		if err == nil {
			base := int64(0)
			if name != "expireat" {
				base = now
			}
			if n > (math.MaxInt64-base)/1000 || n < (math.MinInt64+now)/1000+2 {
				err = strconv.ErrRange
			}
			d = base + n*1000
		}
		if err != nil {
			if name != "setex" && db[args[1]] == nil {
				return wAny, nil
			}
			return wErr, nil
		}
		if d == 0 {
			d = -1
		}
		if name == "setex" {
			return wOK, func(Reply) { m.deadline(d); db[args[1]] = &Val{K: KStr, Str: args[3], DLo: d, DHi: d} }
		}
		v := db[args[1]]
		if v == nil {
			return wAny, nil
		}
		return wNonErr, func(Reply) { m.deadline(d); v.DLo, v.DHi = d, d }
	case "get":
		v, wrong := find(args[1], KStr)
		if wrong {
			return wWrong, nil
		}
		if v == nil {
			return wNil, nil
		}
		return wBulk(v.Str), nil
	case "ttl":
		v := db[args[1]]
		switch {
		case v == nil:
			return wInt(-2), nil
		case v.DHi == 0:
			return wInt(-1), nil
		}
		// with the real clock, a command is judged up to Slack after it was executed
		return Want{Kind: "ttl", I: v.DLo - now - m.Slack, J: v.DHi - now + m.Slack}, nil
	case "keys":
		if args[1] == "*" {
			return Want{Kind: "set", L: sortedKeys(db)}, nil
		}
		re, err := regexp.Compile(args[1])
		if err != nil {
			if len(db) == 0 { // nothing to match
				return wAlt(wErr, Want{Kind: "set"}), nil
			}
			return wErr, nil
		}
		var l []string
		for _, k := range sortedKeys(db) {
			if re.MatchString(k) {
				l = append(l, k)
			}
		}
		return Want{Kind: "set", L: l}, nil
	case "randomget":
		if len(db) == 0 {
			return wNil, nil
		}
		return Want{Kind: "member", L: sortedKeys(db)}, nil

	case "hset":
		v, wrong := find(args[1], KHash)
		if wrong || len(args)%2 != 0 {
			return wErr, nil
		}
		n := 0
		seen := map[string]bool{}
		for i := 2; i < len(args); i += 2 {
			if !seen[args[i]] {
				if v == nil {
					n++
				} else if _, ok := v.Hash[args[i]]; !ok {
					n++
				}
			}
			seen[args[i]] = true
		}
		return wInt(n), func(Reply) {
			if v == nil {
				v = &Val{K: KHash, Hash: map[string]string{}}
				db[args[1]] = v
			}
			for i := 2; i < len(args); i += 2 {
				v.Hash[args[i]] = args[i+1]
			}
		}
	case "hget", "hexists", "hlen", "hkeys", "hdel":
		v, wrong := find(args[1], KHash)
		if wrong {
			return wWrong, nil
		}
		var hash map[string]string
		if v != nil {
			hash = v.Hash
		}
		switch name {
		case "hget":
			if x, ok := hash[args[2]]; ok {
				return wBulk(x), nil
			}
			return wNil, nil
		case "hexists":
			if _, ok := hash[args[2]]; ok {
				return wInt(1), nil
			}
			return wInt(0), nil
		case "hlen":
			return wInt(len(hash)), nil
		case "hkeys":
			var l []string
			for k := range hash {
				l = append(l, k)
			}
			return Want{Kind: "set", L: l}, nil
		}
		n := 0
		seen := map[string]bool{}
		for _, f := range args[2:] {
			if _, ok := hash[f]; ok && !seen[f] {
				n++
			}
			seen[f] = true
		}
		return wInt(n), func(Reply) {
			for _, f := range args[2:] {
				delete(hash, f)
			}
			if v != nil && len(hash) == 0 {
				delete(db, args[1])
			}
		}

	case "lpush", "rpush":
		v, wrong := find(args[1], KList)
		if wrong {
			return wWrong, nil
		}
		n := len(args) - 2
		if v != nil {
			n += len(v.List)
		}
		return wInt(n), func(Reply) {
			if v == nil {
				v = &Val{K: KList}
				db[args[1]] = v
			}
			if name == "rpush" {
				v.List = append(v.List, args[2:]...)
				return
			}
			l := make([]string, 0, n)
			for i := len(args) - 1; i >= 2; i-- {
				l = append(l, args[i])
			}
			v.List = append(l, v.List...)
		}
	case "lpop", "rpop", "llen", "lindex", "lrange":
		v, wrong := find(args[1], KList)
		if wrong {
			return wWrong, nil
		}
		var l []string
		if v != nil {
			l = v.List
		}
		switch name {
		case "llen":
			return wInt(len(l)), nil
		case "lindex":
			i, err := strconv.Atoi(args[2])
			if err != nil {
				if v == nil {
					return wAlt(wErr, wNil), nil
				}
				return wErr, nil
			}
			if i < 0 {
				return wAny, nil
			}
			if i >= len(l) {
				return wNil, nil
			}
			return wBulk(l[i]), nil
		case "lrange":
			if len(args) != 4 {
				return wAny, nil
			}
			a, e1 := strconv.Atoi(args[2])
			b, e2 := strconv.Atoi(args[3])
			if e1 != nil || e2 != nil {
				if v == nil {
					return wAlt(wErr, wEmpty), nil
				}
				return wErr, nil
			}
			if a < -len(l) && v != nil {
				return wAny, nil
			}
			if a < 0 {
				a += len(l)
			}
			if b < 0 {
				b += len(l)
			}
			if b >= len(l) {
				b = len(l) - 1
			}
			if v == nil || a > b || a < 0 {
				return wEmpty, nil
			}
			return Want{Kind: "list", L: append([]string(nil), l[a:b+1]...)}, nil
		}
		if v == nil {
			return wNil, nil
		}
		x := l[0]
		if name == "rpop" {
			x = l[len(l)-1]
		}
		return wBulk(x), func(Reply) {
			if name == "lpop" {
				v.List = l[1:]
			} else {
				v.List = l[:len(l)-1]
			}
			if len(v.List) == 0 {
				delete(db, args[1])
			}
		}

	case "sadd", "srem", "spop", "scard", "sismember", "smembers":
		v, wrong := find(args[1], KSet)
		if wrong {
			return wWrong, nil
		}
		var set map[string]bool
		if v != nil {
			set = v.Set
		}
		switch name {
		case "scard":
			return wInt(len(set)), nil
		case "sismember":
			if set[args[2]] {
				return wInt(1), nil
			}
			return wInt(0), nil
		case "smembers":
			return Want{Kind: "set", L: setKeys(set)}, nil
		case "spop":
			if len(set) == 0 {
				return wNil, nil
			}
			return Want{Kind: "member", L: setKeys(set)}, func(r Reply) {
				delete(set, r.S)
				if len(set) == 0 {
					delete(db, args[1])
				}
			}
		case "sadd":
			n := 0
			seen := map[string]bool{}
			for _, x := range args[2:] {
				if !set[x] && !seen[x] {
					n++
				}
				seen[x] = true
			}
			return wInt(n), func(Reply) {
				if v == nil {
					v = &Val{K: KSet, Set: map[string]bool{}}
					db[args[1]] = v
				}
				for _, x := range args[2:] {
					v.Set[x] = true
				}
			}
		}
		n := 0
		seen := map[string]bool{}
		for _, x := range args[2:] {
			if set[x] && !seen[x] {
				n++
			}
			seen[x] = true
		}
		return wInt(n), func(Reply) {
			for _, x := range args[2:] {
				delete(set, x)
			}
			if v != nil && len(set) == 0 {
				delete(db, args[1])
			}
		}
	case "sunion", "sinter", "sdiff":
		res := map[string]bool{}
		missing, anyWrong := false, false
		for i, k := range args[1:] {
			v, wrong := find(k, KSet)
			if wrong {
				anyWrong = true
				continue
			}
			var set map[string]bool
			if v != nil {
				set = v.Set
			} else {
				missing = true
			}
			switch {
			case i == 0 || name == "sunion":
				for x := range set {
					res[x] = true
				}
			case name == "sinter":
				for x := range res {
					if !set[x] {
						delete(res, x)
					}
				}
			default:
				for x := range set {
					delete(res, x)
				}
			}
		}
		if anyWrong {
			if missing {
				return wAlt(wErr, wEmpty), nil
			}
			return wErr, nil
		}
		return Want{Kind: "set", L: setKeys(res)}, nil

	case "zadd":
		v, wrong := find(args[1], KZset)
		if wrong || len(args)%2 != 0 {
			return wErr, nil
		}
		n := 0
		seen := map[string]bool{}
		for i := 2; i < len(args); i += 2 {
			if _, ok := parseScore(args[i]); !ok {
				return wErr, nil
			}
			x := args[i+1]
			if !seen[x] {
				if v == nil {
					n++
				} else if _, ok := v.Z[x]; !ok {
					n++
				}
			}
			seen[x] = true
		}
		return wInt(n), func(Reply) {
			if v == nil {
				v = &Val{K: KZset, Z: map[string]float64{}}
				db[args[1]] = v
			}
			for i := 2; i < len(args); i += 2 {
				v.Z[args[i+1]], _ = parseScore(args[i])
			}
		}
	case "zcard", "zscore", "zcount", "zrange", "zrangebyscore", "zrem", "zremrangebyrank", "zremrangebyscore":
		v, wrong := find(args[1], KZset)
		bad := wErr
		if v == nil {
			bad = wAlt(wErr, wEmpty, wInt(0))
		}
		var l []zpair
		if v != nil && !wrong && name != "zcard" && name != "zscore" && name != "zrem" {
			l = v.sorted()
		}
		withScores := false
		switch name {
		case "zcard":
			if wrong {
				return wWrong, nil
			}
			if v == nil {
				return wInt(0), nil
			}
			return wInt(len(v.Z)), nil
		case "zscore":
			if wrong {
				return wWrong, nil
			}
			if v != nil {
				if s, ok := v.Z[args[2]]; ok {
					return Want{Kind: "score", F: s}, nil
				}
			}
			return wNil, nil
		case "zrem":
			if wrong {
				return wWrong, nil
			}
			n := 0
			seen := map[string]bool{}
			for _, x := range args[2:] {
				if v != nil {
					if _, ok := v.Z[x]; ok && !seen[x] {
						n++
					}
				}
				seen[x] = true
			}
			return wInt(n), func(Reply) {
				if v == nil {
					return
				}
				for _, x := range args[2:] {
					delete(v.Z, x)
				}
				if len(v.Z) == 0 {
					delete(db, args[1])
				}
			}
		case "zrange", "zrangebyscore":
			if len(args) > 5 {
				return wAny, nil
			}
			if len(args) == 5 {
				if !strings.EqualFold(args[4], "withscores") {
					return bad, nil
				}
				withScores = true
			}
		case "zremrangebyrank", "zremrangebyscore":
			if len(args) != 4 {
				return wAny, nil
			}
		}
		var lo, hi int
		if name == "zrange" || name == "zremrangebyrank" {
			a, e1 := strconv.ParseInt(args[2], 10, 64)
			b, e2 := strconv.ParseInt(args[3], 10, 64)
			if e1 != nil || e2 != nil {
				return bad, nil
			}
			if wrong {
				return wWrong, nil
			}
			if a < 0 || b < 0 {
				return wAny, nil
			}
			if b >= int64(len(l)) {
				b = int64(len(l)) - 1
			}
			if a <= b {
				lo, hi = int(a), int(b)+1
			}
		} else {
			a, ok1 := parseScore(args[2])
			b, ok2 := parseScore(args[3])
			if !ok1 || !ok2 {
				return bad, nil
			}
			if wrong {
				return wWrong, nil
			}
			lo = sort.Search(len(l), func(i int) bool { return l[i].s >= a })
			hi = sort.Search(len(l), func(i int) bool { return l[i].s > b })
			if hi < lo {
				hi = lo
			}
		}
		sel := l[lo:hi]
		switch name {
		case "zcount":
			return wInt(len(sel)), nil
		case "zrange", "zrangebyscore":
			var out []string
			for _, p := range sel {
				out = append(out, p.m)
				if withScores {
					out = append(out, fmtScore(p.s))
				}
			}
			if withScores {
				return Want{Kind: "zlist", L: out}, nil
			}
			return Want{Kind: "list", L: out}, nil
		}
		return wInt(len(sel)), func(Reply) {
			if v == nil {
				return
			}
			for _, p := range sel {
				delete(v.Z, p.m)
			}
			if len(v.Z) == 0 {
				delete(db, args[1])
			}
		}
	}
	panic("model: " + name)
}

func sortedKeys(db DB) []string {
	l := make([]string, 0, len(db))
	for k := range db {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func setKeys(s map[string]bool) []string {
	l := make([]string, 0, len(s))
	for k := range s {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

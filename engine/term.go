package main

import (
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Terms are hash-consed: structurally equal terms are the same pointer.

type Sort uint8

const (
	SBool Sort = iota
	SInt
	SStr
)

type Op uint8

const (
	OBool Op = iota // i = 0/1
	OInt            // i
	OStr            // s
	OVar            // s = name
	OSkol           // s = function name, args; evaluated natively, uninterpreted for the solver
	ONot
	OAnd
	OOr
	OEq
	OLe // args[0] <= args[1]
	OContains
	OPrefix // args[0] is a prefix of args[1]
	OSuffix
	OStrLt
	OInRe // args[0] in re
	OIte
	OSum // linear: sum coef*args + i
	OMul
	ODiv // floor (smt) semantics, divisor constant > 0
	OMod
	OLen
	OIndexOf // args: s, pattern ; first occurrence or -1
	OToInt
	OCode
	OConcat
	OSubstr
	OFromInt
	OFromCode
)

type Term struct {
	op    Op
	sort  Sort
	args  []*Term
	coefs []int64
	s     string
	i     int64
	re    *Re
	id    uint64
	vars  []*Term // sorted by id: all OVar / OSkol leaves (including those inside skolem arguments)
}

// Re is a regular language given as SMT text and a predicate.
type Re struct {
	name  string
	smt   string
	match func(string) bool
}

type shard struct {
	mu sync.Mutex
	m  map[string]*Term
}

var shards [64]shard
var termID uint64
var termMu sync.Mutex

func init() {
	for i := range shards {
		shards[i].m = map[string]*Term{}
	}
	termID = 10
}

func nextID() uint64 { termMu.Lock(); termID++; v := termID; termMu.Unlock(); return v }

func intern(t Term) *Term {
	var b []byte
	b = append(b, byte(t.op), byte(t.sort))
	b = strconv.AppendInt(b, t.i, 36)
	b = append(b, ';')
	for k, a := range t.args {
		b = strconv.AppendUint(b, a.id, 36)
		if t.coefs != nil {
			b = append(b, '*')
			b = strconv.AppendInt(b, t.coefs[k], 36)
		}
		b = append(b, ',')
	}
	b = append(b, ';')
	if t.re != nil {
		b = append(b, t.re.name...)
		b = append(b, ';')
	}
	b = append(b, t.s...)
	var h uint32 = 2166136261
	for _, c := range b {
		h = (h ^ uint32(c)) * 16777619
	}
	sh := &shards[h%64]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if x, ok := sh.m[string(b)]; ok {
		return x
	}
	x := new(Term)
	*x = t
	x.id = nextID()
	switch t.op {
	case OVar:
		x.vars = []*Term{x}
	case OSkol:
		x.vars = mergeVars(t.args, x)
	default:
		x.vars = mergeVars(t.args, nil)
	}
	sh.m[string(b)] = x
	return x
}

func resetTerms() {
	for i := range shards {
		shards[i].mu.Lock()
		shards[i].m = map[string]*Term{}
		shards[i].mu.Unlock()
	}
}

func mergeVars(args []*Term, extra *Term) []*Term {
	n := 0
	var only []*Term
	for _, a := range args {
		if len(a.vars) > 0 {
			n++
			only = a.vars
		}
	}
	if extra == nil {
		if n == 0 {
			return nil
		}
		if n == 1 {
			return only
		}
	}
	seen := map[*Term]bool{}
	var out []*Term
	for _, a := range args {
		for _, v := range a.vars {
			if !seen[v] {
				seen[v] = true
				out = append(out, v)
			}
		}
	}
	if extra != nil {
		out = append(out, extra)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

var tTrue, tFalse *Term

func init() {
	tTrue = &Term{op: OBool, sort: SBool, i: 1, id: 1}
	tFalse = &Term{op: OBool, sort: SBool, i: 0, id: 2}
}

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkInt(i int64) *Term  { return intern(Term{op: OInt, sort: SInt, i: i}) }
func mkStr(s string) *Term { return intern(Term{op: OStr, sort: SStr, s: s}) }
func mkVar(name string, s Sort) *Term {
	return intern(Term{op: OVar, sort: s, s: name})
}
func mkSkol(fn string, s Sort, args ...*Term) *Term {
	if allConst(args) {
		if r, ok := evalSkolConst(fn, s, args); ok {
			return r
		}
	}
	return intern(Term{op: OSkol, sort: s, s: fn, args: args})
}

func (t *Term) isConst() bool { return t.op <= OStr }
func allConst(ts []*Term) bool {
	for _, t := range ts {
		if !t.isConst() {
			return false
		}
	}
	return true
}

func evalSkolConst(fn string, s Sort, args []*Term) (*Term, bool) {
	vs := make([]cval, len(args))
	for i, a := range args {
		vs[i] = constVal(a)
	}
	v, ok := skolEval(fn, vs)
	if !ok {
		return nil, false
	}
	return valTerm(v, s), true
}

func valTerm(v cval, s Sort) *Term {
	switch s {
	case SBool:
		return mkBool(v.i != 0)
	case SInt:
		return mkInt(v.i)
	}
	return mkStr(v.s)
}

func constVal(t *Term) cval {
	switch t.op {
	case OBool, OInt:
		return cval{i: t.i}
	case OStr:
		return cval{s: t.s}
	}
	panic("constVal")
}

func mkNot(t *Term) *Term {
	switch t.op {
	case OBool:
		return mkBool(t.i == 0)
	case ONot:
		return t.args[0]
	}
	return intern(Term{op: ONot, sort: SBool, args: []*Term{t}})
}

func mkAnd(ts ...*Term) *Term { return mkNary(OAnd, ts) }
func mkOr(ts ...*Term) *Term  { return mkNary(OOr, ts) }

func mkNary(op Op, ts []*Term) *Term {
	neutral, absorb := tTrue, tFalse
	if op == OOr {
		neutral, absorb = tFalse, tTrue
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(t *Term) bool
	add = func(t *Term) bool {
		if t == absorb {
			return false
		}
		if t == neutral || seen[t] {
			return true
		}
		if t.op == op {
			for _, a := range t.args {
				if !add(a) {
					return false
				}
			}
			return true
		}
		if seen[mkNot(t)] {
			return false
		}
		seen[t] = true
		out = append(out, t)
		return true
	}
	for _, t := range ts {
		if !add(t) {
			return absorb
		}
	}
	if len(out) == 0 {
		return neutral
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(Term{op: op, sort: SBool, args: out})
}

func mkIte(c, a, b *Term) *Term {
	if c == tTrue || a == b {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.sort == SBool {
		return mkOr(mkAnd(c, a), mkAnd(mkNot(c), b))
	}
	return intern(Term{op: OIte, sort: a.sort, args: []*Term{c, a, b}})
}

// ---- integers

func linear(t *Term) (map[*Term]int64, int64) {
	m := map[*Term]int64{}
	if t.op == OInt {
		return m, t.i
	}
	if t.op == OSum {
		for k, a := range t.args {
			m[a] = t.coefs[k]
		}
		return m, t.i
	}
	m[t] = 1
	return m, 0
}

func mkLinear(m map[*Term]int64, c int64) *Term {
	var args []*Term
	for a, k := range m {
		if k != 0 {
			args = append(args, a)
		}
	}
	if len(args) == 0 {
		return mkInt(c)
	}
	sort.Slice(args, func(i, j int) bool { return args[i].id < args[j].id })
	if len(args) == 1 && c == 0 && m[args[0]] == 1 {
		return args[0]
	}
	coefs := make([]int64, len(args))
	for i, a := range args {
		coefs[i] = m[a]
	}
	return intern(Term{op: OSum, sort: SInt, args: args, coefs: coefs, i: c})
}

func mkAddK(a, b *Term, kb int64) *Term {
	if a.op == OInt && b.op == OInt {
		return mkInt(a.i + kb*b.i)
	}
	// both sides list their parts by id
	parts := func(t *Term) ([]*Term, []int64, int64) {
		switch t.op {
		case OInt:
			return nil, nil, t.i
		case OSum:
			return t.args, t.coefs, t.i
		}
		return []*Term{t}, one, 0
	}
	ta, ka, ca := parts(a)
	tb, kbs, cb := parts(b)
	args := make([]*Term, 0, len(ta)+len(tb))
	coefs := make([]int64, 0, len(ta)+len(tb))
	put := func(t *Term, k int64) {
		if k != 0 {
			args, coefs = append(args, t), append(coefs, k)
		}
	}
	for i, j := 0, 0; i < len(ta) || j < len(tb); {
		switch {
		case j == len(tb) || i < len(ta) && ta[i].id < tb[j].id:
			put(ta[i], ka[i])
			i++
		case i == len(ta) || tb[j].id < ta[i].id:
			put(tb[j], kb*kbs[j])
			j++
		default:
			put(ta[i], ka[i]+kb*kbs[j])
			i++
			j++
		}
	}
	c := ca + kb*cb
	if len(args) == 0 {
		return mkInt(c)
	}
	if len(args) == 1 && c == 0 && coefs[0] == 1 {
		return args[0]
	}
	return intern(Term{op: OSum, sort: SInt, args: args, coefs: coefs, i: c})
}

var one = []int64{1}

func mkAdd(a, b *Term) *Term { return mkAddK(a, b, 1) }
func mkSub(a, b *Term) *Term { return mkAddK(a, b, -1) }
func mkMul(a, b *Term) *Term {
	if a.op == OInt && b.op != OInt {
		a, b = b, a
	}
	if b.op == OInt {
		m, c := linear(a)
		for t := range m {
			m[t] *= b.i
		}
		return mkLinear(m, c*b.i)
	}
	return intern(Term{op: OMul, sort: SInt, args: []*Term{a, b}})
}
func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func mkDiv(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.i > 0 {
		return mkInt(floorDiv(a.i, b.i))
	}
	return intern(Term{op: ODiv, sort: SInt, args: []*Term{a, b}})
}
func mkMod(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt && b.i > 0 {
		return mkInt(a.i - floorDiv(a.i, b.i)*b.i)
	}
	return intern(Term{op: OMod, sort: SInt, args: []*Term{a, b}})
}

// lower/upper bounds that hold structurally
func intLo(t *Term) int64 {
	switch t.op {
	case OInt:
		return t.i
	case OLen, OCode:
		return 0
	case OIndexOf:
		return -1
	case OSum:
		s := t.i
		for k, a := range t.args {
			var b int64
			if t.coefs[k] > 0 {
				b = intLo(a)
				if b == math.MinInt64 {
					return b
				}
			} else {
				b = intHi(a)
				if b == math.MaxInt64 {
					return math.MinInt64
				}
			}
			s += t.coefs[k] * b
		}
		return s
	}
	return math.MinInt64
}
func intHi(t *Term) int64 {
	switch t.op {
	case OInt:
		return t.i
	case OCode:
		return 255
	case OLen:
		return math.MaxInt64
	case OSum:
		s := t.i
		for k, a := range t.args {
			var b int64
			if t.coefs[k] > 0 {
				b = intHi(a)
				if b == math.MaxInt64 {
					return b
				}
			} else {
				b = intLo(a)
				if b == math.MinInt64 {
					return math.MaxInt64
				}
			}
			s += t.coefs[k] * b
		}
		return s
	}
	return math.MaxInt64
}

func mkLe(a, b *Term) *Term {
	if a.op == OInt && b.op == OInt {
		return mkBool(a.i <= b.i)
	}
	d := mkSub(a, b) // d <= 0
	if d.op == OInt {
		return mkBool(d.i <= 0)
	}
	if hi := intHi(d); hi != math.MaxInt64 && hi <= 0 {
		return tTrue
	}
	if lo := intLo(d); lo != math.MinInt64 && lo > 0 {
		return tFalse
	}
	// len(x) <= 0  -> x = ""
	if d.op == OLen {
		return mkEq(d.args[0], mkStr(""))
	}
	// -len(x) + 1 <= 0 -> x != ""
	if d.op == OSum && len(d.args) == 1 && d.args[0].op == OLen && d.coefs[0] == -1 && d.i == 1 {
		return mkNot(mkEq(d.args[0].args[0], mkStr("")))
	}
	return intern(Term{op: OLe, sort: SBool, args: []*Term{d, mkInt(0)}})
}
func mkLt(a, b *Term) *Term { return mkNot(mkLe(b, a)) }

// ---- strings

func mkConcat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.op == OConcat {
			for _, a := range t.args {
				out = appendStrTerm(out, a)
			}
		} else {
			out = appendStrTerm(out, t)
		}
	}
	if len(out) == 0 {
		return mkStr("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(Term{op: OConcat, sort: SStr, args: out})
}
func appendStrTerm(out []*Term, t *Term) []*Term {
	if t.op == OStr {
		if t.s == "" {
			return out
		}
		if n := len(out); n > 0 && out[n-1].op == OStr {
			out[n-1] = mkStr(out[n-1].s + t.s)
			return out
		}
	}
	return append(out, t)
}

func mkLen(t *Term) *Term {
	switch t.op {
	case OStr:
		return mkInt(int64(len(t.s)))
	case OConcat:
		r := mkInt(0)
		for _, a := range t.args {
			r = mkAdd(r, mkLen(a))
		}
		return r
	case OFromCode:
		return mkInt(1)
	case OSkol:
		switch t.s {
		case "char", "first", "last":
			return mkInt(1)
		case "hash:sha1":
			return mkInt(40)
		case "hash:md5":
			return mkInt(32)
		case "hash:sha256":
			return mkInt(64)
		}
	}
	return intern(Term{op: OLen, sort: SInt, args: []*Term{t}})
}

func concatArgs(t *Term) []*Term {
	if t.op == OConcat {
		return t.args
	}
	if t.op == OStr && t.s == "" {
		return nil
	}
	return []*Term{t}
}

func isLen1(t *Term) bool { l := mkLen(t); return l.op == OInt && l.i == 1 }

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("mkEq sorts %v %v: %s %s", a.sort, b.sort, a, b))
	}
	switch a.sort {
	case SBool:
		if a.isConst() {
			a, b = b, a
		}
		if b == tTrue {
			return a
		}
		if b == tFalse {
			return mkNot(a)
		}
	case SInt:
		if a.isConst() && b.isConst() {
			return mkBool(a.i == b.i)
		}
		d := mkSub(a, b)
		if d.op == OInt {
			return mkBool(d.i == 0)
		}
		if lo := intLo(d); lo != math.MinInt64 && lo > 0 {
			return tFalse
		}
		if hi := intHi(d); hi != math.MaxInt64 && hi < 0 {
			return tFalse
		}
		if d.op == OLen {
			return mkEq(d.args[0], mkStr(""))
		}
		// fromcode/code normal form: code(x) = k
		if d.op == OSum && len(d.args) == 1 && d.args[0].op == OCode && (d.coefs[0] == 1 || d.coefs[0] == -1) {
			k := -d.i * d.coefs[0]
			x := d.args[0].args[0]
			if isLen1(x) {
				if k < 0 || k > 255 {
					return tFalse
				}
				return mkEq(x, mkStr(string([]byte{byte(k)})))
			}
		}
		if d.op == OSum && d.coefs[0] < 0 {
			d = mkMul(d, mkInt(-1))
		}
		return intern(Term{op: OEq, sort: SBool, args: []*Term{d, mkInt(0)}})
	case SStr:
		if a.isConst() && b.isConst() {
			return mkBool(a.s == b.s)
		}
		x, y := concatArgs(a), concatArgs(b)
		// strip common prefix / suffix
		x = append([]*Term(nil), x...)
		y = append([]*Term(nil), y...)
		for len(x) > 0 && len(y) > 0 {
			if x[0] == y[0] {
				x, y = x[1:], y[1:]
				continue
			}
			if x[0].op == OStr && y[0].op == OStr {
				n := commonPrefix(x[0].s, y[0].s)
				if n < len(x[0].s) && n < len(y[0].s) {
					return tFalse
				}
				x = dropConst(x, n)
				y = dropConst(y, n)
				continue
			}
			break
		}
		for len(x) > 0 && len(y) > 0 {
			lx, ly := x[len(x)-1], y[len(y)-1]
			if lx == ly {
				x, y = x[:len(x)-1], y[:len(y)-1]
				continue
			}
			if lx.op == OStr && ly.op == OStr {
				n := commonSuffix(lx.s, ly.s)
				if n < len(lx.s) && n < len(ly.s) {
					return tFalse
				}
				x = dropConstEnd(x, n)
				y = dropConstEnd(y, n)
				continue
			}
			break
		}
		if len(x) == 0 && len(y) == 0 {
			return tTrue
		}
		if len(x) == 0 || len(y) == 0 {
			z := x
			if len(x) == 0 {
				z = y
			}
			var cs []*Term
			for _, t := range z {
				if t.op == OStr || minLenT(t) > 0 {
					return tFalse
				}
				if len(z) == 1 && t.op != OVar && t.op != OSkol {
					cs = append(cs, intern(Term{op: OEq, sort: SBool, args: []*Term{t, mkStr("")}}))
				} else if t.op == OVar || t.op == OSkol {
					cs = append(cs, intern(Term{op: OEq, sort: SBool, args: []*Term{t, mkStr("")}}))
				} else {
					cs = append(cs, mkEq(t, mkStr("")))
				}
			}
			return mkAnd(cs...)
		}
		// both head elements of length 1
		if isLen1(x[0]) && isLen1(y[0]) && (len(x) > 1 || len(y) > 1) {
			return mkAnd(mkEq(x[0], y[0]), mkEq(mkConcat(x[1:]...), mkConcat(y[1:]...)))
		}
		if isLen1(x[0]) && y[0].op == OStr && len(y[0].s) >= 1 && (len(x) > 1 || len(y[0].s) > 1) {
			return mkAnd(mkEq(x[0], mkStr(y[0].s[:1])), mkEq(mkConcat(x[1:]...), mkConcat(dropConst(y, 1)...)))
		}
		if isLen1(y[0]) && x[0].op == OStr && len(x[0].s) >= 1 && (len(y) > 1 || len(x[0].s) > 1) {
			return mkAnd(mkEq(y[0], mkStr(x[0].s[:1])), mkEq(mkConcat(y[1:]...), mkConcat(dropConst(x, 1)...)))
		}
		// min length conflicts against a constant
		a, b = mkConcat(x...), mkConcat(y...)
		if b.op == OStr && minLenT(a) > int64(len(b.s)) || a.op == OStr && minLenT(b) > int64(len(a.s)) {
			return tFalse
		}
		// fromint(t) = const
		if a.op == OStr {
			a, b = b, a
		}
		if b.op == OStr && a.op == OFromInt {
			n, err := strconv.ParseInt(b.s, 10, 64)
			if err != nil || strconv.FormatInt(n, 10) != b.s || n < 0 {
				return tFalse
			}
			return mkEq(a.args[0], mkInt(n))
		}
		if b.op == OStr && a.op == OFromCode {
			if len(b.s) != 1 {
				return tFalse
			}
			return mkEq(a.args[0], mkInt(int64(b.s[0])))
		}
		if a.op == OFromInt && b.op == OFromInt {
			return mkEq(a.args[0], b.args[0])
		}
	}
	if a.id > b.id && !b.isConst() || a.isConst() {
		a, b = b, a
	}
	return intern(Term{op: OEq, sort: SBool, args: []*Term{a, b}})
}

func minLenT(t *Term) int64 {
	switch t.op {
	case OStr:
		return int64(len(t.s))
	case OConcat:
		var n int64
		for _, a := range t.args {
			n += minLenT(a)
		}
		return n
	case OFromInt, OFromCode:
		return 1
	}
	if l := mkLen(t); l.op == OInt {
		return l.i
	}
	return 0
}

func commonPrefix(a, b string) int {
	n := 0
	for n < len(a) && n < len(b) && a[n] == b[n] {
		n++
	}
	return n
}
func commonSuffix(a, b string) int {
	n := 0
	for n < len(a) && n < len(b) && a[len(a)-1-n] == b[len(b)-1-n] {
		n++
	}
	return n
}
func dropConst(x []*Term, n int) []*Term {
	if n == len(x[0].s) {
		return x[1:]
	}
	return append([]*Term{mkStr(x[0].s[n:])}, x[1:]...)
}
func dropConstEnd(x []*Term, n int) []*Term {
	l := len(x) - 1
	if n == len(x[l].s) {
		return x[:l]
	}
	return append(append([]*Term(nil), x[:l]...), mkStr(x[l].s[:len(x[l].s)-n]))
}

func mkContains(s, p *Term) *Term {
	if s.isConst() && p.isConst() {
		return mkBool(strings.Contains(s.s, p.s))
	}
	if p.op == OStr && p.s == "" || s == p {
		return tTrue
	}
	if s.op == OConcat && p.op == OStr {
		for _, a := range s.args {
			if a.op == OStr && strings.Contains(a.s, p.s) {
				return tTrue
			}
		}
		if len(p.s) == 1 {
			var cs []*Term
			for _, a := range s.args {
				cs = append(cs, mkContains(a, p))
			}
			return mkOr(cs...)
		}
	}
	if s.op == OStr && s.s == "" {
		return mkEq(p, s)
	}
	return intern(Term{op: OContains, sort: SBool, args: []*Term{s, p}})
}
func mkPrefix(p, s *Term) *Term {
	if s.isConst() && p.isConst() {
		return mkBool(strings.HasPrefix(s.s, p.s))
	}
	if p.op == OStr {
		if p.s == "" {
			return tTrue
		}
		x := concatArgs(s)
		if len(x) > 0 && x[0].op == OStr {
			c := x[0].s
			if len(c) >= len(p.s) {
				return mkBool(strings.HasPrefix(c, p.s))
			}
			if !strings.HasPrefix(p.s, c) {
				return tFalse
			}
			return mkPrefix(mkStr(p.s[len(c):]), mkConcat(x[1:]...))
		}
		if len(x) > 0 && isLen1(x[0]) {
			return mkAnd(mkEq(x[0], mkStr(p.s[:1])), mkPrefix(mkStr(p.s[1:]), mkConcat(x[1:]...)))
		}
	}
	return intern(Term{op: OPrefix, sort: SBool, args: []*Term{p, s}})
}
func mkSuffix(p, s *Term) *Term {
	if s.isConst() && p.isConst() {
		return mkBool(strings.HasSuffix(s.s, p.s))
	}
	if p.op == OStr {
		if p.s == "" {
			return tTrue
		}
		x := concatArgs(s)
		if n := len(x); n > 0 && x[n-1].op == OStr {
			c := x[n-1].s
			if len(c) >= len(p.s) {
				return mkBool(strings.HasSuffix(c, p.s))
			}
			if !strings.HasSuffix(p.s, c) {
				return tFalse
			}
			return mkSuffix(mkStr(p.s[:len(p.s)-len(c)]), mkConcat(x[:n-1]...))
		}
	}
	return intern(Term{op: OSuffix, sort: SBool, args: []*Term{p, s}})
}
func mkStrLt(a, b *Term) *Term {
	if a.isConst() && b.isConst() {
		return mkBool(a.s < b.s)
	}
	if a == b {
		return tFalse
	}
	return intern(Term{op: OStrLt, sort: SBool, args: []*Term{a, b}})
}
func mkInRe(s *Term, re *Re) *Term {
	if s.isConst() {
		return mkBool(re.match(s.s))
	}
	return intern(Term{op: OInRe, sort: SBool, args: []*Term{s}, re: re})
}
func mkIndexOf(s, p *Term) *Term {
	if s.isConst() && p.isConst() {
		return mkInt(int64(strings.Index(s.s, p.s)))
	}
	return intern(Term{op: OIndexOf, sort: SInt, args: []*Term{s, p}})
}
func mkToInt(s *Term) *Term {
	if s.op == OFromInt {
		return s.args[0]
	}
	if s.isConst() {
		return mkInt(smtToInt(s.s))
	}
	return intern(Term{op: OToInt, sort: SInt, args: []*Term{s}})
}
func smtToInt(s string) int64 {
	if s == "" {
		return -1
	}
	for i := 0; i < len(s); i++ {
		if s[i] < '0' || s[i] > '9' {
			return -1
		}
	}
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		return -1
	}
	return n
}
func mkCode(s *Term) *Term {
	if s.op == OFromCode {
		return s.args[0]
	}
	if s.isConst() {
		if len(s.s) == 1 {
			return mkInt(int64(s.s[0]))
		}
		return mkInt(-1)
	}
	return intern(Term{op: OCode, sort: SInt, args: []*Term{s}})
}
func mkFromInt(t *Term) *Term {
	if t.op == OInt && t.i >= 0 {
		return mkStr(strconv.FormatInt(t.i, 10))
	}
	return intern(Term{op: OFromInt, sort: SStr, args: []*Term{t}})
}
func mkFromCode(t *Term) *Term {
	if t.op == OCode && isLen1(t.args[0]) {
		return t.args[0]
	}
	if t.op == OInt {
		return mkStr(string([]byte{byte(t.i)}))
	}
	return intern(Term{op: OFromCode, sort: SStr, args: []*Term{t}})
}
func mkSubstr(s, i, n *Term) *Term {
	return intern(Term{op: OSubstr, sort: SStr, args: []*Term{s, i, n}})
}

// ---- evaluation under a model

type cval struct {
	s string
	i int64
}

type Model struct {
	v    map[string]cval // variable name -> value
	memo map[*Term]cval
}

func newModel() *Model { return &Model{v: map[string]cval{}, memo: map[*Term]cval{}} }
func (m *Model) clone() *Model {
	n := newModel()
	for k, x := range m.v {
		n.v[k] = x
	}
	return n
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (m *Model) eval(t *Term) cval {
	switch t.op {
	case OBool, OInt:
		return cval{i: t.i}
	case OStr:
		return cval{s: t.s}
	case OVar:
		return m.v[t.s]
	}
	if v, ok := m.memo[t]; ok {
		return v
	}
	var v cval
	switch t.op {
	case OSkol:
		vs := make([]cval, len(t.args))
		for i, a := range t.args {
			vs[i] = m.eval(a)
		}
		v, _ = skolEval(t.s, vs)
	case ONot:
		v.i = 1 - m.eval(t.args[0]).i
	case OAnd:
		v.i = 1
		for _, a := range t.args {
			if m.eval(a).i == 0 {
				v.i = 0
				break
			}
		}
	case OOr:
		for _, a := range t.args {
			if m.eval(a).i != 0 {
				v.i = 1
				break
			}
		}
	case OEq:
		v.i = b2i(m.eval(t.args[0]) == m.eval(t.args[1]))
	case OLe:
		v.i = b2i(m.eval(t.args[0]).i <= m.eval(t.args[1]).i)
	case OContains:
		v.i = b2i(strings.Contains(m.eval(t.args[0]).s, m.eval(t.args[1]).s))
	case OPrefix:
		v.i = b2i(strings.HasPrefix(m.eval(t.args[1]).s, m.eval(t.args[0]).s))
	case OSuffix:
		v.i = b2i(strings.HasSuffix(m.eval(t.args[1]).s, m.eval(t.args[0]).s))
	case OStrLt:
		v.i = b2i(m.eval(t.args[0]).s < m.eval(t.args[1]).s)
	case OInRe:
		v.i = b2i(t.re.match(m.eval(t.args[0]).s))
	case OIte:
		if m.eval(t.args[0]).i != 0 {
			v = m.eval(t.args[1])
		} else {
			v = m.eval(t.args[2])
		}
	case OSum:
		v.i = t.i
		for k, a := range t.args {
			v.i += t.coefs[k] * m.eval(a).i
		}
	case OMul:
		v.i = m.eval(t.args[0]).i * m.eval(t.args[1]).i
	case ODiv:
		if d := m.eval(t.args[1]).i; d != 0 {
			v.i = floorDiv(m.eval(t.args[0]).i, d)
		}
	case OMod:
		if d := m.eval(t.args[1]).i; d != 0 {
			a := m.eval(t.args[0]).i
			v.i = a - floorDiv(a, d)*d
		}
	case OLen:
		v.i = int64(len(m.eval(t.args[0]).s))
	case OIndexOf:
		v.i = int64(strings.Index(m.eval(t.args[0]).s, m.eval(t.args[1]).s))
	case OToInt:
		v.i = smtToInt(m.eval(t.args[0]).s)
	case OCode:
		if s := m.eval(t.args[0]).s; len(s) == 1 {
			v.i = int64(s[0])
		} else {
			v.i = -1
		}
	case OConcat:
		var sb strings.Builder
		for _, a := range t.args {
			sb.WriteString(m.eval(a).s)
		}
		v.s = sb.String()
	case OSubstr:
		s := m.eval(t.args[0]).s
		i, n := m.eval(t.args[1]).i, m.eval(t.args[2]).i
		if i >= 0 && n > 0 && i < int64(len(s)) {
			e := i + n
			if e > int64(len(s)) {
				e = int64(len(s))
			}
			v.s = s[i:e]
		}
	case OFromInt:
		if n := m.eval(t.args[0]).i; n >= 0 {
			v.s = strconv.FormatInt(n, 10)
		}
	case OFromCode:
		v.s = string([]byte{byte(m.eval(t.args[0]).i)})
	default:
		panic(fmt.Sprint("eval op ", t.op))
	}
	m.memo[t] = v
	return v
}

// ---- printing

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString(`""`)
		} else if c < 0x20 || c > 0x7e || c == '\\' {
			fmt.Fprintf(&b, `\u{%x}`, c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func smtInt(i int64) string {
	if i < 0 {
		if i == math.MinInt64 {
			return "(- 9223372036854775808)"
		}
		return fmt.Sprintf("(- %d)", -i)
	}
	return strconv.FormatInt(i, 10)
}

var opNames = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OLe: "<=", OContains: "str.contains",
	OPrefix: "str.prefixof", OSuffix: "str.suffixof", OStrLt: "str.<", OIte: "ite", OMul: "*", ODiv: "div", OMod: "mod",
	OLen: "str.len", OToInt: "str.to_int", OCode: "str.to_code", OConcat: "str.++", OSubstr: "str.substr",
	OFromInt: "str.from_int", OFromCode: "str.from_code"}

func (t *Term) write(b *strings.Builder, name func(*Term) string) {
	switch t.op {
	case OBool:
		if t.i != 0 {
			b.WriteString("true")
		} else {
			b.WriteString("false")
		}
	case OInt:
		b.WriteString(smtInt(t.i))
	case OStr:
		b.WriteString(smtStr(t.s))
	case OVar, OSkol:
		b.WriteString(name(t))
	case OSum:
		b.WriteString("(+")
		for k, a := range t.args {
			if t.coefs[k] == 1 {
				b.WriteByte(' ')
				a.write(b, name)
			} else {
				b.WriteString(" (* " + smtInt(t.coefs[k]) + " ")
				a.write(b, name)
				b.WriteByte(')')
			}
		}
		b.WriteString(" " + smtInt(t.i) + ")")
	case OInRe:
		b.WriteString("(str.in_re ")
		t.args[0].write(b, name)
		b.WriteString(" " + t.re.smt + ")")
	case OIndexOf:
		b.WriteString("(str.indexof ")
		t.args[0].write(b, name)
		b.WriteByte(' ')
		t.args[1].write(b, name)
		b.WriteString(" 0)")
	default:
		b.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			b.WriteByte(' ')
			a.write(b, name)
		}
		b.WriteByte(')')
	}
}

func (t *Term) String() string {
	var b strings.Builder
	var nm func(x *Term) string
	nm = func(x *Term) string {
		if x.op == OVar {
			return x.s
		}
		var c strings.Builder
		c.WriteString(x.s + "(")
		for i, a := range x.args {
			if i > 0 {
				c.WriteByte(',')
			}
			a.write(&c, nm)
		}
		c.WriteString(")")
		return c.String()
	}
	t.write(&b, nm)
	return b.String()
}

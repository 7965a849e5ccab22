package main

import (
	"fmt"
	"math"
	"os"
	"strconv"
	"strings"
)

// endPath unwinds the interpreter when a path stops.
type endPath struct {
	kind   string // "done", "infeasible", "bound", "unsupported", "violation"
	reason string
}

// dec is one decision: k is the side or alternative taken, v the value tested by a concretisation.
type dec struct {
	k int32
	v int64
}

type altTask struct {
	prefix []dec
	pc     []*Term
	cond   *Term // condition that has to hold for the new branch (nil: no solver needed)
	model  *Model
	grp    string // choices taken on the way: tasks are served round-robin over these
	site   string
}

type inputRec struct {
	Name string
	Kind string // "str","int","bool","choice"
	t    *Term
	Conc int64
}

type Violation struct {
	Harness string
	Msg     string
	Site    string
	Inputs  []inputVal
	Model   *Model
	Nondet  bool
	Kind    string // assert | panic | hang
	Known   string // labels of the known-finding regions the path lies in
}

type inputVal struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	S    string `json:"s,omitempty"`
	B    []byte `json:"b,omitempty"`
	I    int64  `json:"i,omitempty"`
}

type Path struct {
	w          *Worker
	h          *Harness
	prefix     []dec
	pos        int
	decs       []dec
	model      *Model
	pc         []*Term
	facts      map[*Term]bool
	subst      map[*Term][]El
	chars      map[*Term]CharSet
	nonEmp     map[*Term]bool
	rng        map[*Term][2]int64 // known bounds of integer variables and lengths
	alts       []altTask
	less       map[*Term][]lessEdge
	tips       map[*El][]El
	inputs     []inputRec
	nInput     map[string]int
	notes      map[string]int // bound notes on this path
	nondet     bool           // a nondeterministic choice (map order) was taken
	orders     int            // how many more maps may be iterated in reverse; negative: all are
	reach      map[string]bool
	asserts    int
	discharged int
	inconcl    int
	viol       []Violation
	steps      int64
	depth      int
	side       map[*value]any
	shared     *shared // the state shared by operations, while they are watched
	locks      int     // locks held
	locked     bool    // a lock was held, or an atomic operation done
	globals    map[string]map[string]*value
	vfs        *VFS
	toks       [][]El // texts of the symbolic file names
	uid        int
	known      []string
	grp        string
	inHarness  int
	lastFn     string
	quiet      int
}

func (p *Path) end(kind, format string, args ...any) {
	panic(endPath{kind, fmt.Sprintf(format, args...)})
}
func (p *Path) unsupported(format string, args ...any) {
	p.end("unsupported", "%s [in %s]", fmt.Sprintf(format, args...), p.at())
}

// at names the innermost functions of the code that runs.
func (p *Path) at() string {
	var n []string
	for i := len(p.w.stack) - 1; i >= 0 && len(n) < 3; i-- {
		n = append(n, p.w.stack[i].name)
	}
	return strings.Join(n, " < ")
}

func (p *Path) bound(format string, args ...any) {
	p.end("bound", format, args...)
}

// add records a fact (already true under the model) in the path condition.
func (p *Path) add(t *Term) {
	if t == tTrue {
		return
	}
	p.pc = append(p.pc, t)
	p.learn(t, true)
}

func (p *Path) learn(t *Term, val bool) {
	if t.op == ONot {
		p.learn(t.args[0], !val)
		return
	}
	if _, ok := p.facts[t]; ok {
		return
	}
	p.facts[t] = val
	switch t.op {
	case OAnd:
		if val {
			for _, a := range t.args {
				p.learn(a, true)
			}
		}
	case OOr:
		if !val {
			for _, a := range t.args {
				p.learn(a, false)
			}
		}
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.sort == SInt && a.op == OInt {
			a, b = b, a
		}
		if a.sort == SInt && b.op == OInt {
			if r := p.ival(a); val {
				p.setRng(a, b.i, b.i)
			} else if r[0] == b.i {
				p.setRng(a, b.i+1, r[1])
			} else if r[1] == b.i {
				p.setRng(a, r[0], b.i-1)
			}
		}
		if a.sort != SStr {
			return
		}
		if !val {
			if v, ok := p.facts[mkStrLt(a, b)]; ok && !v {
				p.addLess(b, a, true)
			}
			if v, ok := p.facts[mkStrLt(b, a)]; ok && !v {
				p.addLess(a, b, true)
			}
		}
		if b.op == OStr {
			if val {
				p.setSubst(a, []El{{c: b.s}})
				if a.op == OConcat && b.s == "" {
					for _, x := range a.args {
						p.learn(mkEq(x, b), true)
					}
				}
			} else if b.s == "" {
				p.nonEmp[a] = true
			}
		} else if val && isAtom(a) && isAtom(b) {
			if _, ok := p.subst[b]; !ok {
				if _, ok := p.subst[a]; !ok {
					cs := p.charsOf(a).inter(p.charsOf(b))
					p.chars[a] = cs
					if p.nonEmp[b] {
						p.nonEmp[a] = true
					}
					p.subst[b] = []El{{t: a}}
				}
			}
		}
	case OStrLt:
		if a, b := t.args[0], t.args[1]; val {
			p.addLess(a, b, true)
		} else {
			v, ok := p.facts[mkEq(a, b)]
			p.addLess(b, a, ok && !v)
		}
	case OLe:
		// a linear form over one unknown, compared with 0
		d := t.args[0]
		if t.args[1].op != OInt || t.args[1].i != 0 {
			return
		}
		x, k, c := d, int64(1), int64(0)
		if d.op == OSum {
			if len(d.args) != 1 {
				return
			}
			x, k, c = d.args[0], d.coefs[0], d.i
		}
		switch r := p.ival(x); {
		case k == 1 && val: // x+c <= 0
			p.setRng(x, r[0], -c)
		case k == 1: // x+c >= 1
			p.setRng(x, 1-c, r[1])
		case k == -1 && val: // c-x <= 0
			p.setRng(x, c, r[1])
		case k == -1: // c-x >= 1
			p.setRng(x, r[0], c-1)
		}
	case OContains:
		if !val && t.args[1].op == OStr && len(t.args[1].s) == 1 {
			for _, a := range concatArgs(t.args[0]) {
				if isAtom(a) {
					cs := p.charsOf(a)
					cs.del(t.args[1].s[0])
					p.chars[a] = cs
				}
			}
		}
		if val {
			p.nonEmp[t.args[0]] = true
		}
	case OInRe:
		if val && isAtom(t.args[0]) && strings.HasPrefix(t.re.name, "star:") {
			var cs CharSet
			fmt.Sscanf(t.re.name, "star:%x.%x.%x.%x", &cs[0], &cs[1], &cs[2], &cs[3])
			p.chars[t.args[0]] = p.charsOf(t.args[0]).inter(cs)
		}
	}
}

// ordered tells whether the comparisons made so far imply a < b (2) or a <= b (1).
func (p *Path) ordered(a, b *Term) int {
	type st struct {
		t      *Term
		strict bool
	}
	seen := map[st]bool{{a, false}: true}
	todo := []st{{a, false}}
	best := 0
	for len(todo) > 0 {
		x := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if x.t == b && (x.t != a || x.strict) {
			if x.strict {
				return 2
			}
			best = 1
		}
		for _, e := range p.less[x.t] {
			n := st{e.to, x.strict || e.strict}
			if !seen[n] {
				seen[n] = true
				todo = append(todo, n)
			}
		}
	}
	return best
}

type lessEdge struct {
	to     *Term
	strict bool
}

func (p *Path) addLess(a, b *Term, strict bool) {
	if p.less == nil {
		p.less = map[*Term][]lessEdge{}
	}
	p.less[a] = append(p.less[a], lessEdge{b, strict})
}

func (p *Path) setRng(t *Term, lo, hi int64) {
	r := p.ival(t)
	p.rng[t] = [2]int64{max(lo, r[0]), min(hi, r[1])}
}

// ival is an interval that contains every value of the integer term.
func (p *Path) ival(t *Term) [2]int64 {
	r := [2]int64{intLo(t), intHi(t)}
	if k, ok := p.rng[t]; ok {
		return [2]int64{max(k[0], r[0]), min(k[1], r[1])}
	}
	if t.op == OSum {
		lo, hi := t.i, t.i
		const inf = int64(1) << 40 // keeps the sums far from overflowing
		for k, a := range t.args {
			v, c := p.ival(a), t.coefs[k]
			if c < 0 {
				v[0], v[1] = v[1], v[0]
			}
			if v[0] < -inf || v[0] > inf || c > 1<<16 || c < -1<<16 {
				lo = math.MinInt64
			}
			if v[1] < -inf || v[1] > inf || c > 1<<16 || c < -1<<16 {
				hi = math.MaxInt64
			}
			if lo != math.MinInt64 {
				lo += c * v[0]
			}
			if hi != math.MaxInt64 {
				hi += c * v[1]
			}
		}
		return [2]int64{max(lo, r[0]), min(hi, r[1])}
	}
	return r
}

// tooShort tells that the text cannot have n characters.
func (p *Path) tooShort(t *Term, n int) bool {
	return isAtom(t) && p.ival(mkLen(t))[1] < int64(n)
}

func isAtom(t *Term) bool { return t.sort == SStr && (t.op == OVar || t.op == OSkol) }

func (p *Path) setSubst(a *Term, els []El) {
	if !isAtom(a) {
		return
	}
	if old, ok := p.subst[a]; ok {
		// already refined: the new information stays in the path condition
		_ = old
		return
	}
	p.subst[a] = els
}

// lookup tells whether t is already decided syntactically.
func (p *Path) lookup(t *Term) (bool, bool) {
	neg := false
	for t.op == ONot {
		neg = !neg
		t = t.args[0]
	}
	if t.op == OBool {
		return (t.i != 0) != neg, true
	}
	if v, ok := p.facts[t]; ok {
		return v != neg, true
	}
	switch t.op {
	case OLe:
		if a, b := p.ival(t.args[0]), p.ival(t.args[1]); a[1] <= b[0] {
			return !neg, true
		} else if a[0] > b[1] {
			return neg, true
		}
	case OAnd, OOr:
		all := true
		for _, a := range t.args {
			v, ok := p.lookup(a)
			if ok && v == (t.op == OOr) {
				return v != neg, true
			}
			if !ok {
				all = false
			}
		}
		if all {
			return (t.op == OAnd) != neg, true
		}
	case OEq:
		a, b := t.args[0], t.args[1]
		if a.sort == SInt {
			if x, y := p.ival(a), p.ival(b); x[1] < y[0] || x[0] > y[1] {
				return neg, true
			} else if x[0] == x[1] && x == y {
				return !neg, true
			}
		}
		if a.sort == SStr && b.op == OStr {
			if p.tooShort(a, len(b.s)) {
				return neg, true
			}
			if b.s == "" && p.nonEmp[a] {
				return neg, true
			}
			if isAtom(a) && !p.charsOf(a).all(b.s) {
				return neg, true
			}
			if b.s == "" && a.op == OConcat {
				for _, x := range a.args {
					if p.nonEmp[x] || minLenT(x) > 0 {
						return neg, true
					}
				}
			}
		}
	case OContains:
		if t.args[1].op == OStr && isAtom(t.args[0]) && !p.charsOf(t.args[0]).all(t.args[1].s) {
			return neg, true
		}
		if t.args[1].op == OStr && p.tooShort(t.args[0], len(t.args[1].s)) {
			return neg, true
		}
	case OPrefix, OSuffix:
		if t.args[0].op == OStr && isAtom(t.args[1]) && !p.charsOf(t.args[1]).all(t.args[0].s) {
			return neg, true
		}
		if t.args[0].op == OStr && p.tooShort(t.args[1], len(t.args[0].s)) {
			return neg, true
		}
	case OStrLt:
		// what follows from the comparisons made so far
		if w := p.ordered(t.args[0], t.args[1]); w == 2 {
			return !neg, true
		}
		if p.ordered(t.args[1], t.args[0]) > 0 {
			return neg, true
		}
	case OInRe:
		if isAtom(t.args[0]) && strings.HasPrefix(t.re.name, "star:") {
			var cs CharSet
			fmt.Sscanf(t.re.name, "star:%x.%x.%x.%x", &cs[0], &cs[1], &cs[2], &cs[3])
			pc := p.charsOf(t.args[0])
			if pc.inter(cs.not()).empty() {
				return !neg, true
			}
			if pc.inter(cs).empty() && p.nonEmp[t.args[0]] {
				return neg, true
			}
		}
	}
	return false, false
}

// branch decides a boolean term, forking when both sides may be feasible.
func (p *Path) branch(t *Term) bool { return p.branchVal(t, 0) }

func (p *Path) branchVal(t *Term, val int64) bool {
	if v, ok := p.lookup(t); ok {
		p.audit(t, v)
		return v
	}
	var v bool
	if p.pos < len(p.prefix) {
		v = p.prefix[p.pos].k != 0
	} else {
		v = p.model.eval(t).i != 0
		if len(p.decs) > p.h.maxDecisions {
			p.bound("more than %d symbolic decisions on one path", p.h.maxDecisions)
		}
		other := t
		if v {
			other = mkNot(t)
		}
		np := make([]dec, len(p.decs)+1)
		copy(np, p.decs)
		np[len(p.decs)] = dec{k: int32(b2i(!v)), v: val}
		p.alts = append(p.alts, altTask{prefix: np, pc: p.pc[:len(p.pc):len(p.pc)], cond: other, model: p.model, grp: p.grp, site: p.altSite(t)})
	}
	p.pos++
	p.decs = append(p.decs, dec{k: int32(b2i(v)), v: val})
	if v {
		p.add(t)
	} else {
		p.add(mkNot(t))
	}
	return v
}

var profile = os.Getenv("SYMGO_PROFILE") != ""

func (p *Path) altSite(t *Term) string {
	if !profile {
		return ""
	}
	s := p.site() + " / " + p.lastFn
	if profTerms {
		s += " " + t.String()
	}
	return s
}

var profTerms = os.Getenv("SYMGO_PROFILE") == "2"

// choose forks over 0..n-1 without involving the solver.
func (p *Path) choose(n int) int {
	if n <= 1 {
		return 0
	}
	k := int32(0)
	if p.pos < len(p.prefix) {
		k = p.prefix[p.pos].k
	} else {
		for j := n - 1; j >= 1; j-- {
			np := make([]dec, len(p.decs)+1)
			copy(np, p.decs)
			np[len(p.decs)] = dec{k: int32(j)}
			p.alts = append(p.alts, altTask{prefix: np, pc: p.pc[:len(p.pc):len(p.pc)], model: p.model, grp: p.grp + "." + strconv.Itoa(j), site: "choice"})
		}
	}
	p.pos++
	p.decs = append(p.decs, dec{k: k})
	p.grp += "." + strconv.Itoa(int(k))
	return int(k)
}

// assume restricts the path; ends it when impossible.
func (p *Path) assume(t *Term) {
	if v, ok := p.lookup(t); ok {
		p.audit(t, v)
		if !v {
			p.end("infeasible", "assumption")
		}
		return
	}
	if p.model.eval(t).i != 0 {
		p.add(t)
		return
	}
	res, vals := p.w.solver.decide(t, p.pc, p.model)
	switch res {
	case Unsat:
		p.end("infeasible", "assumption")
	case Unknown:
		p.bound("solver gave no answer for an assumption")
	}
	p.updateModel(vals)
	p.add(t)
}

func (p *Path) updateModel(vals map[*Term]cval) {
	m := p.model.clone()
	for v, x := range vals {
		if v.op == OVar {
			m.v[v.s] = x
		}
	}
	p.model = m
}

// concretise an integer term: forks over its values.
func (p *Path) concInt(v value) int64 {
	t, ok := v.(*Term)
	if !ok {
		return v.(int64)
	}
	if t.op == OInt {
		return t.i
	}
	for k := 0; k < p.h.maxConc; k++ {
		val := p.model.eval(t).i
		c := mkEq(t, mkInt(val))
		if v, ok := p.lookup(c); ok && v {
			return val
		}
		if p.pos < len(p.prefix) {
			val = p.prefix[p.pos].v
			c = mkEq(t, mkInt(val))
		}
		if p.branchVal(c, val) {
			return val
		}
	}
	p.bound("integer takes more than %d values where a concrete one is needed", p.h.maxConc)
	return 0
}

// concretise a string completely (bounds the claim to one value per path).
func (p *Path) concStr(v value, why string) string {
	if s, ok := v.(string); ok {
		return s
	}
	els := p.norm(v)
	if s, ok := elsConst(els); ok {
		return s
	}
	t := elsTerm(els)
	val := p.model.eval(t).s
	p.note("string made concrete for " + why)
	p.add(mkEq(t, mkStr(val)))
	for _, e := range els {
		if e.t != nil {
			p.add(mkEq(e.t, mkStr(p.model.eval(e.t).s)))
		}
	}
	return val
}

func (p *Path) note(s string) {
	if p.notes == nil {
		p.notes = map[string]int{}
	}
	p.notes[s]++
}

func (p *Path) charsOf(t *Term) CharSet {
	if c, ok := p.chars[t]; ok {
		return c
	}
	switch t.op {
	case OFromInt:
		return digitSet
	case OSkol:
		if strings.HasPrefix(t.s, "hash:") {
			return setOf("0123456789abcdef")
		}
		if t.s == "lower" {
			c := p.charsOf(t.args[0])
			for b := byte('A'); b <= 'Z'; b++ {
				if c.has(b) {
					c.add(b + 32)
					c.del(b)
				}
			}
			return c
		}
		if t.s == "upper" {
			c := p.charsOf(t.args[0])
			for b := byte('a'); b <= 'z'; b++ {
				if c.has(b) {
					c.add(b - 32)
					c.del(b)
				}
			}
			return c
		}
	}
	return allBytes
}

// ---- ropes

type El struct {
	c string
	t *Term
}
type Rope struct{ el []El }

func (p *Path) norm(v value) []El {
	switch v := v.(type) {
	case string:
		if v == "" {
			return nil
		}
		return []El{{c: v}}
	case *Rope:
		return p.normEls(v.el)
	case *Term:
		return p.normEls(termEls(v))
	}
	panic(fmt.Sprintf("norm %T", v))
}

func termEls(t *Term) []El {
	var els []El
	for _, a := range concatArgs(t) {
		if a.op == OStr {
			els = append(els, El{c: a.s})
		} else {
			els = append(els, El{t: a})
		}
	}
	return els
}

func (p *Path) normEls(els []El) []El {
	dirty := false
	for i, e := range els {
		if e.t != nil {
			if _, ok := p.subst[e.t]; ok {
				dirty = true
				break
			}
			if e.t.isConst() {
				dirty = true
				break
			}
		} else if e.c == "" || i > 0 && els[i-1].t == nil {
			dirty = true
			break
		}
	}
	if !dirty {
		return els
	}
	var out []El
	var add func(e El)
	add = func(e El) {
		if e.t != nil {
			if s, ok := p.subst[e.t]; ok {
				for _, x := range s {
					add(x)
				}
				return
			}
			if e.t.op == OStr {
				e = El{c: e.t.s}
			} else {
				out = append(out, e)
				return
			}
		}
		if e.c == "" {
			return
		}
		if n := len(out); n > 0 && out[n-1].t == nil {
			out[n-1].c += e.c
			return
		}
		out = append(out, e)
	}
	for _, e := range els {
		add(e)
	}
	return out
}

func elsConst(els []El) (string, bool) {
	if len(els) == 0 {
		return "", true
	}
	if len(els) == 1 && els[0].t == nil {
		return els[0].c, true
	}
	var b strings.Builder
	for _, e := range els {
		if e.t != nil {
			return "", false
		}
		b.WriteString(e.c)
	}
	return b.String(), true
}

func elsTerm(els []El) *Term {
	ts := make([]*Term, len(els))
	for i, e := range els {
		if e.t != nil {
			ts[i] = e.t
		} else {
			ts[i] = mkStr(e.c)
		}
	}
	return mkConcat(ts...)
}

func elsVal(els []El) value {
	if s, ok := elsConst(els); ok {
		return s
	}
	return &Rope{els}
}

func joinEls(parts ...[]El) []El {
	n := 0
	for _, q := range parts {
		n += len(q)
	}
	out := make([]El, 0, n)
	var run []byte // the text of the last element, when it was put together here
	for _, q := range parts {
		for _, e := range q {
			if e.t == nil {
				if e.c == "" {
					continue
				}
				if n := len(out); n > 0 && out[n-1].t == nil {
					if run == nil {
						run = append(make([]byte, 0, 2*(len(out[n-1].c)+len(e.c))), out[n-1].c...)
					}
					run = append(run, e.c...)
					continue
				}
			}
			if run != nil {
				out[len(out)-1].c = string(run)
				run = nil
			}
			out = append(out, e)
		}
	}
	if run != nil {
		out[len(out)-1].c = string(run)
	}
	return out
}

func cEl(s string) []El {
	if s == "" {
		return nil
	}
	return []El{{c: s}}
}
func tEl(t *Term) []El { return termEls(t) }

func (p *Path) strTerm(v value) *Term {
	if s, ok := v.(string); ok {
		return mkStr(s)
	}
	return elsTerm(p.norm(v))
}

// decompose replaces atom a by parts (a = concatenation), adding cs as known constraints.
func (p *Path) decompose(a *Term, parts []El, cs ...*Term) {
	base := p.charsOf(a)
	for _, e := range parts {
		if e.t != nil && isAtom(e.t) {
			p.chars[e.t] = p.charsOf(e.t).inter(base)
		}
	}
	eq := intern(Term{op: OEq, sort: SBool, args: []*Term{a, elsTerm(parts)}})
	if a != elsTerm(parts) {
		p.pc = append(p.pc, eq)
		p.facts[eq] = true
		if _, ok := p.subst[a]; !ok {
			p.subst[a] = parts
		}
	}
	for _, c := range cs {
		p.add(c)
	}
}

func (p *Path) mayContain(t *Term, s string) bool {
	if t.op == OFromInt {
		return digitSet.all(s)
	}
	return p.charsOf(t).all(s)
}

func (p *Path) nonEmpty(t *Term) bool {
	if p.nonEmp[t] || minLenT(t) > 0 {
		return true
	}
	v, ok := p.lookup(mkEq(t, mkStr("")))
	return ok && !v
}

// startsWith forks on whether els starts with pat and returns the remainder.
func (p *Path) startsWith(els []El, pat string) (bool, []El) {
	els = p.normEls(els)
	if pat == "" {
		return true, els
	}
	if len(els) == 0 {
		return false, nil
	}
	h := els[0]
	if h.t == nil {
		n := len(h.c)
		if n > len(pat) {
			n = len(pat)
		}
		if h.c[:n] != pat[:n] {
			return false, nil
		}
		return p.startsWith(joinEls(cEl(h.c[n:]), els[1:]), pat[n:])
	}
	if h.t = p.resolveSpecial(h.t); !isAtomOrPlain(h.t) {
		return p.startsWith(append(tEl(h.t), els[1:]...), pat)
	}
	els = p.normEls(els)
	if len(els) == 0 || els[0].t != h.t {
		return p.startsWith(els, pat)
	}
	if p.mayContain(h.t, pat) {
		if p.branch(mkPrefix(mkStr(pat), h.t)) {
			els = p.normEls(els)
			if els[0].t != h.t { // became concrete
				return p.startsWith(els, pat)
			}
			if isLen1(h.t) && len(pat) == 1 {
				return true, els[1:]
			}
			d := mkSkol("drop", SStr, h.t, mkInt(int64(len(pat))))
			p.decompose(h.t, []El{{c: pat}, {t: d}})
			return true, p.normEls(append([]El{{t: d}}, els[1:]...))
		}
	}
	for j := 0; j < len(pat); j++ {
		if !p.couldStart(els[1:], pat[j:]) || !p.mayContain(h.t, pat[:j]) {
			continue
		}
		if p.branch(mkEq(h.t, mkStr(pat[:j]))) {
			return p.startsWith(els[1:], pat[j:])
		}
	}
	return false, nil
}

func isAtomOrPlain(t *Term) bool { return t.op != OConcat && t.op != OStr }

func (p *Path) couldStart(els []El, pat string) bool {
	els = p.normEls(els)
	if pat == "" {
		return true
	}
	if len(els) == 0 {
		return false
	}
	h := els[0]
	if h.t == nil {
		n := len(h.c)
		if n > len(pat) {
			n = len(pat)
		}
		return h.c[:n] == pat[:n]
	}
	if h.t.op == OSkol && strings.HasPrefix(h.t.s, "esc") {
		return true
	}
	if p.nonEmpty(h.t) && !p.mayContain(h.t, pat[:1]) {
		return false
	}
	return true
}

func (p *Path) endsWith(els []El, pat string) (bool, []El) {
	els = p.normEls(els)
	if pat == "" {
		return true, els
	}
	n := len(els)
	if n == 0 {
		return false, nil
	}
	h := els[n-1]
	if h.t == nil {
		k := len(h.c)
		if k > len(pat) {
			k = len(pat)
		}
		if h.c[len(h.c)-k:] != pat[len(pat)-k:] {
			return false, nil
		}
		return p.endsWith(joinEls(els[:n-1], cEl(h.c[:len(h.c)-k])), pat[:len(pat)-k])
	}
	if r := p.resolveSpecial(h.t); r != h.t {
		return p.endsWith(els, pat)
	}
	if p.mayContain(h.t, pat) {
		if p.branch(mkSuffix(mkStr(pat), h.t)) {
			els = p.normEls(els)
			if els[len(els)-1].t != h.t {
				return p.endsWith(els, pat)
			}
			if isLen1(h.t) && len(pat) == 1 {
				return true, els[:len(els)-1]
			}
			d := mkSkol("taker", SStr, h.t, mkInt(int64(len(pat))))
			p.decompose(h.t, []El{{t: d}, {c: pat}})
			return true, p.normEls(append(append([]El(nil), els[:len(els)-1]...), El{t: d}))
		}
	}
	for j := len(pat); j > 0; j-- { // atom is exactly pat[j:]
		if !p.mayContain(h.t, pat[j:]) {
			continue
		}
		if !p.couldEnd(els[:n-1], pat[:j]) {
			continue
		}
		if p.branch(mkEq(h.t, mkStr(pat[j:]))) {
			return p.endsWith(els[:n-1], pat[:j])
		}
	}
	return false, nil
}

func (p *Path) couldEnd(els []El, pat string) bool {
	els = p.normEls(els)
	if pat == "" {
		return true
	}
	n := len(els)
	if n == 0 {
		return false
	}
	h := els[n-1]
	if h.t == nil {
		k := len(h.c)
		if k > len(pat) {
			k = len(pat)
		}
		return h.c[len(h.c)-k:] == pat[len(pat)-k:]
	}
	if h.t.op == OSkol && strings.HasPrefix(h.t.s, "esc") {
		return true
	}
	return !(p.nonEmpty(h.t) && !p.mayContain(h.t, pat[len(pat)-1:]))
}

// find locates the first occurrence of pat (non-empty), forking as needed.
func (p *Path) find(els []El, pat string) (bool, []El, []El) {
	var done []El
	todo := p.normEls(els)
	for {
		todo = p.normEls(todo)
		if len(todo) == 0 {
			return false, nil, nil
		}
		h := todo[0]
		rest := todo[1:]
		if h.t == nil {
			if k := strings.Index(h.c, pat); k >= 0 {
				return true, joinEls(done, cEl(h.c[:k])), joinEls(cEl(h.c[k+len(pat):]), rest)
			}
			for k := len(pat) - 1; k >= 1; k-- {
				if strings.HasSuffix(h.c, pat[:k]) && p.couldStart(rest, pat[k:]) {
					if ok, r := p.startsWith(rest, pat[k:]); ok {
						return true, joinEls(done, cEl(h.c[:len(h.c)-k])), r
					}
				}
			}
			done = joinEls(done, []El{h})
			todo = rest
			continue
		}
		if r := p.resolveSpecial(h.t); r != h.t {
			todo = append(tEl(r), rest...)
			continue
		}
		a := h.t
		if p.mayContain(a, pat) && p.branch(mkContains(a, mkStr(pat))) {
			todo = p.normEls(todo)
			if todo[0].t != a {
				continue
			}
			if isLen1(a) {
				p.add(mkEq(a, mkStr(pat)))
				return true, done, rest
			}
			x := mkSkol("before", SStr, a, mkStr(pat))
			y := mkSkol("after", SStr, a, mkStr(pat))
			p.decompose(a, []El{{t: x}, {c: pat}, {t: y}}, mkNot(mkContains(mkConcat(x, mkStr(pat[:len(pat)-1])), mkStr(pat))))
			return true, p.normEls(joinEls(done, []El{{t: x}})), p.normEls(append([]El{{t: y}}, rest...))
		}
		for k := len(pat) - 1; k >= 1; k-- {
			if p.mayContain(a, pat[:k]) && p.couldStart(rest, pat[k:]) && p.branch(mkSuffix(mkStr(pat[:k]), a)) {
				if ok, r := p.startsWith(rest, pat[k:]); ok {
					_, b := p.endsWith([]El{{t: a}}, pat[:k])
					return true, joinEls(p.normEls(done), b), r
				}
			}
		}
		done = append(append([]El(nil), done...), El{t: a})
		todo = rest
	}
}

// findLast locates the last occurrence of pat.
func (p *Path) findLast(els []El, pat string) (bool, []El, []El) {
	var done []El // suffix already scanned
	todo := p.normEls(els)
	for {
		todo = p.normEls(todo)
		n := len(todo)
		if n == 0 {
			return false, nil, nil
		}
		h := todo[n-1]
		rest := todo[:n-1]
		if h.t == nil {
			if k := strings.LastIndex(h.c, pat); k >= 0 {
				return true, joinEls(rest, cEl(h.c[:k])), joinEls(cEl(h.c[k+len(pat):]), done)
			}
			for k := len(pat) - 1; k >= 1; k-- { // const starts with pat[len-k:], rest ends with pat[:len-k]
				if strings.HasPrefix(h.c, pat[len(pat)-k:]) && p.couldEnd(rest, pat[:len(pat)-k]) {
					if ok, r := p.endsWith(rest, pat[:len(pat)-k]); ok {
						return true, r, joinEls(cEl(h.c[k:]), done)
					}
				}
			}
			done = joinEls([]El{h}, done)
			todo = rest
			continue
		}
		if r := p.resolveSpecial(h.t); r != h.t {
			todo = joinEls(rest, tEl(r))
			continue
		}
		a := h.t
		if p.mayContain(a, pat) && p.branch(mkContains(a, mkStr(pat))) {
			todo = p.normEls(todo)
			if todo[len(todo)-1].t != a {
				continue
			}
			if isLen1(a) {
				p.add(mkEq(a, mkStr(pat)))
				return true, rest, done
			}
			x := mkSkol("lbefore", SStr, a, mkStr(pat))
			y := mkSkol("lafter", SStr, a, mkStr(pat))
			p.decompose(a, []El{{t: x}, {c: pat}, {t: y}}, mkNot(mkContains(mkConcat(mkStr(pat[1:]), y), mkStr(pat))))
			return true, p.normEls(joinEls(rest, []El{{t: x}})), p.normEls(append([]El{{t: y}}, done...))
		}
		if len(pat) > 1 {
			for k := len(pat) - 1; k >= 1; k-- {
				if p.mayContain(a, pat[len(pat)-k:]) && p.couldEnd(rest, pat[:len(pat)-k]) && p.branch(mkPrefix(mkStr(pat[len(pat)-k:]), a)) {
					if ok, r := p.endsWith(rest, pat[:len(pat)-k]); ok {
						_, b := p.startsWith([]El{{t: a}}, pat[len(pat)-k:])
						return true, r, joinEls(b, done)
					}
				}
			}
		}
		done = append([]El{{t: a}}, done...)
		todo = rest
	}
}

func reFirstIn(set CharSet) *Re {
	return &Re{name: "first:" + set.key(), smt: "(re.++ " + set.smt() + " re.all)", match: func(s string) bool { return s != "" && set.has(s[0]) }}
}
func reLastIn(set CharSet) *Re {
	return &Re{name: "last:" + set.key(), smt: "(re.++ re.all " + set.smt() + ")", match: func(s string) bool { return s != "" && set.has(s[len(s)-1]) }}
}

func (p *Path) trimLeft(els []El, set string) []El {
	cs := setOf(set)
	for {
		els = p.normEls(els)
		if len(els) == 0 {
			return nil
		}
		h := els[0]
		if h.t == nil {
			s := strings.TrimLeft(h.c, set)
			if s != "" {
				return joinEls(cEl(s), els[1:])
			}
			els = els[1:]
			continue
		}
		if r := p.resolveSpecial(h.t); r != h.t {
			continue
		}
		a := h.t
		if p.charsOf(a).inter(cs).empty() {
			if p.nonEmpty(a) || !p.trimmable(els[1:], cs, true) {
				return els
			}
			if p.branch(mkEq(a, mkStr(""))) {
				continue
			}
			return els
		}
		if isLen1(a) {
			if p.branch(mkInRe(a, reStar(cs))) {
				els = els[1:]
				continue
			}
			return els
		}
		if p.branch(mkInRe(a, reStar(cs))) {
			els = els[1:]
			continue
		}
		p.nonEmp[a] = true
		if p.branch(mkInRe(a, reFirstIn(cs))) {
			if e := p.normEls(els); e[0].t != a {
				els = e
				continue
			}
			x := mkSkol("lead:"+set, SStr, a)
			y := mkSkol("ltrim:"+set, SStr, a)
			p.decompose(a, []El{{t: x}, {t: y}}, mkInRe(x, reStar(cs)), mkNot(mkEq(x, mkStr(""))), mkNot(mkInRe(y, reFirstIn(cs))), mkNot(mkEq(y, mkStr(""))))
			return p.normEls(append([]El{{t: y}}, els[1:]...))
		}
		return p.normEls(els)
	}
}

// trimmable reports whether trimming could reach into els if what is before is empty.
func (p *Path) trimmable(els []El, cs CharSet, left bool) bool {
	els = p.normEls(els)
	for i := range els {
		e := els[i]
		if !left {
			e = els[len(els)-1-i]
		}
		if e.t == nil {
			if left {
				return cs.has(e.c[0])
			}
			return cs.has(e.c[len(e.c)-1])
		}
		if e.t.op == OSkol && strings.HasPrefix(e.t.s, "esc") {
			return true
		}
		if !p.charsOf(e.t).inter(cs).empty() {
			return true
		}
		if p.nonEmpty(e.t) {
			return false
		}
	}
	return false
}

func (p *Path) trimRight(els []El, set string) []El {
	cs := setOf(set)
	for {
		els = p.normEls(els)
		n := len(els)
		if n == 0 {
			return nil
		}
		h := els[n-1]
		if h.t == nil {
			s := strings.TrimRight(h.c, set)
			if s != "" {
				return joinEls(els[:n-1], cEl(s))
			}
			els = els[:n-1]
			continue
		}
		if r := p.resolveSpecial(h.t); r != h.t {
			continue
		}
		a := h.t
		if p.charsOf(a).inter(cs).empty() {
			if p.nonEmpty(a) || !p.trimmable(els[:n-1], cs, false) {
				return els
			}
			if p.branch(mkEq(a, mkStr(""))) {
				continue
			}
			return els
		}
		if p.branch(mkInRe(a, reStar(cs))) {
			els = els[:n-1]
			continue
		}
		p.nonEmp[a] = true
		if isLen1(a) {
			return els
		}
		if p.branch(mkInRe(a, reLastIn(cs))) {
			if e := p.normEls(els); len(e) != n || e[n-1].t != a {
				els = e
				continue
			}
			x := mkSkol("rtrim:"+set, SStr, a)
			y := mkSkol("tail:"+set, SStr, a)
			p.decompose(a, []El{{t: x}, {t: y}}, mkInRe(y, reStar(cs)), mkNot(mkEq(y, mkStr(""))), mkNot(mkInRe(x, reLastIn(cs))), mkNot(mkEq(x, mkStr(""))))
			return p.normEls(joinEls(els[:n-1], []El{{t: x}}))
		}
		return p.normEls(els)
	}
}

// splitAt divides els at byte offset n; ok is false when els is shorter.
func (p *Path) splitAt(els []El, n int) (bool, []El, []El) {
	var left []El
	els = p.normEls(els)
	for {
		if n == 0 {
			return true, left, els
		}
		els = p.normEls(els)
		if len(els) == 0 {
			return false, nil, nil
		}
		h := els[0]
		if h.t == nil {
			if len(h.c) >= n {
				return true, joinEls(left, cEl(h.c[:n])), joinEls(cEl(h.c[n:]), els[1:])
			}
			n -= len(h.c)
			left = joinEls(left, []El{h})
			els = els[1:]
			continue
		}
		if r := p.resolveSpecial(h.t); r != h.t {
			continue
		}
		a := h.t
		if l := mkLen(a); l.op == OInt && int(l.i) <= n {
			n -= int(l.i)
			left = append(append([]El(nil), left...), h)
			els = els[1:]
			continue
		}
		if p.branch(mkLe(mkInt(int64(n)), mkLen(a))) {
			if e := p.normEls(els); e[0].t != a {
				els = e
				continue
			}
			var x, y *Term
			if n == 1 {
				x = mkSkol("first", SStr, a)
			} else {
				x = mkSkol("take", SStr, a, mkInt(int64(n)))
			}
			y = mkSkol("drop", SStr, a, mkInt(int64(n)))
			p.decompose(a, []El{{t: x}, {t: y}}, intern(Term{op: OEq, sort: SBool, args: []*Term{intern(Term{op: OLen, sort: SInt, args: []*Term{x}}), mkInt(int64(n))}}))
			p.nonEmp[x] = true
			return true, append(append([]El(nil), left...), El{t: x}), p.normEls(append([]El{{t: y}}, els[1:]...))
		}
		// a is shorter than n: fix its length
		ln := int(p.concInt(mkLen(a)))
		e := p.normEls(els)
		if len(e) > 0 && e[0].t == a && ln > 0 {
			left = append(append([]El(nil), left...), El{t: a})
			els = e[1:]
			n -= ln
			continue
		}
		els = e
		if ln == 0 && len(els) > 0 && els[0].t == a {
			els = els[1:]
		}
	}
}

func (p *Path) lenVal(els []El) value {
	c := int64(0)
	m := map[*Term]int64{}
	for _, e := range els {
		if e.t == nil {
			c += int64(len(e.c))
			continue
		}
		switch l := mkLen(e.t); l.op {
		case OInt:
			c += l.i
		case OSum:
			c += l.i
			for k, a := range l.args {
				m[a] += l.coefs[k]
			}
		default:
			m[l]++
		}
	}
	if len(m) == 0 {
		return c
	}
	t := mkLinear(m, c)
	if t.op == OInt {
		return t.i
	}
	return t
}

// splitAtVal divides at a possibly symbolic offset.
func (p *Path) splitAtVal(els []El, off value) (bool, []El, []El) {
	els = p.normEls(els)
	if n, ok := off.(int64); ok {
		if n < 0 {
			return false, nil, nil
		}
		return p.splitAt(els, int(n))
	}
	t := off.(*Term)
	cur := mkInt(0)
	for i := 0; i <= len(els); i++ {
		d := mkSub(t, cur)
		if d.op == OInt {
			if d.i >= 0 {
				ok, l, r := p.splitAt(els[i:], int(d.i))
				return ok, joinEls(els[:i], l), r
			}
			if i > 0 && els[i-1].t == nil && int(-d.i) <= len(els[i-1].c) {
				k := len(els[i-1].c) + int(d.i)
				return true, joinEls(els[:i-1], cEl(els[i-1].c[:k])), joinEls(cEl(els[i-1].c[k:]), els[i:])
			}
		}
		if i < len(els) {
			if els[i].t == nil {
				cur = mkAdd(cur, mkInt(int64(len(els[i].c))))
			} else {
				cur = mkAdd(cur, mkLen(els[i].t))
			}
		}
	}
	// offset counted from the end?
	n := p.concInt(t)
	if n < 0 {
		return false, nil, nil
	}
	return p.splitAt(els, int(n))
}

// explode turns every atom into single characters, bounding lengths.
func (p *Path) explode(els []El) []El {
	var out []El
	els = p.normEls(els)
	for i := 0; i < len(els); i++ {
		e := els[i]
		if e.t == nil || isLen1(e.t) {
			out = append(out, e)
			continue
		}
		if r := p.resolveSpecial(e.t); r != e.t {
			els = append(p.normEls([]El{e}), els[i+1:]...)
			i = -1
			continue
		}
		lt := mkLen(e.t)
		var n int
		if lt.op == OInt {
			n = int(lt.i)
		} else {
			for n = 0; ; n++ {
				if n > p.h.maxChars {
					p.bound("symbolic text longer than %d in a byte-level loop", p.h.maxChars)
				}
				if p.branch(mkEq(lt, mkInt(int64(n)))) {
					break
				}
			}
		}
		if x := p.normEls([]El{e}); len(x) != 1 || x[0].t != e.t {
			els = append(append([]El(nil), x...), els[i+1:]...)
			i = -1
			continue
		}
		var parts []El
		for k := 0; k < n; k++ {
			c := mkSkol("char", SStr, e.t, mkInt(int64(k)))
			parts = append(parts, El{t: c})
		}
		var cs []*Term
		for _, x := range parts {
			cs = append(cs, intern(Term{op: OEq, sort: SBool, args: []*Term{intern(Term{op: OLen, sort: SInt, args: []*Term{x.t}}), mkInt(1)}}))
		}
		if n > 0 {
			p.decompose(e.t, parts, cs...)
			out = append(out, parts...)
		}
	}
	return out
}

// chars returns the bytes of els as a list of values (int64 or Term), exploding atoms.
func (p *Path) bytesOf(els []El) []value {
	var out []value
	for _, e := range p.explode(els) {
		if e.t == nil {
			for i := 0; i < len(e.c); i++ {
				out = append(out, int64(e.c[i]))
			}
		} else {
			out = append(out, byteVal(e.t))
		}
	}
	return out
}

func byteVal(t *Term) value {
	c := mkCode(t)
	if c.op == OInt {
		return c.i
	}
	return c
}

// bytesToEls is the inverse for a list of byte values.
func bytesToEls(bs []value) []El {
	var out []El
	for _, b := range bs {
		switch b := b.(type) {
		case int64:
			out = append(out, El{c: string([]byte{byte(b)})})
		case *Term:
			out = append(out, tEl(mkFromCode(b))...)
		}
	}
	return joinEls(out)
}

// eqStr builds the equality of two string values.
func (p *Path) eqStr(a, b value) *Term {
	r := p.eqStr0(a, b)
	if s := p.w.solver; auditPart > 0 {
		if _, ok := a.(string); ok {
			if _, ok := b.(string); ok {
				return r
			}
		}
		if s.sampled(&s.nEq) {
			// the equality of the texts as they stand, for the solver to compare with
			if x, y := rawTerm(a), rawTerm(b); x != nil && y != nil && x != y {
				raw := intern(Term{op: OEq, sort: SBool, args: []*Term{x, y}})
				if raw != r {
					p.auditTerm(mkNot(intern(Term{op: OEq, sort: SBool, args: []*Term{raw, r}})))
				}
			}
		}
	}
	return r
}

func rawTerm(v value) *Term {
	switch v := v.(type) {
	case string:
		return mkStr(v)
	case *Term:
		return v
	}
	return nil
}

func (p *Path) eqStr0(a, b value) *Term {
	if x, ok := a.(string); ok {
		if y, ok := b.(string); ok {
			return mkBool(x == y)
		}
	}
	x, y := p.norm(a), p.norm(b)
	t := mkEq(elsTerm(x), elsTerm(y))
	if t.op == OBool {
		return t
	}
	// case mapping against a literal
	if len(x) == 1 && len(y) <= 1 {
		if r := foldEq(x, y); r != nil {
			return r
		}
	}
	if len(y) == 1 && len(x) <= 1 {
		if r := foldEq(y, x); r != nil {
			return r
		}
	}
	if hasEsc(x) || hasEsc(y) {
		x, y = p.resolveEls(x), p.resolveEls(y)
		t = mkEq(elsTerm(x), elsTerm(y))
	}
	return t
}

func foldEq(x, y []El) *Term {
	t := x[0].t
	if t == nil || t.op != OSkol || t.s != "lower" && t.s != "upper" {
		return nil
	}
	lit, ok := elsConst(y)
	if !ok {
		return nil
	}
	if asciiMap(lit, t.s == "upper") != lit {
		return tFalse
	}
	if lit == "" {
		return mkEq(t.args[0], mkStr(""))
	}
	return mkInRe(t.args[0], reFold(lit))
}

func hasEsc(els []El) bool {
	for _, e := range els {
		if e.t != nil && e.t.op == OSkol && strings.HasPrefix(e.t.s, "esc") {
			return true
		}
	}
	return false
}

func (p *Path) resolveEls(els []El) []El {
	for i := 0; i < 64; i++ {
		els = p.normEls(els)
		if !hasEsc(els) {
			return els
		}
		for _, e := range els {
			if e.t != nil && e.t.op == OSkol && strings.HasPrefix(e.t.s, "esc") {
				p.resolveSpecial(e.t)
				break
			}
		}
	}
	return els
}

var jsonPlain = func() CharSet {
	c := setRange(0x20, 0x7e)
	c.del('"')
	c.del('\\')
	return c
}()

func escSafe(fn string) CharSet {
	c := jsonPlain
	if fn == "esc:html" {
		c.del('<')
		c.del('>')
		c.del('&')
	}
	return c
}

// resolveSpecial expands a JSON-escaped atom far enough to be looked into.
// It returns the same term when nothing changed.
func (p *Path) resolveSpecial(t *Term) *Term {
	if t.op != OSkol || !strings.HasPrefix(t.s, "esc") {
		if t.op == OSkol && (t.s == "lower" || t.s == "upper") {
			cs := upperSet
			if t.s == "upper" {
				cs = lowerSet
			}
			if p.branch(mkInRe(t.args[0], reStar(cs.not()))) {
				if _, ok := p.subst[t]; !ok {
					p.subst[t] = tEl(t.args[0])
				}
				return elsTerm(p.normEls(tEl(t.args[0])))
			}
			els := p.explode(tEl(t.args[0]))
			var out []El
			for _, e := range els {
				if e.t == nil {
					out = append(out, El{c: asciiMap(e.c, t.s == "upper")})
					continue
				}
				if p.branch(mkInRe(e.t, reStar(cs))) {
					d := int64(32)
					if t.s == "upper" {
						d = -32
					}
					out = append(out, tEl(mkFromCode(mkAdd(mkCode(e.t), mkInt(d))))...)
				} else {
					out = append(out, e)
				}
			}
			p.subst[t] = out
			return elsTerm(out)
		}
		return t
	}
	if s, ok := p.subst[t]; ok {
		return elsTerm(p.normEls(s))
	}
	var out []El
	safe := escSafe(t.s)
	for _, e := range p.normEls(tEl(t.args[0])) {
		if e.t == nil {
			out = append(out, El{c: jsonEscape(e.c, t.s == "esc:html")})
			continue
		}
		if p.branch(mkInRe(e.t, reStar(safe))) {
			out = append(out, e)
			continue
		}
		// split at the first unsafe character
		a := e.t
		if x := p.normEls([]El{e}); len(x) != 1 || x[0].t != a {
			for _, y := range x {
				if y.t == nil {
					out = append(out, El{c: jsonEscape(y.c, t.s == "esc:html")})
				} else {
					out = append(out, El{t: mkSkol(t.s, SStr, y.t)})
				}
			}
			continue
		}
		un := safe.not().inter(p.charsOf(a))
		if isLen1(a) {
			b := byte(p.concInt(byteVal(a)))
			out = append(out, El{c: jsonEscape(string([]byte{b}), t.s == "esc:html")})
			continue
		}
		x := mkSkol("lead:"+safe.str(), SStr, a)
		y := mkSkol("ltrim:"+safe.str(), SStr, a)
		p.decompose(a, []El{{t: x}, {t: y}}, mkInRe(x, reStar(safe)), mkInRe(y, reFirstIn(un)))
		_, f, r := p.splitAt(p.normEls([]El{{t: y}}), 1)
		f = p.normEls(f)
		var b byte
		if s, ok := elsConst(f); ok {
			b = s[0]
		} else {
			b = byte(p.concInt(byteVal(f[0].t)))
		}
		out = append(out, El{t: x}, El{c: jsonEscape(string([]byte{b}), t.s == "esc:html")})
		for _, z := range p.normEls(r) {
			if z.t == nil {
				out = append(out, El{c: jsonEscape(z.c, t.s == "esc:html")})
			} else {
				out = append(out, El{t: mkSkol(t.s, SStr, z.t)})
			}
		}
	}
	p.subst[t] = out
	return elsTerm(p.normEls(out))
}

func (c CharSet) str() string {
	var b []byte
	for i := 0; i < 256; i++ {
		if c.has(byte(i)) {
			b = append(b, byte(i))
		}
	}
	return string(b)
}

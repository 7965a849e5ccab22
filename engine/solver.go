package main

import (
	"bufio"
	"fmt"
	"io"
	"math/rand"
	"os"
	"os/exec"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result uint8

const (
	Unsat Result = iota
	Sat
	Unknown
)

type SolverStats struct {
	local, localSat, localMiss, queries, cacheHits, unknown, fallback, spurious, crossChecked, crossDisagree int64
	ns                                                                                                       int64
	maxNs                                                                                                    int64
}

var stats SolverStats

type cached struct {
	res  Result
	vals []cval
}

var dumpDir = os.Getenv("SYMGO_DUMP")
var dumpN int64

var qcache sync.Map // text -> cached

type proc struct {
	cmd    *exec.Cmd
	in     io.WriteCloser
	out    *bufio.Reader
	n      int
	argv   []string
	prelud string
}

func startProc(argv []string, prelude string) *proc {
	p := &proc{argv: argv, prelud: prelude}
	p.start()
	return p
}
func (p *proc) start() {
	p.cmd = exec.Command(p.argv[0], p.argv[1:]...)
	p.in, _ = p.cmd.StdinPipe()
	o, _ := p.cmd.StdoutPipe()
	p.out = bufio.NewReaderSize(o, 1<<16)
	if err := p.cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "cannot start solver:", err)
		os.Exit(2)
	}
	io.WriteString(p.in, p.prelud)
	p.n = 0
}
func (p *proc) stop() {
	if p.cmd != nil && p.cmd.Process != nil {
		p.cmd.Process.Kill()
		p.cmd.Wait()
	}
}

// readSexp reads one line or one balanced s-expression
func (p *proc) readSexp() (string, error) {
	var b strings.Builder
	depth := 0
	inStr := false
	for {
		c, err := p.out.ReadByte()
		if err != nil {
			return b.String(), err
		}
		if b.Len() == 0 && (c == '\n' || c == ' ') {
			continue
		}
		if inStr {
			b.WriteByte(c)
			if c == '"' {
				inStr = false
			}
			continue
		}
		switch c {
		case '"':
			inStr = true
		case '(':
			depth++
		case ')':
			depth--
		case '\n':
			if depth == 0 {
				return b.String(), nil
			}
		}
		b.WriteByte(c)
		if depth == 0 && c == ')' {
			return b.String(), nil
		}
	}
}

type Solver struct {
	main, alt          *proc
	tlimit             int // ms
	auditing           bool
	nAudit, nEq, nPath int64
	auditNs            int64
}

func newSolver(tlimit int) *Solver {
	s := &Solver{tlimit: tlimit}
	s.main = startProc([]string{"cvc5", "--incremental", "--strings-exp", "--produce-models", "--lang=smt2", "--tlimit-per=" + strconv.Itoa(tlimit)}, "(set-logic ALL)\n")
	return s
}
func (s *Solver) close() {
	s.main.stop()
	if s.alt != nil {
		s.alt.stop()
	}
}

func (p *proc) query(text string, names []string, hard time.Duration) (Result, []string) {
	p.n++
	if p.n > 400 {
		p.stop()
		p.start()
	}
	var killed atomic.Bool
	cur := p.cmd
	tm := time.AfterFunc(hard, func() { killed.Store(true); cur.Process.Kill() })
	defer tm.Stop()
	io.WriteString(p.in, "(push 1)\n"+text+"(check-sat)\n")
	line, err := p.readSexp()
	if err != nil || killed.Load() {
		p.stop()
		p.start()
		return Unknown, nil
	}
	line = strings.TrimSpace(line)
	switch line {
	case "unsat":
		io.WriteString(p.in, "(pop 1)\n")
		return Unsat, nil
	case "sat":
		var vals []string
		if len(names) > 0 {
			io.WriteString(p.in, "(get-value ("+strings.Join(names, " ")+"))\n")
			sx, err := p.readSexp()
			if err != nil {
				p.stop()
				p.start()
				return Unknown, nil
			}
			vals = parseValues(sx, len(names))
			if vals == nil {
				p.stop()
				p.start()
				return Unknown, nil
			}
		}
		io.WriteString(p.in, "(pop 1)\n")
		return Sat, vals
	default:
		if !strings.HasPrefix(line, "unknown") {
			if os.Getenv("SYMGO_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver says:", line, "\n", text)
			}
		}
		p.stop()
		p.start()
		return Unknown, nil
	}
}

// parseValues parses ((v0 val) (v1 val) ...)
func parseValues(sx string, n int) []string {
	out := make([]string, 0, n)
	i := 0
	skip := func() {
		for i < len(sx) && (sx[i] == ' ' || sx[i] == '\n') {
			i++
		}
	}
	tok := func() string {
		skip()
		st := i
		if i < len(sx) && sx[i] == '"' {
			i++
			for i < len(sx) {
				if sx[i] == '"' {
					if i+1 < len(sx) && sx[i+1] == '"' {
						i += 2
						continue
					}
					i++
					break
				}
				i++
			}
			return sx[st:i]
		}
		if i < len(sx) && sx[i] == '(' {
			d := 0
			for i < len(sx) {
				if sx[i] == '(' {
					d++
				}
				if sx[i] == ')' {
					d--
				}
				i++
				if d == 0 {
					break
				}
			}
			return sx[st:i]
		}
		for i < len(sx) && !strings.ContainsRune(" \n()", rune(sx[i])) {
			i++
		}
		return sx[st:i]
	}
	skip()
	if i >= len(sx) || sx[i] != '(' {
		return nil
	}
	i++
	for k := 0; k < n; k++ {
		skip()
		if i >= len(sx) || sx[i] != '(' {
			return nil
		}
		i++
		tok()
		out = append(out, tok())
		skip()
		if i >= len(sx) || sx[i] != ')' {
			return nil
		}
		i++
	}
	return out
}

func parseVal(s string, so Sort) (cval, bool) {
	switch so {
	case SBool:
		return cval{i: b2i(s == "true")}, true
	case SInt:
		neg := false
		if strings.HasPrefix(s, "(-") {
			neg = true
			s = strings.TrimSpace(strings.TrimSuffix(s[2:], ")"))
		}
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			return cval{}, false
		}
		if neg {
			n = -n
		}
		return cval{i: n}, true
	}
	if len(s) < 2 || s[0] != '"' {
		return cval{}, false
	}
	s = strings.ReplaceAll(s[1:len(s)-1], `""`, `"`)
	var b []byte
	for i := 0; i < len(s); i++ {
		if s[i] == '\\' && i+1 < len(s) && s[i+1] == 'u' {
			var h string
			if i+2 < len(s) && s[i+2] == '{' {
				j := strings.IndexByte(s[i:], '}')
				if j < 0 {
					return cval{}, false
				}
				h = s[i+3 : i+j]
				i += j
			} else if i+5 < len(s) {
				h = s[i+2 : i+6]
				i += 5
			} else {
				return cval{}, false
			}
			n, err := strconv.ParseUint(h, 16, 32)
			if err != nil || n > 255 {
				return cval{}, false
			}
			b = append(b, byte(n))
			continue
		}
		b = append(b, s[i])
	}
	return cval{s: string(b)}, true
}

// check decides the conjunction of cs. On Sat it returns values for all variables of cs.
func (s *Solver) check(cs []*Term) (Result, map[*Term]cval) {
	return s.checkLemmas(cs, nil, 0)
}

// checkFree solves cs with skolems taken as free variables.
func (s *Solver) checkFree(cs []*Term) (Result, map[*Term]cval) {
	r, vars := s.raw(cs)
	if r.res != Sat {
		return r.res, nil
	}
	m := map[*Term]cval{}
	for i, v := range vars {
		m[v] = r.vals[i]
	}
	return Sat, m
}

func (s *Solver) raw(all []*Term) (cached, []*Term) {
	var vars []*Term
	idx := map[*Term]int{}
	name := func(t *Term) string {
		k, ok := idx[t]
		if !ok {
			k = len(vars)
			idx[t] = k
			vars = append(vars, t)
		}
		return "v" + strconv.Itoa(k)
	}
	var body strings.Builder
	// the order is total: state the equality that two negated comparisons imply
	notLess := map[[2]*Term]bool{}
	for _, c := range all {
		if c.op == ONot && c.args[0].op == OStrLt {
			a := c.args[0].args
			notLess[[2]*Term{a[0], a[1]}] = true
			if notLess[[2]*Term{a[1], a[0]}] {
				all = append(all[:len(all):len(all)], mkEq(a[0], a[1]))
			}
		}
	}
	for _, c := range all {
		if c == tFalse {
			return cached{res: Unsat}, nil
		}
		body.WriteString("(assert ")
		c.write(&body, name)
		body.WriteString(")\n")
	}
	// hash functions: consistent, collision free, fixed length
	for i := 0; i < len(vars); i++ {
		v := vars[i]
		if v.op == OSkol && strings.HasPrefix(v.s, "hash:") {
			n := map[string]int{"hash:sha1": 40, "hash:sha256": 64, "hash:md5": 32}[v.s]
			fmt.Fprintf(&body, "(assert (= (str.len %s) %d))\n", name(v), n)
			for j := 0; j < i; j++ {
				w := vars[j]
				if w.op == OSkol && w.s == v.s {
					fmt.Fprintf(&body, "(assert (= (= %s %s) (= ", name(v), name(w))
					v.args[0].write(&body, name)
					body.WriteByte(' ')
					w.args[0].write(&body, name)
					body.WriteString(")))\n")
				}
			}
		}
	}
	// escaping does not make texts shorter
	for _, v := range vars {
		if v.op == OSkol && strings.HasPrefix(v.s, "esc") {
			body.WriteString("(assert (<= (str.len ")
			v.args[0].write(&body, name)
			body.WriteString(") (str.len " + name(v) + ")))\n")
		}
	}
	// letter case: cvc5 knows the functions, z3 does not
	for _, v := range vars {
		if v.op == OSkol && (v.s == "lower" || v.s == "upper") {
			body.WriteString(cvc5Only + "(assert (= " + name(v) + " (str.to_" + v.s + " ")
			v.args[0].write(&body, name)
			body.WriteString(")))\n")
		}
	}
	var hd strings.Builder
	names := make([]string, len(vars))
	for i, v := range vars {
		names[i] = "v" + strconv.Itoa(i)
		hd.WriteString("(declare-const " + names[i] + " " + [...]string{"Bool", "Int", "String"}[v.sort] + ")\n")
	}
	text := hd.String() + body.String()
	var r cached
	if _, ok := noAudit.Load(text); ok && s.auditing {
		return cached{res: Unknown}, vars
	}
	if c, ok := qcache.Load(text); ok {
		atomic.AddInt64(&stats.cacheHits, 1)
		r = c.(cached)
	} else {
		r = s.solve(text, names, vars)
		if !s.auditing || r.res != Unknown {
			qcache.Store(text, r)
		} else {
			noAudit.Store(text, true)
		}
	}
	return r, vars
}

func (s *Solver) checkLemmas(cs []*Term, lemmas []*Term, depth int) (Result, map[*Term]cval) {
	r, vars := s.raw(append(append([]*Term(nil), cs...), lemmas...))
	if r.res != Sat {
		return r.res, nil
	}
	m := map[*Term]cval{}
	for i, v := range vars {
		m[v] = r.vals[i]
	}
	// validate with the evaluator; refine uninterpreted functions on mismatch
	mod := newModel()
	for _, v := range vars {
		if v.op == OVar {
			mod.v[v.s] = m[v]
		}
		for _, w := range v.vars { // inputs inside skolem arguments
			if w.op == OVar {
				if _, ok := mod.v[w.s]; !ok {
					mod.v[w.s] = m[w]
				}
			}
		}
	}
	ok := true
	for _, c := range cs {
		if mod.eval(c).i == 0 {
			ok = false
			break
		}
	}
	if ok {
		res := map[*Term]cval{}
		for _, v := range vars {
			res[v] = mod.eval(v)
			for _, w := range v.vars {
				res[w] = mod.eval(w)
			}
		}
		return Sat, res
	}
	if depth == 2 {
		if m := s.sampleHashes(cs, vars, mod); m != nil {
			return Sat, m
		}
	}
	if depth >= 8 {
		atomic.AddInt64(&stats.spurious, 1)
		if os.Getenv("SYMGO_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "spurious model:", r.vals)
		}
		return Unknown, nil
	}
	// lemma: args = solver's values -> skolem = f(values)
	var nl []*Term
	sv := newModel() // solver's view
	for _, v := range vars {
		if v.op == OVar {
			sv.v[v.s] = m[v]
		} else {
			sv.memo[v] = m[v]
		}
	}
	for _, v := range vars {
		if v.op != OSkol {
			continue
		}
		var pre []*Term
		cv := make([]cval, len(v.args))
		for i, a := range v.args {
			cv[i] = sv.eval(a)
			pre = append(pre, mkEq(a, valTerm(cv[i], a.sort)))
		}
		fv, fok := skolEval(v.s, cv)
		if !fok || fv == m[v] {
			continue
		}
		nl = append(nl, mkOr(mkNot(mkAnd(pre...)), mkEq(v, valTerm(fv, v.sort))))
	}
	if len(nl) == 0 {
		atomic.AddInt64(&stats.spurious, 1)
		if os.Getenv("SYMGO_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "spurious model (no lemma):", r.vals)
		}
		return Unknown, nil
	}
	return s.checkLemmas(cs, append(append([]*Term(nil), lemmas...), nl...), depth+1)
}

// sampleHashes looks for a model by giving the arguments of hash functions other
// values: the order of two hashes cannot be steered, only tried. Whatever it
// returns satisfies every constraint under the real hash functions.
func (s *Solver) sampleHashes(cs []*Term, vars []*Term, mod *Model) map[*Term]cval {
	free := map[*Term]bool{}
	for _, v := range vars {
		if v.op == OSkol && strings.HasPrefix(v.s, "hash:") {
			for _, w := range v.vars {
				if w.op == OVar && w.sort == SStr {
					free[w] = true
				}
			}
		}
	}
	if len(free) == 0 {
		return nil
	}
	var order []*Term
	for w := range free {
		order = append(order, w)
	}
	sort.Slice(order, func(i, j int) bool { return order[i].s < order[j].s })
	rnd := rand.New(rand.NewSource(int64(len(cs))))
	const set = "abcdefghijklmnopqrstuvwxyz0123456789"
	const hex = "0123456789abcdef"
	for try := 0; try < 400; try++ {
		m := newModel()
		for k, v := range mod.v {
			m.v[k] = v
		}
		for _, w := range order {
			n := len(mod.v[w.s].s)
			if try%2 == 0 && n < 6 {
				n = rnd.Intn(7)
			}
			from := set
			if try%4 >= 2 {
				from = hex
			}
			b := make([]byte, n)
			for i := range b {
				b[i] = from[rnd.Intn(len(from))]
			}
			m.v[w.s] = cval{s: string(b)}
		}
		ok := true
		for _, c := range cs {
			if m.eval(c).i == 0 {
				ok = false
				break
			}
		}
		if ok {
			res := map[*Term]cval{}
			for _, v := range vars {
				res[v] = m.eval(v)
				for _, w := range v.vars {
					res[w] = m.eval(w)
				}
			}
			return res
		}
	}
	return nil
}

// cvc5Only begins the assertions that only cvc5 is given.
const cvc5Only = ";cvc5 "

func (s *Solver) solve(text string, names []string, vars []*Term) cached {
	t0 := time.Now()
	if s.auditing {
		res, vals := s.main.query(strings.ReplaceAll(text, cvc5Only, ""), names, 400*time.Millisecond)
		r := cached{res: res}
		if res == Unknown {
			s.startAlt()
			res, vals = s.alt.query(text, names, 600*time.Millisecond)
			r.res = res
		}
		if res == Sat {
			r.vals, r.res = convVals(vals, vars)
		}
		if dumpDir != "" {
			n := atomic.AddInt64(&dumpN, 1)
			os.WriteFile(fmt.Sprintf("%s/audit%05d_%d.smt2", dumpDir, n, r.res), []byte(text), 0o644)
		}
		s.auditNs += int64(time.Since(t0))
		atomic.AddInt64(&stats.ns, int64(time.Since(t0)))
		atomic.AddInt64(&stats.queries, 1)
		return r
	}
	atomic.AddInt64(&stats.queries, 1)
	res, vals := s.main.query(strings.ReplaceAll(text, cvc5Only, ""), names, time.Duration(s.tlimit)*time.Millisecond+2*time.Second)
	r := cached{res: res}
	if res == Sat {
		r.vals, r.res = convVals(vals, vars)
	}
	if r.res == Unknown {
		atomic.AddInt64(&stats.fallback, 1)
		s.startAlt()
		res, vals = s.alt.query(text, names, time.Duration(s.tlimit)*time.Millisecond+2*time.Second)
		r = cached{res: res}
		if res == Sat {
			r.vals, r.res = convVals(vals, vars)
		}
	}
	d := int64(time.Since(t0))
	atomic.AddInt64(&stats.ns, d)
	for {
		o := atomic.LoadInt64(&stats.maxNs)
		if d <= o || atomic.CompareAndSwapInt64(&stats.maxNs, o, d) {
			break
		}
	}
	if dumpDir != "" {
		n := atomic.AddInt64(&dumpN, 1)
		os.WriteFile(fmt.Sprintf("%s/%05d_%d_%dms.smt2", dumpDir, n, r.res, d/1e6), []byte(text), 0o644)
	}
	if r.res == Unknown {
		atomic.AddInt64(&stats.unknown, 1)
		if os.Getenv("SYMGO_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, "UNKNOWN:", text)
		}
	}
	if d > 1e9 && os.Getenv("SYMGO_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "SLOW", time.Duration(d), r.res, text)
	}
	return r
}

func (s *Solver) startAlt() {
	if s.alt == nil {
		s.alt = startProc([]string{"z3-new", "-in", "-smt2"}, "(set-option :timeout "+strconv.Itoa(s.tlimit)+")\n(set-logic ALL)\n")
	}
}

func convVals(vals []string, vars []*Term) ([]cval, Result) {
	out := make([]cval, len(vals))
	for i, v := range vals {
		c, ok := parseVal(v, vars[i].sort)
		if !ok {
			return nil, Unknown
		}
		out[i] = c
	}
	return out, Sat
}

// slice returns the constraints of pc connected to those of seed (by shared variables).
func slice(pc []*Term, seed []*Term) []*Term {
	need := map[*Term]bool{}
	for _, s := range seed {
		for _, v := range s.vars {
			need[v] = true
		}
	}
	in := make([]bool, len(pc))
	for changed := true; changed; {
		changed = false
		for i, c := range pc {
			if in[i] {
				continue
			}
			for _, v := range c.vars {
				if need[v] {
					in[i] = true
					changed = true
					for _, w := range c.vars {
						need[w] = true
					}
					break
				}
			}
		}
	}
	var out []*Term
	seen := map[*Term]bool{}
	for i, c := range pc {
		if in[i] && !seen[c] {
			seen[c] = true
			out = append(out, c)
		}
	}
	return out
}

// audit asks the solver for a counterexample to a decision that the executor
// made from its own rules: t has the value v wherever pc holds. It looks at a
// sample of the decisions; most of them repeat each other.
func (p *Path) audit(t *Term, v bool) {
	s := p.w.solver
	if t.op == OBool || auditPart <= 0 {
		return
	}
	n := t
	if n.op == ONot {
		n = n.args[0]
	}
	if _, ok := p.facts[n]; ok {
		return
	}
	if !s.sampled(&s.nAudit) {
		return
	}
	if v {
		t = mkNot(t)
	}
	p.auditTerm(t)
}

func (s *Solver) sampled(n *int64) bool {
	*n++
	return (*n&(*n-1) == 0 || *n%512 == 0) && s.auditNs < auditPart
}

// auditTerm expects that t is false wherever pc holds.
func (p *Path) auditTerm(t *Term) {
	s := p.w.solver
	s.auditing = true
	res, vals := s.check(append([]*Term{t}, slice(p.pc, []*Term{t})...))
	s.auditing = false
	switch res {
	case Unsat:
		atomic.AddInt64(&stats.crossChecked, 1)
	case Sat:
		atomic.AddInt64(&stats.crossChecked, 1)
		atomic.AddInt64(&stats.crossDisagree, 1)
		fmt.Fprintf(os.Stderr, "engine defect: the solver refutes a decision of the executor: %s under %v: %v\n", t.String(), p.pc, vals)
	}
}

// auditPath asks the solver, for a sample of the completed paths, whether the
// path is feasible: assertions on an infeasible path would hold vacuously.
func (p *Path) auditPath() {
	s := p.w.solver
	if len(p.pc) == 0 || !s.sampled(&s.nPath) {
		return
	}
	s.auditing = true
	res, _ := s.check(p.pc)
	s.auditing = false
	switch res {
	case Sat:
		atomic.AddInt64(&stats.crossChecked, 1)
	case Unsat:
		atomic.AddInt64(&stats.crossChecked, 1)
		atomic.AddInt64(&stats.crossDisagree, 1)
		fmt.Fprintf(os.Stderr, "engine defect: the solver finds a completed path infeasible: %v\n", p.pc)
	}
}

var noAudit sync.Map // audits that take the solver too long

// auditPart is the solver time in ns that each worker may spend on audits.
var auditPart = int64(2e9)

func sortedKeys[V any](m map[string]V) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}

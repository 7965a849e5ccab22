package main

import (
	"fmt"
	"go/types"
	"math/rand"
	"os"
	"regexp"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Engine struct {
	prog            *ssa.Program
	pkgs            map[string]*ssa.Package
	errorIface      *types.Interface
	errorStringType types.Type
	errorType       types.Type
	trackFns        bool
	thorough        bool
	seed            int64

	mcache sync.Map // methodKey -> *ssa.Function
	icache sync.Map
	fresh  sync.Map
	jcache sync.Map
	preds  sync.Map
}

const harnessPkg = "verifharness/h"
const symPkg = "verifharness/sym"

func loadEngine(dir string) (*Engine, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "./h")
	if err != nil {
		return nil, err
	}
	nerr := 0
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			fmt.Fprintln(os.Stderr, "load:", e)
			nerr++
		}
	})
	if nerr > 0 {
		return nil, fmt.Errorf("%d package errors", nerr)
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	e := &Engine{prog: prog, pkgs: map[string]*ssa.Package{}, trackFns: true}
	for _, p := range prog.AllPackages() {
		e.pkgs[p.Pkg.Path()] = p
	}
	e.errorType = types.Universe.Lookup("error").Type()
	e.errorIface = e.errorType.Underlying().(*types.Interface)
	e.errorStringType = types.NewPointer(e.pkgs["errors"].Pkg.Scope().Lookup("errorString").Type())
	return e, nil
}

func (e *Engine) typeByName(pkg, name string) types.Type {
	p := e.pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

// freshPkg: package state is re-initialised on every path.
func (e *Engine) freshPkg(path string) bool {
	return strings.HasPrefix(path, repoMod) || strings.HasPrefix(path, "verifharness") || strings.Contains(path, "gordf") || strings.Contains(path, "go-struct-converter")
}

type mkey struct {
	t types.Type
	n string
}

func (e *Engine) lookupMethod(t types.Type, m *types.Func) *ssa.Function {
	k := mkey{t, m.Id()}
	if f, ok := e.mcache.Load(k); ok {
		return f.(*ssa.Function)
	}
	f := e.prog.LookupMethod(t, m.Pkg(), m.Name())
	e.mcache.Store(k, f)
	return f
}

// methodByName finds an exported method.
func (e *Engine) methodByName(t types.Type, name string) *ssa.Function {
	k := mkey{t, name}
	if f, ok := e.mcache.Load(k); ok {
		return f.(*ssa.Function)
	}
	sel := e.prog.MethodSets.MethodSet(t).Lookup(nil, name)
	var f *ssa.Function
	if sel != nil {
		f = e.prog.MethodValue(sel)
	}
	e.mcache.Store(k, f)
	return f
}

type ikey struct {
	t  types.Type
	it *types.Interface
}

func (e *Engine) implements(x Iface, it *types.Interface) bool {
	if n, ok := x.v.(*Native); ok {
		return nativeImplements(n, it)
	}
	if _, ok := x.v.(RType); ok {
		for i := 0; i < it.NumMethods(); i++ {
			switch it.Method(i).Name() {
			case "Kind", "Elem", "Name", "PkgPath", "String":
			default:
				return it.NumMethods() > 10
			}
		}
		return true
	}
	k := ikey{x.t, it}
	if v, ok := e.icache.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(x.t, it)
	e.icache.Store(k, r)
	return r
}

// ---- harness and exploration

type Harness struct {
	name string
	fn   *ssa.Function

	maxDecisions int
	maxConc      int
	maxChars     int
	maxSteps     int64
	maxDepth     int
	maxSplit     int
	mapOrder     bool
	mapPerm      int
	maxPaths     int

	mu         sync.Mutex
	q          taskQueue
	prof       map[string]int
	pending    int // queued + running
	paths      int
	ends       map[string]int
	notes      map[string]int
	reach      map[string]int
	asserts    int
	discharged int
	inconcl    int
	infeasible int
	unknown    int
	viols      []Violation
	violSeen   map[string]int
	stopped    string
	maxDec     int
	sample     string
	samples    []string
	steps      int64
	decs       int64
	declared   map[string]bool
	maxVal     int     // how many (0: the usual few)
	val        []Trace // paths replayed natively to validate the encoding
	nval       map[string]int
}

func newHarness(fn *ssa.Function) *Harness {
	return &Harness{name: fn.Name(), fn: fn, maxDecisions: 4000, maxConc: 40, maxChars: 4, maxSteps: 30_000_000, maxDepth: 1500, maxSplit: 3, mapPerm: 4, maxPaths: 1 << 30,
		ends: map[string]int{}, notes: map[string]int{}, reach: map[string]int{}, violSeen: map[string]int{}, declared: map[string]bool{}, nval: map[string]int{}, prof: map[string]int{}}
}

type Worker struct {
	eng         *Engine
	solver      *Solver
	stack       []*fnInfo
	globals     map[string]map[string]*value
	roCells     map[*value]bool
	regexps     map[*value]*regexp.Regexp
	deferFrames []*frame
	fns         map[string]bool
	id          int
}

func (w *Worker) touch(n string) { w.fns[n] = true }

type Explorer struct {
	eng         *Engine
	hs          []*Harness
	mu          sync.Mutex
	cond        *sync.Cond
	rr          int
	deadline    time.Time
	fns         map[string]bool
	timedOut    bool
	abandoned   bool
	running     int
	maxViol     int
	pathsDone   int64
	onViolation func(h *Harness, v Violation) bool
}

func (x *Explorer) next() (*Harness, altTask, bool) {
	x.mu.Lock()
	defer x.mu.Unlock()
	for {
		if time.Now().After(x.deadline) {
			x.timedOut = true
			x.cond.Broadcast()
			return nil, altTask{}, false
		}
		n := len(x.hs)
		for i := 0; i < n; i++ {
			h := x.hs[(x.rr+i)%n]
			if h.q.n > 0 && h.stopped == "" {
				t := h.q.pop()
				x.rr = (x.rr + i + 1) % n
				x.running++
				return h, t, true
			}
		}
		if x.running == 0 {
			x.cond.Broadcast()
			return nil, altTask{}, false
		}
		x.cond.Wait()
	}
}

func (x *Explorer) finish(h *Harness, alts []altTask) {
	x.mu.Lock()
	for _, t := range alts {
		h.q.push(t)
	}
	x.running--
	x.cond.Broadcast()
	x.mu.Unlock()
}

func (x *Explorer) run(nw int, tlimit int) {
	x.cond = sync.NewCond(&x.mu)
	for _, h := range x.hs {
		h.q.rng = rand.New(rand.NewSource(x.eng.seed))
		h.q.push(altTask{model: newModel()})
	}
	stopTick := make(chan bool)
	go func() {
		for {
			select {
			case <-stopTick:
				return
			case <-time.After(time.Second):
				x.cond.Broadcast()
			}
		}
	}()
	var wg sync.WaitGroup
	for i := 0; i < nw; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &Worker{eng: x.eng, solver: newSolver(tlimit), globals: map[string]map[string]*value{}, regexps: map[*value]*regexp.Regexp{}, fns: map[string]bool{}, id: i}
			defer w.solver.close()
			for {
				h, t, ok := x.next()
				if !ok {
					break
				}
				alts := w.process(x, h, t)
				x.finish(h, alts)
			}
			x.mu.Lock()
			for f := range w.fns {
				x.fns[f] = true
			}
			x.mu.Unlock()
		}(i)
	}
	wg.Wait()
	close(stopTick)
}

func (w *Worker) process(x *Explorer, h *Harness, t altTask) []altTask {
	model := t.model.clone()
	if t.cond != nil {
		res, vals := w.solver.decide(t.cond, t.pc, model)
		switch res {
		case Unsat:
			h.mu.Lock()
			h.infeasible++
			h.mu.Unlock()
			return nil
		case Unknown:
			h.mu.Lock()
			h.unknown++
			h.notes["solver gave no answer on a branch"]++
			h.mu.Unlock()
			return nil
		}
		model = t.model.clone()
		for v, c := range vals {
			if v.op == OVar {
				model.v[v.s] = c
			}
		}
	}
	if profile && t.cond != nil {
		h.mu.Lock()
		h.prof[t.site]++
		h.mu.Unlock()
	}
	p := &Path{w: w, h: h, prefix: t.prefix, model: model, facts: map[*Term]bool{}, subst: map[*Term][]El{}, chars: map[*Term]CharSet{}, nonEmp: map[*Term]bool{}, rng: map[*Term][2]int64{},
		nInput: map[string]int{}, reach: map[string]bool{}, side: map[*value]any{}, globals: map[string]map[string]*value{}}
	kind, reason := w.runPath(p)
	if kind == "done" {
		p.auditPath()
	}
	atomic.AddInt64(&x.pathsDone, 1)
	h.mu.Lock()
	defer h.mu.Unlock()
	h.paths++
	h.steps += p.steps
	key := kind
	if reason != "" && kind != "done" {
		key += ": " + reason
	}
	h.ends[key]++
	for n, c := range p.notes {
		h.notes[n] += c
	}
	if kind == "done" {
		for r := range p.reach {
			h.reach[r]++
		}
		if len(h.samples) < 3 && (h.paths%7 == 1 || len(h.samples) == 0) {
			h.samples = append(h.samples, p.describePath())
		}
	}
	h.decs += int64(len(p.decs))
	// keep some paths of every ending for native validation
	if kind == "done" || kind == "unsupported" || kind == "internal" || kind == "bound" {
		lim := 24
		if kind != "done" {
			lim = 8
		}
		if h.maxVal > 0 && kind == "done" {
			lim = 2 * h.maxVal
		}
		h.nval[key]++
		if n := h.nval[key]; n <= lim/2 || (n%17 == 0 && n/17 <= lim/2) {
			h.val = append(h.val, p.trace(kind))
		}
	}
	h.asserts += p.asserts
	h.discharged += p.discharged
	h.inconcl += p.inconcl
	if len(p.decs) > h.maxDec {
		h.maxDec = len(p.decs)
	}
	for _, v := range p.viol {
		k := v.Kind + "|" + v.Msg + "|" + v.Site + "|" + v.Known
		h.violSeen[k]++
		if h.violSeen[k] <= 4 {
			h.viols = append(h.viols, v)
		}
		if len(h.viols) >= 40 {
			h.stopped = "stopped after 40 counterexamples"
		}
	}
	if h.paths >= h.maxPaths {
		h.stopped = fmt.Sprintf("stopped after %d paths", h.paths)
	}
	if profile {
		for _, t := range p.alts {
			if t.cond != nil {
				h.prof["open "+t.site]++
			}
		}
	}
	return p.alts
}

func (p *Path) describePath() string {
	var b strings.Builder
	for _, in := range p.inputs {
		if b.Len() > 400 {
			b.WriteString("…")
			break
		}
		if in.t != nil {
			v := p.model.eval(in.t)
			if in.Kind == "str" {
				fmt.Fprintf(&b, "%s=%q ", in.Name, v.s)
			} else {
				fmt.Fprintf(&b, "%s=%d ", in.Name, v.i)
			}
		} else {
			fmt.Fprintf(&b, "%s=%d ", in.Name, in.Conc)
		}
	}
	fmt.Fprintf(&b, "(%d decisions, %d constraints)", len(p.decs), len(p.pc))
	return b.String()
}

// Trace is a concrete instance of an explored path.
type Trace struct {
	Harness string
	Kind    string
	Inputs  []inputVal
	Reach   []string
	Nondet  bool
	Known   string
}

func (p *Path) trace(kind string) Trace {
	t := Trace{Harness: p.h.name, Kind: kind, Inputs: p.inputVals(p.model), Nondet: p.nondet, Known: strings.Join(p.known, ",")}
	for r := range p.reach {
		t.Reach = append(t.Reach, r)
	}
	sort.Strings(t.Reach)
	return t
}

func (p *Path) inputVals(m *Model) []inputVal {
	var vs []inputVal
	for _, in := range p.inputs {
		iv := inputVal{Name: in.Name, Kind: in.Kind, I: in.Conc}
		if in.t != nil {
			c := m.eval(in.t)
			if in.Kind == "str" {
				iv.B = []byte(c.s)
				iv.S = fmt.Sprintf("%q", c.s)
			} else {
				iv.I = c.i
			}
		}
		vs = append(vs, iv)
	}
	return vs
}

func (p *Path) violation(kind, msg, site string, m *Model) {
	v := Violation{Harness: p.h.name, Msg: msg, Site: site, Kind: kind, Model: m, Nondet: p.nondet, Known: strings.Join(p.known, ",")}
	v.Inputs = p.inputVals(m)
	p.viol = append(p.viol, v)
}

func (w *Worker) runPath(p *Path) (kind, reason string) {
	w.stack = w.stack[:0]
	w.deferFrames = w.deferFrames[:0]
	w.roCells = nil
	defer func() {
		r := recover()
		switch r := r.(type) {
		case nil:
		case endPath:
			kind, reason = r.kind, r.reason
			if kind == "hang" {
				p.violation("hang", reason, p.site(), p.model)
				reason = "possible non-termination"
			}
		case goPanic:
			kind, reason = "panic", r.msg
			p.violation("panic", r.msg, r.site, p.model)
		default:
			kind, reason = "internal", fmt.Sprint(r)
			if os.Getenv("SYMGO_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "INTERNAL:", r, "\n", string(debug.Stack()))
				var names []string
				for _, f := range w.stack {
					names = append(names, f.name)
				}
				fmt.Fprintln(os.Stderr, "target stack:", names)
			}
			reason = fmt.Sprintf("engine: %v [in %s]", r, p.site())
			if len(reason) > 200 {
				reason = reason[:200]
			}
		}
	}()
	p.callFn(p.h.fn, nil, nil)
	for _, c := range p.pc {
		if p.model.eval(c).i == 0 {
			return "internal", "engine: the model does not satisfy the path condition: " + c.String()
		}
	}
	return "done", ""
}

func (e *Engine) harnesses(re string) []*Harness {
	pkg := e.pkgs[harnessPkg]
	rx := regexp.MustCompile(re)
	var hs []*Harness
	var names []string
	for n, m := range pkg.Members {
		if f, ok := m.(*ssa.Function); ok && len(f.Params) == 0 && rx.MatchString(n) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	for _, n := range names {
		hs = append(hs, newHarness(pkg.Func(n)))
	}
	return hs
}

// taskQueue serves the open branches of one harness round-robin over the
// combinations of choices, so that every combination is looked at early.
type taskQueue struct {
	n      int
	groups map[string][]altTask
	order  []string
	next   int
	rng    *rand.Rand
}

func (q *taskQueue) push(t altTask) {
	if q.groups == nil {
		q.groups = map[string][]altTask{}
	}
	g, ok := q.groups[t.grp]
	if !ok {
		q.order = append(q.order, t.grp)
	}
	q.groups[t.grp] = append(g, t)
	q.n++
}

func (q *taskQueue) pop() altTask {
	for {
		if q.next >= len(q.order) {
			q.next = 0
		}
		k := q.order[q.next]
		g := q.groups[k]
		if len(g) == 0 {
			delete(q.groups, k)
			q.order[q.next] = q.order[len(q.order)-1]
			q.order = q.order[:len(q.order)-1]
			continue
		}
		q.next++
		i := len(g) - 1
		if q.n < 200000 {
			i = q.rng.Intn(len(g))
		}
		t := g[i]
		g[i] = g[len(g)-1]
		g[len(g)-1] = altTask{}
		q.groups[k] = g[:len(g)-1]
		q.n--
		return t
	}
}

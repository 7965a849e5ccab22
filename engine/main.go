package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type replayCase struct {
	Harness  string     `json:"harness"`
	Inputs   []inputVal `json:"inputs"`
	Repeat   int        `json:"repeat"`
	Thorough bool       `json:"thorough"`
}
type replayResult struct {
	Case  int      `json:"case"`
	Kind  string   `json:"kind"`
	Msg   string   `json:"msg"`
	Reach []string `json:"reach"`
}

// replayer runs harnesses natively against the code in /repo.
type replayer struct {
	dir, bin string
	src      string
	race     bool // the binary detects data races
	err      error
	ready    chan bool
	once     sync.Once
	racer    *replayer
}

// raceDetecting is a replayer with the race detector of Go built in.
func (r *replayer) raceDetecting() *replayer {
	r.once.Do(func() { r.racer = newReplayer(r.src, r.dir, "replay-race", "-race") })
	return r.racer
}

func startReplayer(harnessDir, scratch string) *replayer {
	return newReplayer(harnessDir, scratch, "replay")
}

func newReplayer(harnessDir, scratch, name string, flags ...string) *replayer {
	r := &replayer{src: harnessDir, dir: scratch, bin: filepath.Join(scratch, name), ready: make(chan bool), race: len(flags) > 0}
	go func() {
		defer close(r.ready)
		cmd := exec.Command("go", append(append([]string{"build"}, flags...), "-o", r.bin, "./cmd/replay")...)
		cmd.Dir = harnessDir
		if r.race {
			cmd.Env = append(os.Environ(), "CGO_ENABLED=1")
		}
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("building the replay binary: %v\n%s", err, out)
		}
	}()
	return r
}

func (r *replayer) run(cases []replayCase) ([]replayResult, error) {
	<-r.ready
	if r.err != nil {
		return nil, r.err
	}
	res := make([]replayResult, len(cases))
	const nw = 4
	var wg sync.WaitGroup
	for w := 0; w < nw; w++ {
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			var mine []replayCase
			var idx []int
			for i := w; i < len(cases); i += nw {
				mine = append(mine, cases[i])
				idx = append(idx, i)
			}
			for i, x := range r.runSerial(mine) {
				res[idx[i]] = x
			}
		}(w)
	}
	wg.Wait()
	return res, nil
}

func (r *replayer) runSerial(cases []replayCase) []replayResult {
	res := make([]replayResult, len(cases))
	if len(cases) == 0 {
		return res
	}
	f, err := os.CreateTemp(r.dir, "cases")
	if err != nil {
		return res
	}
	defer os.Remove(f.Name())
	json.NewEncoder(f).Encode(cases)
	f.Close()
	from := 0
	for from < len(cases) {
		cmd := exec.Command(r.bin, f.Name(), fmt.Sprint(from))
		cmd.Dir = r.dir
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		cmd.Env = append(os.Environ(), "TMPDIR="+r.dir, "GORACE=halt_on_error=1 exitcode=66")
		o, _ := cmd.StdoutPipe()
		if cmd.Start() != nil {
			return res
		}
		sc := bufio.NewScanner(o)
		sc.Buffer(nil, 1<<24)
		for sc.Scan() {
			var x replayResult
			if json.Unmarshal(sc.Bytes(), &x) == nil && x.Case >= from && x.Case < len(cases) {
				res[x.Case] = x
				from = x.Case + 1
			}
		}
		err := cmd.Wait()
		if err != nil && from < len(cases) && (len(res) == 0 || from == 0 || res[from-1].Kind != "hang") {
			s := stderr.String()
			line := s
			if i := strings.IndexByte(s, '\n'); i >= 0 {
				line = s[:i]
			}
			if strings.Contains(s, "DATA RACE") {
				line = "data race"
				for _, l := range strings.Split(s, "\n") {
					if strings.Contains(l, "/repo/") {
						line += " at " + strings.Fields(l)[0]
						break
					}
				}
			}
			if strings.Contains(s, "stack overflow") {
				line = "stack overflow"
			}
			res[from] = replayResult{Case: from, Kind: "panic", Msg: "crash: " + line}
			from++
		}
	}
	return res
}

// ---- known findings

type finding struct {
	prop, label, match, text, replay string
}

// known_findings.txt: lines "known: property=C02 label=x match=<message part|*> replay=<file> text…"
func loadKnown(file, prop string) []finding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	var fs []finding
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		f := finding{}
		rest := strings.Fields(strings.TrimPrefix(l, "known:"))
		i := 0
		for ; i < len(rest); i++ {
			k, v, ok := strings.Cut(rest[i], "=")
			if !ok {
				break
			}
			switch k {
			case "property":
				f.prop = v
			case "label":
				f.label = v
			case "match":
				f.match = strings.ReplaceAll(v, "_", " ")
			case "replay":
				f.replay = v
			default:
				ok = false
			}
			if !ok {
				break
			}
		}
		f.text = strings.Join(rest[i:], " ")
		if f.prop == prop {
			fs = append(fs, f)
		}
	}
	return fs
}

func (f finding) matches(v Violation, native string) bool {
	found := false
	for _, l := range strings.Split(v.Known, ",") {
		if l == f.label {
			found = true
		}
	}
	return found && (f.match == "*" || strings.Contains(native, f.match))
}

// ---- check

type confirmed struct {
	v      Violation
	native replayResult
	known  *finding
}

type checker struct {
	prop     string
	thorough bool
	rp       *replayer
	known    []finding
	mu       sync.Mutex
	seen     map[string]bool
	conf     []confirmed
	mismatch []string
	verbose  bool
}

func inputKey(v Violation) string {
	var b strings.Builder
	b.WriteString(v.Harness + "|" + v.Kind + "|" + v.Msg)
	for _, i := range v.Inputs {
		fmt.Fprintf(&b, "|%s=%s/%d", i.Name, i.B, i.I)
	}
	return b.String()
}

// confirm replays new counterexamples natively; true if an unlisted one reproduced.
func (c *checker) confirm(vs []Violation) (bool, error) {
	var todo []Violation
	c.mu.Lock()
	for _, v := range vs {
		k := inputKey(v)
		if !c.seen[k] {
			c.seen[k] = true
			todo = append(todo, v)
		}
	}
	c.mu.Unlock()
	if len(todo) == 0 {
		return false, nil
	}
	res := make([]replayResult, len(todo))
	for _, race := range []bool{false, true} {
		var cases []replayCase
		var idx []int
		for i, v := range todo {
			if (v.Kind == "race") != race {
				continue
			}
			rep := 1
			if v.Nondet {
				rep = 400
			}
			if race {
				rep = 3
			}
			cases = append(cases, replayCase{v.Harness, v.Inputs, rep, c.thorough})
			idx = append(idx, i)
		}
		if len(cases) == 0 {
			continue
		}
		rp := c.rp
		if race {
			rp = rp.raceDetecting()
		}
		rs, err := rp.run(cases)
		if err != nil {
			return false, err
		}
		for i, x := range rs {
			res[idx[i]] = x
		}
	}
	bad := false
	c.mu.Lock()
	defer c.mu.Unlock()
	for i, v := range todo {
		r := res[i]
		switch r.Kind {
		case "violation", "panic", "hang":
			cf := confirmed{v: v, native: r}
			for j := range c.known {
				if c.known[j].matches(v, r.Kind+" "+r.Msg) {
					cf.known = &c.known[j]
				}
			}
			if cf.known == nil {
				bad = true
			}
			c.conf = append(c.conf, cf)
		default:
			c.mismatch = append(c.mismatch, fmt.Sprintf("%s: counterexample (%s %q at %s) did not reproduce natively (%s): %s", v.Harness, v.Kind, v.Msg, v.Site, r.Kind, showInputs(v.Inputs)))
		}
	}
	return bad, nil
}

func showInputs(in []inputVal) string {
	var b strings.Builder
	dull := func(i inputVal) bool {
		return i.Kind == "str" && len(i.B) <= 1 && strings.Trim(string(i.B), "0aA") == ""
	}
	for _, d := range []bool{false, true} {
		for _, i := range in {
			if dull(i) != d {
				continue
			}
			if b.Len() > 600 {
				b.WriteString("…")
				return b.String()
			}
			if i.Kind == "str" {
				fmt.Fprintf(&b, "%s=%q ", i.Name, i.B)
			} else {
				fmt.Fprintf(&b, "%s=%d ", i.Name, i.I)
			}
		}
	}
	return b.String()
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: symgo check|run|replay …")
		os.Exit(2)
	}
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(10 << 30)
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	}
	fmt.Fprintln(os.Stderr, "unknown command")
	os.Exit(2)
}

func cmdCheck(args []string) int {
	fl := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fl.String("prop", "", "property id")
	re := fl.String("re", "", "harness regexp (default ^<prop>_)")
	tier := fl.String("tier", "quick", "quick or thorough")
	base := fl.String("base", "/verif", "verification directory")
	budget := fl.Int("budget", 0, "seconds of exploration")
	jobs := fl.Int("j", runtime.NumCPU(), "workers")
	verbose := fl.Bool("v", false, "details on stdout")
	seed := fl.Int64("seed", 1, "seed")
	noev := fl.Bool("noevidence", false, "do not write evidence")
	keepGoing := fl.Bool("k", false, "keep exploring after a confirmed violation")
	fl.Parse(args)
	if f := os.Getenv("SYMGO_CPU"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	start := time.Now()
	if *re == "" {
		*re = "^" + *prop + "_"
	}
	if *budget == 0 {
		*budget = 240
		if *tier == "thorough" {
			*budget = 420
		}
	}
	scratch, err := os.MkdirTemp("", "symgo")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	harnessDir := filepath.Join(*base, "harness")
	rp := startReplayer(harnessDir, scratch)
	eng, err := loadEngine(harnessDir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the code:", err)
		return 2
	}
	eng.thorough = *tier == "thorough"
	eng.seed = *seed
	loadS := time.Since(start).Seconds()
	hs := eng.harnesses(*re)
	if len(hs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness matches", *re)
		return 2
	}
	ck := &checker{prop: *prop, thorough: eng.thorough, rp: rp, seen: map[string]bool{}, verbose: *verbose}
	ck.known = loadKnown(filepath.Join(*base, "known_findings.txt"), *prop)
	x := &Explorer{eng: eng, hs: hs, deadline: time.Now().Add(time.Duration(*budget) * time.Second), fns: map[string]bool{}}
	stop := make(chan bool)
	done := make(chan bool)
	var replayErr error
	collect := func() []Violation {
		var vs []Violation
		for _, h := range hs {
			h.mu.Lock()
			vs = append(vs, h.viols...)
			h.mu.Unlock()
		}
		return vs
	}
	go func() {
		defer close(done)
		for {
			select {
			case <-stop:
				return
			case <-time.After(1500 * time.Millisecond):
			}
			bad, err := ck.confirm(collect())
			if err != nil {
				replayErr = err
			}
			if (bad || err != nil) && !*keepGoing {
				x.mu.Lock()
				x.deadline = time.Now()
				x.cond.Broadcast()
				x.mu.Unlock()
				return
			}
		}
	}()
	exploreStart := time.Now()
	// a worker stuck in one long path must not hold up the verdict
	ran := make(chan bool)
	go func() { x.run(*jobs, 6000); close(ran) }()
	grace := time.Duration(*budget+60) * time.Second
	select {
	case <-ran:
	case <-time.After(grace):
		x.abandoned = true
	}
	exploreS := time.Since(exploreStart).Seconds()
	close(stop)
	<-done
	if _, err := ck.confirm(collect()); err != nil {
		replayErr = err
	}
	if replayErr != nil {
		fmt.Fprintln(os.Stderr, replayErr)
		return 2
	}
	// validate the encoding: explored paths must behave the same natively
	var traces []Trace
	for _, h := range hs {
		h.mu.Lock()
		traces = append(traces, h.val...)
		h.mu.Unlock()
	}
	validated, spontaneous := 0, 0
	if len(traces) > 0 {
		var cases []replayCase
		for _, t := range traces {
			rep := 1
			if t.Nondet {
				rep = 5
			}
			cases = append(cases, replayCase{t.Harness, t.Inputs, rep, eng.thorough})
		}
		res, err := rp.run(cases)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
		for i, t := range traces {
			r := res[i]
			switch r.Kind {
			case "done":
				if t.Kind != "done" {
					continue
				}
				if strings.Join(r.Reach, ",") != strings.Join(t.Reach, ",") && !t.Nondet {
					ck.mismatch = append(ck.mismatch, fmt.Sprintf("%s: path reached [%s], native run reached [%s]: %s", t.Harness, strings.Join(t.Reach, ","), strings.Join(r.Reach, ","), showInputs(t.Inputs)))
				} else {
					validated++
				}
			case "vacuous":
				if t.Kind == "done" {
					ck.mismatch = append(ck.mismatch, fmt.Sprintf("%s: an assumption fails natively: %s", t.Harness, showInputs(t.Inputs)))
				}
			case "violation", "panic", "hang":
				// the assignment of an explored path breaks the property in the real code
				v := Violation{Harness: t.Harness, Msg: r.Msg, Kind: r.Kind, Inputs: t.Inputs, Nondet: t.Nondet}
				cf := confirmed{v: v, native: r}
				if t.Kind == "done" {
					ck.mismatch = append(ck.mismatch, fmt.Sprintf("%s: the path held symbolically but natively: %s %s: %s", t.Harness, r.Kind, r.Msg, showInputs(t.Inputs)))
				}
				if t.Known != "" {
					cf.v.Known = t.Known
					for j := range ck.known {
						if ck.known[j].matches(cf.v, r.Kind+" "+r.Msg) {
							cf.known = &ck.known[j]
						}
					}
				}
				spontaneous++
				ck.conf = append(ck.conf, cf)
			}
		}
	}
	// known findings are replayed from their recorded inputs
	for i := range ck.known {
		f := &ck.known[i]
		hit := false
		for _, c := range ck.conf {
			if c.known == f {
				hit = true
			}
		}
		if !hit && f.replay != "" {
			if b, err := os.ReadFile(filepath.Join(*base, f.replay)); err == nil {
				var c replayCase
				if json.Unmarshal(b, &c) == nil {
					res, err := rp.run([]replayCase{c})
					if err == nil && (res[0].Kind == "violation" || res[0].Kind == "panic" || res[0].Kind == "hang") {
						hit = true
					}
				}
			}
		}
		if hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", *prop, f.label, f.text)
		}
	}
	// report
	nviol := 0
	var lines []string
	replayDir := filepath.Join(*base, "evidence", "replay")
	if !*noev {
		os.MkdirAll(replayDir, 0o755)
		old, _ := filepath.Glob(filepath.Join(replayDir, *prop+"_*.json"))
		for _, o := range old {
			os.Remove(o)
		}
	}
	seenMsg := map[string]bool{}
	for _, c := range ck.conf {
		if c.known != nil {
			continue
		}
		nviol++
		k := c.v.Harness + c.native.Kind + c.native.Msg
		if seenMsg[k] || len(lines) >= 10 {
			continue
		}
		seenMsg[k] = true
		file := filepath.Join(replayDir, fmt.Sprintf("%s_%d.json", *prop, len(lines)))
		if !*noev {
			rep := 1
			if c.v.Nondet {
				rep = 400
			}
			b, _ := json.MarshalIndent(map[string]any{"harness": c.v.Harness, "inputs": c.v.Inputs, "repeat": rep, "thorough": eng.thorough, "solver_says": c.v.Kind + ": " + c.v.Msg, "at": c.v.Site, "native_run": c.native.Kind + ": " + c.native.Msg}, "", " ")
			os.WriteFile(file, b, 0o644)
		}
		lines = append(lines, fmt.Sprintf("VIOLATION property=%s replay=%s", *prop, file))
		fmt.Printf("  %s: %s %s\n    inputs: %s\n", c.v.Harness, c.native.Kind, c.native.Msg, showInputs(c.v.Inputs))
	}
	ev := evidence(eng, x, hs, ck, *prop, *tier, *seed, validated, spontaneous, nviol, loadS, exploreS, time.Since(start).Seconds(), *budget)
	if !*noev {
		os.MkdirAll(filepath.Join(*base, "evidence"), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*base, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	summary(hs, x, ck, *verbose, validated, loadS, exploreS)
	for _, l := range lines {
		fmt.Println(l)
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

func (h *Harness) exhausted() bool {
	if h.q.n > 0 || h.stopped != "" || h.unknown > 0 || h.inconcl > 0 {
		return false
	}
	for k := range h.notes {
		if strings.HasPrefix(k, "string made concrete") {
			return false
		}
	}
	for k := range h.ends {
		if k != "done" && !strings.HasPrefix(k, "infeasible") && !strings.HasPrefix(k, "violation") {
			return false
		}
	}
	return true
}

func evidence(eng *Engine, x *Explorer, hs []*Harness, ck *checker, prop, tier string, seed int64, validated, spontaneous, nviol int, loadS, exploreS, wall float64, budget int) map[string]any {
	var paths, asserts, disch, inconcl, infeas, unknown int
	var decs, steps int64
	per := []any{}
	samples := []string{}
	var vac []string
	exh := true
	for _, h := range hs {
		h.mu.Lock()
		paths += h.paths
		asserts += h.asserts
		disch += h.discharged
		inconcl += h.inconcl
		infeas += h.infeasible
		unknown += h.unknown
		decs += h.decs
		steps += h.steps
		if len(h.samples) > 0 && len(samples) < 12 {
			samples = append(samples, h.name+": "+h.samples[len(h.samples)-1])
		}
		var miss []string
		for d := range h.declared {
			if h.reach[d] == 0 {
				miss = append(miss, d)
			}
		}
		sort.Strings(miss)
		for _, m := range miss {
			vac = append(vac, h.name+": "+m)
		}
		ex := h.exhausted() && !x.abandoned
		exh = exh && ex
		per = append(per, map[string]any{"harness": h.name, "paths": h.paths, "path_ends": h.ends, "open_branches": h.q.n, "exhausted_within_bounds": ex, "assertions": h.asserts, "held_for_all_values": h.discharged, "inconclusive": h.inconcl, "infeasible_branches": h.infeasible, "max_decisions_on_a_path": h.maxDec, "notes": h.notes, "witnesses": h.reach, "witnesses_not_reached": miss, "stopped": h.stopped,
			"bounds": map[string]any{"decisions_per_path": h.maxDecisions, "values_per_concretisation": h.maxConc, "characters_split_off_a_symbolic_string": h.maxChars, "interpreter_steps_per_path": h.maxSteps, "call_depth": h.maxDepth, "map_orders_explored": h.mapOrder}})
		h.mu.Unlock()
	}
	var fns, lib []string
	for f := range x.fns {
		if strings.Contains(f, "verifharness") {
			continue
		}
		if strings.Contains(f, repoMod) {
			fns = append(fns, strings.ReplaceAll(f, repoMod+"/", ""))
		} else {
			lib = append(lib, f)
		}
	}
	sort.Strings(fns)
	sort.Strings(lib)
	expl := "Symbolic execution of the go/ssa form of the code in /repo, regenerated on this run. Each state is one symbolic path (all inputs that take it, not one input); each assertion on a path is an SMT query over all values of its symbolic variables. Branches are enumerated by solver queries."
	return map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]any{
			"explanation": expl,
			"states":      paths, "transitions": decs, "traces_validated_against_impl": validated, "samples": samples,
			"exhaustive":         exh,
			"assertions_checked": asserts, "assertions_held_for_all_values": disch, "assertions_inconclusive": inconcl,
			"infeasible_branches": infeas, "branches_without_solver_answer": unknown,
			"solver":                   map[string]any{"main": "cvc5 (z3 as fallback)", "queries": atomic.LoadInt64(&stats.queries), "decided_on_part_of_the_constraints": atomic.LoadInt64(&stats.local), "answered_from_cache": atomic.LoadInt64(&stats.cacheHits), "unknown": atomic.LoadInt64(&stats.unknown), "fallback_queries": atomic.LoadInt64(&stats.fallback), "solver_time_s": float64(atomic.LoadInt64(&stats.ns)) / 1e9, "slowest_query_s": float64(atomic.LoadInt64(&stats.maxNs)) / 1e9, "cross_checked": atomic.LoadInt64(&stats.crossChecked), "cross_check_disagreements": atomic.LoadInt64(&stats.crossDisagree)},
			"interpreted_instructions": steps,
			"functions_encoded":        fns, "functions_encoded_count": len(fns),
			"library_functions_encoded": lib,
			"harnesses":                 per,
			"encoding_mismatches":       ck.mismatch,
			"vacuous":                   vac,
			"budget_s":                  budget, "budget_exhausted": x.timedOut || x.abandoned,
			"load_s": loadS, "explore_s": exploreS,
			"counterexamples_found_by_native_validation_only": spontaneous,
		},
		"assumptions": []string{
			"string inputs are ASCII (bytes 0-127) up to the length each harness states; list lengths and graph shapes as each harness states",
			"standard-library leaf routines (strings, fmt, bufio, encoding/json, os, regexp, hash functions) are modelled natively by the executor as documented in DESIGN.md; hash functions are injective black boxes",
			"map iteration order is explored only where map_orders_explored is true; otherwise insertion order",
		},
		"wall_s": wall, "violations": nviol,
	}
}

func summary(hs []*Harness, x *Explorer, ck *checker, verbose bool, validated int, loadS, exploreS float64) {
	paths, disch, asserts, inc, open := 0, 0, 0, 0, 0
	bad := map[string]int{}
	for _, h := range hs {
		h.mu.Lock()
		paths += h.paths
		disch += h.discharged
		asserts += h.asserts
		inc += h.inconcl
		open += h.q.n
		for k, n := range h.ends {
			if k != "done" && !strings.HasPrefix(k, "infeasible") && !strings.HasPrefix(k, "violation") {
				bad[k] += n
			}
		}
		if verbose {
			fmt.Printf("%s: %d paths, %d open, ends %v, asserts %d/%d (inconclusive %d), infeasible %d, unknown %d, maxdec %d, reach %v %s\n", h.name, h.paths, h.q.n, h.ends, h.discharged, h.asserts, h.inconcl, h.infeasible, h.unknown, h.maxDec, h.reach, h.stopped)
			if len(h.notes) > 0 {
				fmt.Printf("   notes %v\n", h.notes)
			}
			for k, n := range h.violSeen {
				fmt.Printf("   counterexample ×%d: %s\n", n, k)
			}
			if profile {
				type kv struct {
					k string
					n int
				}
				var l []kv
				for k, n := range h.prof {
					l = append(l, kv{k, n})
				}
				sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
				for i, x := range l {
					if i > 25 {
						break
					}
					fmt.Printf("   branch ×%d: %s\n", x.n, x.k)
				}
			}
			for d := range h.declared {
				if h.reach[d] == 0 {
					fmt.Printf("   WITNESS NOT REACHED: %s\n", d)
				}
			}
		}
		h.mu.Unlock()
	}
	fmt.Printf("%s: %d harnesses, %d symbolic paths (%d branches left open), %d/%d assertions held for all values, %d inconclusive, %d solver queries (%.1f s), %d paths validated natively, load %.1f s, explore %.1f s\n",
		ck.prop, len(hs), paths, open, disch, asserts, inc, atomic.LoadInt64(&stats.queries), float64(atomic.LoadInt64(&stats.ns))/1e9, validated, loadS, exploreS)
	if verbose {
		fmt.Printf("cross-checked %d, refuted %d; local decided %d, sat %d, miss %d, cache %d\n", stats.crossChecked, stats.crossDisagree, stats.local, stats.localSat, stats.localMiss, stats.cacheHits)
	}
	var ks []string
	for k := range bad {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i >= 15 && !verbose {
			fmt.Printf("  … %d more\n", len(ks)-i)
			break
		}
		fmt.Printf("  not covered: %s (%d paths)\n", k, bad[k])
	}
	for i, m := range ck.mismatch {
		if i >= 10 && !verbose {
			break
		}
		fmt.Println("  encoding mismatch (not reported):", m)
	}
}

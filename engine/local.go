package main

import (
	"os"
	"sort"
	"strings"
	"sync/atomic"
)

// directAtoms collects the variables and skolems of t, not those inside skolem arguments.
func directAtoms(t *Term, out map[*Term]bool) {
	switch t.op {
	case OVar, OSkol:
		out[t] = true
		return
	}
	if len(t.vars) == 0 {
		return
	}
	for _, a := range t.args {
		directAtoms(a, out)
	}
}

func atomsWithin(t *Term, set map[*Term]bool) bool {
	switch t.op {
	case OVar, OSkol:
		return set[t]
	}
	if len(t.vars) == 0 {
		return true
	}
	for _, a := range t.args {
		if !atomsWithin(a, set) {
			return false
		}
	}
	return true
}

var dbgLocal = os.Getenv("SYMGO_LOCAL") != ""

func hasHash(t *Term) bool {
	for _, v := range t.vars {
		if v.op == OSkol && len(v.s) > 4 && v.s[:4] == "hash" {
			return true
		}
	}
	return false
}

// decide solves seed together with what pc says about its variables. It first
// asks about the constraints on the atoms of seed alone: if those are
// unsatisfiable so is the whole; if they are satisfiable the answer is grafted
// onto the current model and kept when it satisfies everything.
func (s *Solver) decide(seed *Term, pc []*Term, model *Model) (Result, map[*Term]cval) {
	cs := append([]*Term{seed}, slice(pc, []*Term{seed})...)
	if m := guess(cs, model); m != nil {
		atomic.AddInt64(&stats.local, 1)
		return Sat, m
	}
	if len(cs) <= 4 || hasHash(seed) {
		return s.check(cs)
	}
	atoms := map[*Term]bool{}
	directAtoms(seed, atoms)
	local := []*Term{seed}
	for _, c := range cs[1:] {
		if atomsWithin(c, atoms) {
			local = append(local, c)
		}
	}
	if len(local) == len(cs) {
		return s.check(cs)
	}
	seen := map[*Term]bool{tTrue: true}
	for _, c := range local {
		seen[c] = true
	}
	for _, c := range inherited(cs, atoms) {
		if c == tFalse {
			atomic.AddInt64(&stats.local, 1)
			return Unsat, nil
		}
		if !seen[c] {
			seen[c] = true
			local = append(local, c)
		}
	}
	sort.Slice(local[1:], func(i, j int) bool { return local[1+i].id < local[1+j].id })
	res, vals := s.checkFree(local)
	switch res {
	case Unsat:
		atomic.AddInt64(&stats.local, 1)
		return Unsat, nil
	case Sat:
		atomic.AddInt64(&stats.localSat, 1)
		if m := graft(cs, atoms, vals, model); m != nil {
			atomic.AddInt64(&stats.local, 1)
			return Sat, m
		}
	}
	atomic.AddInt64(&stats.localMiss, 1)
	return s.check(cs)
}

// guess looks for values of the texts that the first constraint compares,
// near the values of the texts they are compared with.
func guess(cs []*Term, model *Model) map[*Term]cval {
	cmp := cs[0]
	for cmp.op == ONot {
		cmp = cmp.args[0]
	}
	if cmp.op != OStrLt && cmp.op != OEq || cmp.args[0].sort != SStr {
		return nil
	}
	var vars []*Term
	for _, a := range cmp.args {
		switch a.op {
		case OVar:
			vars = append(vars, a)
		case OStr:
		default:
			return nil
		}
	}
	var pool []string
	have := map[string]bool{}
	put := func(s string) {
		if !have[s] {
			have[s] = true
			pool = append(pool, s)
		}
	}
	fit := map[string]bool{}
	for _, c := range cs {
		d := c
		if d.op == ONot {
			d = d.args[0]
		}
		if d.op != OStrLt && d.op != OEq || d.args[0].sort != SStr {
			continue
		}
		for _, a := range d.args {
			if a.op == OVar || a.op == OStr {
				fit[model.eval(a).s] = true
			}
		}
	}
	var base []string
	for s := range fit {
		base = append(base, s)
	}
	sort.Strings(base)
	for _, s := range base {
		put(s)
	}
	for _, s := range base {
		for _, c := range "0aAz~ " {
			put(s + string(c))
			put(s + string(c) + string(c))
		}
		if n := len(s); n > 0 {
			put(s[:n-1])
			for _, d := range []int{-1, 1, 2} {
				if c := int(s[n-1]) + d; c > 0 && c < 127 {
					put(s[:n-1] + string([]byte{byte(c)}))
					put(s[:n-1] + string([]byte{byte(c), s[n-1]}))
				}
			}
		}
	}
	for _, c := range "aAz0Z9m.-" {
		put(string(c))
	}
	// cheapest constraint first: the new one
	tries := 0
	for _, v := range vars {
		var mine []*Term
		for _, c := range cs {
			for _, x := range c.vars {
				if x == v {
					mine = append(mine, c)
					break
				}
			}
		}
		for _, s := range pool {
			if tries++; tries > 3000 {
				return nil
			}
			m := model.clone()
			m.v[v.s] = cval{s: s}
			ok := true
			for _, c := range append(mine[:len(mine):len(mine)], cs...) {
				if m.eval(c).i == 0 {
					ok = false
					break
				}
			}
			if ok {
				return map[*Term]cval{v: {s: s}}
			}
		}
	}
	return nil
}

// graft puts the values found for some atoms into the model.
func graft(cs []*Term, atoms map[*Term]bool, vals map[*Term]cval, model *Model) map[*Term]cval {
	now := map[*Term]cval{}
	val := func(t *Term) cval {
		if v, ok := now[t]; ok {
			return v
		}
		return model.eval(t)
	}
	for a := range atoms {
		v, ok := vals[a]
		if !ok {
			v = model.eval(a)
		}
		now[a] = v
	}
	// propagate to what the atoms are parts of, innermost first
	for i := len(cs) - 1; i >= 0; i-- {
		c := cs[i]
		if c.op != OEq || c.args[0].sort != SStr {
			continue
		}
		a, b := c.args[0], c.args[1]
		if b.op != OConcat {
			a, b = b, a
		}
		if b.op != OConcat || (a.op != OVar && a.op != OSkol) || atoms[a] {
			continue
		}
		touched := false
		str := ""
		for _, x := range b.args {
			if x.op == OVar || x.op == OSkol {
				if _, ok := now[x]; ok {
					touched = true
				}
			}
			str += val(x).s
		}
		if touched {
			now[a] = cval{s: str}
		}
	}
	m := model.clone()
	res := map[*Term]cval{}
	for t, v := range now {
		if t.op == OVar {
			m.v[t.s] = v
			res[t] = v
		}
	}
	for _, c := range cs {
		if m.eval(c).i == 0 {
			if dbgLocal {
				println("graft fails:", c.String(), "seed", cs[0].String())
			}
			return nil
		}
	}
	return res
}

type anc struct {
	a           *Term
	first, last bool
}

// inherited lists what the constraints on the texts an atom is part of say about the atom itself.
func inherited(cs []*Term, atoms map[*Term]bool) []*Term {
	parents := map[*Term][]anc{}
	for _, c := range cs {
		if c.op != OEq || c.args[0].sort != SStr {
			continue
		}
		a, b := c.args[0], c.args[1]
		if b.op != OConcat {
			a, b = b, a
		}
		if b.op != OConcat || (a.op != OVar && a.op != OSkol) {
			continue
		}
		for i, x := range b.args {
			if x.op == OVar || x.op == OSkol {
				parents[x] = append(parents[x], anc{a, i == 0, i == len(b.args)-1})
			}
		}
	}
	var out []*Term
	for x := range atoms {
		if x.sort != SStr {
			continue
		}
		up := map[*Term]anc{}
		var walk func(t *Term, first, last bool, depth int)
		walk = func(t *Term, first, last bool, depth int) {
			for _, p := range parents[t] {
				if depth > 30 || atoms[p.a] {
					continue
				}
				n := anc{p.a, first && p.first, last && p.last}
				o := up[p.a]
				n.first, n.last = n.first || o.first, n.last || o.last
				up[p.a] = n
				walk(p.a, n.first, n.last, depth+1)
			}
		}
		walk(x, true, true, 0)
		if len(up) == 0 {
			continue
		}
		for _, c := range cs {
			if c.op == OInRe {
				if _, ok := up[c.args[0]]; ok && strings.HasPrefix(c.re.name, "star:") {
					out = append(out, mkInRe(x, c.re))
				}
				continue
			}
			if c.op != ONot {
				continue
			}
			d := c.args[0]
			switch d.op {
			case OContains:
				if _, ok := up[d.args[0]]; ok && d.args[1].op == OStr {
					out = append(out, mkNot(mkContains(x, d.args[1])))
				}
			case OPrefix:
				if u, ok := up[d.args[1]]; ok && u.first && d.args[0].op == OStr {
					out = append(out, mkNot(mkPrefix(d.args[0], x)))
				}
			case OSuffix:
				if u, ok := up[d.args[1]]; ok && u.last && d.args[0].op == OStr {
					out = append(out, mkNot(mkSuffix(d.args[0], x)))
				}
			case OInRe:
				if u, ok := up[d.args[0]]; ok && ((u.first && strings.HasPrefix(d.re.name, "first:")) || (u.last && strings.HasPrefix(d.re.name, "last:"))) {
					out = append(out, mkNot(mkInRe(x, d.re)))
				}
			}
		}
	}
	return out
}

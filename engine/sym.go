package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func reg(name string, f func(p *Path, fn *ssa.Function, args []value) value) {
	intrinsics[name] = func(p *Path, fn *ssa.Function, args []value) (value, bool) { return f(p, fn, args), true }
}
func regMaybe(name string, f intrinsic) { intrinsics[name] = f }

func (p *Path) inputName(n string) string {
	k := p.nInput[n]
	p.nInput[n]++
	if k > 0 {
		return fmt.Sprintf("%s#%d", n, k)
	}
	return n
}

func (p *Path) newString(name string, cs CharSet, min, max int) value {
	name = p.inputName(name)
	t := mkVar(name, SStr)
	p.inputs = append(p.inputs, inputRec{Name: name, Kind: "str", t: t})
	p.chars[t] = cs
	p.rng[mkLen(t)] = [2]int64{int64(min), int64(max)}
	p.pc = append(p.pc, mkInRe(t, reStar(cs)), intern(Term{op: OLe, sort: SBool, args: []*Term{mkAdd(mkLen(t), mkInt(int64(-max))), mkInt(0)}}))
	if _, ok := p.model.v[name]; !ok && min > 0 {
		// a first value; no term over the new variable has been evaluated yet
		if c, ok := cs.first(); ok {
			p.model.v[name] = cval{s: strings.Repeat(string([]byte{c}), min)}
		}
	}
	if min == 1 {
		p.assume(mkNot(mkEq(t, mkStr(""))))
	} else if min > 1 {
		p.pc = append(p.pc, mkLe(mkInt(int64(min)), mkLen(t)))
	}
	if min == 0 {
		return elsVal([]El{{t: t}})
	}
	return elsVal([]El{{t: t}})
}

func constStr(p *Path, v value) string {
	s, ok := v.(string)
	if !ok {
		p.unsupported("harness label is not constant")
	}
	return s
}

func init() {
	S := func(n string, f func(p *Path, fn *ssa.Function, a []value) value) { reg(symPkg+"."+n, f) }
	S("String", func(p *Path, fn *ssa.Function, a []value) value {
		return p.newString(constStr(p, a[0]), setRange(0, 127), 0, int(a[1].(int64)))
	})
	S("From", func(p *Path, fn *ssa.Function, a []value) value {
		return p.newString(constStr(p, a[0]), setOf(constStr(p, a[1])), int(a[2].(int64)), int(a[3].(int64)))
	})
	S("Int", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.inputName(constStr(p, a[0]))
		t := mkVar(name, SInt)
		p.inputs = append(p.inputs, inputRec{Name: name, Kind: "int", t: t})
		if _, ok := p.model.v[name]; !ok {
			p.model.v[name] = cval{i: a[1].(int64)}
		}
		p.assume(mkLe(mkInt(a[1].(int64)), t))
		p.assume(mkLe(t, mkInt(a[2].(int64))))
		return t
	})
	S("Bool", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.inputName(constStr(p, a[0]))
		t := mkVar(name, SBool)
		p.inputs = append(p.inputs, inputRec{Name: name, Kind: "bool", t: t})
		return t
	})
	S("Choice", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.inputName(constStr(p, a[0]))
		k := p.choose(int(a[1].(int64)))
		p.inputs = append(p.inputs, inputRec{Name: name, Kind: "choice", Conc: int64(k)})
		return int64(k)
	})
	S("Assume", func(p *Path, fn *ssa.Function, a []value) value {
		p.assume(boolTerm(a[0]))
		return nil
	})
	S("Assert", func(p *Path, fn *ssa.Function, a []value) value {
		p.assert(boolTerm(a[0]), p.showStr(a[1]))
		return nil
	})
	S("Fail", func(p *Path, fn *ssa.Function, a []value) value {
		p.assert(tFalse, p.showStr(a[0]))
		return nil
	})
	S("Reach", func(p *Path, fn *ssa.Function, a []value) value {
		p.reach[constStr(p, a[0])] = true
		return nil
	})
	S("Witness", func(p *Path, fn *ssa.Function, a []value) value {
		p.h.mu.Lock()
		p.h.declared[constStr(p, a[0])] = true
		p.h.mu.Unlock()
		return nil
	})
	S("Thorough", func(p *Path, fn *ssa.Function, a []value) value { return p.w.eng.thorough })
	S("Symbolic", func(p *Path, fn *ssa.Function, a []value) value { return true })
	S("Bound", func(p *Path, fn *ssa.Function, a []value) value {
		n := int(a[1].(int64))
		p.h.mu.Lock()
		defer p.h.mu.Unlock()
		switch constStr(p, a[0]) {
		case "chars":
			p.h.maxChars = n
		case "decisions":
			p.h.maxDecisions = n
		case "values":
			p.h.maxConc = n
		case "split":
			p.h.maxSplit = n
		case "maporder":
			p.h.mapOrder = n > 0
			if n > 1 {
				p.h.mapPerm = n
			}
		case "paths":
			p.h.maxPaths = n
		case "replays":
			p.h.maxVal = n
		case "steps":
			p.h.maxSteps = int64(n)
		case "depth":
			p.h.maxDepth = n
		}
		return nil
	})
	S("Orders", func(p *Path, fn *ssa.Function, a []value) value {
		p.orders = int(a[0].(int64))
		if p.orders > 0 && p.choose(2) == 1 {
			p.orders = -1
		}
		return nil
	})
	S("Known", func(p *Path, fn *ssa.Function, a []value) value {
		if p.branch(boolTerm(a[1])) {
			p.known = append(p.known, constStr(p, a[0]))
		}
		return nil
	})
	S("Note", func(p *Path, fn *ssa.Function, a []value) value {
		p.note(constStr(p, a[0]))
		return nil
	})
	S("Equal", func(p *Path, fn *ssa.Function, a []value) value {
		return simpl(p.deepEq(a[0], a[1], 0))
	})
	S("And", func(p *Path, fn *ssa.Function, a []value) value {
		var ts []*Term
		for _, x := range a[0].(Slice).a {
			ts = append(ts, boolTerm(x))
		}
		return simpl(mkAnd(ts...))
	})
	S("Or", func(p *Path, fn *ssa.Function, a []value) value {
		var ts []*Term
		for _, x := range a[0].(Slice).a {
			ts = append(ts, boolTerm(x))
		}
		return simpl(mkOr(ts...))
	})
	S("Not", func(p *Path, fn *ssa.Function, a []value) value { return simpl(mkNot(boolTerm(a[0]))) })
	S("Eq", func(p *Path, fn *ssa.Function, a []value) value { return simpl(p.eqStr(a[0], a[1])) })
	S("If", func(p *Path, fn *ssa.Function, a []value) value {
		return simpl(mkIte(boolTerm(a[0]), boolTerm(a[1]), boolTerm(a[2])))
	})
}

func (p *Path) assert(c *Term, msg string) {
	p.asserts++
	if v, ok := p.lookup(c); ok {
		p.audit(c, v)
		if v {
			p.discharged++
			return
		}
		p.violation("assert", msg, "", p.model)
		p.end("violation", "")
	}
	if p.model.eval(c).i == 0 {
		p.violation("assert", msg, "", p.model)
		p.assume(c)
		return
	}
	n := mkNot(c)
	res, vals := p.w.solver.decide(n, p.pc, p.model)
	switch res {
	case Unsat:
		p.discharged++
	case Unknown:
		p.inconcl++
		p.note("solver gave no answer on an assertion")
	case Sat:
		m := p.model.clone()
		for v, x := range vals {
			if v.op == OVar {
				m.v[v.s] = x
			}
		}
		p.violation("assert", msg, "", m)
	}
	p.add(c)
}

// deepEq is structural equality; nil and empty slices and maps are the same.
func (p *Path) deepEq(a, b value, depth int) *Term {
	if depth > 40 {
		p.unsupported("deep equality of a cyclic value")
	}
	switch x := a.(type) {
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			return tFalse
		}
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		return p.deepEq(x.v, y.v, depth+1)
	case *value:
		y, ok := b.(*value)
		if !ok {
			return tFalse
		}
		if x == y {
			return tTrue
		}
		if x == nil || y == nil {
			return tFalse
		}
		return p.deepEq(*x, *y, depth+1)
	case Struct:
		y, ok := b.(Struct)
		if !ok || len(x) != len(y) {
			return tFalse
		}
		return p.deepEqList(x, y, depth)
	case Array:
		y, ok := b.(Array)
		if !ok || len(x) != len(y) {
			return tFalse
		}
		return p.deepEqList(x, y, depth)
	case Slice:
		y, ok := b.(Slice)
		if !ok {
			return p.deepEqBytes(a, b)
		}
		if len(x.a) != len(y.a) {
			return tFalse
		}
		return p.deepEqList(x.a, y.a, depth)
	case *BRope:
		return p.deepEqBytes(a, b)
	case *Map:
		y, ok := b.(*Map)
		if !ok || x.length() != y.length() {
			return tFalse
		}
		var cs []*Term
		for _, i := range x.live() {
			k := x.keys[i]
			j := y.find(p, k)
			if j < 0 {
				return tFalse
			}
			cs = append(cs, p.deepEq(x.vals[i], y.vals[j], depth+1))
		}
		return mkAnd(cs...)
	}
	if ta, ok := a.(*Term); ok && ta.sort == SBool {
		if _, ok := b.(*Term); ok {
			return mkEq(ta, b.(*Term))
		}
	}
	return p.equals(nil, a, b)
}

func (p *Path) deepEqBytes(a, b value) *Term {
	return p.eqStr(elsVal(p.bytesEls(a)), elsVal(p.bytesEls(b)))
}

func (p *Path) deepEqList(x, y []value, depth int) *Term {
	cs := make([]*Term, 0, len(x))
	for i := range x {
		c := p.deepEq(x[i], y[i], depth+1)
		if c == tFalse {
			return c
		}
		if c != tTrue {
			cs = append(cs, c)
		}
	}
	return mkAnd(cs...)
}

package main

import (
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// predSet evaluates a rune predicate on every ASCII character. ok is false
// when the function has effects or does not give a plain answer.
func (p *Path) predSet(f value) (CharSet, bool) {
	var cs CharSet
	var fn *ssa.Function
	var env []value
	switch f := f.(type) {
	case *ssa.Function:
		fn = f
	case *Closure:
		fn, env = f.fn, f.env
	default:
		return cs, false
	}
	if fn == nil {
		return cs, false
	}
	if len(env) == 0 {
		if c, ok := p.w.eng.preds.Load(fn); ok {
			return c.(CharSet), true
		}
	}
	if !pureFn(fn, 0) {
		return cs, false
	}
	for b := 0; b < 128; b++ {
		r, ok := p.callFn(fn, []value{int64(b)}, env).(bool)
		if !ok {
			return cs, false
		}
		if r {
			cs.add(byte(b))
		}
	}
	if len(env) == 0 {
		p.w.eng.preds.Store(fn, cs)
	}
	return cs, true
}

// pureFn: the function stores to nothing but its own variables.
func pureFn(fn *ssa.Function, depth int) bool {
	if depth > 6 {
		return false
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch in := in.(type) {
			case *ssa.Store:
				if _, ok := in.Addr.(*ssa.Alloc); !ok {
					if ia, ok := in.Addr.(*ssa.IndexAddr); ok {
						if _, ok := ia.X.(*ssa.Alloc); ok {
							continue
						}
					}
					return false
				}
			case *ssa.MapUpdate, *ssa.Send, *ssa.Go, *ssa.Defer:
				return false
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				callee := in.Call.StaticCallee()
				if callee == nil {
					return false
				}
				fi := infoOf(callee)
				if fi.intr == nil && fi.native == nil && !pureFn(callee, depth+1) {
					return false
				}
			}
		}
	}
	return true
}

func asciiEls(els []El) bool {
	for _, e := range els {
		for i := 0; e.t == nil && i < len(e.c); i++ {
			if e.c[i] >= utf8.RuneSelf {
				return false
			}
		}
	}
	return true
}

func init() {
	trim := func(name string, left, right bool) {
		intrinsics[name] = func(p *Path, fn *ssa.Function, a []value) (value, bool) {
			els := p.norm(a[0])
			if _, ok := elsConst(els); ok {
				return nil, false
			}
			cs, ok := p.predOn(els, a[1])
			if !ok {
				return nil, false
			}
			set := string(cs.bytes())
			if left {
				els = p.trimLeft(els, set)
			}
			if right {
				els = p.trimRight(els, set)
			}
			return elsVal(els), true
		}
	}
	trim("strings.TrimLeftFunc", true, false)
	trim("strings.TrimRightFunc", false, true)
	trim("strings.TrimFunc", true, true)
	intrinsics["strings.IndexFunc"] = func(p *Path, fn *ssa.Function, a []value) (value, bool) {
		els := p.norm(a[0])
		if _, ok := elsConst(els); ok {
			return nil, false
		}
		cs, ok := p.predOn(els, a[1])
		if !ok {
			return nil, false
		}
		l, r := p.untilSet(els, cs)
		if len(p.normEls(r)) == 0 {
			return int64(-1), true
		}
		return p.lenVal(p.normEls(l)), true
	}
	intrinsics["strings.ContainsFunc"] = func(p *Path, fn *ssa.Function, a []value) (value, bool) {
		els := p.norm(a[0])
		if _, ok := elsConst(els); ok {
			return nil, false
		}
		cs, ok := p.predOn(els, a[1])
		if !ok {
			return nil, false
		}
		_, r := p.untilSet(els, cs)
		return len(p.normEls(r)) != 0, true
	}
	intrinsics["strings.FieldsFunc"] = func(p *Path, fn *ssa.Function, a []value) (value, bool) {
		els := p.norm(a[0])
		if _, ok := elsConst(els); ok {
			return nil, false
		}
		cs, ok := p.predOn(els, a[1])
		if !ok {
			return nil, false
		}
		var out []value
		set := string(cs.bytes())
		for k := 0; ; k++ {
			if k > p.h.maxSplit+8 {
				p.bound("too many fields in symbolic text")
			}
			els = p.trimLeft(els, set)
			if len(els) == 0 {
				break
			}
			l, r := p.untilSet(els, cs)
			out = append(out, elsVal(p.normEls(l)))
			els = p.normEls(r)
		}
		return Slice{out}, true
	}
}

func (c CharSet) bytes() []byte {
	var b []byte
	for i := 0; i < 256; i++ {
		if c.has(byte(i)) {
			b = append(b, byte(i))
		}
	}
	return b
}

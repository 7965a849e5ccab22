package main

import (
	"go/types"
	"regexp"
	"regexp/syntax"
	"time"

	"golang.org/x/tools/go/ssa"
)

func (p *Path) errUnwrap(e Iface) []Iface {
	if e.t == nil || isNativeRecv(e.v) {
		return nil
	}
	f := p.w.eng.methodByName(e.t, "Unwrap")
	if f == nil {
		return nil
	}
	switch r := p.callMethod(e, "Unwrap").(type) {
	case Iface:
		if r.t == nil {
			return nil
		}
		return []Iface{r}
	case Slice:
		var out []Iface
		for _, x := range r.a {
			out = append(out, x.(Iface))
		}
		return out
	}
	return nil
}

func (p *Path) errorsIs(e, target Iface) bool {
	if e.t == nil || target.t == nil {
		return e.t == nil && target.t == nil
	}
	if p.isErr(e, target) {
		return true
	}
	if !isNativeRecv(e.v) {
		if f := p.w.eng.methodByName(e.t, "Is"); f != nil {
			if b, ok := p.callMethod(e, "Is", target).(bool); ok && b {
				return true
			}
		}
	}
	for _, u := range p.errUnwrap(e) {
		if p.errorsIs(u, target) {
			return true
		}
	}
	return false
}

func (p *Path) errorsAs(e Iface, cell *value, t types.Type) bool {
	if e.t == nil {
		return false
	}
	if p.assertable(e, t) {
		if types.IsInterface(t) {
			*cell = e
		} else {
			*cell = e.v
		}
		return true
	}
	for _, u := range p.errUnwrap(e) {
		if p.errorsAs(u, cell, t) {
			return true
		}
	}
	return false
}

// classPattern recognises a (negated) single-character class, optionally repeated.
func classPattern(pat string) (CharSet, bool, bool) {
	re, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return CharSet{}, false, false
	}
	re = re.Simplify()
	plus := false
	if re.Op == syntax.OpPlus {
		plus = true
		re = re.Sub[0]
	}
	var rs []rune
	switch re.Op {
	case syntax.OpCharClass:
		rs = re.Rune
	case syntax.OpLiteral:
		if len(re.Rune) != 1 || re.Flags&syntax.FoldCase != 0 {
			return CharSet{}, false, false
		}
		rs = []rune{re.Rune[0], re.Rune[0]}
	default:
		return CharSet{}, false, false
	}
	var cs CharSet
	for i := 0; i+1 < len(rs); i += 2 {
		for r := rs[i]; r <= rs[i+1] && r < 128; r++ {
			cs.add(byte(r))
		}
	}
	return cs, plus, true
}

func init() {
	reg("errors.Is", func(p *Path, fn *ssa.Function, a []value) value { return p.errorsIs(a[0].(Iface), a[1].(Iface)) })
	reg("errors.As", func(p *Path, fn *ssa.Function, a []value) value {
		tg := a[1].(Iface)
		pt, ok := tg.t.(*types.Pointer)
		if !ok {
			p.goPanicStr("errors: target must be a non-nil pointer")
		}
		return p.errorsAs(a[0].(Iface), p.cell(tg.v), pt.Elem())
	})
	reg("(*errors.joinError).Error", func(p *Path, fn *ssa.Function, a []value) value {
		s := (*p.cell(a[0])).(Struct)
		var out []El
		for i, e := range s[0].(Slice).a {
			if i > 0 {
				out = joinEls(out, cEl("\n"))
			}
			out = joinEls(out, p.norm(p.callMethod(e.(Iface), "Error")))
		}
		return elsVal(out)
	})
	nop := func(p *Path, fn *ssa.Function, a []value) value { return nil }
	for _, n := range []string{"(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "runtime.KeepAlive", "runtime.GC", "runtime.SetFinalizer"} {
		reg(n, nop)
	}
	reg("(*sync.Once).Do", func(p *Path, fn *ssa.Function, a []value) value {
		c := p.cell(a[0])
		if p.side[c] == nil {
			p.side[c] = true
			p.locks++
			p.locked = true
			p.call(a[1], nil)
			p.locks--
		}
		return nil
	})
	// a pool gives what was put into it last
	reg("(*sync.Pool).Get", func(p *Path, fn *ssa.Function, a []value) value {
		c := p.cell(a[0])
		if l, _ := p.side[c].([]value); len(l) > 0 {
			p.side[c] = l[:len(l)-1]
			return l[len(l)-1]
		}
		s := (*p.cell(a[0])).(Struct)
		f := s[len(s)-1]
		if fn, ok := f.(*ssa.Function); ok && fn == nil {
			return Iface{}
		}
		return p.call(f, nil)
	})
	reg("(*sync.Pool).Put", func(p *Path, fn *ssa.Function, a []value) value {
		c := p.cell(a[0])
		l, _ := p.side[c].([]value)
		p.side[c] = append(l[:len(l):len(l)], a[1])
		return nil
	})
	// time: the clock is outside the properties; see clock
	reg("(time.Time).String", func(p *Path, fn *ssa.Function, a []value) value { return "2024-01-02 03:04:05 +0000 UTC" })
	reg("(time.Time).Unix", func(p *Path, fn *ssa.Function, a []value) value { return int64(1704164645) })
	reg("(time.Time).IsZero", func(p *Path, fn *ssa.Function, a []value) value { return false })
	// regexp: single-character classes symbolically, everything else on concrete text
	mk := func(p *Path, pat value) (*value, error) {
		s := p.needPat(pat, "regular expression")
		re, err := regexp.Compile(s)
		if err != nil {
			return nil, err
		}
		c := p.newStruct("regexp", "Regexp")
		p.side[c] = re
		// package-level expressions outlive the path
		p.w.regexps[c] = re
		return c, nil
	}
	reg("regexp.MustCompile", func(p *Path, fn *ssa.Function, a []value) value {
		c, err := mk(p, a[0])
		if err != nil {
			p.goPanicStr("regexp: " + err.Error())
		}
		return c
	})
	reg("regexp.Compile", func(p *Path, fn *ssa.Function, a []value) value {
		c, err := mk(p, a[0])
		if err != nil {
			return Tuple{(*value)(nil), p.mkError(err.Error())}
		}
		return Tuple{c, Iface{}}
	})
	get := func(p *Path, v value) *regexp.Regexp {
		c := p.cell(v)
		if re, ok := p.side[c].(*regexp.Regexp); ok {
			return re
		}
		if re := p.w.regexps[c]; re != nil {
			return re
		}
		p.unsupported("uncompiled regular expression")
		return nil
	}
	replaceAll := func(p *Path, re *regexp.Regexp, src []El, repl value, literal bool) []El {
		src = p.resolveEls(src)
		if s, ok := elsConst(src); ok {
			if r, ok := p.pat(repl); ok {
				if literal {
					return cEl(re.ReplaceAllLiteralString(s, r))
				}
				return cEl(re.ReplaceAllString(s, r))
			}
		}
		cs, plus, ok := classPattern(re.String())
		r, rok := p.pat(repl)
		if !ok || !rok || len(r) > 0 && plus {
			p.unsupported("regular expression %q on symbolic text", re.String())
		}
		for i := 0; i < len(r); i++ {
			if r[i] == '$' {
				p.unsupported("expansion in a replacement")
			}
		}
		var out []El
		n := 0
		rest := src
		for {
			l, x := p.untilSet(rest, cs)
			out = joinEls(out, l)
			x = p.normEls(x)
			if len(x) == 0 {
				return p.normEls(out)
			}
			if x[0].t != nil {
				n++
				if n > p.h.maxSplit+2 {
					p.bound("more than %d replaced characters in symbolic text", p.h.maxSplit+2)
				}
			}
			_, _, rest = p.splitAt(x, 1)
			out = joinEls(out, cEl(r))
		}
	}
	reg("(*regexp.Regexp).ReplaceAllString", func(p *Path, fn *ssa.Function, a []value) value {
		return elsVal(replaceAll(p, get(p, a[0]), p.norm(a[1]), a[2], false))
	})
	reg("(*regexp.Regexp).ReplaceAllLiteralString", func(p *Path, fn *ssa.Function, a []value) value {
		return elsVal(replaceAll(p, get(p, a[0]), p.norm(a[1]), a[2], true))
	})
	reg("(*regexp.Regexp).MatchString", func(p *Path, fn *ssa.Function, a []value) value {
		re := get(p, a[0])
		if s, ok := p.pat(a[1]); ok {
			return re.MatchString(s)
		}
		if cs, _, ok := classPattern(re.String()); ok {
			return simpl(p.containsAny(a[1], cs.str()))
		}
		if r := p.reOf(re); r != nil {
			return simpl(mkInRe(elsTerm(p.resolveEls(p.norm(a[1]))), r))
		}
		p.unsupported("regular expression %q on symbolic text", re.String())
		return nil
	})
	conc := func(name string, f func(re *regexp.Regexp, s string, a []value) value) {
		reg("(*regexp.Regexp)."+name, func(p *Path, fn *ssa.Function, a []value) value {
			s, ok := p.pat(a[1])
			if !ok {
				p.unsupported("regular expression %q on symbolic text", get(p, a[0]).String())
			}
			return f(get(p, a[0]), s, a)
		})
	}
	strs := func(x []string) value {
		if x == nil {
			return Slice{}
		}
		var out []value
		for _, s := range x {
			out = append(out, s)
		}
		return Slice{out}
	}
	conc("FindString", func(re *regexp.Regexp, s string, a []value) value { return re.FindString(s) })
	conc("FindStringSubmatch", func(re *regexp.Regexp, s string, a []value) value { return strs(re.FindStringSubmatch(s)) })
	conc("FindAllString", func(re *regexp.Regexp, s string, a []value) value {
		return strs(re.FindAllString(s, int(a[2].(int64))))
	})
	concSplit := func(re *regexp.Regexp, s string, a []value) value { return strs(re.Split(s, int(a[2].(int64)))) }
	reg("(*regexp.Regexp).Split", func(p *Path, fn *ssa.Function, a []value) value {
		re := get(p, a[0])
		if s, ok := p.pat(a[1]); ok {
			return concSplit(re, s, a)
		}
		cs, plus, ok := classPattern(re.String())
		n := int(p.concInt(a[2]))
		if !ok {
			p.unsupported("regular expression %q on symbolic text", re.String())
		}
		if n == 0 {
			return Slice{}
		}
		var out []value
		els := p.norm(a[1])
		for n < 0 || len(out) < n-1 {
			if len(out) > p.h.maxSplit+8 {
				p.bound("too many fields in symbolic text")
			}
			l, r := p.untilSet(els, cs)
			r = p.normEls(r)
			if len(r) == 0 {
				break
			}
			out = append(out, elsVal(p.normEls(l)))
			if plus {
				els = p.trimLeft(r, string(cs.bytes()))
			} else {
				_, _, els = p.splitAt(r, 1)
			}
		}
		return Slice{append(out, elsVal(p.normEls(els)))}
	})
	// sort.Slice and friends; below 13 elements the library uses insertion sort too
	srt := func(p *Path, fn *ssa.Function, a []value) value {
		x := a[0].(Iface).v.(Slice)
		if len(x.a) > 12 {
			p.note("sort of more than 12 elements modelled as a stable sort")
		}
		lt := func(i, j int) bool {
			switch b := p.call(a[1], []value{int64(i), int64(j)}).(type) {
			case bool:
				return b
			case *Term:
				return p.branch(b)
			}
			return false
		}
		for i := 1; i < len(x.a); i++ {
			for j := i; j > 0 && lt(j, j-1); j-- {
				u, v := copyVal(x.a[j]), copyVal(x.a[j-1])
				var cu, cv value = v, u
				x.a[j], x.a[j-1] = cu, cv
			}
		}
		return nil
	}
	reg("sort.Slice", srt)
	reg("sort.SliceStable", srt)
}

// The clock shows one fixed moment; wall 1 means "in the local zone", 2 "in UTC".
var clock = time.Date(2024, 1, 2, 23, 4, 5, 678000000, time.UTC)

func clockOf(v value) time.Time {
	s, ok := v.(Struct)
	if ok && len(s) > 0 {
		switch w := s[0].(type) {
		case uint64:
			if w == 1 {
				return clock.In(time.FixedZone("local", 2*3600))
			}
		case int64:
			if w == 1 {
				return clock.In(time.FixedZone("local", 2*3600))
			}
		}
	}
	return clock
}

func init() {
	at := func(p *Path, w int64) value {
		t := zero(p.w.eng.typeByName("time", "Time")).(Struct)
		t = append(Struct(nil), t...)
		switch t[0].(type) {
		case uint64:
			t[0] = uint64(w)
		default:
			t[0] = w
		}
		return t
	}
	reg("time.Now", func(p *Path, fn *ssa.Function, a []value) value { return at(p, 1) })
	reg("time.Sleep", func(p *Path, fn *ssa.Function, a []value) value { return nil })
	reg("(time.Time).UTC", func(p *Path, fn *ssa.Function, a []value) value { return at(p, 2) })
	reg("(time.Time).Local", func(p *Path, fn *ssa.Function, a []value) value { return at(p, 1) })
	reg("(time.Time).In", func(p *Path, fn *ssa.Function, a []value) value {
		c, ok := a[1].(*value)
		if ok && c == nil {
			// time.UTC itself: the package's variables are not initialised
			return at(p, 2)
		}
		if ok {
			if name, is := p.side[c].(string); is && name == "UTC" {
				return at(p, 2)
			}
		}
		return at(p, 1)
	})
	reg("time.LoadLocation", func(p *Path, fn *ssa.Function, a []value) value {
		name := p.concStr(a[0], "time zone")
		c := new(value)
		*c = zero(p.w.eng.typeByName("time", "Location"))
		if name == "" {
			name = "UTC"
		}
		p.side[c] = name
		return Tuple{c, Iface{}}
	})
	reg("(time.Time).Format", func(p *Path, fn *ssa.Function, a []value) value {
		return clockOf(a[0]).Format(p.concStr(a[1], "time layout"))
	})
}

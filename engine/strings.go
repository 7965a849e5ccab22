package main

import (
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// symReg registers the symbolic model of a library function; concrete calls run natively.
func symReg(name string, f func(p *Path, a []value) value) {
	intrinsics[name] = func(p *Path, fn *ssa.Function, args []value) (value, bool) {
		if w := natives[name]; w != nil {
			if v, ok := w.call(p, fn, args); ok {
				return v, true
			}
		}
		return f(p, args), true
	}
}

func (p *Path) pat(v value) (string, bool) {
	if s, ok := v.(string); ok {
		return s, true
	}
	return elsConst(p.norm(v))
}

func runePat(r value) (string, bool) {
	n, ok := r.(int64)
	if !ok {
		return "", false
	}
	return string(rune(n)), true
}

// structPrefix strips pre from els if it is syntactically a prefix.
func structPrefix(els, pre []El) ([]El, bool) {
	for len(pre) > 0 {
		if len(els) == 0 {
			return nil, false
		}
		if els[0] == pre[0] {
			els, pre = els[1:], pre[1:]
			continue
		}
		if els[0].t == nil && pre[0].t == nil && strings.HasPrefix(els[0].c, pre[0].c) {
			els = joinEls(cEl(els[0].c[len(pre[0].c):]), els[1:])
			pre = pre[1:]
			continue
		}
		return nil, false
	}
	return els, true
}

func (p *Path) cutPrefix(els []El, pre value) ([]El, bool) {
	if s, ok := p.pat(pre); ok {
		ok, r := p.startsWith(els, s)
		return r, ok
	}
	els = p.resolveEls(els)
	pe := p.resolveEls(p.norm(pre))
	if r, ok := structPrefix(els, pe); ok {
		return r, true
	}
	st, pt := elsTerm(els), elsTerm(pe)
	if !p.branch(mkPrefix(pt, st)) {
		return nil, false
	}
	els, pe = p.normEls(els), p.normEls(pe)
	if r, ok := structPrefix(els, pe); ok {
		return r, true
	}
	// els = pe ++ rest
	r := mkSkol("drop", SStr, st, mkLen(pt))
	eq := mkEq(st, mkConcat(pt, r))
	p.add(eq)
	return p.normEls([]El{{t: r}}), true
}

func (p *Path) cutSuffix(els []El, suf value) ([]El, bool) {
	if s, ok := p.pat(suf); ok {
		ok, r := p.endsWith(els, s)
		return r, ok
	}
	els = p.resolveEls(els)
	se := p.resolveEls(p.norm(suf))
	st, pt := elsTerm(els), elsTerm(se)
	if st == pt {
		return nil, true
	}
	if !p.branch(mkSuffix(pt, st)) {
		return nil, false
	}
	r := mkSkol("taker", SStr, st, mkLen(pt))
	p.add(mkEq(st, mkConcat(r, pt)))
	return p.normEls([]El{{t: r}}), true
}

func (p *Path) split(els []El, sep string, n int, after bool) []value {
	var out []value
	if sep == "" {
		for _, e := range p.explode(els) {
			if e.t == nil {
				for _, r := range e.c {
					out = append(out, string(r))
				}
			} else {
				out = append(out, elsVal([]El{e}))
			}
		}
		if n > 0 && len(out) > n {
			var rest []El
			for _, v := range out[n-1:] {
				rest = joinEls(rest, p.norm(v))
			}
			out = append(out[:n-1:n-1], elsVal(rest))
		}
		return out
	}
	symSplits := 0
	for n < 0 || len(out) < n-1 {
		before := len(p.decs)
		ok, l, r := p.find(els, sep)
		if !ok {
			break
		}
		if len(p.decs) > before {
			symSplits++
			if symSplits > p.h.maxSplit {
				p.bound("a symbolic text contains more than %d separators", p.h.maxSplit)
			}
		}
		if after {
			l = joinEls(l, cEl(sep))
		}
		out = append(out, elsVal(p.normEls(l)))
		els = r
	}
	// earlier pieces may have been refined since
	out = append(out, elsVal(p.normEls(els)))
	return out
}

func (p *Path) replace(els []El, old string, nw []El, n int) []El {
	var out []El
	k := 0
	symSplits := 0
	for n < 0 || k < n {
		before := len(p.decs)
		ok, l, r := p.find(els, old)
		if !ok {
			break
		}
		if len(p.decs) > before {
			symSplits++
			if symSplits > p.h.maxSplit {
				p.bound("a symbolic text contains more than %d replaced parts", p.h.maxSplit)
			}
		}
		out = joinEls(out, l, nw)
		els = r
		k++
	}
	return p.normEls(joinEls(out, els))
}

func (p *Path) needPat(v value, what string) string {
	s, ok := p.pat(v)
	if !ok {
		return p.concStr(v, "pattern of "+what)
	}
	return s
}

const asciiWS = " \t\n\v\f\r"

func (p *Path) trimSpace(els []El) []El {
	return p.trimRight(p.trimLeft(els, asciiWS), asciiWS)
}

func (p *Path) mapCase(els []El, up bool) []El {
	var out []El
	name := "lower"
	if up {
		name = "upper"
	}
	els = p.resolveEls(els)
	cs := upperSet
	if up {
		cs = lowerSet
	}
	for _, e := range els {
		if e.t == nil {
			if up {
				out = append(out, El{c: strings.ToUpper(e.c)})
			} else {
				out = append(out, El{c: strings.ToLower(e.c)})
			}
		} else if p.charsOf(e.t).inter(cs).empty() {
			out = append(out, e)
		} else {
			out = append(out, tEl(mkSkol(name, SStr, e.t))...)
		}
	}
	return joinEls(out)
}

func (p *Path) indexVal(els []El, pat string) value {
	ok, l, _ := p.find(els, pat)
	if !ok {
		return int64(-1)
	}
	return p.lenVal(p.normEls(l))
}

func (p *Path) contains(a, b value) *Term {
	if s, ok := p.pat(b); ok {
		els := p.norm(a)
		if s == "" {
			return tTrue
		}
		if !hasEsc(els) {
			// single atom or single character: one term, no decomposition
			if len(els) == 1 || len(s) == 1 {
				var ts []*Term
				for _, e := range els {
					if e.t == nil {
						ts = append(ts, mkBool(strings.Contains(e.c, s)))
					} else if p.mayContain(e.t, s) {
						if isLen1(e.t) && len(s) == 1 {
							ts = append(ts, mkEq(e.t, mkStr(s)))
						} else {
							ts = append(ts, mkContains(e.t, mkStr(s)))
						}
					}
				}
				return mkOr(ts...)
			}
		}
		ok, _, _ := p.find(els, s)
		return mkBool(ok)
	}
	if lit, ok := p.pat(a); ok {
		// a single character among the characters of a literal
		if els := p.norm(b); len(els) == 1 && isLen1(els[0].t) && p.asciiLit(lit) {
			return mkInRe(els[0].t, reStar(setOf(lit)))
		}
	}
	x, y := p.resolveEls(p.norm(a)), p.resolveEls(p.norm(b))
	return mkContains(elsTerm(x), elsTerm(y))
}

func (p *Path) containsAny(a value, set string) *Term {
	els := p.resolveEls(p.norm(a))
	cs := setOf(set)
	var ts []*Term
	for _, e := range els {
		if e.t == nil {
			ts = append(ts, mkBool(strings.ContainsAny(e.c, set)))
		} else if p.charsOf(e.t).inter(cs).empty() {
		} else {
			ts = append(ts, mkNot(mkInRe(e.t, reStar(cs.not()))))
		}
	}
	return mkOr(ts...)
}

func init() {
	R := symReg
	R("strings.Contains", func(p *Path, a []value) value { return simpl(p.contains(a[0], a[1])) })
	R("strings.ContainsRune", func(p *Path, a []value) value {
		s, ok := runePat(a[1])
		if !ok {
			s = string(rune(p.concInt(a[1])))
		}
		return simpl(p.contains(a[0], s))
	})
	R("strings.ContainsAny", func(p *Path, a []value) value {
		return simpl(p.containsAny(a[0], p.needPat(a[1], "ContainsAny")))
	})
	R("strings.HasPrefix", func(p *Path, a []value) value {
		_, ok := p.cutPrefix(p.norm(a[0]), a[1])
		return ok
	})
	R("strings.HasSuffix", func(p *Path, a []value) value {
		_, ok := p.cutSuffix(p.norm(a[0]), a[1])
		return ok
	})
	R("strings.CutPrefix", func(p *Path, a []value) value {
		r, ok := p.cutPrefix(p.norm(a[0]), a[1])
		if !ok {
			return Tuple{a[0], false}
		}
		return Tuple{elsVal(r), true}
	})
	R("strings.TrimPrefix", func(p *Path, a []value) value {
		r, ok := p.cutPrefix(p.norm(a[0]), a[1])
		if !ok {
			return elsVal(p.norm(a[0]))
		}
		return elsVal(r)
	})
	R("strings.CutSuffix", func(p *Path, a []value) value {
		r, ok := p.cutSuffix(p.norm(a[0]), a[1])
		if !ok {
			return Tuple{a[0], false}
		}
		return Tuple{elsVal(r), true}
	})
	R("strings.TrimSuffix", func(p *Path, a []value) value {
		r, ok := p.cutSuffix(p.norm(a[0]), a[1])
		if !ok {
			return elsVal(p.norm(a[0]))
		}
		return elsVal(r)
	})
	R("strings.Index", func(p *Path, a []value) value {
		pat := p.needPat(a[1], "Index")
		if pat == "" {
			return int64(0)
		}
		return p.indexVal(p.norm(a[0]), pat)
	})
	R("strings.IndexByte", func(p *Path, a []value) value {
		return p.indexVal(p.norm(a[0]), string([]byte{byte(p.concInt(a[1]))}))
	})
	R("strings.IndexRune", func(p *Path, a []value) value {
		return p.indexVal(p.norm(a[0]), string(rune(p.concInt(a[1]))))
	})
	lastIndex := func(p *Path, els []El, pat string) value {
		ok, l, _ := p.findLast(els, pat)
		if !ok {
			return int64(-1)
		}
		return p.lenVal(p.normEls(l))
	}
	R("strings.LastIndex", func(p *Path, a []value) value { return lastIndex(p, p.norm(a[0]), p.needPat(a[1], "LastIndex")) })
	R("strings.LastIndexByte", func(p *Path, a []value) value {
		return lastIndex(p, p.norm(a[0]), string([]byte{byte(p.concInt(a[1]))}))
	})
	for _, n := range []string{"internal/bytealg.LastIndexByteString"} {
		R(n, func(p *Path, a []value) value {
			return lastIndex(p, p.norm(a[0]), string([]byte{byte(p.concInt(a[1]))}))
		})
	}
	R("internal/bytealg.IndexByteString", func(p *Path, a []value) value {
		return p.indexVal(p.norm(a[0]), string([]byte{byte(p.concInt(a[1]))}))
	})
	R("internal/bytealg.IndexByte", func(p *Path, a []value) value {
		return p.indexVal(p.bytesEls(a[0]), string([]byte{byte(p.concInt(a[1]))}))
	})
	R("internal/bytealg.CountString", func(p *Path, a []value) value {
		return int64(len(p.split(p.norm(a[0]), string([]byte{byte(p.concInt(a[1]))}), -1, false)) - 1)
	})
	R("strings.Split", func(p *Path, a []value) value {
		return Slice{p.split(p.norm(a[0]), p.needPat(a[1], "Split"), -1, false)}
	})
	R("strings.SplitN", func(p *Path, a []value) value {
		n := int(p.concInt(a[2]))
		if n == 0 {
			return Slice{}
		}
		return Slice{p.split(p.norm(a[0]), p.needPat(a[1], "SplitN"), n, false)}
	})
	R("strings.SplitAfter", func(p *Path, a []value) value {
		return Slice{p.split(p.norm(a[0]), p.needPat(a[1], "SplitAfter"), -1, true)}
	})
	R("strings.SplitAfterN", func(p *Path, a []value) value {
		n := int(p.concInt(a[2]))
		if n == 0 {
			return Slice{}
		}
		return Slice{p.split(p.norm(a[0]), p.needPat(a[1], "SplitAfterN"), n, true)}
	})
	R("strings.Cut", func(p *Path, a []value) value {
		pat := p.needPat(a[1], "Cut")
		ok, l, r := p.find(p.norm(a[0]), pat)
		if !ok {
			return Tuple{elsVal(p.norm(a[0])), "", false}
		}
		return Tuple{elsVal(p.normEls(l)), elsVal(p.normEls(r)), true}
	})
	R("strings.TrimSpace", func(p *Path, a []value) value { return elsVal(p.trimSpace(p.norm(a[0]))) })
	R("strings.Trim", func(p *Path, a []value) value {
		set := p.needPat(a[1], "Trim")
		return elsVal(p.trimRight(p.trimLeft(p.norm(a[0]), set), set))
	})
	R("strings.TrimLeft", func(p *Path, a []value) value { return elsVal(p.trimLeft(p.norm(a[0]), p.needPat(a[1], "TrimLeft"))) })
	R("strings.TrimRight", func(p *Path, a []value) value {
		return elsVal(p.trimRight(p.norm(a[0]), p.needPat(a[1], "TrimRight")))
	})
	R("strings.Replace", func(p *Path, a []value) value {
		return elsVal(p.replace(p.norm(a[0]), p.needPat(a[1], "Replace"), p.norm(a[2]), int(p.concInt(a[3]))))
	})
	R("strings.ReplaceAll", func(p *Path, a []value) value {
		return elsVal(p.replace(p.norm(a[0]), p.needPat(a[1], "ReplaceAll"), p.norm(a[2]), -1))
	})
	R("strings.ToLower", func(p *Path, a []value) value { return elsVal(p.mapCase(p.norm(a[0]), false)) })
	R("strings.ToUpper", func(p *Path, a []value) value { return elsVal(p.mapCase(p.norm(a[0]), true)) })
	R("strings.EqualFold", func(p *Path, a []value) value {
		x, y := a[0], a[1]
		if _, ok := p.pat(x); ok {
			x, y = y, x
		}
		if lit, ok := p.pat(y); ok {
			els := p.norm(x)
			if len(els) == 1 && utf8.RuneCountInString(lit) == len(lit) {
				if lit == "" {
					return simpl(mkEq(els[0].t, mkStr("")))
				}
				return simpl(mkInRe(els[0].t, reFold(lit)))
			}
			// literal parts that already make it too long or do not match
			n, plain := 0, utf8.RuneCountInString(lit) == len(lit)
			for _, e := range els {
				if e.t == nil {
					n += len(e.c)
					plain = plain && utf8.RuneCountInString(e.c) == len(e.c)
				}
			}
			if plain && n > len(lit) {
				return false
			}
			return simpl(p.eqStr(elsVal(p.mapCase(els, false)), strings.ToLower(lit)))
		}
		return simpl(p.eqStr(elsVal(p.mapCase(p.norm(x), false)), elsVal(p.mapCase(p.norm(y), false))))
	})
	R("strings.Fields", func(p *Path, a []value) value {
		var out []value
		els := p.norm(a[0])
		for k := 0; ; k++ {
			if k > p.h.maxSplit+8 {
				p.bound("too many fields in symbolic text")
			}
			els = p.trimLeft(els, asciiWS)
			if len(els) == 0 {
				break
			}
			// first white space character
			l, r := p.untilSet(els, wsSet)
			out = append(out, elsVal(p.normEls(l)))
			els = r
		}
		return Slice{out}
	})
	R("strings.Join", func(p *Path, a []value) value {
		var els []El
		sep := p.norm(a[1])
		for i, x := range a[0].(Slice).a {
			if i > 0 {
				els = joinEls(els, sep)
			}
			els = joinEls(els, p.norm(x))
		}
		return elsVal(els)
	})
	R("strings.Repeat", func(p *Path, a []value) value {
		n := int(p.concInt(a[1]))
		if n < 0 {
			p.goPanicStr("strings: negative Repeat count")
		}
		var els []El
		for i := 0; i < n; i++ {
			els = joinEls(els, p.norm(a[0]))
		}
		return elsVal(els)
	})
	R("strings.Count", func(p *Path, a []value) value {
		return int64(len(p.split(p.norm(a[0]), p.needPat(a[1], "Count"), -1, false)) - 1)
	})
	R("strings.Compare", func(p *Path, a []value) value {
		if p.branch(p.eqStr(a[0], a[1])) {
			return int64(0)
		}
		if p.branch(p.strLt(a[0], a[1])) {
			return int64(-1)
		}
		return int64(1)
	})
	intrinsics["internal/bytealg.CompareString"] = intrinsics["strings.Compare"]
	reg("strings.Clone", func(p *Path, fn *ssa.Function, a []value) value { return a[0] })
	R("strconv.Itoa", func(p *Path, a []value) value { return p.itoa(a[0]) })
	R("strconv.FormatInt", func(p *Path, a []value) value {
		if b, ok := a[1].(int64); !ok || b != 10 {
			return fmtInt(p.concInt(a[0]), int(p.concInt(a[1])))
		}
		return p.itoa(a[0])
	})
	R("strconv.Atoi", func(p *Path, a []value) value { return p.atoi(a[0], "Atoi") })
	R("strconv.ParseInt", func(p *Path, a []value) value {
		if b, ok := a[1].(int64); !ok || b != 10 {
			p.concStr(a[0], "ParseInt with a base other than 10")
			v, _ := natives["strconv.ParseInt"].call(p, nil, a)
			return v
		}
		return p.atoi(a[0], "ParseInt")
	})
	R("strconv.ParseBool", func(p *Path, a []value) value {
		for _, s := range []string{"1", "t", "T", "TRUE", "true", "True"} {
			if p.branch(p.eqStr(a[0], s)) {
				return Tuple{true, Iface{}}
			}
		}
		for _, s := range []string{"0", "f", "F", "FALSE", "false", "False"} {
			if p.branch(p.eqStr(a[0], s)) {
				return Tuple{false, Iface{}}
			}
		}
		return Tuple{false, p.mkError(elsVal(joinEls(cEl(`strconv.ParseBool: parsing `), p.norm(a[0]), cEl(": invalid syntax"))))}
	})
	R("strconv.Quote", func(p *Path, a []value) value {
		return elsVal(joinEls(cEl(`"`), p.norm(a[0]), cEl(`"`)))
	})
	B := func(name string, f func(p *Path, a []value) value) { symReg(name, f) }
	B("bytes.Equal", func(p *Path, a []value) value {
		return simpl(p.eqStr(elsVal(p.bytesEls(a[0])), elsVal(p.bytesEls(a[1]))))
	})
	B("bytes.TrimSpace", func(p *Path, a []value) value { return elsBytes(p.trimSpace(p.bytesEls(a[0]))) })
	B("bytes.Trim", func(p *Path, a []value) value {
		set := p.needPat(a[1], "Trim")
		return elsBytes(p.trimRight(p.trimLeft(p.bytesEls(a[0]), set), set))
	})
	B("bytes.TrimLeft", func(p *Path, a []value) value { return elsBytes(p.trimLeft(p.bytesEls(a[0]), p.needPat(a[1], "Trim"))) })
	B("bytes.TrimRight", func(p *Path, a []value) value {
		return elsBytes(p.trimRight(p.bytesEls(a[0]), p.needPat(a[1], "Trim")))
	})
	B("bytes.TrimPrefix", func(p *Path, a []value) value {
		r, ok := p.cutPrefix(p.bytesEls(a[0]), elsVal(p.bytesEls(a[1])))
		if !ok {
			return elsBytes(p.bytesEls(a[0]))
		}
		return elsBytes(r)
	})
	B("bytes.TrimSuffix", func(p *Path, a []value) value {
		r, ok := p.cutSuffix(p.bytesEls(a[0]), elsVal(p.bytesEls(a[1])))
		if !ok {
			return elsBytes(p.bytesEls(a[0]))
		}
		return elsBytes(r)
	})
	B("bytes.HasPrefix", func(p *Path, a []value) value {
		_, ok := p.cutPrefix(p.bytesEls(a[0]), elsVal(p.bytesEls(a[1])))
		return ok
	})
	B("bytes.HasSuffix", func(p *Path, a []value) value {
		_, ok := p.cutSuffix(p.bytesEls(a[0]), elsVal(p.bytesEls(a[1])))
		return ok
	})
	B("bytes.Contains", func(p *Path, a []value) value {
		return simpl(p.contains(elsVal(p.bytesEls(a[0])), elsVal(p.bytesEls(a[1]))))
	})
	B("bytes.Index", func(p *Path, a []value) value {
		return p.indexVal(p.bytesEls(a[0]), p.needPat(elsVal(p.bytesEls(a[1])), "Index"))
	})
	B("bytes.IndexByte", func(p *Path, a []value) value {
		return p.indexVal(p.bytesEls(a[0]), string([]byte{byte(p.concInt(a[1]))}))
	})
	B("bytes.ReplaceAll", func(p *Path, a []value) value {
		return elsBytes(p.replace(p.bytesEls(a[0]), p.needPat(elsVal(p.bytesEls(a[1])), "ReplaceAll"), p.bytesEls(a[2]), -1))
	})
	B("bytes.Split", func(p *Path, a []value) value {
		var out []value
		for _, x := range p.split(p.bytesEls(a[0]), p.needPat(elsVal(p.bytesEls(a[1])), "Split"), -1, false) {
			out = append(out, elsBytes(p.norm(x)))
		}
		return Slice{out}
	})
	// character classes on symbolic (ASCII) runes
	cls := func(name string, set CharSet) {
		symReg("unicode."+name, func(p *Path, a []value) value {
			return simpl(p.inSet(a[0].(*Term), set))
		})
	}
	cls("IsSpace", wsSet)
	cls("IsDigit", digitSet)
	cls("IsLetter", upperSet.union(lowerSet))
	cls("IsUpper", upperSet)
	cls("IsLower", lowerSet)
	cls("IsControl", setRange(0, 31).union(setRange(127, 127)))
	symReg("unicode.ToLower", func(p *Path, a []value) value {
		t := a[0].(*Term)
		if p.branch(p.inSet(t, upperSet)) {
			return simpl(mkAdd(t, mkInt(32)))
		}
		return t
	})
	symReg("unicode.ToUpper", func(p *Path, a []value) value {
		t := a[0].(*Term)
		if p.branch(p.inSet(t, lowerSet)) {
			return simpl(mkAdd(t, mkInt(-32)))
		}
		return t
	})
	reg("unicode/utf8.RuneCountInString", func(p *Path, fn *ssa.Function, a []value) value {
		els := p.norm(a[0])
		if s, ok := elsConst(els); ok {
			return int64(utf8.RuneCountInString(s))
		}
		return p.lenVal(p.resolveEls(els))
	})
	reg("unicode/utf8.ValidString", func(p *Path, fn *ssa.Function, a []value) value {
		for _, e := range p.norm(a[0]) {
			if e.t == nil && !utf8.ValidString(e.c) {
				return false
			}
		}
		return true
	})
}

func (p *Path) inSet(t *Term, set CharSet) *Term {
	var cs []*Term
	for i := 0; i < 256; {
		if !set.has(byte(i)) {
			i++
			continue
		}
		j := i
		for j+1 < 256 && set.has(byte(j+1)) {
			j++
		}
		if i == j {
			cs = append(cs, mkEq(t, mkInt(int64(i))))
		} else {
			cs = append(cs, mkAnd(mkLe(mkInt(int64(i)), t), mkLe(t, mkInt(int64(j)))))
		}
		i = j + 1
	}
	return mkOr(cs...)
}

// untilSet splits els before the first character in set.
func (p *Path) untilSet(els []El, set CharSet) ([]El, []El) {
	var done []El
	for {
		els = p.normEls(els)
		if len(els) == 0 {
			return done, nil
		}
		h := els[0]
		if h.t == nil {
			for i := 0; i < len(h.c); i++ {
				if set.has(h.c[i]) {
					return joinEls(done, cEl(h.c[:i])), joinEls(cEl(h.c[i:]), els[1:])
				}
			}
			done = joinEls(done, []El{h})
			els = els[1:]
			continue
		}
		if r := p.resolveSpecial(h.t); r != h.t {
			continue
		}
		a := h.t
		if p.branch(mkInRe(a, reStar(set.not()))) {
			done = joinEls(done, []El{h})
			els = els[1:]
			continue
		}
		if e := p.normEls(els); e[0].t != a {
			els = e
			continue
		}
		if isLen1(a) {
			return done, els
		}
		x := mkSkol("lead:"+set.not().str(), SStr, a)
		y := mkSkol("ltrim:"+set.not().str(), SStr, a)
		p.decompose(a, []El{{t: x}, {t: y}}, mkInRe(x, reStar(set.not())), mkInRe(y, reFirstIn(set)))
		p.nonEmp[y] = true
		return joinEls(done, []El{{t: x}}), p.normEls(append([]El{{t: y}}, els[1:]...))
	}
}

func fmtInt(i int64, base int) string {
	return intFmt(i, base)
}

func (p *Path) itoa(v value) value {
	switch n := v.(type) {
	case int64:
		return intFmt(n, 10)
	case *Term:
		if p.branch(mkLe(mkInt(0), n)) {
			return elsVal(tEl(mkFromInt(n)))
		}
		return elsVal(joinEls(cEl("-"), tEl(mkFromInt(mkSub(mkInt(0), n)))))
	}
	panic("itoa")
}

func (p *Path) atoi(v value, fname string) value {
	els := p.norm(v)
	if s, ok := elsConst(els); ok {
		r, _ := natives["strconv.Atoi"].call(p, nil, []value{s})
		return r
	}
	// a formatted integer reads back as itself
	if len(els) == 1 && els[0].t.op == OFromInt {
		return Tuple{simpl(els[0].t.args[0]), Iface{}}
	}
	if len(els) == 2 && els[0].t == nil && els[0].c == "-" && els[1].t.op == OFromInt {
		return Tuple{simpl(mkSub(mkInt(0), els[1].t.args[0])), Iface{}}
	}
	els = p.resolveEls(els)
	t := elsTerm(els)
	fail := func() value {
		return Tuple{int64(0), p.mkError(elsVal(joinEls(cEl("strconv."+fname+": parsing "), p.normEls(els), cEl(": invalid syntax"))))}
	}
	if !p.branch(mkInRe(t, reSmallInt)) {
		if p.branch(mkInRe(t, reBigInt)) {
			p.bound("number with more than 18 digits")
		}
		return fail()
	}
	if ok, r := p.startsWith(els, "-"); ok {
		return Tuple{simpl(mkSub(mkInt(0), mkToInt(elsTerm(p.normEls(r))))), Iface{}}
	}
	if ok, r := p.startsWith(els, "+"); ok {
		return Tuple{simpl(mkToInt(elsTerm(p.normEls(r)))), Iface{}}
	}
	return Tuple{simpl(mkToInt(elsTerm(p.normEls(els)))), Iface{}}
}

var reBigInt = &Re{name: "bigint", smt: `(re.++ (re.opt (re.union (str.to_re "+") (str.to_re "-"))) (re.+ (re.range "0" "9")))`,
	match: func(s string) bool {
		if s != "" && (s[0] == '+' || s[0] == '-') {
			s = s[1:]
		}
		return len(s) >= 1 && digitSet.all(s)
	}}

func (p *Path) asciiLit(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

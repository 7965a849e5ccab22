package main

import (
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// sinceSet splits els after the last character in set: the second part has none.
func (p *Path) sinceSet(els []El, set CharSet) ([]El, []El) {
	var done []El
	for {
		els = p.normEls(els)
		n := len(els)
		if n == 0 {
			return nil, done
		}
		h := els[n-1]
		if h.t == nil {
			for i := len(h.c) - 1; i >= 0; i-- {
				if set.has(h.c[i]) {
					return joinEls(els[:n-1], cEl(h.c[:i+1])), joinEls(cEl(h.c[i+1:]), done)
				}
			}
			done = joinEls([]El{h}, done)
			els = els[:n-1]
			continue
		}
		if r := p.resolveSpecial(h.t); r != h.t {
			continue
		}
		a := h.t
		if p.branch(mkInRe(a, reStar(set.not()))) {
			done = joinEls([]El{h}, done)
			els = els[:n-1]
			continue
		}
		if e := p.normEls(els); len(e) == 0 || e[len(e)-1].t != a {
			els = e
			continue
		}
		if isLen1(a) {
			return els, done
		}
		x := mkSkol("rtrim:"+set.not().str(), SStr, a)
		y := mkSkol("tail:"+set.not().str(), SStr, a)
		p.decompose(a, []El{{t: x}, {t: y}}, mkInRe(x, reLastIn(set)), mkInRe(y, reStar(set.not())))
		p.nonEmp[x] = true
		return p.normEls(append(append([]El(nil), els[:n-1]...), El{t: x})), joinEls([]El{{t: y}}, done)
	}
}

// predOn is predSet for a text: other characters of its literal parts are
// tested too; when one of those satisfies f, there is no set to give.
func (p *Path) predOn(els []El, f value) (CharSet, bool) {
	cs, ok := p.predSet(f)
	if !ok || asciiEls(els) {
		return cs, ok
	}
	for _, e := range els {
		if e.t != nil {
			continue
		}
		for _, r := range e.c {
			if r < utf8.RuneSelf {
				continue
			}
			if b, ok := p.call(f, []value{int64(r)}).(bool); !ok || b {
				return cs, false
			}
		}
	}
	return cs, true
}

func (p *Path) fieldsBy(els []El, cs CharSet) [][]El {
	var out [][]El
	set := string(cs.bytes())
	for k := 0; ; k++ {
		if k > p.h.maxSplit+8 {
			p.bound("too many fields in symbolic text")
		}
		els = p.trimLeft(els, set)
		if len(els) == 0 {
			return out
		}
		l, r := p.untilSet(els, cs)
		out = append(out, p.normEls(l))
		els = p.normEls(r)
	}
}

func asciiSet(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= utf8.RuneSelf {
			return false
		}
	}
	return true
}

// mapEls applies a mapping of single ASCII characters to a text.
func (p *Path) mapEls(els []El, m map[byte]string) ([]El, bool) {
	var moved CharSet
	for c := range m {
		moved.add(c)
	}
	if moved.empty() {
		return els, true
	}
	// all letters of one case
	up, low := true, true
	for b := byte('A'); b <= 'Z'; b++ {
		low = low && m[b] == string([]byte{b + 32})
		up = up && m[b+32] == string([]byte{b})
	}
	if low && len(m) == 26 && asciiEls(els) {
		return p.mapCase(els, false), true
	}
	if up && len(m) == 26 && asciiEls(els) {
		return p.mapCase(els, true), true
	}
	present := CharSet{}
	for _, e := range p.resolveEls(els) {
		if e.t == nil {
			for i := 0; i < len(e.c); i++ {
				present.add(e.c[i])
			}
		} else {
			present = present.union(p.charsOf(e.t))
		}
	}
	todo := moved.inter(present).bytes()
	if len(todo) > 16 {
		return nil, false
	}
	for _, c := range todo {
		for i := 0; i < len(m[c]); i++ {
			if moved.has(m[c][i]) {
				return nil, false
			}
		}
	}
	for _, c := range todo {
		els = p.replace(els, string([]byte{c}), cEl(m[c]), -1)
	}
	return els, true
}

func init() {
	R := symReg
	posn := func(p *Path, l, r []El) value {
		if len(p.normEls(r)) == 0 {
			return int64(-1)
		}
		return p.lenVal(p.normEls(l))
	}
	indexAny := func(p *Path, els []El, set string) value {
		if !asciiSet(set) {
			p.unsupported("IndexAny with other than ASCII characters")
		}
		l, r := p.untilSet(els, setOf(set))
		return posn(p, l, r)
	}
	lastIn := func(p *Path, els []El, cs CharSet) value {
		l, _ := p.sinceSet(els, cs)
		l = p.normEls(l)
		if len(l) == 0 {
			return int64(-1)
		}
		return simpl(mkAdd(p.intTerm(p.lenVal(l)), mkInt(-1)))
	}
	R("strings.IndexAny", func(p *Path, a []value) value {
		return indexAny(p, p.norm(a[0]), p.needPat(a[1], "IndexAny"))
	})
	R("strings.LastIndexAny", func(p *Path, a []value) value {
		set := p.needPat(a[1], "LastIndexAny")
		if !asciiSet(set) {
			p.unsupported("LastIndexAny with other than ASCII characters")
		}
		return lastIn(p, p.norm(a[0]), setOf(set))
	})
	intrinsics["strings.LastIndexFunc"] = func(p *Path, fn *ssa.Function, a []value) (value, bool) {
		els := p.norm(a[0])
		if _, ok := elsConst(els); ok {
			return nil, false
		}
		cs, ok := p.predOn(els, a[1])
		if !ok {
			return nil, false
		}
		return lastIn(p, els, cs), true
	}
	intrinsics["strings.Map"] = func(p *Path, fn *ssa.Function, a []value) (value, bool) {
		els := p.norm(a[1])
		if _, ok := elsConst(els); ok {
			return nil, false
		}
		var f *ssa.Function
		var env []value
		switch x := a[0].(type) {
		case *ssa.Function:
			f = x
		case *Closure:
			f, env = x.fn, x.env
		}
		if f == nil || !pureFn(f, 0) {
			return nil, false
		}
		m := map[byte]string{}
		for b := 0; b < 128; b++ {
			r, ok := p.callFn(f, []value{int64(b)}, env).(int64)
			if !ok {
				return nil, false
			}
			switch {
			case r == int64(b):
			case r < 0:
				m[byte(b)] = ""
			default:
				m[byte(b)] = string(rune(r))
			}
		}
		// the other characters of the literal parts
		var in []El
		for _, e := range els {
			if e.t != nil {
				in = append(in, e)
				continue
			}
			var b strings.Builder
			for _, c := range e.c {
				if c < utf8.RuneSelf {
					b.WriteRune(c)
					continue
				}
				r, ok := p.callFn(f, []value{int64(c)}, env).(int64)
				if !ok || r >= 0 && r < utf8.RuneSelf {
					return nil, false
				}
				if r >= 0 {
					b.WriteRune(rune(r))
				}
			}
			in = joinEls(in, cEl(b.String()))
		}
		out, ok := p.mapEls(in, m)
		if !ok {
			p.unsupported("strings.Map of a symbolic text")
		}
		return elsVal(p.normEls(out)), true
	}
	// a replacer whose patterns cannot meet works one pattern after the other
	intrinsics["(*strings.Replacer).Replace"] = func(p *Path, fn *ssa.Function, a []value) (value, bool) {
		els := p.norm(a[1])
		if _, ok := elsConst(els); ok {
			return nil, false
		}
		st, ok := (*p.cell(a[0])).(Struct)
		if !ok {
			return nil, false
		}
		on, ok := st[2].(Slice)
		if !ok {
			return nil, false
		}
		var olds []string
		var news [][]El
		for i := 0; i+1 < len(on.a); i += 2 {
			old, ok := p.pat(on.a[i])
			if !ok || old == "" {
				p.unsupported("Replacer on a symbolic text")
			}
			dup := false
			for _, o := range olds {
				dup = dup || o == old
			}
			if dup {
				continue
			}
			olds = append(olds, old)
			news = append(news, p.norm(on.a[i+1]))
		}
		for i, o := range olds {
			for j, q := range olds {
				if i != j && strings.ContainsAny(o, q) {
					p.unsupported("Replacer with patterns that share characters on a symbolic text")
				}
				if i >= j {
					continue
				}
				if len(news[i]) == 0 && len(q) > 1 {
					p.unsupported("Replacer that joins text on a symbolic text")
				}
				for _, e := range news[i] {
					if e.t != nil && !p.charsOf(e.t).inter(setOf(q)).empty() || e.t == nil && strings.ContainsAny(e.c, q) {
						p.unsupported("Replacer that makes new matches on a symbolic text")
					}
				}
			}
		}
		for i, o := range olds {
			els = p.replace(els, o, news[i], -1)
		}
		return elsVal(p.normEls(els)), true
	}

	// byte slices
	same := func(name string, mk func(p *Path, a []value) value) { symReg("bytes."+name, mk) }
	E := func(p *Path, v value) []El { return p.bytesEls(v) }
	pat := func(p *Path, v value, what string) string { return p.needPat(elsVal(p.bytesEls(v)), what) }
	same("Cut", func(p *Path, a []value) value {
		ok, l, r := p.find(E(p, a[0]), pat(p, a[1], "Cut"))
		if !ok {
			return Tuple{a[0], Slice{}, false}
		}
		return Tuple{elsBytes(p.normEls(l)), elsBytes(p.normEls(r)), true}
	})
	same("CutPrefix", func(p *Path, a []value) value {
		r, ok := p.cutPrefix(E(p, a[0]), elsVal(E(p, a[1])))
		if !ok {
			return Tuple{a[0], false}
		}
		return Tuple{elsBytes(r), true}
	})
	same("CutSuffix", func(p *Path, a []value) value {
		r, ok := p.cutSuffix(E(p, a[0]), elsVal(E(p, a[1])))
		if !ok {
			return Tuple{a[0], false}
		}
		return Tuple{elsBytes(r), true}
	})
	same("ToLower", func(p *Path, a []value) value { return elsBytes(p.mapCase(E(p, a[0]), false)) })
	same("ToUpper", func(p *Path, a []value) value { return elsBytes(p.mapCase(E(p, a[0]), true)) })
	same("Fields", func(p *Path, a []value) value {
		var out []value
		for _, f := range p.fieldsBy(E(p, a[0]), wsSet) {
			out = append(out, elsBytes(f))
		}
		return Slice{out}
	})
	same("Join", func(p *Path, a []value) value {
		var els []El
		sep := E(p, a[1])
		for i, x := range a[0].(Slice).a {
			if i > 0 {
				els = joinEls(els, sep)
			}
			els = joinEls(els, E(p, x))
		}
		return elsBytes(els)
	})
	splitN := func(p *Path, a []value, n int, after bool) value {
		if n == 0 {
			return Slice{}
		}
		var out []value
		for _, x := range p.split(E(p, a[0]), pat(p, a[1], "Split"), n, after) {
			out = append(out, elsBytes(p.norm(x)))
		}
		return Slice{out}
	}
	same("SplitN", func(p *Path, a []value) value { return splitN(p, a, int(p.concInt(a[2])), false) })
	same("SplitAfter", func(p *Path, a []value) value { return splitN(p, a, -1, true) })
	same("SplitAfterN", func(p *Path, a []value) value { return splitN(p, a, int(p.concInt(a[2])), true) })
	same("Count", func(p *Path, a []value) value {
		return int64(len(p.split(E(p, a[0]), pat(p, a[1], "Count"), -1, false)) - 1)
	})
	same("LastIndex", func(p *Path, a []value) value {
		ok, l, _ := p.findLast(E(p, a[0]), pat(p, a[1], "LastIndex"))
		if !ok {
			return int64(-1)
		}
		return p.lenVal(p.normEls(l))
	})
	same("LastIndexByte", func(p *Path, a []value) value {
		ok, l, _ := p.findLast(E(p, a[0]), string([]byte{byte(p.concInt(a[1]))}))
		if !ok {
			return int64(-1)
		}
		return p.lenVal(p.normEls(l))
	})
	same("IndexAny", func(p *Path, a []value) value { return indexAny(p, E(p, a[0]), p.needPat(a[1], "IndexAny")) })
	same("LastIndexAny", func(p *Path, a []value) value {
		return lastIn(p, E(p, a[0]), setOf(p.needPat(a[1], "LastIndexAny")))
	})
	same("ContainsAny", func(p *Path, a []value) value {
		return simpl(p.containsAny(elsVal(E(p, a[0])), p.needPat(a[1], "ContainsAny")))
	})
	same("ContainsRune", func(p *Path, a []value) value {
		s, ok := runePat(a[1])
		if !ok {
			s = string(rune(p.concInt(a[1])))
		}
		return simpl(p.contains(elsVal(E(p, a[0])), s))
	})
	same("IndexRune", func(p *Path, a []value) value {
		return p.indexVal(E(p, a[0]), string(rune(p.concInt(a[1]))))
	})
	same("Replace", func(p *Path, a []value) value {
		return elsBytes(p.replace(E(p, a[0]), pat(p, a[1], "Replace"), E(p, a[2]), int(p.concInt(a[3]))))
	})
	same("EqualFold", func(p *Path, a []value) value {
		return simpl(p.eqStr(elsVal(p.mapCase(E(p, a[0]), false)), elsVal(p.mapCase(E(p, a[1]), false))))
	})
	same("Compare", func(p *Path, a []value) value {
		x, y := elsVal(E(p, a[0])), elsVal(E(p, a[1]))
		if p.branch(p.eqStr(x, y)) {
			return int64(0)
		}
		if p.branch(p.strLt(x, y)) {
			return int64(-1)
		}
		return int64(1)
	})
	bfunc := func(name string, f func(p *Path, els []El, cs CharSet) value) {
		intrinsics["bytes."+name] = func(p *Path, fn *ssa.Function, a []value) (value, bool) {
			if _, ok := a[0].(*BRope); !ok {
				return nil, false
			}
			els := p.bytesEls(a[0])
			cs, ok := p.predOn(els, a[1])
			if !ok {
				return nil, false
			}
			return f(p, els, cs), true
		}
	}
	bfunc("TrimFunc", func(p *Path, els []El, cs CharSet) value {
		set := string(cs.bytes())
		return elsBytes(p.trimRight(p.trimLeft(els, set), set))
	})
	bfunc("TrimLeftFunc", func(p *Path, els []El, cs CharSet) value { return elsBytes(p.trimLeft(els, string(cs.bytes()))) })
	bfunc("TrimRightFunc", func(p *Path, els []El, cs CharSet) value { return elsBytes(p.trimRight(els, string(cs.bytes()))) })
	bfunc("IndexFunc", func(p *Path, els []El, cs CharSet) value {
		l, r := p.untilSet(els, cs)
		return posn(p, l, r)
	})
	bfunc("ContainsFunc", func(p *Path, els []El, cs CharSet) value {
		_, r := p.untilSet(els, cs)
		return len(p.normEls(r)) != 0
	})
	bfunc("FieldsFunc", func(p *Path, els []El, cs CharSet) value {
		var out []value
		for _, f := range p.fieldsBy(els, cs) {
			out = append(out, elsBytes(f))
		}
		return Slice{out}
	})
	reg("maps.clone", func(p *Path, fn *ssa.Function, a []value) value {
		x := a[0].(Iface)
		m, ok := x.v.(*Map)
		if !ok || m == nil {
			return x
		}
		c := &Map{keys: append([]value(nil), m.keys...), symb: m.symb, kt: m.kt}
		for _, v := range m.vals {
			c.vals = append(c.vals, copyVal(v))
		}
		if m.idx != nil {
			c.idx = map[any]int{}
			for k, i := range m.idx {
				c.idx[k] = i
			}
		}
		return Iface{t: x.t, v: c}
	})
}

package main

import (
	"fmt"
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"
)

var reCache sync.Map

// reOf translates a regular expression into a condition on the whole text; nil
// when it uses something with no counterpart (word boundaries, anchors inside).
func (p *Path) reOf(re *regexp.Regexp) *Re {
	pat := re.String()
	if r, ok := reCache.Load(pat); ok {
		return r.(*Re)
	}
	tree, err := syntax.Parse(pat, syntax.Perl)
	if err != nil {
		return nil
	}
	tree = tree.Simplify()
	subs := []*syntax.Regexp{tree}
	if tree.Op == syntax.OpConcat {
		subs = tree.Sub
	}
	begin, end := false, false
	if len(subs) > 0 && subs[0].Op == syntax.OpBeginText {
		begin, subs = true, subs[1:]
	}
	if n := len(subs); n > 0 && subs[n-1].Op == syntax.OpEndText {
		end, subs = true, subs[:n-1]
	}
	var parts []string
	if !begin {
		parts = append(parts, "re.all")
	}
	for _, s := range subs {
		x, ok := smtRe(s)
		if !ok {
			return nil
		}
		parts = append(parts, x)
	}
	if !end {
		parts = append(parts, "re.all")
	}
	smt := `(str.to_re "")`
	switch {
	case len(parts) == 1:
		smt = parts[0]
	case len(parts) > 1:
		smt = "(re.++ " + strings.Join(parts, " ") + ")"
	}
	r, _ := reCache.LoadOrStore(pat, &Re{name: "regexp:" + pat, smt: smt, match: re.MatchString})
	return r.(*Re)
}

func smtRe(r *syntax.Regexp) (string, bool) {
	list := func(op string) (string, bool) {
		var parts []string
		for _, s := range r.Sub {
			x, ok := smtRe(s)
			if !ok {
				return "", false
			}
			parts = append(parts, x)
		}
		if len(parts) == 1 {
			return parts[0], true
		}
		return "(" + op + " " + strings.Join(parts, " ") + ")", true
	}
	switch r.Op {
	case syntax.OpEmptyMatch:
		return `(str.to_re "")`, true
	case syntax.OpLiteral:
		if r.Flags&syntax.FoldCase == 0 {
			return "(str.to_re " + smtStr(string(r.Rune)) + ")", true
		}
		var parts []string
		for _, c := range r.Rune {
			lo, up := strings.ToLower(string(c)), strings.ToUpper(string(c))
			if lo == up {
				parts = append(parts, "(str.to_re "+smtStr(lo)+")")
			} else {
				parts = append(parts, "(re.union (str.to_re "+smtStr(lo)+") (str.to_re "+smtStr(up)+"))")
			}
		}
		if len(parts) == 1 {
			return parts[0], true
		}
		return "(re.++ " + strings.Join(parts, " ") + ")", true
	case syntax.OpCharClass, syntax.OpAnyChar, syntax.OpAnyCharNotNL:
		rs := r.Rune
		if r.Op == syntax.OpAnyChar {
			rs = []rune{0, 0x10ffff}
		} else if r.Op == syntax.OpAnyCharNotNL {
			rs = []rune{0, 9, 11, 0x10ffff}
		}
		var cs CharSet
		for i := 0; i+1 < len(rs); i += 2 {
			for c := rs[i]; c <= rs[i+1] && c < 128; c++ {
				cs.add(byte(c))
			}
			if rs[i+1] >= 0x10ffff {
				for b := 128; b < 256; b++ {
					cs.add(byte(b))
				}
			}
		}
		return cs.smt(), true
	case syntax.OpCapture:
		return smtRe(r.Sub[0])
	case syntax.OpStar, syntax.OpPlus, syntax.OpQuest:
		x, ok := smtRe(r.Sub[0])
		op := map[syntax.Op]string{syntax.OpStar: "re.*", syntax.OpPlus: "re.+", syntax.OpQuest: "re.opt"}[r.Op]
		return "(" + op + " " + x + ")", ok
	case syntax.OpRepeat:
		x, ok := smtRe(r.Sub[0])
		if r.Max < 0 {
			return fmt.Sprintf("(re.++ ((_ re.^ %d) %s) (re.* %s))", r.Min, x, x), ok
		}
		return fmt.Sprintf("((_ re.loop %d %d) %s)", r.Min, r.Max, x), ok
	case syntax.OpConcat:
		return list("re.++")
	case syntax.OpAlternate:
		return list("re.union")
	}
	return "", false
}

package main

import (
	"path"
	"path/filepath"
	"strconv"
	"strings"
)

// File names that are not concrete. Inside the file tree a path component is a
// string; one with symbolic parts is stood for by a token "\x00<number>\x01". Tokens
// are compared with other names by branching, and replaced by the text they
// stand for wherever a name leaves the tree.

func (p *Path) nameEls(name string) []El {
	if !strings.HasPrefix(name, "\x00") {
		return cEl(name)
	}
	k, _ := strconv.Atoi(name[1 : len(name)-1])
	return p.normEls(p.toks[k])
}

// nameVal is the text of a path that may contain tokens.
func (p *Path) nameVal(s string) value {
	if !strings.Contains(s, "\x00") {
		return s
	}
	var els []El
	for s != "" {
		i := strings.Index(s, "\x00")
		if i < 0 {
			els = joinEls(els, cEl(s))
			break
		}
		j := strings.Index(s, "\x01")
		els = joinEls(els, cEl(s[:i]), p.nameEls(s[i:j+1]))
		s = s[j+1:]
	}
	return elsVal(p.normEls(els))
}

// pathStr gives a path with tokens for components that are not concrete.
func (p *Path) pathStr(v value) string {
	if s, ok := p.pat(v); ok {
		return s
	}
	out := ""
	els := p.norm(v)
	for n := 0; ; n++ {
		if n > 12 {
			p.bound("a symbolic path has more than 12 components")
		}
		found, pre, post := p.find(els, "/")
		if !found {
			return out + p.component(p.normEls(els))
		}
		out += p.component(p.normEls(pre))
		out += "/"
		els = p.normEls(post)
	}
}

func (p *Path) component(els []El) string {
	if s, ok := elsConst(els); ok {
		return s
	}
	for _, s := range []string{"", ".", ".."} {
		if p.branch(p.eqStr(elsVal(els), s)) {
			return s
		}
	}
	els = p.normEls(els)
	if s, ok := elsConst(els); ok {
		return s
	}
	for k := range p.toks {
		if sameEls(p.normEls(p.toks[k]), els) {
			return p.token(k)
		}
	}
	p.toks = append(p.toks, els)
	return p.token(len(p.toks) - 1)
}

func (p *Path) token(k int) string { return "\x00" + strconv.Itoa(k) + "\x01" }

func sameEls(a, b []El) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// kidName is the name under which a directory holds an entry with the given name.
func (p *Path) kidName(d *vnode, name string) (string, bool) {
	if _, ok := d.kids[name]; ok {
		return name, true
	}
	sym := strings.HasPrefix(name, "\x00")
	for _, k := range sortedKeys(d.kids) {
		if (sym || strings.HasPrefix(k, "\x00")) && p.branch(p.eqStr(p.nameVal(name), p.nameVal(k))) {
			return k, true
		}
	}
	return "", false
}

func (p *Path) kid(d *vnode, name string) *vnode {
	k, ok := p.kidName(d, name)
	if !ok {
		return nil
	}
	return d.kids[k]
}

func (p *Path) unlink(d *vnode, name string) {
	if k, ok := p.kidName(d, name); ok {
		delete(d.kids, k)
	}
}

// kidNames lists a directory in the order of the names.
func (p *Path) kidNames(d *vnode) []string {
	var out []string
	for _, k := range sortedKeys(d.kids) {
		i := len(out)
		for i > 0 && p.nameLess(k, out[i-1]) {
			i--
		}
		out = append(out[:i], append([]string{k}, out[i:]...)...)
	}
	return out
}

func (p *Path) nameLess(a, b string) bool {
	if !strings.HasPrefix(a, "\x00") && !strings.HasPrefix(b, "\x00") {
		return a < b
	}
	return p.branch(p.strLt(p.nameVal(a), p.nameVal(b)))
}

func init() {
	one := func(f func(string) string) func(p *Path, a []value) value {
		return func(p *Path, a []value) value { return p.nameVal(f(p.pathStr(a[0]))) }
	}
	for _, pkg := range []string{"path.", "path/filepath."} {
		symReg(pkg+"Clean", one(path.Clean))
		symReg(pkg+"Base", one(path.Base))
		symReg(pkg+"Dir", one(path.Dir))
		symReg(pkg+"IsAbs", func(p *Path, a []value) value { return path.IsAbs(p.pathStr(a[0])) })
		symReg(pkg+"Ext", func(p *Path, a []value) value {
			f := p.norm(a[0])
			if found, _, post := p.findLast(f, "/"); found {
				f = p.normEls(post)
			}
			found, _, post := p.findLast(f, ".")
			if !found {
				return ""
			}
			return elsVal(joinEls(cEl("."), post))
		})
		symReg(pkg+"Join", func(p *Path, a []value) value {
			var parts []string
			for _, x := range a[0].(Slice).a {
				parts = append(parts, p.pathStr(x))
			}
			return p.nameVal(path.Join(parts...))
		})
	}
	for _, n := range []string{"path/filepath.ToSlash", "path/filepath.FromSlash", "internal/filepathlite.ToSlash", "internal/filepathlite.FromSlash"} {
		symReg(n, func(p *Path, a []value) value { return a[0] })
	}
	symReg("path/filepath.Rel", func(p *Path, a []value) value {
		r, err := filepath.Rel(p.pathStr(a[0]), p.pathStr(a[1]))
		if err != nil {
			return Tuple{"", p.mkError("Rel: can't make a path relative to the other")}
		}
		return Tuple{p.nameVal(r), Iface{}}
	})
}

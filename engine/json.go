package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"go/types"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// jsonEscape is the body of the JSON string for s as encoding/json writes it.
func jsonEscape(s string, html bool) string {
	var b bytes.Buffer
	e := json.NewEncoder(&b)
	e.SetEscapeHTML(html)
	_ = e.Encode(s)
	o := b.String()
	return o[1 : len(o)-2]
}

type jnode struct {
	kind byte // 'n' null, 'b' bool, '0' number, 's' string, '[' , '{'
	b    bool
	num  []El
	str  []El // decoded
	body []El // string body as written
	keys []*jnode
	kids []*jnode
	raw  []El // text as written, in pieces
}

type jsonErr struct{ msg string }

type jparser struct {
	p   *Path
	els []El // what is left; the parser owns the array
	out []El // what has been read
}

func (j *jparser) fail(msg string) { panic(jsonErr{msg}) }

// head brings the first element in order: a non-empty constant or a symbolic
// text that is not known to be anything else. It is false at the end.
func (j *jparser) head() bool {
	for len(j.els) > 0 {
		e := j.els[0]
		if e.t == nil {
			if e.c != "" {
				return true
			}
			j.els = j.els[1:]
			continue
		}
		n := j.p.normEls([]El{e})
		if len(n) == 1 && n[0].t == e.t {
			return true
		}
		j.put(n)
	}
	return false
}

// put replaces the first element.
func (j *jparser) put(n ...[]El) {
	var l []El
	for _, x := range n {
		l = append(l, x...)
	}
	if len(l) == 1 {
		j.els[0] = l[0]
		return
	}
	j.els = append(l, j.els[1:]...)
}

// peek returns the next concrete byte (0 at the end) outside of strings.
func (j *jparser) peek() byte {
	for j.head() {
		e := j.els[0]
		if e.t == nil {
			return e.c[0]
		}
		if e.t.op == OFromInt {
			return '0'
		}
		if r := j.p.resolveSpecial(e.t); r != e.t {
			continue
		}
		// symbolic text where structure is expected
		if j.p.branch(mkEq(e.t, mkStr(""))) {
			if j.head() && j.els[0].t == e.t {
				j.els = j.els[1:]
			}
			continue
		}
		ok, f, r := j.p.splitAt(j.els[:1], 1)
		if !ok {
			return 0
		}
		c := byte(j.p.concInt(j.p.bytesOf(f)[0]))
		j.put(cEl(string([]byte{c})), r)
		return c
	}
	return 0
}

func (j *jparser) take(n int) {
	c := j.els[0].c
	j.out = append(j.out, El{c: c[:n]})
	j.els[0].c = c[n:]
}

// took is what has been read since the given place.
func (j *jparser) took(from int) []El {
	var out []El
	var b []byte
	flush := func() {
		if len(b) > 0 {
			out = append(out, El{c: string(b)})
			b = b[:0]
		}
	}
	for _, e := range j.out[from:] {
		if e.t == nil {
			b = append(b, e.c...)
			continue
		}
		flush()
		out = append(out, e)
	}
	flush()
	return out
}

func (j *jparser) ws() {
	for {
		c := j.peek()
		if c != ' ' && c != '\t' && c != '\r' && c != '\n' {
			return
		}
		h := j.els[0].c
		k := 1
		for k < len(h) && (h[k] == ' ' || h[k] == '\t' || h[k] == '\r' || h[k] == '\n') {
			k++
		}
		j.take(k)
	}
}

func (j *jparser) lit(s string) {
	for i := 0; i < len(s); i++ {
		if j.peek() != s[i] {
			j.fail("invalid character in literal " + s)
		}
		j.take(1)
	}
}

func (j *jparser) str() (dec, body []El) {
	p := j.p
	j.take(1) // quote
	from := len(j.out)
	safe := setRange(0x20, 0x7f)
	safe.del('"')
	safe.del('\\')
	for {
		if !j.head() {
			j.fail("unexpected end of JSON input")
		}
		e := j.els[0]
		if e.t != nil {
			if e.t.op == OSkol && strings.HasPrefix(e.t.s, "esc") {
				dec = append(dec, El{t: e.t.args[0]})
				j.out = append(j.out, e)
				j.els = j.els[1:]
				continue
			}
			if e.t.op == OSkol && (e.t.s == "lower" || e.t.s == "upper") {
				if r := p.resolveSpecial(e.t); r != e.t {
					j.put(tEl(r))
					continue
				}
			}
			l, r := p.untilSet(j.els[:1:1], safe.not())
			dec = append(dec, l...)
			j.out = append(j.out, l...)
			r = p.normEls(r)
			if len(r) == 0 {
				j.els = j.els[1:]
				continue
			}
			ok, f, x := p.splitAt(r, 1)
			if !ok {
				j.els = j.els[1:]
				continue
			}
			c := byte(p.concInt(p.bytesOf(f)[0]))
			j.put(cEl(string([]byte{c})), x)
			continue
		}
		k := 0
		for k < len(e.c) && e.c[k] != '"' && e.c[k] != '\\' && e.c[k] >= 0x20 {
			k++
		}
		if k > 0 {
			dec = append(dec, El{c: strings.ToValidUTF8(e.c[:k], "\uFFFD")})
			j.take(k)
			continue
		}
		switch c := e.c[0]; {
		case c == '"':
			body = j.took(from)
			j.take(1)
			return p.normEls(dec), body
		case c == '\\':
			esc := j.grab(2)
			switch esc[1] {
			case '"', '\\', '/':
				dec = joinEls(dec, cEl(esc[1:]))
			case 'b':
				dec = joinEls(dec, cEl("\b"))
			case 'f':
				dec = joinEls(dec, cEl("\f"))
			case 'n':
				dec = joinEls(dec, cEl("\n"))
			case 'r':
				dec = joinEls(dec, cEl("\r"))
			case 't':
				dec = joinEls(dec, cEl("\t"))
			case 'u':
				h := j.grab(4)
				v, err := strconv.ParseUint(h, 16, 32)
				if err != nil {
					j.fail("invalid character in \\u hexadecimal character escape")
				}
				if v >= 0xd800 && v < 0xe000 {
					if v < 0xdc00 && j.head() && j.els[0].t == nil && strings.HasPrefix(j.els[0].c, `\u`) && len(j.els[0].c) >= 6 {
						v2, err := strconv.ParseUint(j.els[0].c[2:6], 16, 32)
						if err == nil && v2 >= 0xdc00 && v2 < 0xe000 {
							j.grab(6)
							v = (v-0xd800)<<10 | (v2 - 0xdc00) + 0x10000
							dec = joinEls(dec, cEl(string(rune(v))))
							continue
						}
					}
					v = 0xfffd
				}
				dec = joinEls(dec, cEl(string(rune(v))))
			default:
				j.fail("invalid character in string escape code")
			}
		default:
			j.fail("invalid character in string literal")
		}
	}
}

// grab consumes n concrete bytes.
func (j *jparser) grab(n int) string {
	if j.head() && j.els[0].t == nil && len(j.els[0].c) >= n {
		s := j.els[0].c[:n]
		j.take(n)
		return s
	}
	ok, f, r := j.p.splitAt(j.els, n)
	if !ok {
		j.fail("unexpected end of JSON input")
	}
	f = j.p.normEls(f)
	s, isC := elsConst(f)
	if !isC {
		var b []byte
		for _, v := range j.p.bytesOf(f) {
			b = append(b, byte(j.p.concInt(v)))
		}
		s = string(b)
	}
	j.out = append(j.out, El{c: s})
	j.els = append([]El(nil), j.p.normEls(r)...)
	return s
}

func (j *jparser) value(depth int) *jnode {
	if depth > 200 {
		j.fail("exceeded max depth")
	}
	j.ws()
	n := &jnode{}
	from := len(j.out)
	switch c := j.peek(); {
	case c == '{':
		n.kind = '{'
		j.take(1)
		j.ws()
		if j.peek() == '}' {
			j.take(1)
			break
		}
		for {
			j.ws()
			if j.peek() != '"' {
				j.fail("invalid character looking for beginning of object key string")
			}
			k := &jnode{kind: 's'}
			k.str, k.body = j.str()
			j.ws()
			if j.peek() != ':' {
				j.fail("invalid character after object key")
			}
			j.take(1)
			v := j.value(depth + 1)
			n.keys = append(n.keys, k)
			n.kids = append(n.kids, v)
			j.ws()
			c := j.peek()
			if c == ',' {
				j.take(1)
				continue
			}
			if c == '}' {
				j.take(1)
				break
			}
			j.fail("invalid character after object key:value pair")
		}
	case c == '[':
		n.kind = '['
		j.take(1)
		j.ws()
		if j.peek() == ']' {
			j.take(1)
			break
		}
		for {
			n.kids = append(n.kids, j.value(depth+1))
			j.ws()
			c := j.peek()
			if c == ',' {
				j.take(1)
				continue
			}
			if c == ']' {
				j.take(1)
				break
			}
			j.fail("invalid character after array element")
		}
	case c == '"':
		n.kind = 's'
		n.str, n.body = j.str()
	case c == 't':
		n.kind, n.b = 'b', true
		j.lit("true")
	case c == 'f':
		n.kind = 'b'
		j.lit("false")
	case c == 'n':
		n.kind = 'n'
		j.lit("null")
	case c == '-' || c >= '0' && c <= '9':
		n.kind = '0'
		for {
			if !j.head() {
				break
			}
			e := j.els[0]
			if e.t != nil {
				if e.t.op == OFromInt {
					n.num = joinEls(n.num, []El{e})
					j.out = append(j.out, e)
					j.els = j.els[1:]
					continue
				}
				j.peek()
				if len(j.els) > 0 && j.els[0].t != nil {
					break
				}
				continue
			}
			k := 0
			for k < len(e.c) && strings.IndexByte("+-0123456789.eE", e.c[k]) >= 0 {
				k++
			}
			if k == 0 {
				break
			}
			n.num = joinEls(n.num, cEl(e.c[:k]))
			j.take(k)
		}
		if s, ok := elsConst(n.num); ok && !json.Valid([]byte(s)) {
			j.fail("invalid character in numeric literal")
		}
	case c == 0:
		j.fail("unexpected end of JSON input")
	default:
		j.fail("invalid character looking for beginning of value")
	}
	n.raw = j.out[from:len(j.out):len(j.out)]
	return n
}

// parseJSON parses one value; all requires the input to end after it.
func (p *Path) parseJSON(els []El, all bool) (n *jnode, rest []El, msg string) {
	j := &jparser{p: p, els: append([]El(nil), p.normEls(els)...)}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				n, msg = nil, e.msg
				return
			}
			panic(r)
		}
	}()
	n = j.value(0)
	if all {
		j.ws()
		if j.peek() != 0 {
			j.fail("invalid character after top-level value")
		}
	}
	return n, j.els, ""
}

// emitJSON writes a parsed value again, compactly.
func (p *Path) emitJSON(n *jnode, html bool) []El {
	return joinEls(p.emitInto(nil, n, html))
}

// emitInto appends pieces without joining them.
func (p *Path) emitInto(out []El, n *jnode, html bool) []El {
	lit := func(s string) { out = append(out, El{c: s}) }
	switch n.kind {
	case 'n':
		lit("null")
	case 'b':
		lit(strconv.FormatBool(n.b))
	case '0':
		out = append(out, n.num...)
	case 's':
		lit(`"`)
		out = append(out, p.htmlBody(n.body, html)...)
		lit(`"`)
	case '[':
		lit("[")
		for i, k := range n.kids {
			if i > 0 {
				lit(",")
			}
			out = p.emitInto(out, k, html)
		}
		lit("]")
	default:
		lit("{")
		for i, k := range n.kids {
			if i > 0 {
				lit(",")
			}
			out = p.emitInto(out, n.keys[i], html)
			lit(":")
			out = p.emitInto(out, k, html)
		}
		lit("}")
	}
	return out
}

func (p *Path) htmlBody(body []El, html bool) []El {
	if !html {
		return body
	}
	var out []El
	for _, e := range p.normEls(body) {
		switch {
		case e.t == nil:
			out = joinEls(out, cEl(strings.NewReplacer("<", `\u003c`, ">", `\u003e`, "&", `\u0026`, "\u2028", `\u2028`, "\u2029", `\u2029`).Replace(e.c)))
		case e.t.op == OSkol && e.t.s == "esc":
			out = joinEls(out, tEl(mkSkol("esc:html", SStr, e.t.args...)))
		case e.t.op == OSkol && e.t.s == "esc:html":
			out = joinEls(out, []El{e})
		case e.t.op == OFromInt, isAtom(e.t) && p.charsOf(e.t).inter(jsonSpecial).empty():
			out = joinEls(out, []El{e})
		default:
			// plain text: escaping only touches < > &
			out = joinEls(out, tEl(mkSkol("esc:html", SStr, e.t)))
		}
	}
	return out
}

func (p *Path) indentJSON(els []El, prefix, indent string) []El {
	n, _, msg := p.parseJSON(els, true)
	if msg != "" {
		return els
	}
	var out []El
	lit := func(s string) { out = append(out, El{c: s}) }
	nl := func(d int) { lit("\n" + prefix + strings.Repeat(indent, d)) }
	var rec func(n *jnode, d int)
	rec = func(n *jnode, d int) {
		if n.kind != '[' && n.kind != '{' {
			out = p.emitInto(out, n, false)
			return
		}
		o, c := "[", "]"
		if n.kind == '{' {
			o, c = "{", "}"
		}
		lit(o)
		for i, k := range n.kids {
			if i > 0 {
				lit(",")
			}
			nl(d + 1)
			if n.kind == '{' {
				out = p.emitInto(out, n.keys[i], false)
				lit(": ")
			}
			rec(k, d+1)
		}
		if len(n.kids) > 0 {
			nl(d)
		}
		lit(c)
	}
	rec(n, 0)
	return joinEls(out)
}

// ---- struct fields

type jfield struct {
	name      string
	idx       []int
	t         types.Type
	omitempty bool
	omitzero  bool
	quoted    bool
	tagged    bool
}

func (e *Engine) jsonFields(t types.Type) []jfield {
	if v, ok := e.jcache.Load(t); ok {
		return v.([]jfield)
	}
	type ent struct {
		t   types.Type
		idx []int
	}
	cur := []ent{{t, nil}}
	seen := map[string]bool{}
	var all []jfield
	for len(cur) > 0 {
		var next []ent
		for _, en := range cur {
			st, ok := en.t.Underlying().(*types.Struct)
			if !ok {
				continue
			}
			k := typeKey(en.t)
			if seen[k] {
				continue
			}
			seen[k] = true
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				ft := f.Type()
				et := ft
				if f.Embedded() {
					if pt, ok := et.Underlying().(*types.Pointer); ok {
						et = pt.Elem()
					}
					_, isStruct := et.Underlying().(*types.Struct)
					if !f.Exported() && !isStruct {
						continue
					}
				} else if !f.Exported() {
					continue
				}
				tag := reflect.StructTag(st.Tag(i)).Get("json")
				if tag == "-" {
					continue
				}
				parts := strings.Split(tag, ",")
				name := parts[0]
				jf := jfield{name: name, idx: append(append([]int(nil), en.idx...), i), t: ft, tagged: name != ""}
				for _, o := range parts[1:] {
					switch o {
					case "omitempty":
						jf.omitempty = true
					case "omitzero":
						jf.omitzero = true
					case "string":
						jf.quoted = true
					}
				}
				_, isStruct := et.Underlying().(*types.Struct)
				if name == "" && f.Embedded() && isStruct {
					next = append(next, ent{et, jf.idx})
					continue
				}
				if jf.name == "" {
					jf.name = f.Name()
				}
				all = append(all, jf)
			}
		}
		cur = next
	}
	// name conflicts: shallowest wins, then tagged, otherwise none
	byName := map[string][]jfield{}
	for _, f := range all {
		byName[f.name] = append(byName[f.name], f)
	}
	var out []jfield
	for _, f := range all {
		g := byName[f.name]
		win := g[0]
		tie := false
		for _, x := range g[1:] {
			switch {
			case len(x.idx) < len(win.idx), len(x.idx) == len(win.idx) && x.tagged && !win.tagged:
				win, tie = x, false
			case len(x.idx) == len(win.idx) && x.tagged == win.tagged:
				tie = true
			}
		}
		if !tie && sameIdx(win.idx, f.idx) {
			out = append(out, f)
		}
	}
	sort.SliceStable(out, func(i, j int) bool {
		a, b := out[i].idx, out[j].idx
		for k := 0; k < len(a) && k < len(b); k++ {
			if a[k] != b[k] {
				return a[k] < b[k]
			}
		}
		return len(a) < len(b)
	})
	e.jcache.Store(t, out)
	return out
}

func sameIdx(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// ---- encoding

type jimplKey struct {
	t    types.Type
	name string
}

func (p *Path) jsonImpl(t types.Type, pkg, name string) bool {
	k := jimplKey{t, name}
	if v, ok := p.w.eng.icache.Load(k); ok {
		return v.(bool)
	}
	it := p.w.eng.typeByName(pkg, name)
	r := it != nil && types.Implements(t, it.Underlying().(*types.Interface))
	p.w.eng.icache.Store(k, r)
	return r
}

func (p *Path) wrapErr(msg []El, err Iface) Iface {
	c := new(value)
	*c = Struct{elsVal(msg), err}
	return Iface{t: types.NewPointer(p.w.eng.typeByName("fmt", "wrapError")), v: c}
}

type jsonEncErr struct{ err Iface }

func (p *Path) jsonMarshal(x Iface, html bool) (out []El, err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonEncErr); ok {
				out, err = nil, e.err
				return
			}
			panic(r)
		}
	}()
	if x.t == nil {
		return cEl("null"), Iface{}
	}
	return p.normEls(joinEls(p.jenc(x.t, x.v, nil, html, 0))), Iface{}
}

func (p *Path) jenc(t types.Type, v value, addr *value, html bool, depth int) []El {
	if depth > 100 {
		panic(jsonEncErr{p.mkError("json: unsupported value: encountered a cycle")})
	}
	if isNativeRecv(v) {
		p.unsupported("JSON form of a host object")
	}
	call := func(recv Iface, m string) []El {
		if c, ok := recv.v.(*value); ok && c == nil {
			return cEl("null")
		}
		r := p.callMethod(recv, m).(Tuple)
		if e := r[1].(Iface); e.t != nil {
			panic(jsonEncErr{p.wrapErr(joinEls(cEl("json: error calling "+m+" for type "+types.TypeString(recv.t, pkgNameQual)+": "), p.norm(p.callMethod(e, "Error"))), e)})
		}
		els := p.bytesEls(r[0])
		if m == "MarshalText" {
			return p.jstr(els, html)
		}
		n, _, msg := p.parseJSON(els, true)
		if msg != "" {
			panic(jsonEncErr{p.mkError("json: error calling MarshalJSON for type " + types.TypeString(recv.t, pkgNameQual) + ": " + msg)})
		}
		return p.emitJSON(n, html)
	}
	if !types.IsInterface(t) {
		if p.jsonImpl(t, "encoding/json", "Marshaler") {
			return call(Iface{t, v}, "MarshalJSON")
		}
		if addr != nil && p.jsonImpl(types.NewPointer(t), "encoding/json", "Marshaler") {
			return call(Iface{types.NewPointer(t), addr}, "MarshalJSON")
		}
		if p.jsonImpl(t, "encoding", "TextMarshaler") {
			return call(Iface{t, v}, "MarshalText")
		}
		if addr != nil && p.jsonImpl(types.NewPointer(t), "encoding", "TextMarshaler") {
			return call(Iface{types.NewPointer(t), addr}, "MarshalText")
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return p.jstr(p.norm(v), html)
		case u.Info()&types.IsBoolean != 0:
			b, ok := v.(bool)
			if !ok {
				b = p.branch(v.(*Term))
			}
			return cEl(strconv.FormatBool(b))
		case u.Info()&types.IsInteger != 0:
			return p.norm(p.itoa(v))
		case u.Info()&types.IsFloat != 0:
			b, err := json.Marshal(v.(float64))
			if err != nil {
				panic(jsonEncErr{p.mkError(err.Error())})
			}
			return cEl(string(b))
		}
	case *types.Pointer:
		c, ok := v.(*value)
		if !ok {
			p.unsupported("JSON of %T", v)
		}
		if c == nil {
			return cEl("null")
		}
		return p.jenc(u.Elem(), *c, c, html, depth+1)
	case *types.Interface:
		x := v.(Iface)
		if x.t == nil {
			return cEl("null")
		}
		return p.jenc(x.t, x.v, nil, html, depth+1)
	case *types.Slice:
		if s, ok := v.(Slice); ok && s.a == nil {
			return cEl("null")
		}
		if isByteSlice(t) {
			s, ok := elsConst(p.bytesEls(v))
			if !ok {
				p.unsupported("base64 of symbolic bytes")
			}
			return cEl(`"` + base64.StdEncoding.EncodeToString([]byte(s)) + `"`)
		}
		s := v.(Slice)
		out := cEl("[")
		for i := range s.a {
			if i > 0 {
				out = append(out, El{c: ","})
			}
			out = append(out, p.jenc(u.Elem(), s.a[i], &s.a[i], html, depth+1)...)
		}
		return append(out, El{c: "]"})
	case *types.Array:
		a := v.(Array)
		out := cEl("[")
		for i := range a {
			if i > 0 {
				out = append(out, El{c: ","})
			}
			out = append(out, p.jenc(u.Elem(), a[i], nil, html, depth+1)...)
		}
		return append(out, El{c: "]"})
	case *types.Map:
		m := v.(*Map)
		if m == nil {
			return cEl("null")
		}
		type kv struct {
			k value
			v value
		}
		var kvs []kv
		for _, i := range m.live() {
			k := m.keys[i]
			switch {
			case u.Key().Underlying().(*types.Basic) != nil && u.Key().Underlying().(*types.Basic).Info()&types.IsString != 0:
			case p.jsonImpl(u.Key(), "encoding", "TextMarshaler"):
				p.unsupported("JSON object with text-marshalled keys")
			default:
				k = elsVal(p.norm(p.itoa(k)))
			}
			kvs = append(kvs, kv{k, m.vals[i]})
		}
		for i := 1; i < len(kvs); i++ {
			for j := i; j > 0 && p.branch(p.strLt(kvs[j].k, kvs[j-1].k)); j-- {
				kvs[j], kvs[j-1] = kvs[j-1], kvs[j]
			}
		}
		out := cEl("{")
		for i, e := range kvs {
			if i > 0 {
				out = append(out, El{c: ","})
			}
			out = append(append(append(out, p.jstr(p.norm(e.k), html)...), El{c: ":"}), p.jenc(u.Elem(), e.v, nil, html, depth+1)...)
		}
		return append(out, El{c: "}"})
	case *types.Struct:
		out := cEl("{")
		first := true
		for _, f := range p.w.eng.jsonFields(t) {
			ft, fv, fa, ok := p.jsonPath(t, v, addr, f.idx)
			if !ok {
				continue
			}
			if f.omitempty && p.branch(p.jsonEmpty(ft, fv)) {
				continue
			}
			if f.omitzero && p.branch(p.isZeroT(fv)) {
				continue
			}
			if !first {
				out = append(out, El{c: ","})
			}
			first = false
			if f.quoted {
				p.unsupported("json ,string option")
			}
			out = append(append(out, El{c: `"` + jsonEscape(f.name, html) + `":`}), p.jenc(ft, fv, fa, html, depth+1)...)
		}
		return append(out, El{c: "}"})
	}
	panic(jsonEncErr{p.mkError("json: unsupported type: " + types.TypeString(t, pkgNameQual))})
}

// jsonPath walks to a (possibly embedded) field.
func (p *Path) jsonPath(t types.Type, v value, addr *value, idx []int) (types.Type, value, *value, bool) {
	for k, i := range idx {
		if pt, ok := t.Underlying().(*types.Pointer); ok && k > 0 {
			c := v.(*value)
			if c == nil {
				return nil, nil, nil, false
			}
			t, v, addr = pt.Elem(), *c, c
		}
		s := v.(Struct)
		t = t.Underlying().(*types.Struct).Field(i).Type()
		v = s[i]
		if addr != nil {
			addr = &s[i]
		}
	}
	return t, v, addr, true
}

func (p *Path) jsonEmpty(t types.Type, v value) *Term {
	switch x := v.(type) {
	case Slice:
		return mkBool(len(x.a) == 0)
	case *BRope:
		return p.eqStr(elsVal(x.el), "")
	case *Map:
		return mkBool(x.length() == 0)
	case Struct:
		return tFalse
	case Array:
		return mkBool(len(x) == 0)
	}
	return p.isZeroT(v)
}

// jsonSpecial are the characters that some JSON writer spells differently.
var jsonSpecial = func() CharSet {
	safe := setRange(0x20, 0x7e)
	for _, c := range `"\\<>&` {
		safe.del(byte(c))
	}
	return safe.not()
}()

func (p *Path) jstr(els []El, html bool) []El {
	fn := "esc"
	if html {
		fn = "esc:html"
	}
	out := cEl(`"`)
	for _, e := range p.normEls(els) {
		if e.t == nil {
			out = joinEls(out, cEl(jsonEscape(e.c, html)))
		} else if isAtom(e.t) && p.charsOf(e.t).inter(jsonSpecial).empty() {
			out = joinEls(out, []El{e})
		} else if e.t.op == OFromInt || e.t.op == OSkol && strings.HasPrefix(e.t.s, "hash:") {
			out = joinEls(out, []El{e})
		} else {
			out = joinEls(out, tEl(mkSkol(fn, SStr, e.t)))
		}
	}
	return joinEls(out, cEl(`"`))
}

// ---- decoding

type jdec struct {
	p        *Path
	saved    Iface
	disallow bool
}

type jsonDecErr struct{ err Iface }

func (d *jdec) typeErr(what string, t types.Type) {
	if d.saved.t == nil {
		d.saved = d.p.mkError("json: cannot unmarshal " + what + " into Go value of type " + types.TypeString(t, pkgNameQual))
	}
}

func (p *Path) jsonUnmarshal(els []El, x Iface, disallow bool) (err Iface) {
	n, _, msg := p.parseJSON(els, true)
	if msg != "" {
		return p.mkError(msg)
	}
	return p.jsonDecode(n, x, disallow)
}

func (p *Path) jsonDecode(n *jnode, x Iface, disallow bool) (err Iface) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonDecErr); ok {
				err = e.err
				return
			}
			panic(r)
		}
	}()
	if x.t == nil {
		return p.mkError("json: Unmarshal(nil)")
	}
	pt, ok := x.t.Underlying().(*types.Pointer)
	if !ok {
		return p.mkError("json: Unmarshal(non-pointer " + types.TypeString(x.t, pkgNameQual) + ")")
	}
	c := x.v.(*value)
	if c == nil {
		return p.mkError("json: Unmarshal(nil " + types.TypeString(x.t, pkgNameQual) + ")")
	}
	d := &jdec{p: p, disallow: disallow}
	d.dec(n, pt.Elem(), c, 0)
	return d.saved
}

var anyType types.Type = types.NewInterfaceType(nil, nil)

func (p *Path) jsonGeneric(n *jnode) Iface {
	switch n.kind {
	case 'n':
		return Iface{}
	case 'b':
		return Iface{types.Typ[types.Bool], n.b}
	case '0':
		s, ok := elsConst(p.normEls(n.num))
		if !ok {
			// a number nobody looks at in generic form; keep it opaque
			return Iface{types.Typ[types.Float64], float64(0)}
		}
		f, _ := strconv.ParseFloat(s, 64)
		return Iface{types.Typ[types.Float64], f}
	case 's':
		return Iface{types.Typ[types.String], elsVal(p.normEls(n.str))}
	case '[':
		out := make([]value, 0, len(n.kids))
		for _, k := range n.kids {
			out = append(out, p.jsonGeneric(k))
		}
		return Iface{types.NewSlice(anyType), Slice{out}}
	}
	t := types.NewMap(types.Typ[types.String], anyType)
	m := newMap(t)
	for i, k := range n.keys {
		m.set(p, elsVal(p.normEls(k.str)), p.jsonGeneric(n.kids[i]))
	}
	return Iface{t, m}
}

func (d *jdec) dec(n *jnode, t types.Type, c *value, depth int) {
	p := d.p
	if !types.IsInterface(t) {
		// custom decoding, on the value itself or after allocating a pointer
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if n.kind == 'n' {
				p.store(c, (*value)(nil))
				return
			}
			cur := (*c).(*value)
			if cur == nil {
				cur = new(value)
				*cur = zero(pt.Elem())
				*c = cur
			}
			if p.jsonImpl(t, "encoding/json", "Unmarshaler") {
				d.callUn(n, Iface{t, cur})
				return
			}
			d.dec(n, pt.Elem(), cur, depth+1)
			return
		}
		at := types.NewPointer(t)
		if p.jsonImpl(at, "encoding/json", "Unmarshaler") {
			d.callUn(n, Iface{at, c})
			return
		}
		if n.kind == 's' && p.jsonImpl(at, "encoding", "TextUnmarshaler") {
			r := p.callMethod(Iface{at, c}, "UnmarshalText", elsBytes(p.normEls(n.str))).(Iface)
			if r.t != nil {
				panic(jsonDecErr{r})
			}
			return
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Interface:
		if n.kind == 'n' {
			*c = Iface{}
			return
		}
		if u.NumMethods() > 0 {
			d.typeErr(kindName(n), t)
			return
		}
		if x, ok := (*c).(Iface); ok && x.t != nil {
			if pt, ok := x.t.Underlying().(*types.Pointer); ok {
				if ic, ok := x.v.(*value); ok && ic != nil {
					d.dec(n, pt.Elem(), ic, depth+1)
					return
				}
			}
		}
		*c = p.jsonGeneric(n)
	case *types.Struct:
		switch n.kind {
		case 'n':
		case '{':
			fs := p.w.eng.jsonFields(t)
			for i, k := range n.keys {
				name, isC := elsConst(p.normEls(k.str))
				var hit *jfield
				for fi := range fs {
					if isC && fs[fi].name == name {
						hit = &fs[fi]
						break
					}
				}
				if hit == nil {
					for fi := range fs {
						if isC && strings.EqualFold(fs[fi].name, name) {
							hit = &fs[fi]
							break
						}
						if !isC && p.branch(mkInRe(elsTerm(p.normEls(k.str)), reFold(fs[fi].name))) {
							hit = &fs[fi]
							break
						}
					}
				}
				if hit == nil {
					if d.disallow {
						if d.saved.t == nil {
							d.saved = p.mkError("json: unknown field")
						}
					}
					continue
				}
				ft, fc := t, c
				for k, ix := range hit.idx {
					if pt, ok := ft.Underlying().(*types.Pointer); ok && k > 0 {
						cur := (*fc).(*value)
						if cur == nil {
							cur = new(value)
							*cur = zero(pt.Elem())
							*fc = cur
						}
						ft, fc = pt.Elem(), cur
					}
					s := (*fc).(Struct)
					ft = ft.Underlying().(*types.Struct).Field(ix).Type()
					fc = &s[ix]
				}
				if hit.quoted {
					p.unsupported("json ,string option")
				}
				d.dec(n.kids[i], ft, fc, depth+1)
			}
		default:
			d.typeErr(kindName(n), t)
		}
	case *types.Slice:
		switch n.kind {
		case 'n':
			*c = Slice{}
		case '[':
			out := make([]value, len(n.kids))
			for i := range out {
				out[i] = zero(u.Elem())
			}
			for i, k := range n.kids {
				d.dec(k, u.Elem(), &out[i], depth+1)
			}
			*c = Slice{out}
		case 's':
			if isByteSlice(t) {
				s, ok := elsConst(p.normEls(n.str))
				if !ok {
					p.unsupported("base64 of symbolic text")
				}
				b, err := base64.StdEncoding.DecodeString(s)
				if err != nil {
					d.typeErr("string", t)
					return
				}
				*c = bytesValue(string(b))
				return
			}
			d.typeErr("string", t)
		default:
			d.typeErr(kindName(n), t)
		}
	case *types.Array:
		if n.kind == 'n' {
			return
		}
		if n.kind != '[' {
			d.typeErr(kindName(n), t)
			return
		}
		a := (*c).(Array)
		for i := range a {
			if i < len(n.kids) {
				d.dec(n.kids[i], u.Elem(), &a[i], depth+1)
			} else {
				a[i] = zero(u.Elem())
			}
		}
	case *types.Map:
		switch n.kind {
		case 'n':
			*c = (*Map)(nil)
		case '{':
			m := (*c).(*Map)
			if m == nil {
				m = newMap(t)
				*c = m
			}
			for i, k := range n.keys {
				ec := new(value)
				*ec = zero(u.Elem())
				d.dec(n.kids[i], u.Elem(), ec, depth+1)
				var kv value
				switch kb, _ := u.Key().Underlying().(*types.Basic); {
				case p.jsonImpl(types.NewPointer(u.Key()), "encoding", "TextUnmarshaler"):
					kc := new(value)
					*kc = zero(u.Key())
					r := p.callMethod(Iface{types.NewPointer(u.Key()), kc}, "UnmarshalText", elsBytes(p.normEls(k.str))).(Iface)
					if r.t != nil {
						panic(jsonDecErr{r})
					}
					kv = *kc
				case kb != nil && kb.Info()&types.IsString != 0:
					kv = elsVal(p.normEls(k.str))
				default:
					p.unsupported("JSON map key type")
				}
				m.set(p, kv, *ec)
			}
		default:
			d.typeErr(kindName(n), t)
		}
	case *types.Basic:
		switch {
		case n.kind == 'n':
		case u.Info()&types.IsString != 0:
			if n.kind != 's' {
				d.typeErr(kindName(n), t)
				return
			}
			*c = elsVal(p.normEls(n.str))
		case u.Info()&types.IsBoolean != 0:
			if n.kind != 'b' {
				d.typeErr(kindName(n), t)
				return
			}
			*c = n.b
		case u.Info()&types.IsInteger != 0:
			if n.kind != '0' {
				d.typeErr(kindName(n), t)
				return
			}
			if s, ok := elsConst(p.normEls(n.num)); ok {
				if isUnsigned(t) {
					x, err := strconv.ParseUint(s, 10, intBits(t))
					if err != nil {
						d.typeErr("number "+s, t)
						return
					}
					*c = int64(x)
					return
				}
				x, err := strconv.ParseInt(s, 10, intBits(t))
				if err != nil {
					d.typeErr("number "+s, t)
					return
				}
				*c = x
				return
			}
			r := p.atoi(elsVal(n.num), "ParseInt").(Tuple)
			if r[1].(Iface).t != nil {
				d.typeErr("number", t)
				return
			}
			*c = r[0]
		case u.Info()&types.IsFloat != 0:
			if n.kind != '0' {
				d.typeErr(kindName(n), t)
				return
			}
			s, ok := elsConst(p.normEls(n.num))
			if !ok {
				*c = float64(p.concInt(p.atoi(elsVal(n.num), "ParseInt").(Tuple)[0]))
				return
			}
			f, err := strconv.ParseFloat(s, 64)
			if err != nil || math.IsInf(f, 0) {
				d.typeErr("number "+s, t)
				return
			}
			*c = f
		default:
			d.typeErr(kindName(n), t)
		}
	default:
		d.typeErr(kindName(n), t)
	}
}

func kindName(n *jnode) string {
	switch n.kind {
	case 's':
		return "string"
	case '0':
		return "number"
	case 'b':
		return "bool"
	case '[':
		return "array"
	case '{':
		return "object"
	}
	return "null"
}

func (d *jdec) callUn(n *jnode, recv Iface) {
	r := d.p.callMethod(recv, "UnmarshalJSON", elsBytes(joinEls(n.raw))).(Iface)
	if r.t != nil {
		panic(jsonDecErr{r})
	}
}

type encState struct {
	w              Iface
	html           bool
	prefix, indent string
}
type decState struct {
	r        Iface
	rest     []El
	read     bool
	disallow bool
}

func init() {
	res := func(els []El, err Iface) value {
		if err.t != nil {
			return Tuple{Slice{}, err}
		}
		return Tuple{elsBytes(els), Iface{}}
	}
	reg("encoding/json.Marshal", func(p *Path, fn *ssa.Function, a []value) value {
		els, err := p.jsonMarshal(a[0].(Iface), true)
		return res(els, err)
	})
	reg("encoding/json.MarshalIndent", func(p *Path, fn *ssa.Function, a []value) value {
		els, err := p.jsonMarshal(a[0].(Iface), true)
		if err.t == nil {
			els = p.indentJSON(els, p.needPat(a[1], "indent"), p.needPat(a[2], "indent"))
		}
		return res(els, err)
	})
	reg("encoding/json.Unmarshal", func(p *Path, fn *ssa.Function, a []value) value {
		return p.jsonUnmarshal(p.bytesEls(a[0]), a[1].(Iface), false)
	})
	reg("encoding/json.Valid", func(p *Path, fn *ssa.Function, a []value) value {
		_, _, msg := p.parseJSON(p.bytesEls(a[0]), true)
		return msg == ""
	})
	reg("encoding/json.Compact", func(p *Path, fn *ssa.Function, a []value) value {
		n, _, msg := p.parseJSON(p.bytesEls(a[1]), true)
		if msg != "" {
			return p.mkError(msg)
		}
		bufAcc{p, p.cell(a[0]), 0}.add(p.emitJSON(n, false))
		return Iface{}
	})
	reg("encoding/json.Indent", func(p *Path, fn *ssa.Function, a []value) value {
		bufAcc{p, p.cell(a[0]), 0}.add(p.indentJSON(p.bytesEls(a[1]), p.needPat(a[2], "indent"), p.needPat(a[3], "indent")))
		return Iface{}
	})
	reg("encoding/json.NewEncoder", func(p *Path, fn *ssa.Function, a []value) value {
		c := p.newStruct("encoding/json", "Encoder")
		p.side[c] = &encState{w: a[0].(Iface), html: true}
		return c
	})
	enc := func(p *Path, v value) *encState {
		st, ok := p.side[p.cell(v)].(*encState)
		if !ok {
			p.unsupported("json.Encoder not made by NewEncoder")
		}
		return st
	}
	reg("(*encoding/json.Encoder).SetEscapeHTML", func(p *Path, fn *ssa.Function, a []value) value {
		st := enc(p, a[0])
		switch b := a[1].(type) {
		case bool:
			st.html = b
		case *Term:
			st.html = p.branch(b)
		}
		return nil
	})
	reg("(*encoding/json.Encoder).SetIndent", func(p *Path, fn *ssa.Function, a []value) value {
		st := enc(p, a[0])
		st.prefix, st.indent = p.needPat(a[1], "indent"), p.needPat(a[2], "indent")
		return nil
	})
	reg("(*encoding/json.Encoder).Encode", func(p *Path, fn *ssa.Function, a []value) value {
		st := enc(p, a[0])
		els, err := p.jsonMarshal(a[1].(Iface), st.html)
		if err.t != nil {
			return err
		}
		if st.prefix != "" || st.indent != "" {
			els = p.indentJSON(els, st.prefix, st.indent)
		}
		r := p.writeTo(st.w, joinEls(els, cEl("\n"))).(Tuple)
		return r[1]
	})
	reg("encoding/json.NewDecoder", func(p *Path, fn *ssa.Function, a []value) value {
		c := p.newStruct("encoding/json", "Decoder")
		p.side[c] = &decState{r: a[0].(Iface)}
		return c
	})
	dec := func(p *Path, v value) *decState {
		st, ok := p.side[p.cell(v)].(*decState)
		if !ok {
			p.unsupported("json.Decoder not made by NewDecoder")
		}
		return st
	}
	reg("(*encoding/json.Decoder).DisallowUnknownFields", func(p *Path, fn *ssa.Function, a []value) value {
		dec(p, a[0]).disallow = true
		return nil
	})
	fill := func(p *Path, st *decState) Iface {
		if !st.read {
			st.read = true
			var err Iface
			st.rest, err = p.drain(st.r)
			return err
		}
		return Iface{}
	}
	reg("(*encoding/json.Decoder).Decode", func(p *Path, fn *ssa.Function, a []value) value {
		st := dec(p, a[0])
		if err := fill(p, st); err.t != nil {
			return err
		}
		st.rest = p.trimLeft(st.rest, " \t\r\n")
		if len(st.rest) == 0 {
			return p.ioEOF()
		}
		n, rest, msg := p.parseJSON(st.rest, false)
		if msg != "" {
			return p.mkError(msg)
		}
		st.rest = rest
		return p.jsonDecode(n, a[1].(Iface), st.disallow)
	})
	reg("(*encoding/json.Decoder).More", func(p *Path, fn *ssa.Function, a []value) value {
		st := dec(p, a[0])
		fill(p, st)
		st.rest = p.trimLeft(st.rest, " \t\r\n")
		return len(st.rest) > 0
	})
	// YAML: JSON is YAML; the library converts between the two and is outside the property
	reg("sigs.k8s.io/yaml.Marshal", func(p *Path, fn *ssa.Function, a []value) value {
		els, err := p.jsonMarshal(a[0].(Iface), true)
		return res(joinEls(els, cEl("\n")), err)
	})
	yun := func(disallow bool) func(p *Path, fn *ssa.Function, a []value) value {
		return func(p *Path, fn *ssa.Function, a []value) value {
			return p.jsonUnmarshal(p.bytesEls(a[0]), a[1].(Iface), disallow)
		}
	}
	reg("sigs.k8s.io/yaml.Unmarshal", yun(false))
	reg("sigs.k8s.io/yaml.UnmarshalStrict", yun(true))
	id := func(p *Path, fn *ssa.Function, a []value) value {
		n, _, msg := p.parseJSON(p.bytesEls(a[0]), true)
		if msg != "" {
			return Tuple{Slice{}, p.mkError(msg)}
		}
		return Tuple{elsBytes(p.emitJSON(n, false)), Iface{}}
	}
	reg("sigs.k8s.io/yaml.JSONToYAML", id)
	reg("sigs.k8s.io/yaml.YAMLToJSON", id)
}

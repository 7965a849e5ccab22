package main

import (
	"errors"
	"go/types"
	"io"
	"strings"
	"text/tabwriter"

	"golang.org/x/tools/go/ssa"
)

// ---- byte buffers: the content lives in the struct itself so that copies behave

func (p *Path) cell(v value) *value {
	c, ok := v.(*value)
	if !ok {
		p.unsupported("receiver %T", v)
	}
	if c == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	return c
}

func fieldIndex(t types.Type, name string) int {
	st := t.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i
		}
	}
	return -1
}

func (p *Path) ioEOF() Iface {
	g := p.w.eng.pkgs["io"].Var("EOF")
	return (*p.global(g).(*value)).(Iface)
}
func (p *Path) ioErr(name string) Iface {
	g := p.w.eng.pkgs["io"].Var(name)
	return (*p.global(g).(*value)).(Iface)
}

func (p *Path) pkgErr(pkg, name string) Iface {
	if pk := p.w.eng.pkgs[pkg]; pk != nil {
		if g := pk.Var(name); g != nil {
			if x, ok := (*p.global(g).(*value)).(Iface); ok && x.t != nil {
				return x
			}
		}
	}
	return p.mkError(pkg + "." + name)
}

type bufAcc struct {
	p   *Path
	c   *value
	fld int
}

func (b bufAcc) get() []El {
	s := (*b.c).(Struct)
	return b.p.bytesEls(s[b.fld])
}
func (b bufAcc) set(els []El) {
	s := (*b.c).(Struct)
	els = b.p.normEls(els)
	if len(els) == 0 {
		s[b.fld] = &BRope{}
		return
	}
	s[b.fld] = &BRope{els}
}

// add appends. The buffer that last grew in place may have room behind its
// end, which only the rope that ends there may use.
func (b bufAcc) add(els []El) {
	els = b.p.normEls(els)
	if len(els) == 0 {
		return
	}
	s := (*b.c).(Struct)
	var cur []El
	if r, ok := s[b.fld].(*BRope); ok {
		cur = r.el
		if n := len(cur); n > 0 {
			tip := &cur[n-1]
			if g, ok := b.p.tips[tip]; ok && len(g) == n {
				cur = g
			}
			delete(b.p.tips, tip)
		}
	} else {
		cur = b.get()
		cur = cur[:len(cur):len(cur)]
	}
	cur = append(cur, els...)
	if b.p.tips == nil {
		b.p.tips = map[*El][]El{}
	}
	b.p.tips[&cur[len(cur)-1]] = cur
	s[b.fld] = &BRope{cur[:len(cur):len(cur)]}
}

func lenTuple(p *Path, els []El) value { return Tuple{p.lenVal(p.normEls(els)), Iface{}} }

// readInto serves a Read call from els and returns what is left.
func (p *Path) readInto(dst value, els []El) (n int64, rest []El) {
	d, ok := dst.(Slice)
	if !ok {
		p.unsupported("read into %T", dst)
	}
	ln := p.lenVal(els)
	var part []El
	if c, ok := ln.(int64); ok {
		if int(c) <= len(d.a) {
			part, rest = els, nil
		} else {
			_, part, rest = p.splitAt(els, len(d.a))
		}
	} else if p.branch(mkLe(ln.(*Term), mkInt(int64(len(d.a))))) {
		part, rest = els, nil
	} else {
		_, part, rest = p.splitAt(els, len(d.a))
	}
	bs := p.bytesOf(part)
	copy(d.a, bs)
	return int64(len(bs)), rest
}

// drain reads everything from a reader.
func (p *Path) drain(r Iface) ([]El, Iface) {
	if r.t == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if n, ok := r.v.(*Native); ok && n.kind == "file" {
		return p.fileDrain(n)
	}
	switch typeKey(r.t) {
	case "*bytes.Buffer":
		b := bufAcc{p, p.cell(r.v), 0}
		els := b.get()
		b.set(nil)
		return els, Iface{}
	case "*strings.Reader":
		s := (*p.cell(r.v)).(Struct)
		els := p.norm(s[0])
		s[0] = ""
		return els, Iface{}
	case "*bytes.Reader":
		s := (*p.cell(r.v)).(Struct)
		els := p.bytesEls(s[0])
		s[0] = Slice{}
		return els, Iface{}
	case "*verifharness/sym.Source":
		s := (*p.cell(r.v)).(Struct)
		var els []El
		parts := s[0].(Slice).a
		for i := int(p.concInt(s[4])); i < len(parts); i++ {
			els = joinEls(els, p.norm(parts[i]))
		}
		s[4], s[3] = int64(len(parts)), true
		return p.normEls(els), s[1].(Iface)
	case "*bufio.Reader":
		st := p.bufReader(r.v)
		p.fill(st)
		els := st.rest
		st.rest = nil
		return els, st.err
	}
	var out []El
	for k := 0; ; k++ {
		if k > 200000 {
			p.end("hang", "reader never ends")
		}
		buf := make([]value, 512)
		for i := range buf {
			buf[i] = int64(0)
		}
		res := p.callMethod(r, "Read", Slice{buf}).(Tuple)
		n := p.concInt(res[0])
		out = joinEls(out, bytesToEls(buf[:n]))
		err := res[1].(Iface)
		if err.t != nil {
			if p.isErr(err, p.ioEOF()) {
				return p.normEls(out), Iface{}
			}
			return p.normEls(out), err
		}
		if n == 0 && k > 100 {
			return out, p.ioErr("ErrNoProgress")
		}
	}
}

func (p *Path) isErr(a, b Iface) bool {
	if a.t == nil || b.t == nil {
		return a.t == nil && b.t == nil
	}
	if !types.Identical(a.t, b.t) || !types.Comparable(a.t) {
		return false
	}
	return p.branch(p.equals(a.t, a.v, b.v))
}

type scanState struct {
	r       Iface
	started bool
	rest    []El
	done    bool
	err     Iface
	tok     []El
	max     int
	split   string
}

type bufRState struct {
	r      Iface
	filled bool
	rest   []El
	err    Iface
}

type bufWState struct {
	w   Iface
	buf []El
	err Iface
	sz  int
}

func (p *Path) bufReader(v value) *bufRState {
	st, ok := p.side[p.cell(v)].(*bufRState)
	if !ok {
		p.unsupported("bufio.Reader not made by NewReader")
	}
	return st
}
func (p *Path) fill(st *bufRState) {
	if !st.filled {
		st.filled = true
		st.rest, st.err = p.drain(st.r)
	}
}
func (p *Path) rdErr(st *bufRState) Iface {
	if st.err.t != nil {
		return st.err
	}
	return p.ioEOF()
}

func (p *Path) flushW(st *bufWState) Iface {
	if st.err.t != nil {
		return st.err
	}
	els := p.normEls(st.buf)
	if len(els) == 0 {
		return Iface{}
	}
	st.buf = nil
	res := p.writeTo(st.w, els).(Tuple)
	st.err = res[1].(Iface)
	return st.err
}

func (p *Path) newStruct(pkg, name string) *value {
	c := new(value)
	*c = zero(p.w.eng.typeByName(pkg, name))
	return c
}

type hashState struct {
	alg string
	els []El
}

func (p *Path) digest(alg string, els []El) []El {
	els = p.normEls(els)
	t := elsTerm(els)
	return tEl(mkSkol("hashraw:"+alg, SStr, t))
}

type tabState struct {
	tw   *tabwriter.Writer
	w    Iface
	p    *Path
	back map[rune]El
	next rune
	pan  any
	err  Iface
}

var errTarget = errors.New("target write error")

func (t *tabState) Write(b []byte) (n int, err error) {
	defer func() {
		if r := recover(); r != nil {
			t.pan = r
			n, err = 0, errTarget
		}
	}()
	var els []El
	var last rune
	var cur strings.Builder
	for _, r := range string(b) {
		if e, ok := t.back[r]; ok {
			if r == last {
				continue
			}
			els = joinEls(els, cEl(cur.String()), []El{e})
			cur.Reset()
			last = r
			continue
		}
		last = 0
		cur.WriteRune(r)
	}
	els = joinEls(els, cEl(cur.String()))
	res := t.p.writeTo(t.w, els).(Tuple)
	if e := res[1].(Iface); e.t != nil {
		t.err = e
		return 0, errTarget
	}
	return len(b), nil
}

func (t *tabState) encode(els []El) string {
	p := t.p
	var out strings.Builder
	special := setOf("\t\n\v\f")
	for i := 0; i < len(els); i++ {
		e := els[i]
		if e.t == nil {
			out.WriteString(e.c)
			continue
		}
		if !p.branch(mkInRe(e.t, reStar(special.not()))) {
			p.bound("control characters inside a table cell")
		}
		trailing := false
		for j := i + 1; j < len(els); j++ {
			if els[j].t == nil {
				k := strings.IndexAny(els[j].c, "\t\n\v\f")
				if k >= 0 {
					trailing = els[j].c[k] == '\n' || els[j].c[k] == '\f'
					break
				}
			}
		}
		n := 1
		if !trailing {
			n = int(p.concInt(p.lenVal([]El{e})))
		}
		if n == 0 {
			continue
		}
		r := t.next
		t.next++
		t.back[r] = e
		out.WriteString(strings.Repeat(string(r), n))
	}
	return out.String()
}

func init() {
	type acc struct {
		pre string
		fld int
		bld bool
	}
	for _, a := range []acc{{"(*bytes.Buffer).", 0, false}, {"(*strings.Builder).", 1, true}} {
		a := a
		M := func(n string, f func(p *Path, b bufAcc, a []value) value) {
			reg(a.pre+n, func(p *Path, fn *ssa.Function, args []value) value {
				return f(p, bufAcc{p, p.cell(args[0]), a.fld}, args[1:])
			})
		}
		M("Write", func(p *Path, b bufAcc, a []value) value {
			els := p.bytesEls(a[0])
			b.add(els)
			return lenTuple(p, els)
		})
		M("WriteString", func(p *Path, b bufAcc, a []value) value {
			els := p.norm(a[0])
			b.add(els)
			return lenTuple(p, els)
		})
		M("WriteByte", func(p *Path, b bufAcc, a []value) value {
			b.add(bytesToEls([]value{a[0]}))
			return Iface{}
		})
		M("WriteRune", func(p *Path, b bufAcc, a []value) value {
			els := p.norm(p.convert(types.Typ[types.Int32], types.Typ[types.String], a[0]))
			b.add(els)
			return lenTuple(p, els)
		})
		M("Len", func(p *Path, b bufAcc, a []value) value { return p.lenVal(b.get()) })
		M("Cap", func(p *Path, b bufAcc, a []value) value { return p.lenVal(b.get()) })
		M("Grow", func(p *Path, b bufAcc, a []value) value { return nil })
		M("Reset", func(p *Path, b bufAcc, a []value) value { b.set(nil); return nil })
		if a.bld {
			M("String", func(p *Path, b bufAcc, a []value) value { return elsVal(b.get()) })
		}
	}
	B := func(n string, f func(p *Path, b bufAcc, a []value) value) {
		reg("(*bytes.Buffer)."+n, func(p *Path, fn *ssa.Function, args []value) value {
			return f(p, bufAcc{p, p.cell(args[0]), 0}, args[1:])
		})
	}
	reg("(*bytes.Buffer).String", func(p *Path, fn *ssa.Function, args []value) value {
		if c, ok := args[0].(*value); ok && c == nil {
			return "<nil>"
		}
		return elsVal(bufAcc{p, p.cell(args[0]), 0}.get())
	})
	B("Bytes", func(p *Path, b bufAcc, a []value) value { return elsBytes(b.get()) })
	B("Truncate", func(p *Path, b bufAcc, a []value) value {
		_, l, _ := p.splitAtVal(b.get(), a[0])
		b.set(l)
		return nil
	})
	B("ReadFrom", func(p *Path, b bufAcc, a []value) value {
		els, err := p.drain(a[0].(Iface))
		b.add(els)
		return Tuple{p.lenVal(p.normEls(els)), err}
	})
	B("WriteTo", func(p *Path, b bufAcc, a []value) value {
		els := b.get()
		b.set(nil)
		if len(els) == 0 {
			return Tuple{int64(0), Iface{}}
		}
		return p.writeTo(a[0].(Iface), els)
	})
	B("Read", func(p *Path, b bufAcc, a []value) value {
		els := b.get()
		if len(els) == 0 {
			return Tuple{int64(0), p.ioEOF()}
		}
		n, rest := p.readInto(a[0], els)
		b.set(rest)
		return Tuple{n, Iface{}}
	})
	B("ReadString", func(p *Path, b bufAcc, a []value) value {
		pat := string([]byte{byte(p.concInt(a[0]))})
		ok, l, r := p.find(b.get(), pat)
		if !ok {
			els := b.get()
			b.set(nil)
			return Tuple{elsVal(els), p.ioEOF()}
		}
		b.set(r)
		return Tuple{elsVal(p.normEls(joinEls(l, cEl(pat)))), Iface{}}
	})
	B("ReadBytes", func(p *Path, b bufAcc, a []value) value {
		pat := string([]byte{byte(p.concInt(a[0]))})
		ok, l, r := p.find(b.get(), pat)
		if !ok {
			els := b.get()
			b.set(nil)
			return Tuple{elsBytes(els), p.ioEOF()}
		}
		b.set(r)
		return Tuple{elsBytes(p.normEls(joinEls(l, cEl(pat)))), Iface{}}
	})
	B("ReadByte", func(p *Path, b bufAcc, a []value) value {
		ok, l, r := p.splitAt(b.get(), 1)
		if !ok {
			return Tuple{int64(0), p.ioEOF()}
		}
		b.set(r)
		return Tuple{p.bytesOf(l)[0], Iface{}}
	})
	reg("bytes.NewBuffer", func(p *Path, fn *ssa.Function, a []value) value {
		c := p.newStruct("bytes", "Buffer")
		bufAcc{p, c, 0}.set(p.bytesEls(a[0]))
		return c
	})
	reg("bytes.NewBufferString", func(p *Path, fn *ssa.Function, a []value) value {
		c := p.newStruct("bytes", "Buffer")
		bufAcc{p, c, 0}.set(p.norm(a[0]))
		return c
	})
	// readers
	reg("(*strings.Reader).Read", func(p *Path, fn *ssa.Function, a []value) value {
		s := (*p.cell(a[0])).(Struct)
		els := p.norm(s[0])
		if len(els) == 0 {
			return Tuple{int64(0), p.ioEOF()}
		}
		if !p.nonEmptyEls(els) {
			return Tuple{int64(0), p.ioEOF()}
		}
		n, rest := p.readInto(a[1], els)
		s[0] = elsVal(rest)
		return Tuple{n, Iface{}}
	})
	reg("(*strings.Reader).Len", func(p *Path, fn *ssa.Function, a []value) value {
		return p.lenVal(p.norm((*p.cell(a[0])).(Struct)[0]))
	})
	reg("(*bytes.Reader).Read", func(p *Path, fn *ssa.Function, a []value) value {
		s := (*p.cell(a[0])).(Struct)
		els := p.bytesEls(s[0])
		if len(els) == 0 || !p.nonEmptyEls(els) {
			return Tuple{int64(0), p.ioEOF()}
		}
		n, rest := p.readInto(a[1], els)
		s[0] = elsBytes(rest)
		return Tuple{n, Iface{}}
	})
	reg("io.ReadAll", func(p *Path, fn *ssa.Function, a []value) value {
		els, err := p.drain(a[0].(Iface))
		return Tuple{elsBytes(els), err}
	})
	reg("io/ioutil.ReadAll", func(p *Path, fn *ssa.Function, a []value) value {
		els, err := p.drain(a[0].(Iface))
		return Tuple{elsBytes(els), err}
	})
	cp := func(p *Path, fn *ssa.Function, a []value) value {
		els, err := p.drain(a[1].(Iface))
		if len(els) > 0 {
			r := p.writeTo(a[0].(Iface), els).(Tuple)
			if e := r[1].(Iface); e.t != nil {
				return r
			}
		}
		return Tuple{p.lenVal(p.normEls(els)), err}
	}
	reg("io.Copy", cp)
	reg("io.CopyBuffer", cp)
	reg("io.WriteString", func(p *Path, fn *ssa.Function, a []value) value {
		w := a[0].(Iface)
		if w.t != nil && !isNativeRecv(w.v) {
			if m := p.w.eng.methodByName(w.t, "WriteString"); m != nil && m.Signature.Params().Len() == 1 {
				return p.callMethod(w, "WriteString", a[1])
			}
		}
		return p.writeTo(w, p.norm(a[1]))
	})
	// bufio
	reg("bufio.NewScanner", func(p *Path, fn *ssa.Function, a []value) value {
		c := p.newStruct("bufio", "Scanner")
		p.side[c] = &scanState{r: a[0].(Iface), max: 64 * 1024}
		return c
	})
	sc := func(n string, f func(p *Path, st *scanState, a []value) value) {
		reg("(*bufio.Scanner)."+n, func(p *Path, fn *ssa.Function, args []value) value {
			st, ok := p.side[p.cell(args[0])].(*scanState)
			if !ok {
				p.unsupported("scanner not made by NewScanner")
			}
			return f(p, st, args[1:])
		})
	}
	sc("Buffer", func(p *Path, st *scanState, a []value) value {
		st.max = int(p.concInt(a[1]))
		if s, ok := a[0].(Slice); ok && cap(s.a) > st.max {
			st.max = cap(s.a)
		}
		return nil
	})
	sc("Split", func(p *Path, st *scanState, a []value) value {
		f, ok := a[0].(*ssa.Function)
		if !ok {
			p.unsupported("custom split function")
		}
		st.split = f.Name()
		return nil
	})
	sc("Text", func(p *Path, st *scanState, a []value) value { return elsVal(p.normEls(st.tok)) })
	sc("Bytes", func(p *Path, st *scanState, a []value) value { return elsBytes(p.normEls(st.tok)) })
	sc("Err", func(p *Path, st *scanState, a []value) value { return st.err })
	sc("Scan", func(p *Path, st *scanState, a []value) value {
		if st.done {
			st.tok = nil
			return false
		}
		if !st.started {
			st.started = true
			var err Iface
			st.rest, err = p.drain(st.r)
			st.err = err
		}
		fin := func() value {
			st.done = true
			st.tok = nil
			return false
		}
		switch st.split {
		case "", "ScanLines":
		default:
			p.unsupported("scanner split function %s", st.split)
		}
		st.rest = p.normEls(st.rest)
		if len(st.rest) == 0 || !p.nonEmptyEls(st.rest) {
			return fin()
		}
		ok, l, r := p.find(st.rest, "\n")
		l = p.normEls(l)
		if !ok {
			l, r = p.normEls(st.rest), nil
		}
		// a token that does not fit the buffer
		if p.longest(l) >= int64(st.max) {
			ln := p.lenVal(l)
			lim := int64(st.max)
			var tooLong bool
			if c, isC := ln.(int64); isC {
				tooLong = c >= lim
			} else {
				tooLong = p.branch(mkLe(mkInt(lim), ln.(*Term)))
			}
			if tooLong {
				st.err = p.pkgErr("bufio", "ErrTooLong")
				return fin()
			}
		}
		st.rest = r
		if ok, x := p.endsWith(l, "\r"); ok {
			l = x
		}
		st.tok = p.normEls(l)
		return true
	})
	newBufR := func(p *Path, fn *ssa.Function, a []value) value {
		c := p.newStruct("bufio", "Reader")
		p.side[c] = &bufRState{r: a[0].(Iface)}
		return c
	}
	reg("bufio.NewReader", newBufR)
	reg("bufio.NewReaderSize", newBufR)
	br := func(n string, f func(p *Path, st *bufRState, a []value) value) {
		reg("(*bufio.Reader)."+n, func(p *Path, fn *ssa.Function, args []value) value {
			st := p.bufReader(args[0])
			p.fill(st)
			st.rest = p.normEls(st.rest)
			return f(p, st, args[1:])
		})
	}
	readUntil := func(p *Path, st *bufRState, d value) ([]El, Iface) {
		pat := string([]byte{byte(p.concInt(d))})
		ok, l, r := p.find(st.rest, pat)
		if !ok {
			els := p.normEls(st.rest)
			st.rest = nil
			return els, p.rdErr(st)
		}
		st.rest = r
		return p.normEls(joinEls(l, cEl(pat))), Iface{}
	}
	br("ReadString", func(p *Path, st *bufRState, a []value) value {
		els, err := readUntil(p, st, a[0])
		return Tuple{elsVal(els), err}
	})
	br("ReadBytes", func(p *Path, st *bufRState, a []value) value {
		els, err := readUntil(p, st, a[0])
		return Tuple{elsBytes(els), err}
	})
	br("ReadLine", func(p *Path, st *bufRState, a []value) value {
		if len(st.rest) == 0 || !p.nonEmptyEls(st.rest) {
			return Tuple{Slice{}, false, p.rdErr(st)}
		}
		els, _ := readUntil(p, st, int64('\n'))
		if ok, x := p.endsWith(els, "\n"); ok {
			els = x
			if ok, x := p.endsWith(els, "\r"); ok {
				els = x
			}
		}
		return Tuple{elsBytes(els), false, Iface{}}
	})
	br("Read", func(p *Path, st *bufRState, a []value) value {
		if len(st.rest) == 0 || !p.nonEmptyEls(st.rest) {
			return Tuple{int64(0), p.rdErr(st)}
		}
		n, rest := p.readInto(a[0], st.rest)
		st.rest = rest
		return Tuple{n, Iface{}}
	})
	br("ReadByte", func(p *Path, st *bufRState, a []value) value {
		ok, l, r := p.splitAt(st.rest, 1)
		if !ok {
			return Tuple{int64(0), p.rdErr(st)}
		}
		st.rest = r
		return Tuple{p.bytesOf(l)[0], Iface{}}
	})
	br("ReadRune", func(p *Path, st *bufRState, a []value) value {
		ok, l, r := p.splitAt(st.rest, 1)
		if !ok {
			return Tuple{int64(0), int64(0), p.rdErr(st)}
		}
		st.rest = r
		return Tuple{p.bytesOf(l)[0], int64(1), Iface{}}
	})
	br("Peek", func(p *Path, st *bufRState, a []value) value {
		ok, l, _ := p.splitAt(st.rest, int(p.concInt(a[0])))
		if !ok {
			return Tuple{elsBytes(p.normEls(st.rest)), p.rdErr(st)}
		}
		return Tuple{elsBytes(l), Iface{}}
	})
	// gordf reads its XML a byte at a time; a symbolic text is taken whole
	reg("(*github.com/spdx/gordf/rdfloader/xmlreader.XMLReader).readTill", func(p *Path, fn *ssa.Function, args []value) value {
		st := p.bufReader((*p.cell(args[0])).(Struct)[0])
		mask := uint64(p.concInt(args[1]))
		var delims CharSet
		for c := 0; c < 64; c++ {
			if mask&(1<<c) != 0 {
				delims = delims.union(setOf(string(rune(c))))
			}
		}
		p.fill(st)
		st.rest = p.normEls(st.rest)
		var out []El
		done := func(err Iface) value {
			out = p.normEls(out)
			for _, e := range out {
				if e.t != nil {
					return Tuple{&BRope{out}, err}
				}
			}
			rs := []value{}
			for _, e := range out {
				for i := 0; i < len(e.c); i++ {
					rs = append(rs, int64(e.c[i]))
				}
			}
			return Tuple{Slice{rs}, err}
		}
		for len(st.rest) > 0 {
			e := st.rest[0]
			if e.t == nil {
				for i := 0; i < len(e.c); i++ {
					if c := e.c[i]; c < 64 && mask&(1<<c) != 0 {
						out = joinEls(out, cEl(e.c[:i]))
						st.rest = joinEls(cEl(e.c[i:]), st.rest[1:])
						return done(Iface{})
					}
				}
			} else {
				if !p.branch(mkInRe(e.t, reStar(delims.not()))) {
					p.bound("XML markup inside a symbolic text")
				}
				p.asciiOnly(e.t)
			}
			out = joinEls(out, []El{e})
			st.rest = st.rest[1:]
		}
		return done(p.rdErr(st))
	})
	newBufW := func(p *Path, fn *ssa.Function, a []value) value {
		c := p.newStruct("bufio", "Writer")
		st := &bufWState{w: a[0].(Iface), sz: 4096}
		if len(a) > 1 {
			st.sz = int(p.concInt(a[1]))
		}
		p.side[c] = st
		return c
	}
	reg("bufio.NewWriter", newBufW)
	reg("bufio.NewWriterSize", newBufW)
	bw := func(n string, f func(p *Path, st *bufWState, a []value) value) {
		reg("(*bufio.Writer)."+n, func(p *Path, fn *ssa.Function, args []value) value {
			st, ok := p.side[p.cell(args[0])].(*bufWState)
			if !ok {
				p.unsupported("bufio.Writer not made by NewWriter")
			}
			return f(p, st, args[1:])
		})
	}
	addW := func(p *Path, st *bufWState, els []El) Iface {
		if st.err.t != nil {
			return st.err
		}
		st.buf = joinEls(st.buf, els)
		n := 0
		for _, e := range st.buf {
			n += len(e.c)
		}
		if n > st.sz {
			return p.flushW(st)
		}
		return Iface{}
	}
	bw("Write", func(p *Path, st *bufWState, a []value) value {
		els := p.bytesEls(a[0])
		return Tuple{p.lenVal(els), addW(p, st, els)}
	})
	bw("WriteString", func(p *Path, st *bufWState, a []value) value {
		els := p.norm(a[0])
		return Tuple{p.lenVal(els), addW(p, st, els)}
	})
	bw("WriteByte", func(p *Path, st *bufWState, a []value) value { return addW(p, st, bytesToEls([]value{a[0]})) })
	bw("WriteRune", func(p *Path, st *bufWState, a []value) value {
		els := p.norm(p.convert(types.Typ[types.Int32], types.Typ[types.String], a[0]))
		return Tuple{p.lenVal(els), addW(p, st, els)}
	})
	bw("Flush", func(p *Path, st *bufWState, a []value) value { return p.flushW(st) })
	// hashes
	for _, h := range [][3]string{{"crypto/sha1.New", "sha1", ""}, {"crypto/sha256.New", "sha256", ""}, {"crypto/sha512.New", "sha512", ""}, {"crypto/md5.New", "md5", ""}} {
		alg := h[1]
		reg(h[0], func(p *Path, fn *ssa.Function, a []value) value {
			return Iface{t: p.w.eng.errorStringType, v: &Native{kind: "hash", data: &hashState{alg: alg}}}
		})
	}
	sum := func(alg string) func(p *Path, fn *ssa.Function, a []value) value {
		return func(p *Path, fn *ssa.Function, a []value) value {
			d := p.digest(alg, p.bytesEls(a[0]))
			out := make(Array, hashSize(alg))
			if s, ok := elsConst(d); ok {
				for i := range out {
					out[i] = int64(s[i])
				}
				return out
			}
			for i := range out {
				out[i] = byteVal(mkSkol("char", SStr, d[0].t, mkInt(int64(i))))
			}
			return out
		}
	}
	reg("crypto/sha1.Sum", sum("sha1"))
	reg("crypto/sha256.Sum256", sum("sha256"))
	reg("crypto/sha512.Sum512", sum("sha512"))
	reg("crypto/md5.Sum", sum("md5"))
	reg("encoding/hex.EncodeToString", func(p *Path, fn *ssa.Function, a []value) value {
		return elsVal(p.hexEls(p.bytesEls(a[0]), false))
	})
	// tabwriter
	tabInit := func(p *Path, c *value, a []value) {
		st := &tabState{w: a[0].(Iface), p: p, back: map[rune]El{}, next: 0xE000}
		st.tw = tabwriter.NewWriter(st, int(p.concInt(a[1])), int(p.concInt(a[2])), int(p.concInt(a[3])), byte(p.concInt(a[4])), uint(p.concInt(a[5])))
		p.side[c] = st
	}
	reg("text/tabwriter.NewWriter", func(p *Path, fn *ssa.Function, a []value) value {
		c := p.newStruct("text/tabwriter", "Writer")
		tabInit(p, c, a)
		return c
	})
	reg("(*text/tabwriter.Writer).Init", func(p *Path, fn *ssa.Function, a []value) value {
		tabInit(p, p.cell(a[0]), a[1:])
		return a[0]
	})
	tab := func(p *Path, st *tabState, f func() error) Iface {
		st.err = Iface{}
		err := f()
		if st.pan != nil {
			panic(st.pan)
		}
		if err != nil {
			if st.err.t != nil {
				return st.err
			}
			return p.mkError(err.Error())
		}
		return Iface{}
	}
	getTab := func(p *Path, v value) *tabState {
		st, ok := p.side[p.cell(v)].(*tabState)
		if !ok {
			p.unsupported("tabwriter not initialised")
		}
		return st
	}
	reg("(*text/tabwriter.Writer).Write", func(p *Path, fn *ssa.Function, a []value) value {
		st := getTab(p, a[0])
		els := p.bytesEls(a[1])
		s := st.encode(els)
		e := tab(p, st, func() error { _, err := io.WriteString(st.tw, s); return err })
		return Tuple{p.lenVal(els), e}
	})
	reg("(*text/tabwriter.Writer).Flush", func(p *Path, fn *ssa.Function, a []value) value {
		st := getTab(p, a[0])
		return tab(p, st, st.tw.Flush)
	})
}

// nonEmptyEls decides whether the text has at least one character.
func (p *Path) nonEmptyEls(els []El) bool {
	els = p.normEls(els)
	for _, e := range els {
		if e.t == nil && e.c != "" || e.t != nil && p.nonEmpty(e.t) {
			return true
		}
	}
	if len(els) == 0 {
		return false
	}
	return p.branch(mkNot(mkEq(elsTerm(els), mkStr(""))))
}

// nativeInvoke calls a method of a host-side object.
func (p *Path) nativeInvoke(recv Iface, name string, args []value) value {
	switch r := recv.v.(type) {
	case RType:
		return p.typeMethod(r.t, name, args)
	case *Native:
		if r == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		switch r.kind {
		case "hash":
			h := r.data.(*hashState)
			switch name {
			case "Write":
				els := p.bytesEls(args[0])
				h.els = joinEls(h.els, els)
				return lenTuple(p, els)
			case "WriteString":
				els := p.norm(args[0])
				h.els = joinEls(h.els, els)
				return lenTuple(p, els)
			case "Sum":
				d := p.digest(h.alg, h.els)
				if args[0] == nil {
					return elsBytes(d)
				}
				return elsBytes(joinEls(p.bytesEls(args[0]), d))
			case "Reset":
				h.els = nil
				return nil
			case "Size":
				return int64(hashSize(h.alg))
			case "BlockSize":
				return int64(64)
			}
		case "file", "fileinfo", "direntry":
			return p.vfsMethod(r, name, args)
		case "sink":
			if name == "Write" || name == "WriteString" {
				return lenTuple(p, p.bytesEls(args[0]))
			}
		}
		p.unsupported("method %s of host object %s", name, r.kind)
	}
	p.unsupported("method %s", name)
	return nil
}

var nativeMethods = map[string]string{
	"hash":     "Write Sum Reset Size BlockSize WriteString",
	"file":     "Read Close Write WriteString Name Stat Readdir Readdirnames ReadDir",
	"fileinfo": "Name Size Mode ModTime IsDir Sys",
	"direntry": "Name IsDir Type Info",
	"sink":     "Write WriteString",
}

func nativeImplements(n *Native, it *types.Interface) bool {
	if n == nil {
		return false
	}
	for i := 0; i < it.NumMethods(); i++ {
		found := false
		for _, m := range strings.Fields(nativeMethods[n.kind]) {
			if m == it.Method(i).Name() {
				found = true
			}
		}
		if !found {
			return false
		}
	}
	return true
}

// longest is an upper bound of the length of a text. A piece of unknown length
// is no longer than the longest input, of which it is a part.
func (p *Path) longest(els []El) int64 {
	n := int64(0)
	for _, e := range els {
		n += int64(len(e.c))
		if e.t == nil {
			continue
		}
		k := int64(0)
		if isAtom(e.t) {
			k = p.ival(mkLen(e.t))[1]
		}
		if k == 0 || k > 1<<32 {
			k = 0
			for _, in := range p.inputs {
				if in.Kind == "str" {
					k = max(k, p.ival(mkLen(in.t))[1])
				}
			}
		}
		n += min(k, 1<<32)
	}
	return n
}

package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func intFmt(i int64, base int) string { return strconv.FormatInt(i, base) }

func pkgNameQual(p *types.Package) string { return p.Name() }

func (p *Path) hasMethod(t types.Type, name string) bool {
	ms := p.w.eng.prog.MethodSets.MethodSet(t)
	sel := ms.Lookup(nil, name)
	if sel == nil {
		return false
	}
	sig, ok := sel.Type().(*types.Signature)
	if !ok || sig.Params().Len() != 0 || sig.Results().Len() != 1 {
		return false
	}
	b, ok := sig.Results().At(0).Type().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String
}

type fmtSpec struct {
	minus, plus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
	verb                            rune
}

func (p *Path) sprintf(format string, args []value) []El {
	var out []El
	argNum, reordered := 0, false
	emit := func(s string) { out = joinEls(out, cEl(s)) }
	end := len(format)
	for i := 0; i < end; {
		j := strings.IndexByte(format[i:], '%')
		if j < 0 {
			emit(format[i:])
			break
		}
		emit(format[i : i+j])
		i += j + 1
		var sp fmtSpec
	flags:
		for ; i < end; i++ {
			switch format[i] {
			case '-':
				sp.minus = true
			case '+':
				sp.plus = true
			case '#':
				sp.sharp = true
			case ' ':
				sp.space = true
			case '0':
				sp.zero = true
			default:
				break flags
			}
		}
		if i < end && format[i] == '[' {
			k := i + 1
			n := 0
			for k < end && format[k] >= '0' && format[k] <= '9' && n < 1000 {
				n = 10*n + int(format[k]-'0')
				k++
			}
			if k >= end || format[k] != ']' || n < 1 || n > len(args) {
				p.unsupported("indexed format argument")
			}
			argNum, i = n-1, k+1
			reordered = true
		}
		if i < end && format[i] == '*' {
			i++
			if argNum < len(args) {
				if n, ok := args[argNum].(Iface).v.(int64); ok {
					sp.wid, sp.hasWid = int(n), true
					if sp.wid < 0 {
						sp.minus, sp.wid = true, -sp.wid
					}
				}
				argNum++
			}
		}
		for i < end && format[i] >= '0' && format[i] <= '9' {
			sp.wid = sp.wid*10 + int(format[i]-'0')
			sp.hasWid = true
			i++
		}
		if i < end && format[i] == '.' {
			i++
			sp.hasPrec = true
			for i < end && format[i] >= '0' && format[i] <= '9' {
				sp.prec = sp.prec*10 + int(format[i]-'0')
				i++
			}
		}
		if i >= end {
			emit("%!(NOVERB)")
			break
		}
		r := []rune(format[i:])[0]
		i += len(string(r))
		sp.verb = r
		if r == '%' {
			emit("%")
			continue
		}
		if argNum >= len(args) {
			emit("%!" + string(r) + "(MISSING)")
			continue
		}
		a := args[argNum].(Iface)
		argNum++
		out = joinEls(out, p.pad(p.fmtArg(a, sp, 0), sp))
	}
	if !reordered && argNum < len(args) {
		emit("%!(EXTRA ")
		for k, a := range args[argNum:] {
			if k > 0 {
				emit(", ")
			}
			x := a.(Iface)
			if x.t == nil {
				emit("<nil>")
			} else {
				emit(types.TypeString(x.t, pkgNameQual) + "=")
				out = joinEls(out, p.fmtArg(x, fmtSpec{verb: 'v'}, 0))
			}
		}
		emit(")")
	}
	return out
}

func (p *Path) pad(els []El, sp fmtSpec) []El {
	if !sp.hasWid {
		return els
	}
	n := 0
	for _, e := range p.normEls(els) {
		if e.t == nil {
			n += len([]rune(e.c))
		} else {
			n += int(p.concInt(p.lenVal([]El{e})))
		}
	}
	if n >= sp.wid {
		return els
	}
	if sp.minus {
		return joinEls(els, cEl(strings.Repeat(" ", sp.wid-n)))
	}
	if sp.zero && !sp.minus {
		if s, ok := elsConst(els); ok && len(s) > 0 && s[0] == '-' {
			return cEl("-" + strings.Repeat("0", sp.wid-n) + s[1:])
		}
		return joinEls(cEl(strings.Repeat("0", sp.wid-n)), els)
	}
	return joinEls(cEl(strings.Repeat(" ", sp.wid-n)), els)
}

func (p *Path) bad(a Iface, verb rune) []El {
	if a.t == nil {
		return cEl("%!" + string(verb) + "(<nil>)")
	}
	return joinEls(cEl("%!"+string(verb)+"("+types.TypeString(a.t, pkgNameQual)+"="), p.fmtVal(a.t, a.v, fmtSpec{verb: 'v'}, 1), cEl(")"))
}

// callStr calls Error or String, turning a nil-pointer panic into <nil> the way fmt does.
func (p *Path) callStr(a Iface, name string) (out []El) {
	base := len(p.w.stack)
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(goPanic); !ok {
				panic(r)
			}
			p.w.stack = p.w.stack[:base]
			if c, ok := a.v.(*value); ok && c == nil {
				out = cEl("<nil>")
				return
			}
			out = cEl("%!v(PANIC=" + name + " method)")
		}
	}()
	return p.norm(p.callMethod(a, name))
}

func (p *Path) fmtArg(a Iface, sp fmtSpec, depth int) []El {
	if a.t == nil {
		switch sp.verb {
		case 'T', 'v':
			return cEl("<nil>")
		}
		return p.bad(a, sp.verb)
	}
	if sp.verb == 'T' {
		return cEl(types.TypeString(a.t, pkgNameQual))
	}
	if sp.verb == 'p' {
		return cEl("0xc000000000")
	}
	if v, ok := a.v.(RValue); ok {
		if v.t == nil {
			return cEl("<invalid reflect.Value>")
		}
		return p.fmtArg(p.rInterface(v), sp, depth)
	}
	if sp.verb == 'w' {
		sp.verb = 'v'
	}
	if !(sp.verb == 'v' && sp.sharp) {
		switch sp.verb {
		case 'v', 's', 'x', 'X', 'q':
			if !isNativeRecv(a.v) {
				for _, m := range []string{"Error", "String"} {
					if p.hasMethod(a.t, m) {
						s := p.callStr(a, m)
						return p.fmtVal(types.Typ[types.String], elsVal(s), sp, depth)
					}
				}
			} else if rt, ok := a.v.(RType); ok {
				return cEl(types.TypeString(rt.t, pkgNameQual))
			} else {
				return cEl("?")
			}
		}
	}
	return p.fmtVal(a.t, a.v, sp, depth)
}

func (p *Path) hexEls(els []El, upper bool) []El {
	els = p.normEls(els)
	if s, ok := elsConst(els); ok {
		if upper {
			return cEl(fmt.Sprintf("%X", s))
		}
		return cEl(fmt.Sprintf("%x", s))
	}
	var out []El
	for i := 0; i < len(els); i++ {
		e := els[i]
		if e.t == nil {
			f := "%x"
			if upper {
				f = "%X"
			}
			out = joinEls(out, cEl(fmt.Sprintf(f, e.c)))
			continue
		}
		h, skip := hashRawAt(els[i:])
		if h == nil {
			p.unsupported("hexadecimal form of symbolic text")
		}
		i += skip - 1
		r := mkSkol("hash:"+strings.TrimPrefix(h.s, "hashraw:"), SStr, h.args...)
		if upper {
			r = mkSkol("upper", SStr, r)
		}
		out = joinEls(out, tEl(r))
	}
	return out
}

// hashRawAt recognises a raw digest, whole or as its complete list of bytes.
func hashRawAt(els []El) (*Term, int) {
	t := els[0].t
	if t.op == OSkol && strings.HasPrefix(t.s, "hashraw:") {
		return t, 1
	}
	if t.op == OSkol && t.s == "char" && t.args[0].op == OSkol && strings.HasPrefix(t.args[0].s, "hashraw:") {
		h := t.args[0]
		n := hashSize(strings.TrimPrefix(h.s, "hashraw:"))
		if len(els) < n {
			return nil, 0
		}
		for k := 0; k < n; k++ {
			x := els[k].t
			if x == nil || x.op != OSkol || x.s != "char" || x.args[0] != h || x.args[1].op != OInt || x.args[1].i != int64(k) {
				return nil, 0
			}
		}
		return h, n
	}
	return nil, 0
}

func (p *Path) fmtVal(t types.Type, v value, sp fmtSpec, depth int) []El {
	if depth > 30 {
		p.unsupported("formatting of a deep value")
	}
	verb := sp.verb
	sub := func(et types.Type, ev value) []El {
		if _, ok := et.Underlying().(*types.Interface); ok {
			x := ev.(Iface)
			if x.t == nil {
				return cEl("<nil>")
			}
			return p.fmtArg(x, sp, depth+1)
		}
		return p.fmtArg(Iface{t: et, v: ev}, sp, depth+1)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			els := p.norm(v)
			if sp.hasPrec {
				ok, l, _ := p.splitAt(els, sp.prec)
				if ok {
					els = l
				}
			}
			switch verb {
			case 's', 'v':
				if verb == 'v' && sp.sharp {
					return p.quoteEls(els)
				}
				return els
			case 'q':
				return p.quoteEls(els)
			case 'x', 'X':
				return p.hexEls(els, verb == 'X')
			}
		case u.Info()&types.IsBoolean != 0:
			if verb == 't' || verb == 'v' {
				b, ok := v.(bool)
				if !ok {
					b = p.branch(v.(*Term))
				}
				return cEl(strconv.FormatBool(b))
			}
		case u.Info()&types.IsInteger != 0:
			switch verb {
			case 'd', 'v':
				els := p.norm(p.itoa(v))
				if sp.plus {
					if c, ok := v.(int64); !ok || c >= 0 {
						els = joinEls(cEl("+"), els)
					}
				}
				return els
			case 'c':
				return p.norm(p.convert(types.Typ[types.Int32], types.Typ[types.String], v))
			case 'x', 'X', 'o', 'b', 'q', 'U':
				n := p.concInt(v)
				f := "%" + string(verb)
				if sp.hasWid && sp.zero {
					f = "%0" + strconv.Itoa(sp.wid) + string(verb)
				}
				if isUnsigned(t) {
					return cEl(fmt.Sprintf(f, uint64(n)))
				}
				return cEl(fmt.Sprintf(f, n))
			}
		case u.Info()&types.IsFloat != 0:
			f := "%"
			if sp.hasPrec {
				f += "." + strconv.Itoa(sp.prec)
			}
			switch verb {
			case 'v', 'g', 'f', 'e', 'F', 'G', 'E':
				return cEl(fmt.Sprintf(f+string(verb), v.(float64)))
			}
		}
	case *types.Slice:
		if isByteSlice(t) {
			els := p.bytesEls(v)
			switch verb {
			case 's':
				return els
			case 'q':
				return p.quoteEls(els)
			case 'x', 'X':
				return p.hexEls(els, verb == 'X')
			}
			if b, ok := v.(*BRope); ok {
				v = Slice{p.bytesOf(b.el)}
			}
		}
		s := v.(Slice)
		out := cEl("[")
		for i, x := range s.a {
			if i > 0 {
				out = joinEls(out, cEl(" "))
			}
			out = joinEls(out, sub(u.Elem(), x))
		}
		return joinEls(out, cEl("]"))
	case *types.Array:
		a := v.(Array)
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && (verb == 'x' || verb == 'X' || verb == 's') {
			els := p.bytesEls(Slice{a})
			if verb == 's' {
				return els
			}
			return p.hexEls(els, verb == 'X')
		}
		out := cEl("[")
		for i, x := range a {
			if i > 0 {
				out = joinEls(out, cEl(" "))
			}
			out = joinEls(out, sub(u.Elem(), x))
		}
		return joinEls(out, cEl("]"))
	case *types.Struct:
		s := v.(Struct)
		out := cEl("{")
		for i, x := range s {
			if i > 0 {
				out = joinEls(out, cEl(" "))
			}
			if sp.plus || sp.sharp {
				out = joinEls(out, cEl(u.Field(i).Name()+":"))
			}
			if !u.Field(i).Exported() {
				// methods of unexported fields are not called
				if _, isI := u.Field(i).Type().Underlying().(*types.Interface); !isI {
					out = joinEls(out, p.fmtVal(u.Field(i).Type(), x, sp, depth+1))
					continue
				}
			}
			out = joinEls(out, sub(u.Field(i).Type(), x))
		}
		return joinEls(out, cEl("}"))
	case *types.Map:
		m := v.(*Map)
		out := cEl("map[")
		live := m.live()
		// sorted by key, as fmt does
		for i := 1; i < len(live); i++ {
			for j := i; j > 0; j-- {
				a, b := m.keys[live[j]], m.keys[live[j-1]]
				less := false
				switch a.(type) {
				case string, *Rope:
					less = p.branch(p.strLt(a, b))
				case int64, *Term:
					less = p.branch(mkLt(p.intTerm(a), p.intTerm(b)))
				}
				if !less {
					break
				}
				live[j], live[j-1] = live[j-1], live[j]
			}
		}
		for i, k := range live {
			if i > 0 {
				out = joinEls(out, cEl(" "))
			}
			out = joinEls(out, sub(u.Key(), m.keys[k]), cEl(":"), sub(u.Elem(), m.vals[k]))
		}
		return joinEls(out, cEl("]"))
	case *types.Pointer:
		c, ok := v.(*value)
		if ok && c == nil {
			return cEl("<nil>")
		}
		if ok && depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Map, *types.Array:
				return joinEls(cEl("&"), p.fmtVal(u.Elem(), *c, sp, depth+1))
			}
		}
		p.note("pointer value formatted as text")
		return cEl("0xc000000000")
	case *types.Interface:
		x := v.(Iface)
		if x.t == nil {
			return cEl("<nil>")
		}
		return p.fmtArg(x, sp, depth+1)
	case *types.Signature, *types.Chan:
		return cEl("0x4000000")
	}
	return p.bad(Iface{t: t, v: v}, verb)
}

// quoteEls is strconv.Quote; exact for text without characters that need an escape.
func (p *Path) quoteEls(els []El) []El {
	els = p.resolveEls(els)
	out := cEl(`"`)
	for _, e := range els {
		if e.t == nil {
			q := strconv.Quote(e.c)
			out = joinEls(out, cEl(q[1:len(q)-1]))
		} else {
			out = joinEls(out, tEl(mkSkol("quote", SStr, e.t)))
		}
	}
	return joinEls(out, cEl(`"`))
}

func (p *Path) sprint(args []value, ln bool) []El {
	var out []El
	prevString := false
	for i, a := range args {
		x := a.(Iface)
		isStr := false
		if x.t != nil {
			b, ok := x.t.Underlying().(*types.Basic)
			isStr = ok && b.Info()&types.IsString != 0
		}
		if i > 0 && (ln || !isStr && !prevString) {
			out = joinEls(out, cEl(" "))
		}
		out = joinEls(out, p.fmtArg(x, fmtSpec{verb: 'v'}, 0))
		prevString = isStr
	}
	if ln {
		out = joinEls(out, cEl("\n"))
	}
	return out
}

func varArgs(v value) []value {
	s, _ := v.(Slice)
	return s.a
}

func (p *Path) writeTo(w Iface, els []El) value {
	if w.t == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	return p.callMethod(w, "Write", elsBytes(p.normEls(els)))
}

func init() {
	fm := func(p *Path, v value) string {
		s, ok := p.pat(v)
		if !ok {
			// a symbolic format: exact only when it holds no verb
			if p.branch(p.contains(v, "%")) {
				return p.concStr(v, "format string")
			}
			return ""
		}
		return s
	}
	spf := func(p *Path, f value, args value) []El {
		if _, ok := p.pat(f); !ok && !p.branch(p.contains(f, "%")) && len(varArgs(args)) == 0 {
			return p.norm(f)
		}
		return p.sprintf(fm(p, f), varArgs(args))
	}
	reg("fmt.Sprintf", func(p *Path, fn *ssa.Function, a []value) value { return elsVal(spf(p, a[0], a[1])) })
	reg("fmt.Sprint", func(p *Path, fn *ssa.Function, a []value) value { return elsVal(p.sprint(varArgs(a[0]), false)) })
	reg("fmt.Sprintln", func(p *Path, fn *ssa.Function, a []value) value { return elsVal(p.sprint(varArgs(a[0]), true)) })
	reg("fmt.Fprintf", func(p *Path, fn *ssa.Function, a []value) value {
		return p.writeTo(a[0].(Iface), spf(p, a[1], a[2]))
	})
	reg("fmt.Fprint", func(p *Path, fn *ssa.Function, a []value) value {
		return p.writeTo(a[0].(Iface), p.sprint(varArgs(a[1]), false))
	})
	reg("fmt.Fprintln", func(p *Path, fn *ssa.Function, a []value) value {
		return p.writeTo(a[0].(Iface), p.sprint(varArgs(a[1]), true))
	})
	reg("fmt.Appendf", func(p *Path, fn *ssa.Function, a []value) value {
		return p.appendVals(a[0], elsBytes(p.normEls(spf(p, a[1], a[2]))))
	})
	nop := func(p *Path, fn *ssa.Function, a []value) value { return Tuple{int64(0), Iface{}} }
	reg("fmt.Printf", nop)
	reg("fmt.Println", nop)
	reg("fmt.Print", nop)
	for _, n := range []string{"log.Printf", "log.Println", "log.Print"} {
		reg(n, func(p *Path, fn *ssa.Function, a []value) value { return nil })
	}
	reg("fmt.Errorf", func(p *Path, fn *ssa.Function, a []value) value {
		f := fm(p, a[0])
		args := varArgs(a[1])
		msg := elsVal(spf(p, a[0], a[1]))
		// wrapped operands, by counting verbs
		var wrapped []Iface
		n := 0
		for i := 0; i < len(f); i++ {
			if f[i] != '%' {
				continue
			}
			i++
			for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
				i++
			}
			if i >= len(f) || f[i] == '%' {
				continue
			}
			if f[i] == 'w' && n < len(args) {
				if x := args[n].(Iface); x.t != nil && p.w.eng.implements(x, p.w.eng.errorIface) {
					wrapped = append(wrapped, x)
				}
			}
			n++
		}
		cell := new(value)
		switch len(wrapped) {
		case 0:
			return p.mkError(msg)
		case 1:
			*cell = Struct{msg, wrapped[0]}
			return Iface{t: types.NewPointer(p.w.eng.typeByName("fmt", "wrapError")), v: cell}
		}
		var errs []value
		for _, w := range wrapped {
			errs = append(errs, w)
		}
		*cell = Struct{msg, Slice{errs}}
		return Iface{t: types.NewPointer(p.w.eng.typeByName("fmt", "wrapErrors")), v: cell}
	})
}

package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"sync"
	"unsafe"

	"golang.org/x/tools/go/ssa"
)

type goPanic struct {
	v    value // Iface
	msg  string
	site string
}

type opKind uint8

const (
	opReg opKind = iota
	opConst
	opGlobal
)

type operand struct {
	kind opKind
	reg  int
	val  value
	g    *ssa.Global
}

type instrD struct {
	ins ssa.Instruction
	ops []operand
	dst int
}

type fnInfo struct {
	fn       *ssa.Function
	name     string
	pkg      string
	nregs    int
	blocks   [][]instrD
	nparams  int
	hasDefer bool
	intr     intrinsic
	native   *nativeWrap
	repo     bool
	opaque   bool // no body
}

type intrinsic func(p *Path, fn *ssa.Function, args []value) (value, bool)

var fnInfos sync.Map // *ssa.Function -> *fnInfo

func origName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		return o.String()
	}
	return fn.String()
}

func fnPkgPath(fn *ssa.Function) string {
	for f := fn; f != nil; f = f.Parent() {
		if f.Pkg != nil {
			return f.Pkg.Pkg.Path()
		}
		if o := f.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if obj := f.Object(); obj != nil && obj.Pkg() != nil {
			return obj.Pkg().Path()
		}
	}
	return ""
}

const repoMod = "github.com/spdx/tools-golang"

func infoOf(fn *ssa.Function) *fnInfo {
	if x, ok := fnInfos.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := &fnInfo{fn: fn, name: origName(fn), pkg: fnPkgPath(fn)}
	fi.repo = strings.HasPrefix(fi.pkg, repoMod)
	fi.intr = intrinsics[fi.name]
	if fi.intr == nil {
		if w, ok := natives[fi.name]; ok {
			fi.native = w
		}
	}
	fi.opaque = fn.Blocks == nil
	if !fi.opaque {
		idx := map[ssa.Value]int{}
		n := 0
		for _, v := range fn.Params {
			idx[v] = n
			n++
		}
		for _, v := range fn.FreeVars {
			idx[v] = n
			n++
		}
		fi.nparams = len(fn.Params)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if v, ok := ins.(ssa.Value); ok {
					idx[v] = n
					n++
				}
				if _, ok := ins.(*ssa.Defer); ok {
					fi.hasDefer = true
				}
			}
		}
		fi.nregs = n
		fi.blocks = make([][]instrD, len(fn.Blocks))
		for bi, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.DebugRef); ok {
					continue
				}
				d := instrD{ins: ins, dst: -1}
				if v, ok := ins.(ssa.Value); ok {
					d.dst = idx[v]
				}
				for _, op := range ins.Operands(nil) {
					d.ops = append(d.ops, mkOperand(*op, idx))
				}
				fi.blocks[bi] = append(fi.blocks[bi], d)
			}
		}
	}
	x, _ := fnInfos.LoadOrStore(fn, fi)
	return x.(*fnInfo)
}

func mkOperand(v ssa.Value, idx map[ssa.Value]int) operand {
	switch v := v.(type) {
	case nil:
		return operand{kind: opConst}
	case *ssa.Const:
		if tp, ok := types.Unalias(v.Type()).(*types.TypeParam); ok {
			_ = tp
			return operand{kind: opConst, val: nil}
		}
		return operand{kind: opConst, val: constValue(v)}
	case *ssa.Global:
		return operand{kind: opGlobal, g: v}
	case *ssa.Function:
		return operand{kind: opConst, val: v}
	case *ssa.Builtin:
		return operand{kind: opConst, val: v}
	}
	r, ok := idx[v]
	if !ok {
		panic(fmt.Sprintf("operand %T %s", v, v))
	}
	return operand{kind: opReg, reg: r}
}

type frame struct {
	p         *Path
	fi        *fnInfo
	regs      []value
	block     int
	prev      int
	result    value
	defers    []func()
	panicking bool
	pan       any
	done      bool
	curIns    ssa.Instruction
}

func (fr *frame) op(d *instrD, i int) value {
	o := &d.ops[i]
	switch o.kind {
	case opReg:
		return fr.regs[o.reg]
	case opConst:
		return copyVal(o.val)
	}
	return fr.p.global(o.g)
}

// ---- globals

func (p *Path) global(g *ssa.Global) value {
	pkg := g.Pkg.Pkg.Path()
	store := p.globals
	fresh := p.w.eng.freshPkg(pkg)
	if !fresh {
		store = p.w.globals
	}
	m, ok := store[pkg]
	if !ok {
		m = map[string]*value{}
		store[pkg] = m
		for _, mem := range g.Pkg.Members {
			if x, ok := mem.(*ssa.Global); ok {
				v := new(value)
				*v = zero(x.Type().(*types.Pointer).Elem())
				m[x.Name()] = v
			}
		}
		if pkg == "os" {
			for _, n := range []string{"ErrInvalid", "ErrPermission", "ErrExist", "ErrNotExist", "ErrClosed"} {
				if c := m[n]; c != nil {
					*c = p.pkgErr("io/fs", n)
				}
			}
		}
		if init := g.Pkg.Func("init"); init != nil && !noInit[pkg] {
			p.callFn(init, nil, nil)
		}
	}
	return m[g.Name()]
}

// packages whose initialisation is not run; their globals are zero or handled by intrinsics
var noInit = map[string]bool{"os": true, "syscall": true, "runtime": true, "time": true, "reflect": true,
	"internal/poll": true, "internal/cpu": true, "encoding/json": true, "net": true, "log": true, "testing": true,
	"internal/godebug": true, "sync": true, "internal/reflectlite": true, "crypto": true}

// ---- panics

func (p *Path) site() string {
	for i := len(p.w.stack) - 1; i >= 0; i-- {
		f := p.w.stack[i]
		if f.repo {
			return f.name
		}
	}
	if n := len(p.w.stack); n > 0 {
		return p.w.stack[n-1].name
	}
	return ""
}

func (p *Path) goPanicStr(msg string) {
	panic(goPanic{v: p.mkError(msg), msg: msg, site: p.site()})
}

// mkError builds an error value with the given message (string or *Rope).
func (p *Path) mkError(msg value) Iface {
	t := p.w.eng.errorStringType
	cell := new(value)
	*cell = Struct{msg}
	return Iface{t: t, v: cell}
}

// ---- calls

func (p *Path) call(fv value, args []value) value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference (nil function)")
		}
		return p.callFn(f, args, nil)
	case *Closure:
		return p.callFn(f.fn, args, f.env)
	case *NativeFn:
		return f.fn(p, args)
	}
	p.unsupported("call of %T", fv)
	return nil
}

func (p *Path) callFn(fn *ssa.Function, args []value, env []value) value {
	fi := infoOf(fn)
	if fi.intr != nil {
		if v, ok := fi.intr(p, fn, args); ok {
			return v
		}
	} else if fi.native != nil {
		if v, ok := fi.native.call(p, fn, args); ok {
			return v
		}
	}
	if fi.opaque {
		p.lastFn = p.site()
		p.unsupported("function without a body: %s", fi.name)
	}
	if fn.Synthetic == "package initializer" && len(p.w.stack) > 0 && p.w.stack[len(p.w.stack)-1].fn.Synthetic == "package initializer" {
		return nil // imported packages are initialised when first used
	}
	if p.w.eng.trackFns && fi.repo {
		p.w.touch(fi.name)
	}
	if len(p.w.stack) > p.h.maxDepth {
		p.end("hang", "call depth exceeds %d in %s", p.h.maxDepth, p.site())
	}
	p.w.stack = append(p.w.stack, fi)
	fr := &frame{p: p, fi: fi, regs: make([]value, fi.nregs), prev: -1}
	copy(fr.regs, args)
	copy(fr.regs[fi.nparams:], env)
	if len(args) != fi.nparams {
		panic(fmt.Sprintf("internal: %s called with %d args, wants %d", fi.name, len(args), fi.nparams))
	}
	if fi.hasDefer {
		fr.runDefer()
	} else {
		fr.run()
	}
	p.w.stack = p.w.stack[:len(p.w.stack)-1]
	return fr.result
}

func (fr *frame) runDefer() {
	base := len(fr.p.w.stack)
	func() {
		defer func() {
			if fr.done {
				return
			}
			r := recover()
			if r == nil {
				return
			}
			if _, ok := r.(goPanic); !ok {
				panic(r)
			}
			fr.p.w.stack = fr.p.w.stack[:base]
			fr.panicking = true
			fr.pan = r
		}()
		fr.run()
		fr.done = true
	}()
	if fr.panicking {
		fr.runDefers()
		if fr.panicking {
			panic(fr.pan)
		}
		// recovered
		if rb := fr.fi.fn.Recover; rb != nil {
			fr.block = rb.Index
			fr.prev = -1
			fr.done = false
			fr.run()
		} else {
			fr.result = zeroResult(fr.fi.fn)
		}
	}
}

func zeroResult(fn *ssa.Function) value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return zero(r.At(0).Type())
	}
	return zero(r)
}

func (fr *frame) runDefers() {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		func() {
			base := len(fr.p.w.stack)
			ok := false
			defer func() {
				if ok {
					return
				}
				r := recover()
				if _, is := r.(goPanic); !is {
					panic(r)
				}
				fr.p.w.stack = fr.p.w.stack[:base]
				fr.panicking = true
				fr.pan = r
			}()
			fr.p.w.deferFrames = append(fr.p.w.deferFrames, fr)
			d()
			fr.p.w.deferFrames = fr.p.w.deferFrames[:len(fr.p.w.deferFrames)-1]
			ok = true
		}()
	}
}

func (p *Path) doRecover() value {
	n := len(p.w.deferFrames)
	if n == 0 {
		return Iface{}
	}
	fr := p.w.deferFrames[n-1]
	if !fr.panicking {
		return Iface{}
	}
	fr.panicking = false
	return fr.pan.(goPanic).v
}

func (fr *frame) run() {
	p := fr.p
	for {
		blk := fr.fi.blocks[fr.block]
		p.steps += int64(len(blk))
		if p.steps > p.h.maxSteps {
			p.end("hang", "more than %d steps in %s", p.h.maxSteps, p.site())
		}
		i := 0
		// phis
		if len(blk) > 0 {
			if _, ok := blk[0].ins.(*ssa.Phi); ok {
				preds := fr.fi.fn.Blocks[fr.block].Preds
				k := -1
				for j, pb := range preds {
					if pb.Index == fr.prev {
						k = j
						break
					}
				}
				var vals []value
				for i < len(blk) {
					if _, ok := blk[i].ins.(*ssa.Phi); !ok {
						break
					}
					vals = append(vals, fr.op(&blk[i], k))
					i++
				}
				for j, v := range vals {
					fr.regs[blk[j].dst] = v
				}
			}
		}
		next := -1
		for ; i < len(blk); i++ {
			d := &blk[i]
			switch ins := d.ins.(type) {
			case *ssa.Jump:
				next = fr.fi.fn.Blocks[fr.block].Succs[0].Index
			case *ssa.If:
				c := fr.op(d, 0)
				var b bool
				switch c := c.(type) {
				case bool:
					b = c
				case *Term:
					fr.curIns = ins
					b = p.branch(c)
				}
				s := fr.fi.fn.Blocks[fr.block].Succs
				if b {
					next = s[0].Index
				} else {
					next = s[1].Index
				}
			case *ssa.Return:
				switch len(d.ops) {
				case 0:
				case 1:
					fr.result = fr.op(d, 0)
				default:
					t := make(Tuple, len(d.ops))
					for j := range d.ops {
						t[j] = fr.op(d, j)
					}
					fr.result = t
				}
				return
			case *ssa.Panic:
				v := fr.op(d, 0)
				panic(goPanic{v: v, msg: "panic: " + p.describe(v), site: p.site()})
			default:
				fr.exec(d)
			}
		}
		if next < 0 {
			panic("internal: block without successor in " + fr.fi.name)
		}
		fr.prev = fr.block
		fr.block = next
	}
}

func (p *Path) describe(v value) string {
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return "nil"
		}
		if s, ok := i.v.(string); ok {
			return s
		}
		if types.Implements(i.t, p.w.eng.errorIface) {
			return p.showStr(p.callMethod(i, "Error"))
		}
		return i.t.String()
	}
	return fmt.Sprintf("%T", v)
}

func (p *Path) showStr(v value) string {
	if s, ok := v.(string); ok {
		return s
	}
	var b strings.Builder
	for _, e := range p.norm(v) {
		if e.t == nil {
			b.WriteString(e.c)
		} else {
			b.WriteString("…")
		}
	}
	return b.String()
}

func (p *Path) load(ptr value) value {
	c, ok := ptr.(*value)
	if !ok {
		p.unsupported("load through %T", ptr)
	}
	if c == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	return copyVal(*c)
}

func (p *Path) store(ptr value, v value) {
	c, ok := ptr.(*value)
	if !ok {
		p.unsupported("store through %T", ptr)
	}
	if c == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if p.shared != nil {
		p.wrote(c)
	}
	if p.w.roCells != nil && p.w.roCells[c] {
		p.unsupported("write into a symbolic byte slice")
	}
	// keep the identity of aggregate cells (pointers to fields stay valid)
	switch n := v.(type) {
	case Struct:
		if old, ok := (*c).(Struct); ok && len(old) == len(n) {
			storeAgg(old, n)
			return
		}
		*c = copyVal(v)
		return
	case Array:
		if old, ok := (*c).(Array); ok && len(old) == len(n) {
			storeAgg(old, n)
			return
		}
		*c = copyVal(v)
		return
	}
	*c = v
}

func storeAgg(old, n []value) {
	for i := range old {
		switch x := n[i].(type) {
		case Struct:
			if o, ok := old[i].(Struct); ok && len(o) == len(x) {
				storeAgg(o, x)
				continue
			}
			old[i] = copyVal(x)
		case Array:
			if o, ok := old[i].(Array); ok && len(o) == len(x) {
				storeAgg(o, x)
				continue
			}
			old[i] = copyVal(x)
		default:
			old[i] = n[i]
		}
	}
}

func (fr *frame) exec(d *instrD) {
	p := fr.p
	fr.curIns = d.ins
	switch ins := d.ins.(type) {
	case *ssa.Alloc:
		c := new(value)
		*c = zero(ins.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[d.dst] = c
	case *ssa.BinOp:
		fr.regs[d.dst] = p.binop(ins.Op, ins.X.Type(), ins.Y.Type(), fr.op(d, 0), fr.op(d, 1))
	case *ssa.UnOp:
		x := fr.op(d, 0)
		switch ins.Op {
		case token.MUL:
			fr.regs[d.dst] = p.load(x)
		case token.NOT:
			switch b := x.(type) {
			case bool:
				fr.regs[d.dst] = !b
			case *Term:
				fr.regs[d.dst] = simpl(mkNot(b))
			}
		case token.SUB:
			switch n := x.(type) {
			case int64:
				fr.regs[d.dst] = wrapInt(-n, ins.Type())
			case float64:
				fr.regs[d.dst] = -n
			case *Term:
				fr.regs[d.dst] = simpl(mkSub(mkInt(0), n))
			}
		case token.XOR:
			fr.regs[d.dst] = wrapInt(^p.concInt(x), ins.Type())
		default:
			p.unsupported("unary %s", ins.Op)
		}
	case *ssa.Store:
		p.store(fr.op(d, 0), fr.op(d, 1))
	case *ssa.FieldAddr:
		c, ok := fr.op(d, 0).(*value)
		if !ok {
			p.unsupported("field of %T", fr.op(d, 0))
		}
		if c == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		s, ok := (*c).(Struct)
		if !ok {
			p.unsupported("field address in %T (%s)", *c, ins.X.Type())
		}
		fr.regs[d.dst] = &s[ins.Field]
	case *ssa.Field:
		s, ok := fr.op(d, 0).(Struct)
		if !ok {
			p.unsupported("field of %T (%s)", fr.op(d, 0), ins.X.Type())
		}
		fr.regs[d.dst] = copyVal(s[ins.Field])
	case *ssa.IndexAddr:
		fr.regs[d.dst] = p.indexAddr(fr.op(d, 0), fr.op(d, 1))
	case *ssa.Index:
		fr.regs[d.dst] = p.index(fr.op(d, 0), fr.op(d, 1))
	case *ssa.Lookup:
		x := fr.op(d, 0)
		k := fr.op(d, 1)
		if m, ok := x.(*Map); ok {
			i := m.find(p, k)
			var v value
			if i >= 0 {
				v = copyVal(m.vals[i])
			} else {
				v = zero(ins.X.Type().Underlying().(*types.Map).Elem())
			}
			if ins.CommaOk {
				fr.regs[d.dst] = Tuple{v, i >= 0}
			} else {
				fr.regs[d.dst] = v
			}
			return
		}
		fr.regs[d.dst] = p.index(x, k)
	case *ssa.MapUpdate:
		m := fr.op(d, 0).(*Map)
		if m == nil {
			p.goPanicStr("assignment to entry in nil map")
		}
		p.wroteMap(m)
		m.set(p, fr.op(d, 1), fr.op(d, 2))
	case *ssa.MakeMap:
		fr.regs[d.dst] = newMap(ins.Type())
	case *ssa.MakeSlice:
		n := p.concInt(fr.op(d, 0))
		c := p.concInt(fr.op(d, 1))
		if n < 0 || c < n {
			p.goPanicStr("runtime error: makeslice: len out of range")
		}
		if c > 1<<22 {
			p.unsupported("large slice")
		}
		et := ins.Type().Underlying().(*types.Slice).Elem()
		a := make([]value, c)
		for i := range a {
			a[i] = zero(et)
		}
		fr.regs[d.dst] = Slice{a[:n]}
	case *ssa.MakeInterface:
		fr.regs[d.dst] = Iface{t: ins.X.Type(), v: fr.op(d, 0)}
	case *ssa.MakeClosure:
		env := make([]value, len(ins.Bindings))
		for i := range env {
			env[i] = fr.op(d, i+1)
		}
		fr.regs[d.dst] = &Closure{fn: ins.Fn.(*ssa.Function), env: env}
	case *ssa.ChangeInterface:
		fr.regs[d.dst] = fr.op(d, 0)
	case *ssa.ChangeType:
		fr.regs[d.dst] = fr.op(d, 0)
	case *ssa.Convert:
		fr.regs[d.dst] = p.convert(ins.X.Type(), ins.Type(), fr.op(d, 0))
	case *ssa.MultiConvert:
		fr.regs[d.dst] = p.convert(ins.X.Type(), ins.Type(), fr.op(d, 0))
	case *ssa.SliceToArrayPointer:
		p.unsupported("slice to array pointer")
	case *ssa.Slice:
		fr.regs[d.dst] = p.slice(fr.op(d, 0), fr.op(d, 1), fr.op(d, 2), fr.op(d, 3))
	case *ssa.TypeAssert:
		fr.regs[d.dst] = p.typeAssert(ins, fr.op(d, 0).(Iface))
	case *ssa.Extract:
		fr.regs[d.dst] = fr.op(d, 0).(Tuple)[ins.Index]
	case *ssa.Call:
		fr.regs[d.dst] = fr.doCall(d, &ins.Call, 0)
	case *ssa.Defer:
		f, args := fr.prepCall(d, &ins.Call)
		fr.defers = append(fr.defers, func() { p.call(f, args) })
	case *ssa.RunDefers:
		fr.runDefers()
		if fr.panicking {
			pan := fr.pan
			panic(pan)
		}
	case *ssa.Range:
		fr.regs[d.dst] = p.rangeIter(fr.op(d, 0), fr.fi)
	case *ssa.Next:
		fr.regs[d.dst] = p.next(ins, fr.op(d, 0).(*Iter))
	case *ssa.Go:
		// one schedule: the goroutine runs to its end where it is started
		f, args := fr.prepCall(d, &ins.Call)
		p.note("goroutine run in one schedule")
		p.nondet = true
		p.call(f, args)
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		p.unsupported("channel operation")
	default:
		p.unsupported("instruction %T", ins)
	}
}

func (fr *frame) prepCall(d *instrD, c *ssa.CallCommon) (value, []value) {
	p := fr.p
	base := 1
	args := make([]value, 0, len(d.ops))
	if c.IsInvoke() {
		recv, ok := fr.op(d, 0).(Iface)
		if !ok {
			p.unsupported("invoke on %T", fr.op(d, 0))
		}
		if recv.t == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference (method " + c.Method.Name() + " on nil interface)")
		}
		for i := range c.Args {
			args = append(args, fr.op(d, base+i))
		}
		if isNativeRecv(recv.v) {
			r := recv
			return &NativeFn{name: c.Method.Name(), fn: func(p *Path, a []value) value { return p.nativeInvoke(r, c.Method.Name(), a) }}, args
		}
		fn := p.w.eng.lookupMethod(recv.t, c.Method)
		if fn == nil {
			p.unsupported("method %s of %s", c.Method.Name(), recv.t)
		}
		return fn, append([]value{recv.v}, args...)
	}
	for i := range c.Args {
		args = append(args, fr.op(d, base+i))
	}
	f := fr.op(d, 0)
	if b, ok := f.(*ssa.Builtin); ok {
		return &NativeFn{name: b.Name(), fn: func(p *Path, a []value) value { return p.builtin(b, c, a) }}, args
	}
	return f, args
}

func (fr *frame) doCall(d *instrD, c *ssa.CallCommon, _ int) value {
	f, args := fr.prepCall(d, c)
	return fr.p.call(f, args)
}

func isNativeRecv(v value) bool {
	switch v.(type) {
	case RType, *Native:
		return true
	}
	return false
}

// callMethod invokes a method by name on an interface value.
func (p *Path) callMethod(recv Iface, name string, args ...value) value {
	if recv.t == nil {
		p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
	}
	if isNativeRecv(recv.v) {
		return p.nativeInvoke(recv, name, args)
	}
	fn := p.w.eng.methodByName(recv.t, name)
	if fn == nil {
		p.unsupported("no method %s on %s", name, recv.t)
	}
	return p.callFn(fn, append([]value{recv.v}, args...), nil)
}

func simpl(t *Term) value {
	switch t.op {
	case OBool:
		return t.i != 0
	case OInt:
		return t.i
	}
	return t
}

// ---- indexing and slicing

func (p *Path) checkIdx(i value, n int) int {
	switch i := i.(type) {
	case int64:
		if i < 0 || i >= int64(n) {
			p.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", i, n))
		}
		return int(i)
	case *Term:
		if !p.branch(mkAnd(mkLe(mkInt(0), i), mkLe(i, mkInt(int64(n-1))))) {
			p.goPanicStr(fmt.Sprintf("runtime error: index out of range with length %d", n))
		}
		return int(p.concInt(i))
	}
	panic("checkIdx")
}

func (p *Path) indexAddr(x, i value) value {
	switch x := x.(type) {
	case Slice:
		return &x.a[p.checkIdx(i, len(x.a))]
	case *value:
		if x == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		a := (*x).(Array)
		return &a[p.checkIdx(i, len(a))]
	case *BRope:
		c := new(value)
		*c = p.byteAt(x.el, i)
		if p.w.roCells == nil {
			p.w.roCells = map[*value]bool{}
		}
		p.w.roCells[c] = true
		return c
	}
	p.unsupported("index of %T", x)
	return nil
}

func (p *Path) index(x, i value) value {
	switch x := x.(type) {
	case Array:
		return copyVal(x[p.checkIdx(i, len(x))])
	case string:
		if n, ok := i.(int64); ok {
			if n < 0 || n >= int64(len(x)) {
				p.goPanicStr(fmt.Sprintf("runtime error: index out of range [%d] with length %d", n, len(x)))
			}
			return int64(x[n])
		}
		return int64(x[p.checkIdx(i, len(x))])
	case *Rope:
		return p.byteAt(p.norm(x), i)
	}
	p.unsupported("index of %T", x)
	return nil
}

func (p *Path) byteAt(els []El, i value) value {
	els = p.normEls(els)
	if n, ok := i.(int64); ok && n < 0 {
		p.goPanicStr("runtime error: index out of range")
	}
	ok, _, r := p.splitAtVal(els, i)
	if ok {
		ok, f, _ := p.splitAt(r, 1)
		if ok {
			f = p.normEls(f)
			if s, isC := elsConst(f); isC {
				return int64(s[0])
			}
			return byteVal(f[0].t)
		}
	}
	p.goPanicStr("runtime error: index out of range")
	return nil
}

func (p *Path) slice(x, lo, hi, max value) value {
	if max != nil {
		if s, ok := x.(Slice); ok {
			l := 0
			if lo != nil {
				l = int(p.concInt(lo))
			}
			h, m := int(p.concInt(hi)), int(p.concInt(max))
			if l < 0 || h < l || m < h || m > cap(s.a) {
				p.goPanicStr("runtime error: slice bounds out of range")
			}
			return Slice{s.a[l:h:m]}
		}
		if c, ok := x.(*value); ok && c != nil {
			return p.slice(Slice{(*c).(Array)}, lo, hi, max)
		}
		if _, ok := x.(*BRope); ok {
			return p.slice(x, lo, hi, nil) // never written to, so its capacity does not matter
		}
		p.unsupported("full slice expression of %T", x)
	}
	switch x := x.(type) {
	case Slice:
		l := 0
		if lo != nil {
			l = int(p.concInt(lo))
		}
		h := len(x.a)
		if hi != nil {
			h = int(p.concInt(hi))
		}
		if l < 0 || h < l || h > cap(x.a) {
			p.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with capacity %d", l, h, cap(x.a)))
		}
		if x.a == nil {
			return Slice{}
		}
		return Slice{x.a[l:h]}
	case *value:
		if x == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		a := (*x).(Array)
		return p.slice(Slice{a}, lo, hi, nil)
	case string, *Rope:
		if s, ok := x.(string); ok {
			l, lok := int64(0), true
			if lo != nil {
				l, lok = lo.(int64)
			}
			h, hok := int64(len(s)), true
			if hi != nil {
				h, hok = hi.(int64)
			}
			if lok && hok {
				if l < 0 || h < l || h > int64(len(s)) {
					p.goPanicStr(fmt.Sprintf("runtime error: slice bounds out of range [%d:%d] with length %d", l, h, len(s)))
				}
				return s[l:h]
			}
		}
		return elsVal(p.sliceEls(p.norm(x), lo, hi))
	case *BRope:
		return &BRope{p.sliceEls(p.normEls(x.el), lo, hi)}
	}
	p.unsupported("slice of %T", x)
	return nil
}

func (p *Path) sliceEls(els []El, lo, hi value) []El {
	bad := func() { p.goPanicStr("runtime error: slice bounds out of range") }
	if hi != nil {
		ok, l, _ := p.splitAtVal(els, hi)
		if !ok {
			bad()
		}
		els = l
	}
	if lo != nil {
		ok, _, r := p.splitAtVal(els, lo)
		if !ok {
			bad()
		}
		els = r
	}
	return p.normEls(els)
}

// ---- operators

func (p *Path) intTerm(v value) *Term {
	switch v := v.(type) {
	case int64:
		return mkInt(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("intTerm %T", v))
}
func boolTerm(v value) *Term {
	switch v := v.(type) {
	case bool:
		return mkBool(v)
	case *Term:
		return v
	}
	panic(fmt.Sprintf("boolTerm %T", v))
}

func (p *Path) narrow(t *Term, ty types.Type) value {
	b := intBits(ty)
	uns := isUnsigned(ty)
	if b == 64 && !uns {
		return simpl(t)
	}
	var lo, hi int64
	if uns {
		lo = 0
		if b == 64 {
			hi = 1<<62 - 1 + 1<<62
		} else {
			hi = 1<<b - 1
		}
	} else {
		lo, hi = -(1 << (b - 1)), 1<<(b-1)-1
	}
	for k := 0; k < 4; k++ {
		if p.branch(mkLe(lo2(lo), t)) {
			if p.branch(mkLe(t, mkInt(hi))) {
				return simpl(t)
			}
			if b == 64 {
				break
			}
			t = mkAdd(t, mkInt(-(1 << b)))
		} else {
			if b == 64 {
				return p.concInt(t)
			}
			t = mkAdd(t, mkInt(1<<b))
		}
	}
	return wrapInt(p.concInt(t), ty)
}
func lo2(i int64) *Term { return mkInt(i) }

func (p *Path) binop(op token.Token, tx, ty types.Type, x, y value) value {
	switch op {
	case token.EQL:
		return simpl(p.equals2(tx, ty, x, y))
	case token.NEQ:
		return simpl(mkNot(p.equals2(tx, ty, x, y)))
	}
	switch a := x.(type) {
	case int64:
		if b, ok := y.(int64); ok {
			return p.intBin(op, tx, a, b)
		}
		return p.symBin(op, tx, x, y)
	case *Term:
		return p.symBin(op, tx, x, y)
	case float64:
		b := y.(float64)
		switch op {
		case token.ADD:
			return a + b
		case token.SUB:
			return a - b
		case token.MUL:
			return a * b
		case token.QUO:
			return a / b
		case token.LSS:
			return a < b
		case token.LEQ:
			return a <= b
		case token.GTR:
			return a > b
		case token.GEQ:
			return a >= b
		}
	case string, *Rope:
		if s, ok := x.(string); ok {
			if t, ok := y.(string); ok {
				switch op {
				case token.ADD:
					return s + t
				case token.LSS:
					return s < t
				case token.LEQ:
					return s <= t
				case token.GTR:
					return s > t
				case token.GEQ:
					return s >= t
				}
			}
		}
		switch op {
		case token.ADD:
			return elsVal(joinEls(p.norm(x), p.norm(y)))
		case token.LSS:
			return simpl(p.strLt(x, y))
		case token.GTR:
			return simpl(p.strLt(y, x))
		case token.LEQ:
			return simpl(mkNot(p.strLt(y, x)))
		case token.GEQ:
			return simpl(mkNot(p.strLt(x, y)))
		}
	case bool:
		b, ok := y.(bool)
		if ok {
			switch op {
			case token.LAND, token.AND:
				return a && b
			case token.LOR, token.OR:
				return a || b
			}
		}
	}
	p.unsupported("operator %s on %T, %T", op, x, y)
	return nil
}

// splitOrder divides two texts into heads and rests such that the heads decide
// the order unless they are equal: whatever follows a head is smaller than every
// character of the other one.
func (p *Path) splitOrder(a, b []El) (ha *Term, ta []El, hb *Term, tb []El, ok bool) {
	below := func(rest []El, of CharSet) bool {
		if len(rest) == 0 {
			return true
		}
		if rest[0].t != nil || of.empty() {
			return of.empty()
		}
		for c := 0; c <= int(rest[0].c[0]); c++ {
			if of.has(byte(c)) {
				return false
			}
		}
		return true
	}
	special := func(e El) bool { return e.t != nil && e.t.op == OSkol && strings.HasPrefix(e.t.s, "esc") }
	switch {
	case special(a[0]) || special(b[0]):
		return
	case a[0].t != nil && b[0].t != nil:
		if below(a[1:], p.charsOf(b[0].t)) && below(b[1:], p.charsOf(a[0].t)) {
			return a[0].t, a[1:], b[0].t, b[1:], true
		}
	case a[0].t != nil:
		hb, tb, ha, ta, ok = p.splitOrder(b, a)
	case b[0].t != nil:
		// a literal: its head ends before the first character below all of b's
		lit, of := a[0].c, p.charsOf(b[0].t)
		n := 0
		for n < len(lit) && !below(cEl(lit[n:]), of) {
			n++
		}
		if n == len(lit) && len(a) > 1 {
			return
		}
		if !below(b[1:], setOf(lit[:n])) {
			return
		}
		return mkStr(lit[:n]), joinEls(cEl(lit[n:]), a[1:]), b[0].t, b[1:], true
	}
	return
}

func (p *Path) strLt(x, y value) *Term {
	a, b := p.resolveEls(p.norm(x)), p.resolveEls(p.norm(y))
	// strip common prefix
	for len(a) > 0 && len(b) > 0 {
		if a[0] == b[0] {
			a, b = a[1:], b[1:]
			continue
		}
		if a[0].t == nil && b[0].t == nil {
			n := commonPrefix(a[0].c, b[0].c)
			if n < len(a[0].c) && n < len(b[0].c) {
				return mkBool(a[0].c[n] < b[0].c[n])
			}
			a = joinEls(cEl(a[0].c[n:]), a[1:])
			b = joinEls(cEl(b[0].c[n:]), b[1:])
			continue
		}
		break
	}
	if len(b) == 0 {
		return tFalse
	}
	if len(a) == 0 {
		return mkNot(mkEq(elsTerm(b), mkStr("")))
	}
	if len(a) > 1 || len(b) > 1 {
		if ha, ta, hb, tb, ok := p.splitOrder(a, b); ok {
			lt := tFalse
			switch {
			case hb.isConst() && hb.s == "":
			case ha.isConst() && ha.s == "":
				lt = mkNot(mkEq(hb, mkStr("")))
			default:
				lt = mkStrLt(ha, hb)
			}
			return mkOr(lt, mkAnd(mkEq(ha, hb), p.strLt(elsVal(ta), elsVal(tb))))
		}
	}
	return mkStrLt(elsTerm(a), elsTerm(b))
}

func (p *Path) equals2(tx, ty types.Type, x, y value) *Term {
	// mixed interface / concrete comparison
	xi, xok := x.(Iface)
	yi, yok := y.(Iface)
	if xok && !yok {
		return p.equals(nil, xi, Iface{t: ty, v: y})
	}
	if yok && !xok {
		return p.equals(nil, Iface{t: tx, v: x}, yi)
	}
	return p.equals(tx, x, y)
}

func (p *Path) intBin(op token.Token, t types.Type, a, b int64) value {
	uns := isUnsigned(t)
	switch op {
	case token.ADD:
		return wrapInt(a+b, t)
	case token.SUB:
		return wrapInt(a-b, t)
	case token.MUL:
		return wrapInt(a*b, t)
	case token.QUO, token.REM:
		if b == 0 {
			p.goPanicStr("runtime error: integer divide by zero")
		}
		if uns {
			if op == token.QUO {
				return int64(uint64(a) / uint64(b))
			}
			return int64(uint64(a) % uint64(b))
		}
		if op == token.QUO {
			return wrapInt(a/b, t)
		}
		return wrapInt(a%b, t)
	case token.AND:
		return a & b
	case token.OR:
		return a | b
	case token.XOR:
		return wrapInt(a^b, t)
	case token.AND_NOT:
		return a &^ b
	case token.SHL:
		if uint64(b) >= 64 {
			return int64(0)
		}
		return wrapInt(a<<uint64(b), t)
	case token.SHR:
		if uns {
			if uint64(b) >= 64 {
				return int64(0)
			}
			return int64(uint64(a) >> uint64(b))
		}
		if uint64(b) >= 64 {
			b = 63
		}
		return a >> uint64(b)
	case token.LSS:
		if uns {
			return uint64(a) < uint64(b)
		}
		return a < b
	case token.LEQ:
		if uns {
			return uint64(a) <= uint64(b)
		}
		return a <= b
	case token.GTR:
		if uns {
			return uint64(a) > uint64(b)
		}
		return a > b
	case token.GEQ:
		if uns {
			return uint64(a) >= uint64(b)
		}
		return a >= b
	}
	p.unsupported("int op %s", op)
	return nil
}

func (p *Path) symBin(op token.Token, t types.Type, x, y value) value {
	if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsBoolean != 0 {
		a, c := boolTerm(x), boolTerm(y)
		switch op {
		case token.AND, token.LAND:
			return simpl(mkAnd(a, c))
		case token.OR, token.LOR:
			return simpl(mkOr(a, c))
		}
	}
	a, b := p.intTerm(x), p.intTerm(y)
	switch op {
	case token.ADD:
		return p.narrow(mkAdd(a, b), t)
	case token.SUB:
		return p.narrow(mkSub(a, b), t)
	case token.MUL:
		if a.op == OInt || b.op == OInt {
			return p.narrow(mkMul(a, b), t)
		}
		return p.binop(op, t, t, p.concInt(x), y)
	case token.LSS:
		return simpl(mkLt(a, b))
	case token.LEQ:
		return simpl(mkLe(a, b))
	case token.GTR:
		return simpl(mkLt(b, a))
	case token.GEQ:
		return simpl(mkLe(b, a))
	case token.QUO, token.REM:
		if b.op == OInt && b.i > 0 && p.branch(mkLe(mkInt(0), a)) {
			if op == token.QUO {
				return simpl(mkDiv(a, b))
			}
			return simpl(mkMod(a, b))
		}
	}
	return p.intBin(op, t, p.concInt(x), p.concInt(y))
}

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isRuneSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int32
}

func bytesValue(s string) value {
	if len(s) > 4096 {
		return &BRope{cEl(s)}
	}
	a := make([]value, len(s))
	for i := 0; i < len(s); i++ {
		a[i] = int64(s[i])
	}
	return Slice{a}
}

func (p *Path) bytesEls(v value) []El {
	switch v := v.(type) {
	case *BRope:
		return p.normEls(v.el)
	case Slice:
		conc := true
		for _, b := range v.a {
			if _, ok := b.(int64); !ok {
				conc = false
				break
			}
		}
		if conc {
			bs := make([]byte, len(v.a))
			for i, b := range v.a {
				bs[i] = byte(b.(int64))
			}
			return cEl(string(bs))
		}
		return p.normEls(bytesToEls(v.a))
	case string, *Rope:
		return p.norm(v)
	}
	p.unsupported("bytes of %T", v)
	return nil
}

// rawData points at the first byte of a text or of bytes.
type rawData struct{ v value }

func elsBytes(els []El) value {
	if s, ok := elsConst(els); ok {
		return bytesValue(s)
	}
	return &BRope{els}
}

func (p *Path) convert(from, to types.Type, v value) value {
	uf, ut := from.Underlying(), to.Underlying()
	switch t := ut.(type) {
	case *types.Slice:
		switch v.(type) {
		case string, *Rope:
			if isByteSlice(to) {
				return elsBytes(p.norm(v))
			}
			if isRuneSlice(to) {
				return Slice{p.runesOf(p.norm(v))}
			}
		}
		return v
	case *types.Basic:
		if t.Kind() == types.UnsafePointer {
			return v
		}
		if t.Info()&types.IsString != 0 {
			switch v := v.(type) {
			case string, *Rope:
				return v
			case *BRope:
				return elsVal(p.normEls(v.el))
			case int64:
				return string(rune(v))
			case *Term:
				if p.branch(mkAnd(mkLe(mkInt(0), v), mkLe(v, mkInt(127)))) {
					return elsVal(tEl(mkFromCode(v)))
				}
				return string(rune(p.concInt(v)))
			case Slice:
				if isRuneSlice(from) {
					var els []El
					for _, r := range v.a {
						s := p.convert(types.Typ[types.Int32], types.Typ[types.String], r)
						els = joinEls(els, p.norm(s))
					}
					return elsVal(els)
				}
				return elsVal(p.bytesEls(v))
			}
		}
		if t.Info()&types.IsInteger != 0 {
			switch v := v.(type) {
			case int64:
				return wrapInt(v, to)
			case float64:
				return wrapInt(int64(v), to)
			case *Term:
				if fb, ok := uf.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
					if intBits(from) <= intBits(to) && (isUnsigned(from) || !isUnsigned(to)) {
						return v
					}
					return p.narrow(v, to)
				}
			}
		}
		if t.Info()&types.IsFloat != 0 {
			switch v := v.(type) {
			case int64:
				if isUnsigned(from) {
					return float64(uint64(v))
				}
				return float64(v)
			case float64:
				if t.Kind() == types.Float32 {
					return float64(float32(v))
				}
				return v
			case *Term:
				return float64(p.concInt(v))
			}
		}
	case *types.Pointer, *types.Signature, *types.Map, *types.Struct, *types.Array, *types.Interface:
		return v
	}
	p.unsupported("conversion from %s to %s (%T)", from, to, v)
	return nil
}

// runesOf gives the runes of els (symbolic characters are ASCII).
func (p *Path) runesOf(els []El) []value {
	var out []value
	for _, e := range p.explode(els) {
		if e.t == nil {
			for _, r := range e.c {
				out = append(out, int64(r))
			}
		} else {
			p.asciiOnly(e.t)
			out = append(out, byteVal(e.t))
		}
	}
	return out
}

func (p *Path) asciiOnly(t *Term) {
	if p.charsOf(t).inter(setRange(128, 255)).empty() {
		return
	}
	if !p.branch(mkInRe(t, reStar(setRange(0, 127)))) {
		p.bound("non-ASCII symbolic text in a rune-level operation")
	}
}

// ---- range

func (p *Path) rangeIter(x value, fi *fnInfo) value {
	switch x := x.(type) {
	case *Map:
		it := &Iter{m: x}
		live := x.live()
		if len(live) > 1 && strings.Contains(fi.pkg, "gordf") {
			p.nondet = true
		}
		if len(live) > 1 && p.orders != 0 && (fi.repo || strings.Contains(fi.pkg, "gordf")) {
			p.nondet = true
			if p.orders < 0 || p.choose(2) == 1 {
				p.orders--
				for i, j := 0, len(live)-1; i < j; i, j = i+1, j-1 {
					live[i], live[j] = live[j], live[i]
				}
			}
		} else if len(live) > 1 && p.h.mapOrder && (fi.repo || strings.Contains(fi.pkg, "gordf")) {
			p.nondet = true
			if len(live) <= p.h.mapPerm {
				rest := append([]int(nil), live...)
				var ord []int
				for len(rest) > 0 {
					k := p.choose(len(rest))
					ord = append(ord, rest[k])
					rest = append(rest[:k:k], rest[k+1:]...)
				}
				live = ord
			} else if p.choose(2) == 1 {
				for i, j := 0, len(live)-1; i < j; i, j = i+1, j-1 {
					live[i], live[j] = live[j], live[i]
				}
			}
		}
		for _, i := range live {
			it.keys = append(it.keys, x.keys[i])
		}
		return it
	case string:
		return &Iter{isStr: true, conc: true, full: x}
	case *Rope:
		els := p.norm(x)
		if s, ok := elsConst(els); ok {
			return &Iter{isStr: true, conc: true, full: s}
		}
		var items []value
		off := 0
		for _, e := range p.explode(els) {
			if e.t == nil {
				for i, r := range e.c {
					items = append(items, Tuple{int64(off + i), int64(r)})
				}
				off += len(e.c)
			} else {
				p.asciiOnly(e.t)
				items = append(items, Tuple{int64(off), byteVal(e.t)})
				off++
			}
		}
		return &Iter{isStr: true, str: items}
	}
	p.unsupported("range over %T", x)
	return nil
}

func (p *Path) next(ins *ssa.Next, it *Iter) value {
	if it.isStr {
		if it.conc {
			if it.pos >= len(it.full) {
				return Tuple{false, int64(0), int64(0)}
			}
			for i, r := range it.full[it.pos:] {
				if i > 0 {
					break
				}
				n := len(string(r))
				if r == 0xfffd && !strings.HasPrefix(it.full[it.pos:], "\uFFFD") {
					n = 1
				}
				t := Tuple{true, int64(it.pos), int64(r)}
				it.pos += n
				return t
			}
		}
		if it.pos >= len(it.str) {
			return Tuple{false, int64(0), int64(0)}
		}
		x := it.str[it.pos].(Tuple)
		it.pos++
		return Tuple{true, x[0], x[1]}
	}
	for it.pos < len(it.keys) {
		k := it.keys[it.pos]
		it.pos++
		// entry may have been deleted meanwhile
		for i, x := range it.m.keys {
			if _, dead := x.(deadKey); dead {
				continue
			}
			if sameKey(x, k) {
				return Tuple{true, k, copyVal(it.m.vals[i])}
			}
		}
	}
	tup := ins.Type().(*types.Tuple)
	z := Tuple{false, nil, nil}
	for i := 1; i <= 2; i++ {
		if b, ok := tup.At(i).Type().(*types.Basic); !ok || b.Kind() != types.Invalid {
			z[i] = zero(tup.At(i).Type())
		}
	}
	return z
}

func sameKey(a, b value) bool {
	ka, ok1 := keyOf(a)
	kb, ok2 := keyOf(b)
	if ok1 && ok2 {
		return ka == kb
	}
	if ok1 != ok2 {
		return false
	}
	switch x := a.(type) {
	case *Rope:
		y, ok := b.(*Rope)
		return ok && x == y
	case *Term:
		return a == b
	case Iface:
		y, ok := b.(Iface)
		return ok && sameKey(x.v, y.v)
	case Struct:
		y, ok := b.(Struct)
		if !ok {
			return false
		}
		for i := range x {
			if !sameKey(x[i], y[i]) {
				return false
			}
		}
		return true
	}
	return false
}

// ---- type assertions

func (p *Path) typeAssert(ins *ssa.TypeAssert, x Iface) value {
	ok := p.assertable(x, ins.AssertedType)
	if ins.CommaOk {
		if !ok {
			return Tuple{zero(ins.AssertedType), false}
		}
		if types.IsInterface(ins.AssertedType) {
			return Tuple{x, true}
		}
		return Tuple{copyVal(x.v), true}
	}
	if !ok {
		have := "nil"
		if x.t != nil {
			have = x.t.String()
		}
		p.goPanicStr(fmt.Sprintf("interface conversion: interface is %s, not %s", have, ins.AssertedType))
	}
	if types.IsInterface(ins.AssertedType) {
		return x
	}
	return copyVal(x.v)
}

func (p *Path) assertable(x Iface, t types.Type) bool {
	if x.t == nil {
		return false
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		return p.w.eng.implements(x, it)
	}
	return types.Identical(x.t, t)
}

// ---- builtins

func (p *Path) builtin(b *ssa.Builtin, c *ssa.CallCommon, args []value) value {
	switch b.Name() {
	case "len":
		switch x := args[0].(type) {
		case string:
			return int64(len(x))
		case *Rope:
			return p.lenVal(p.norm(x))
		case *BRope:
			return p.lenVal(p.normEls(x.el))
		case Slice:
			return int64(len(x.a))
		case *Map:
			return int64(x.length())
		case Array:
			return int64(len(x))
		case *value:
			return int64(len((*x).(Array)))
		}
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x.a))
		case Array:
			return int64(len(x))
		case *BRope:
			return p.lenVal(p.normEls(x.el))
		}
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		return p.appendVals(args[0], args[1])
	case "copy":
		dst, ok := args[0].(Slice)
		if !ok {
			p.unsupported("copy into %T", args[0])
		}
		switch src := args[1].(type) {
		case Slice:
			n := len(src.a)
			if len(dst.a) < n {
				n = len(dst.a)
			}
			tmp := make([]value, n)
			for i := 0; i < n; i++ {
				tmp[i] = copyVal(src.a[i])
			}
			copy(dst.a, tmp)
			return int64(n)
		case string:
			n := 0
			for n < len(src) && n < len(dst.a) {
				dst.a[n] = int64(src[n])
				n++
			}
			return int64(n)
		case *Rope, *BRope:
			bs := p.bytesOf(p.bytesEls(src))
			return int64(copy(dst.a, bs))
		}
	case "delete":
		if m := args[0].(*Map); m != nil {
			p.wroteMap(m)
			m.del(p, args[1])
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				p.wroteMap(x)
				x.keys, x.vals, x.symb = nil, nil, 0
				x.idx = map[any]int{}
			}
		case Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x.a {
				p.store(&x.a[i], zero(et))
			}
		}
		return nil
	case "SliceData":
		switch x := args[0].(type) {
		case Slice:
			if cap(x.a) == 0 {
				return (*value)(nil)
			}
			return &x.a[:1][0]
		case *BRope:
			return rawData{x}
		}
	case "StringData":
		return rawData{args[0]}
	case "String", "Slice":
		n := args[1]
		switch x := args[0].(type) {
		case rawData:
			if b.Name() == "String" {
				if s, ok := x.v.(*BRope); ok {
					return p.slice(elsVal(p.normEls(s.el)), nil, n, nil)
				}
				return p.slice(x.v, nil, n, nil)
			}
			if s, ok := x.v.(*BRope); ok {
				return p.slice(s, nil, n, nil)
			}
			return elsBytes(p.norm(p.slice(x.v, nil, n, nil)))
		case *value:
			var s Slice
			if k := int(p.concInt(n)); k > 0 {
				if x == nil {
					p.goPanicStr("runtime error: unsafe: ptr is nil and len is not zero")
				}
				s = Slice{unsafe.Slice(x, k)}
			}
			if b.Name() == "String" {
				return elsVal(p.bytesEls(s))
			}
			return s
		}
	case "panic":
		panic(goPanic{v: args[0], msg: "panic: " + p.describe(args[0]), site: p.site()})
	case "recover":
		return p.doRecover()
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			lt := p.binop(token.LSS, c.Args[0].Type(), c.Args[0].Type(), a, r)
			var tk bool
			switch l := lt.(type) {
			case bool:
				tk = l
			case *Term:
				tk = p.branch(l)
			}
			if tk == (b.Name() == "min") {
				r = a
			}
		}
		return r
	case "ssa:wrapnilchk":
		if x, ok := args[0].(*value); ok && x == nil {
			p.goPanicStr(fmt.Sprintf("value method %s.%s called using nil pointer", p.showStr(args[1]), p.showStr(args[2])))
		}
		return args[0]
	case "ssa:deferstack":
		return nil
	}
	p.unsupported("builtin %s on %T", b.Name(), args[0])
	return nil
}

func (p *Path) appendVals(a, b value) value {
	if x, ok := a.(Slice); ok {
		if y, ok := b.(Slice); ok {
			vals := make([]value, len(y.a))
			for i, v := range y.a {
				vals[i] = copyVal(v)
			}
			if x.a == nil && len(vals) == 0 {
				return x
			}
			return Slice{append(x.a, vals...)}
		}
	}
	// byte slices
	ea := p.bytesEls(a)
	eb := p.bytesEls(b)
	if x, ok := a.(Slice); ok {
		if s, ok := elsConst(eb); ok {
			if len(s) == 0 {
				return x
			}
			return Slice{append(x.a, bytesValue2(s)...)}
		}
	}
	return &BRope{joinEls(ea, eb)}
}

func bytesValue2(s string) []value {
	a := make([]value, len(s))
	for i := 0; i < len(s); i++ {
		a[i] = int64(s[i])
	}
	return a
}

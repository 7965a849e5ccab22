package main

import (
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"
)

func kindOf(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		}
	case *types.Pointer:
		return reflect.Pointer
	case *types.Slice:
		return reflect.Slice
	case *types.Array:
		return reflect.Array
	case *types.Map:
		return reflect.Map
	case *types.Struct:
		return reflect.Struct
	case *types.Interface:
		return reflect.Interface
	case *types.Signature:
		return reflect.Func
	case *types.Chan:
		return reflect.Chan
	}
	return reflect.Invalid
}

func (p *Path) rtypeIface(t types.Type) value {
	if t == nil {
		return Iface{}
	}
	return Iface{t: types.NewPointer(p.w.eng.typeByName("reflect", "rtype")), v: RType{types.Unalias(t)}}
}

func (p *Path) argType(v value) types.Type {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			p.goPanicStr("runtime error: invalid memory address or nil pointer dereference")
		}
		return x.v.(RType).t
	case RType:
		return x.t
	}
	p.unsupported("reflect type %T", v)
	return nil
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	return nil
}

func ints(xs []int) value {
	var out []value
	for _, x := range xs {
		out = append(out, int64(x))
	}
	return Slice{out}
}

func (p *Path) structField(st *types.Struct, i int, index []int) value {
	f := st.Field(i)
	pkg := ""
	if !f.Exported() && f.Pkg() != nil {
		pkg = f.Pkg().Path()
	}
	if index == nil {
		index = []int{i}
	}
	return Struct{f.Name(), pkg, p.rtypeIface(f.Type()), st.Tag(i), int64(0), ints(index), f.Embedded()}
}

// fieldByName finds a field, looking into embedded structs breadth first.
func fieldByName(t types.Type, name string) ([]int, bool) {
	type ent struct {
		t   types.Type
		idx []int
	}
	level := []ent{{t, nil}}
	seen := map[types.Type]bool{}
	for len(level) > 0 {
		var next []ent
		var found []int
		n := 0
		for _, e := range level {
			tt := e.t
			if pt, ok := tt.Underlying().(*types.Pointer); ok && e.idx != nil {
				tt = pt.Elem()
			}
			st, ok := tt.Underlying().(*types.Struct)
			if !ok || seen[tt] {
				continue
			}
			seen[tt] = true
			for i := 0; i < st.NumFields(); i++ {
				idx := append(append([]int(nil), e.idx...), i)
				if st.Field(i).Name() == name {
					found = idx
					n++
				}
				if st.Field(i).Embedded() {
					next = append(next, ent{st.Field(i).Type(), idx})
				}
			}
		}
		if n == 1 {
			return found, true
		}
		if n > 1 {
			return nil, false
		}
		level = next
	}
	return nil, false
}

func (p *Path) typeMethod(t types.Type, name string, a []value) value {
	switch name {
	case "Kind":
		return int64(kindOf(t))
	case "Elem":
		e := elemType(t)
		if e == nil {
			p.goPanicStr("reflect: Elem of invalid type " + t.String())
		}
		return p.rtypeIface(e)
	case "Key":
		return p.rtypeIface(t.Underlying().(*types.Map).Key())
	case "Name":
		switch x := t.(type) {
		case *types.Named:
			return x.Obj().Name()
		case *types.Basic:
			return x.Name()
		}
		return ""
	case "PkgPath":
		if x, ok := t.(*types.Named); ok && x.Obj().Pkg() != nil {
			return x.Obj().Pkg().Path()
		}
		return ""
	case "String":
		return types.TypeString(t, pkgNameQual)
	case "Comparable":
		return types.Comparable(t)
	case "NumField":
		return int64(t.Underlying().(*types.Struct).NumFields())
	case "Field":
		st := t.Underlying().(*types.Struct)
		i := p.concInt(a[0])
		if i < 0 || int(i) >= st.NumFields() {
			p.goPanicStr("reflect: Field index out of bounds")
		}
		return p.structField(st, int(i), nil)
	case "FieldByName":
		idx, ok := fieldByName(t, p.needPat(a[0], "FieldByName"))
		if !ok {
			return Tuple{zero(p.w.eng.typeByName("reflect", "StructField")), false}
		}
		tt := t
		for k, i := range idx {
			if pt, ok := tt.Underlying().(*types.Pointer); ok {
				tt = pt.Elem()
			}
			st := tt.Underlying().(*types.Struct)
			if k == len(idx)-1 {
				return Tuple{p.structField(st, i, idx), true}
			}
			tt = st.Field(i).Type()
		}
	case "NumIn":
		return int64(t.Underlying().(*types.Signature).Params().Len())
	case "NumOut":
		return int64(t.Underlying().(*types.Signature).Results().Len())
	case "In":
		return p.rtypeIface(t.Underlying().(*types.Signature).Params().At(int(p.concInt(a[0]))).Type())
	case "Out":
		return p.rtypeIface(t.Underlying().(*types.Signature).Results().At(int(p.concInt(a[0]))).Type())
	case "IsVariadic":
		return t.Underlying().(*types.Signature).Variadic()
	case "Implements":
		return types.Implements(t, p.argType(a[0]).Underlying().(*types.Interface))
	case "AssignableTo":
		return types.AssignableTo(t, p.argType(a[0]))
	case "ConvertibleTo":
		return types.ConvertibleTo(t, p.argType(a[0]))
	case "Len":
		return t.Underlying().(*types.Array).Len()
	case "NumMethod":
		ms := p.w.eng.prog.MethodSets.MethodSet(t)
		n := 0
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Exported() {
				n++
			}
		}
		return int64(n)
	case "Bits":
		return int64(intBits(t))
	case "Size":
		return int64(8)
	}
	p.unsupported("reflect.Type.%s", name)
	return nil
}

func (r RValue) get() value {
	if r.addr != nil {
		return *r.addr
	}
	return r.v
}

func (p *Path) rInterface(r RValue) Iface {
	if r.t == nil {
		p.goPanicStr("reflect: call of reflect.Value.Interface on zero Value")
	}
	v := copyVal(r.get())
	if types.IsInterface(r.t) {
		return v.(Iface)
	}
	return Iface{t: r.t, v: v}
}

func (p *Path) valueOf(x Iface) RValue {
	if x.t == nil {
		return RValue{}
	}
	return RValue{t: types.Unalias(x.t), v: x.v}
}

func (p *Path) rElem(r RValue) RValue {
	switch u := r.t.Underlying().(type) {
	case *types.Interface:
		return p.valueOf(r.get().(Iface))
	case *types.Pointer:
		c, ok := r.get().(*value)
		if !ok {
			p.unsupported("reflection on a host object")
		}
		if c == nil {
			return RValue{}
		}
		return RValue{t: types.Unalias(u.Elem()), addr: c}
	}
	p.goPanicStr("reflect: call of reflect.Value.Elem on " + kindOf(r.t).String() + " Value")
	return RValue{}
}

func (p *Path) rField(r RValue, i int) RValue {
	st := r.t.Underlying().(*types.Struct)
	s := r.get().(Struct)
	ft := types.Unalias(st.Field(i).Type())
	if r.addr != nil {
		return RValue{t: ft, addr: &s[i]}
	}
	return RValue{t: ft, v: s[i]}
}

func (p *Path) rSet(r RValue, x value) {
	if r.addr == nil {
		p.goPanicStr("reflect: reflect.Value.Set using unaddressable value")
	}
	p.store(r.addr, x)
}

func (p *Path) rAssign(t types.Type, x RValue) value {
	if x.t == nil {
		p.goPanicStr("reflect: call of reflect.Value.Set on zero Value")
	}
	if types.IsInterface(t) {
		i := p.rInterface(x)
		if i.t != nil && !p.assertable(i, t) {
			p.goPanicStr("reflect.Set: value of type " + i.t.String() + " is not assignable to type " + t.String())
		}
		return i
	}
	if !types.AssignableTo(x.t, t) {
		p.goPanicStr("reflect.Set: value of type " + x.t.String() + " is not assignable to type " + t.String())
	}
	return copyVal(x.get())
}

// isZeroT is the condition that v is the zero value.
func (p *Path) isZeroT(v value) *Term {
	switch x := v.(type) {
	case bool:
		return mkBool(!x)
	case int64:
		return mkBool(x == 0)
	case float64:
		return mkBool(x == 0)
	case *Term:
		if x.sort == SBool {
			return mkNot(x)
		}
		return mkEq(x, mkInt(0))
	case string:
		return mkBool(x == "")
	case *Rope:
		return p.eqStr(x, "")
	case *value:
		return mkBool(x == nil)
	case Slice:
		return mkBool(x.a == nil)
	case *BRope:
		return tFalse
	case *Map:
		return mkBool(x == nil)
	case Iface:
		return mkBool(x.t == nil)
	case Struct:
		var cs []*Term
		for _, f := range x {
			c := p.isZeroT(f)
			if c == tFalse {
				return c
			}
			cs = append(cs, c)
		}
		return mkAnd(cs...)
	case Array:
		var cs []*Term
		for _, f := range x {
			cs = append(cs, p.isZeroT(f))
		}
		return mkAnd(cs...)
	case *ssa.Function:
		return mkBool(x == nil)
	case *Closure, *NativeFn:
		return tFalse
	case *Native:
		return mkBool(x == nil)
	case RValue:
		return mkBool(x.t == nil)
	}
	p.unsupported("IsZero of %T", v)
	return nil
}

func init() {
	reg("reflect.TypeOf", func(p *Path, fn *ssa.Function, a []value) value {
		x := a[0].(Iface)
		return p.rtypeIface(x.t)
	})
	reg("reflect.TypeFor", func(p *Path, fn *ssa.Function, a []value) value { return p.rtypeIface(fn.TypeArgs()[0]) })
	reg("reflect.ValueOf", func(p *Path, fn *ssa.Function, a []value) value { return p.valueOf(a[0].(Iface)) })
	reg("reflect.New", func(p *Path, fn *ssa.Function, a []value) value {
		t := p.argType(a[0])
		c := new(value)
		*c = zero(t)
		return RValue{t: types.NewPointer(t), v: c}
	})
	reg("reflect.Zero", func(p *Path, fn *ssa.Function, a []value) value {
		t := p.argType(a[0])
		return RValue{t: t, v: zero(t)}
	})
	reg("reflect.MakeSlice", func(p *Path, fn *ssa.Function, a []value) value {
		t := p.argType(a[0])
		n, c := p.concInt(a[1]), p.concInt(a[2])
		s := make([]value, c)
		for i := range s {
			s[i] = zero(elemType(t))
		}
		return RValue{t: t, v: Slice{s[:n]}}
	})
	mm := func(p *Path, fn *ssa.Function, a []value) value {
		t := p.argType(a[0])
		return RValue{t: t, v: newMap(t)}
	}
	reg("reflect.MakeMap", mm)
	reg("reflect.MakeMapWithSize", mm)
	ptrTo := func(p *Path, fn *ssa.Function, a []value) value {
		return p.rtypeIface(types.NewPointer(p.argType(a[0])))
	}
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.SliceOf", func(p *Path, fn *ssa.Function, a []value) value { return p.rtypeIface(types.NewSlice(p.argType(a[0]))) })
	reg("reflect.Indirect", func(p *Path, fn *ssa.Function, a []value) value {
		r := a[0].(RValue)
		if r.t != nil {
			if _, ok := r.t.Underlying().(*types.Pointer); ok {
				return p.rElem(r)
			}
		}
		return r
	})
	reg("reflect.Append", func(p *Path, fn *ssa.Function, a []value) value {
		r := a[0].(RValue)
		s := r.get().(Slice)
		out := append([]value(nil), s.a...)
		for _, x := range varArgs(a[1]) {
			out = append(out, p.rAssign(elemType(r.t), x.(RValue)))
		}
		return RValue{t: r.t, v: Slice{out}}
	})
	reg("reflect.DeepEqual", func(p *Path, fn *ssa.Function, a []value) value { return simpl(p.deepEq(a[0], a[1], 0)) })
	M := func(n string, f func(p *Path, r RValue, a []value) value) {
		reg("(reflect.Value)."+n, func(p *Path, fn *ssa.Function, a []value) value {
			r, ok := a[0].(RValue)
			if !ok {
				p.unsupported("reflect.Value %T", a[0])
			}
			return f(p, r, a[1:])
		})
	}
	need := func(p *Path, r RValue, m string) {
		if r.t == nil {
			p.goPanicStr("reflect: call of reflect.Value." + m + " on zero Value")
		}
	}
	M("IsValid", func(p *Path, r RValue, a []value) value { return r.t != nil })
	M("Kind", func(p *Path, r RValue, a []value) value {
		if r.t == nil {
			return int64(0)
		}
		return int64(kindOf(r.t))
	})
	M("Type", func(p *Path, r RValue, a []value) value { need(p, r, "Type"); return p.rtypeIface(r.t) })
	M("Interface", func(p *Path, r RValue, a []value) value { return p.rInterface(r) })
	M("CanInterface", func(p *Path, r RValue, a []value) value { return true })
	M("CanSet", func(p *Path, r RValue, a []value) value { return r.addr != nil })
	M("CanAddr", func(p *Path, r RValue, a []value) value { return r.addr != nil })
	M("Addr", func(p *Path, r RValue, a []value) value {
		if r.addr == nil {
			p.goPanicStr("reflect.Value.Addr of unaddressable value")
		}
		return RValue{t: types.NewPointer(r.t), v: r.addr}
	})
	M("Elem", func(p *Path, r RValue, a []value) value { need(p, r, "Elem"); return p.rElem(r) })
	M("IsNil", func(p *Path, r RValue, a []value) value {
		need(p, r, "IsNil")
		switch r.t.Underlying().(type) {
		case *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature, *types.Chan:
			return simpl(p.isZeroT(r.get()))
		}
		p.goPanicStr("reflect: call of reflect.Value.IsNil on " + kindOf(r.t).String() + " Value")
		return nil
	})
	M("IsZero", func(p *Path, r RValue, a []value) value { need(p, r, "IsZero"); return simpl(p.isZeroT(r.get())) })
	M("Set", func(p *Path, r RValue, a []value) value {
		p.rSet(r, p.rAssign(r.t, a[0].(RValue)))
		return nil
	})
	for _, n := range []string{"SetString", "SetInt", "SetBool", "SetUint", "SetFloat", "SetBytes"} {
		M(n, func(p *Path, r RValue, a []value) value { p.rSet(r, a[0]); return nil })
	}
	M("SetLen", func(p *Path, r RValue, a []value) value {
		s := r.get().(Slice)
		p.rSet(r, Slice{s.a[:p.concInt(a[0])]})
		return nil
	})
	M("SetZero", func(p *Path, r RValue, a []value) value { p.rSet(r, zero(r.t)); return nil })
	M("NumField", func(p *Path, r RValue, a []value) value { return int64(r.t.Underlying().(*types.Struct).NumFields()) })
	M("Field", func(p *Path, r RValue, a []value) value { return p.rField(r, int(p.concInt(a[0]))) })
	M("FieldByName", func(p *Path, r RValue, a []value) value {
		idx, ok := fieldByName(r.t, p.needPat(a[0], "FieldByName"))
		if !ok {
			return RValue{}
		}
		for _, i := range idx {
			if _, ok := r.t.Underlying().(*types.Pointer); ok {
				r = p.rElem(r)
			}
			r = p.rField(r, i)
		}
		return r
	})
	M("Len", func(p *Path, r RValue, a []value) value {
		switch x := r.get().(type) {
		case Slice:
			return int64(len(x.a))
		case Array:
			return int64(len(x))
		case *Map:
			return int64(x.length())
		case *BRope:
			return p.lenVal(p.normEls(x.el))
		case string, *Rope:
			return p.lenVal(p.norm(x))
		}
		p.goPanicStr("reflect: call of reflect.Value.Len on " + kindOf(r.t).String() + " Value")
		return nil
	})
	M("Cap", func(p *Path, r RValue, a []value) value { return int64(cap(r.get().(Slice).a)) })
	M("Index", func(p *Path, r RValue, a []value) value {
		switch x := r.get().(type) {
		case Slice:
			return RValue{t: types.Unalias(elemType(r.t)), addr: &x.a[p.checkIdx(a[0], len(x.a))]}
		case Array:
			i := p.checkIdx(a[0], len(x))
			if r.addr != nil {
				return RValue{t: types.Unalias(elemType(r.t)), addr: &x[i]}
			}
			return RValue{t: types.Unalias(elemType(r.t)), v: x[i]}
		case string, *Rope, *BRope:
			return RValue{t: types.Typ[types.Uint8], v: p.byteAt(p.bytesEls(x), a[0])}
		}
		p.unsupported("reflect Index of %T", r.get())
		return nil
	})
	M("MapKeys", func(p *Path, r RValue, a []value) value {
		m := r.get().(*Map)
		kt := r.t.Underlying().(*types.Map).Key()
		var out []value
		for _, i := range m.live() {
			out = append(out, RValue{t: types.Unalias(kt), v: m.keys[i]})
		}
		return Slice{out}
	})
	M("MapIndex", func(p *Path, r RValue, a []value) value {
		m := r.get().(*Map)
		k := p.rAssign(r.t.Underlying().(*types.Map).Key(), a[0].(RValue))
		i := m.find(p, k)
		if i < 0 {
			return RValue{}
		}
		return RValue{t: types.Unalias(elemType(r.t)), v: m.vals[i]}
	})
	M("SetMapIndex", func(p *Path, r RValue, a []value) value {
		m := r.get().(*Map)
		if m == nil {
			p.goPanicStr("assignment to entry in nil map")
		}
		k := p.rAssign(r.t.Underlying().(*types.Map).Key(), a[0].(RValue))
		x := a[1].(RValue)
		if x.t == nil {
			m.del(p, k)
			return nil
		}
		m.set(p, k, p.rAssign(elemType(r.t), x))
		return nil
	})
	M("Call", func(p *Path, r RValue, a []value) value {
		sig := r.t.Underlying().(*types.Signature)
		var args []value
		for i, x := range varArgs(a[0]) {
			if i < sig.Params().Len() {
				args = append(args, p.rAssign(sig.Params().At(i).Type(), x.(RValue)))
			}
		}
		res := p.call(r.get(), args)
		var out []value
		switch sig.Results().Len() {
		case 0:
		case 1:
			out = append(out, RValue{t: sig.Results().At(0).Type(), v: res})
		default:
			for i, x := range res.(Tuple) {
				out = append(out, RValue{t: sig.Results().At(i).Type(), v: x})
			}
		}
		return Slice{out}
	})
	M("Convert", func(p *Path, r RValue, a []value) value {
		t := p.argType(a[0])
		if types.IsInterface(t) {
			return RValue{t: t, v: p.rInterface(r)}
		}
		return RValue{t: t, v: copyVal(p.convert(r.t, t, r.get()))}
	})
	M("CanConvert", func(p *Path, r RValue, a []value) value { return types.ConvertibleTo(r.t, p.argType(a[0])) })
	M("String", func(p *Path, r RValue, a []value) value {
		if r.t == nil {
			return "<invalid Value>"
		}
		if kindOf(r.t) == reflect.String {
			return r.get()
		}
		return "<" + types.TypeString(r.t, pkgNameQual) + " Value>"
	})
	for _, n := range []string{"Int", "Uint", "Bool", "Float", "Bytes"} {
		M(n, func(p *Path, r RValue, a []value) value { return r.get() })
	}
	M("NumMethod", func(p *Path, r RValue, a []value) value { return p.typeMethod(r.t, "NumMethod", nil) })
	M("MethodByName", func(p *Path, r RValue, a []value) value {
		name := p.needPat(a[0], "MethodByName")
		fn := p.w.eng.methodByName(r.t, name)
		if fn == nil {
			return RValue{}
		}
		recv := p.rInterface(r)
		sig := fn.Signature
		return RValue{t: types.NewSignatureType(nil, nil, nil, sig.Params(), sig.Results(), sig.Variadic()),
			v: &NativeFn{name: name, fn: func(p *Path, args []value) value { return p.callFn(fn, append([]value{recv.v}, args...), nil) }}}
	})
	M("Pointer", func(p *Path, r RValue, a []value) value { return int64(1) })
	// map iteration
	M("MapRange", func(p *Path, r RValue, a []value) value {
		c := p.newStruct("reflect", "MapIter")
		p.side[c] = &mapIter{r: r, keys: r.get().(*Map).live(), pos: -1}
		return c
	})
	mi := func(n string, f func(p *Path, it *mapIter) value) {
		reg("(*reflect.MapIter)."+n, func(p *Path, fn *ssa.Function, a []value) value {
			return f(p, p.side[p.cell(a[0])].(*mapIter))
		})
	}
	mi("Next", func(p *Path, it *mapIter) value { it.pos++; return it.pos < len(it.keys) })
	mi("Key", func(p *Path, it *mapIter) value {
		return RValue{t: it.r.t.Underlying().(*types.Map).Key(), v: it.r.get().(*Map).keys[it.keys[it.pos]]}
	})
	mi("Value", func(p *Path, it *mapIter) value {
		return RValue{t: elemType(it.r.t), v: it.r.get().(*Map).vals[it.keys[it.pos]]}
	})
}

type mapIter struct {
	r    RValue
	keys []int
	pos  int
}

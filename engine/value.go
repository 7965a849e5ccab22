package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// value is one of:
//
//	bool, *Term(SBool); int64, *Term(SInt) for every integer type; float64; complex128
//	string, *Rope
//	*value (pointer), Struct, Array, Slice, *BRope (byte slice with symbolic content)
//	*Map, Iface, *ssa.Function, *Closure, *ssa.Builtin, *NativeFn, Tuple, *Iter
//	RType, RValue, *Native, UPtr
type value = any

type Struct []value
type Array []value
type Tuple []value

// Slice has Go slice semantics; a == nil is the nil slice.
type Slice struct{ a []value }

// BRope is an immutable byte slice with (possibly) symbolic content.
type BRope struct{ el []El }

type Iface struct {
	t types.Type
	v value
}

type Closure struct {
	fn  *ssa.Function
	env []value
}

type NativeFn struct {
	name string
	fn   func(p *Path, args []value) value
}

type Map struct {
	keys []value
	vals []value
	idx  map[any]int // concrete keys
	symb int         // number of symbolic keys
	kt   types.Type
}

type Iter struct {
	m     *Map
	keys  []value
	pos   int
	str   []value
	full  string
	isStr bool
	conc  bool
}

type RType struct{ t types.Type }

type RValue struct {
	t         types.Type // nil: invalid
	v         value
	addr      *value // set when addressable
	flagIface bool
}

// Native is an opaque host object.
type Native struct {
	kind string
	data any
}

func under(t types.Type) types.Type { return t.Underlying() }

func zero(t types.Type) value {
	switch u := t.(type) {
	case *types.Named:
		if o := u.Obj(); o.Pkg() != nil && o.Pkg().Path() == "reflect" && o.Name() == "Value" {
			return RValue{}
		}
		return zero(u.Underlying())
	case *types.Alias:
		return zero(types.Unalias(u))
	case *types.Basic:
		switch {
		case u.Kind() == types.UnsafePointer:
			return (*value)(nil)
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsComplex != 0:
			return complex128(0)
		case u.Info()&types.IsString != 0:
			return ""
		case u.Kind() == types.UntypedNil:
			return nil
		}
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return Slice{}
	case *types.Map:
		return (*Map)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Chan:
		return (*Native)(nil)
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := int(u.Len())
		a := make(Array, n)
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Tuple:
		tp := make(Tuple, u.Len())
		for i := range tp {
			tp[i] = zero(u.At(i).Type())
		}
		return tp
	case *types.TypeParam:
		return nil
	}
	panic(fmt.Sprintf("zero of %T %s", t, t))
}

// copyVal copies aggregates (value semantics).
func copyVal(v value) value {
	switch v := v.(type) {
	case Struct:
		n := make(Struct, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	case Array:
		n := make(Array, len(v))
		for i, x := range v {
			n[i] = copyVal(x)
		}
		return n
	}
	return v
}

func constValue(c *ssa.Const) value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.TypeParam); ok {
		t = tp.Underlying()
	}
	b, ok := t.(*types.Basic)
	if !ok {
		// interface-typed constants do not occur except nil
		panic(fmt.Sprintf("const %s of type %s", c, c.Type()))
	}
	switch {
	case b.Info()&types.IsBoolean != 0:
		return constant.BoolVal(c.Value)
	case b.Info()&types.IsInteger != 0:
		if x := constant.ToInt(c.Value); x.Kind() == constant.Int {
			if i, ok := constant.Int64Val(x); ok {
				return i
			}
			u, _ := constant.Uint64Val(x)
			return int64(u)
		}
	case b.Info()&types.IsFloat != 0:
		f, _ := constant.Float64Val(c.Value)
		return f
	case b.Info()&types.IsString != 0:
		if c.Value.Kind() == constant.String {
			return constant.StringVal(c.Value)
		}
		i, _ := constant.Int64Val(c.Value)
		return string(rune(i))
	case b.Info()&types.IsComplex != 0:
		return complex128(0)
	}
	panic(fmt.Sprintf("const %s of type %s", c, c.Type()))
}

// wrap reduces a concrete integer to its type's width.
func wrapInt(i int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return i
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(i))
	case types.Int16:
		return int64(int16(i))
	case types.Int32, types.UntypedRune:
		return int64(int32(i))
	case types.Uint8:
		return int64(uint8(i))
	case types.Uint16:
		return int64(uint16(i))
	case types.Uint32:
		return int64(uint32(i))
	}
	return i
}
func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}
func intBits(t types.Type) int {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune:
		return 32
	}
	return 64
}

// concrete map key representation; ok=false when symbolic
func keyOf(v value) (any, bool) {
	switch v := v.(type) {
	case bool, int64, float64, string, *value:
		return v, true
	case *Term, *Rope:
		return nil, false
	case Iface:
		if v.t == nil {
			return "nil-iface", true
		}
		k, ok := keyOf(v.v)
		if !ok {
			return nil, false
		}
		return fmt.Sprintf("%s|%T|%v", typeKey(v.t), k, k), true
	case Struct:
		return aggKey("S", v)
	case Array:
		return aggKey("A", v)
	case RType:
		return "RT|" + typeKey(v.t), true
	case *ssa.Function, *Closure, *Native, *Map:
		return v, true
	case nil:
		return nil, true
	}
	panic(fmt.Sprintf("keyOf %T", v))
}
func aggKey(pre string, vs []value) (any, bool) {
	var b strings.Builder
	b.WriteString(pre)
	for _, x := range vs {
		k, ok := keyOf(x)
		if !ok {
			return nil, false
		}
		s := fmt.Sprint(k)
		fmt.Fprintf(&b, "|%T:%d:%s", k, len(s), s)
	}
	return b.String(), true
}

func typeKey(t types.Type) string {
	return types.TypeString(types.Unalias(t), func(p *types.Package) string { return p.Path() })
}

// ---- equality

func (p *Path) equals(t types.Type, a, b value) *Term {
	switch x := a.(type) {
	case bool:
		if y, ok := b.(bool); ok {
			return mkBool(x == y)
		}
		return mkEq(mkBool(x), b.(*Term))
	case int64:
		if y, ok := b.(int64); ok {
			return mkBool(x == y)
		}
		return mkEq(b.(*Term), mkInt(x))
	case *Term:
		switch y := b.(type) {
		case *Term:
			return mkEq(x, y)
		case int64:
			return mkEq(x, mkInt(y))
		case bool:
			return mkEq(x, mkBool(y))
		}
	case float64:
		return mkBool(x == b.(float64))
	case complex128:
		return mkBool(x == b.(complex128))
	case string, *Rope:
		return p.eqStr(a, b)
	case *value:
		y, ok := b.(*value)
		return mkBool(ok && x == y)
	case Struct:
		y := b.(Struct)
		var st *types.Struct
		if t != nil {
			st, _ = t.Underlying().(*types.Struct)
		}
		var cs []*Term
		for i := range x {
			if st != nil && st.Field(i).Name() == "_" {
				continue
			}
			var ft types.Type
			if st != nil {
				ft = st.Field(i).Type()
			}
			c := p.equals(ft, x[i], y[i])
			if c == tFalse {
				return c
			}
			cs = append(cs, c)
		}
		return mkAnd(cs...)
	case Array:
		y := b.(Array)
		var cs []*Term
		for i := range x {
			c := p.equals(nil, x[i], y[i])
			if c == tFalse {
				return c
			}
			cs = append(cs, c)
		}
		return mkAnd(cs...)
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			panic(fmt.Sprintf("equals iface %T", b))
		}
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		if !types.Identical(x.t, y.t) {
			return tFalse
		}
		if !types.Comparable(x.t) {
			p.goPanicStr("runtime error: comparing uncomparable type " + x.t.String())
		}
		return p.equals(x.t, x.v, y.v)
	case *Map:
		y := b.(*Map)
		return mkBool(x == y)
	case Slice:
		switch y := b.(type) {
		case Slice: // only comparison with nil
			return mkBool(x.a == nil && y.a == nil)
		case *BRope:
			return tFalse
		}
	case *BRope:
		return tFalse
	case *ssa.Function:
		y, ok := b.(*ssa.Function)
		return mkBool(ok && x == y)
	case *Closure:
		return mkBool(a == b)
	case *NativeFn:
		return mkBool(a == b)
	case RType:
		y, ok := b.(RType)
		return mkBool(ok && types.Identical(x.t, y.t))
	case RValue:
		y, ok := b.(RValue)
		if !ok {
			return tFalse
		}
		if x.t == nil || y.t == nil {
			return mkBool(x.t == nil && y.t == nil)
		}
		return mkBool(x.addr == y.addr && x.addr != nil)
	case *Native:
		y, ok := b.(*Native)
		return mkBool(ok && x == y)
	case nil:
		return mkBool(b == nil)
	}
	p.unsupported("comparison of %T and %T", a, b)
	return nil
}

// ---- maps

func newMap(t types.Type) *Map {
	m := &Map{idx: map[any]int{}}
	if t != nil {
		if mt, ok := t.Underlying().(*types.Map); ok {
			m.kt = mt.Key()
		}
	}
	return m
}

// find returns the entry index of key k or -1, forking on symbolic comparisons.
func (m *Map) find(p *Path, k value) int {
	if m == nil {
		return -1
	}
	if r, ok := k.(*Rope); ok {
		k = elsVal(p.norm(r))
	}
	if ck, ok := keyOf(k); ok {
		if i, ok := m.idx[ck]; ok {
			return i
		}
		if m.symb == 0 {
			return -1
		}
		for i, x := range m.keys {
			if _, dead := x.(deadKey); dead {
				continue
			}
			if _, ok := keyOf(x); ok {
				continue
			}
			if p.branch(p.equals(m.kt, x, k)) {
				return i
			}
		}
		return -1
	}
	for i, x := range m.keys {
		if _, dead := x.(deadKey); dead {
			continue
		}
		if p.branch(p.equals(m.kt, x, k)) {
			return i
		}
	}
	return -1
}

type deadKey struct{}

func (m *Map) set(p *Path, k, v value) {
	if i := m.find(p, k); i >= 0 {
		m.vals[i] = v
		return
	}
	if r, ok := k.(*Rope); ok {
		k = elsVal(p.norm(r))
	}
	if ck, ok := keyOf(k); ok {
		m.idx[ck] = len(m.keys)
	} else {
		m.symb++
	}
	m.keys = append(m.keys, k)
	m.vals = append(m.vals, v)
}

func (m *Map) del(p *Path, k value) {
	i := m.find(p, k)
	if i < 0 {
		return
	}
	if ck, ok := keyOf(m.keys[i]); ok {
		delete(m.idx, ck)
	} else {
		m.symb--
	}
	m.keys[i] = deadKey{}
	m.vals[i] = nil
}

func (m *Map) length() int {
	if m == nil {
		return 0
	}
	return len(m.idx) + m.symb
}

func (m *Map) live() []int {
	var out []int
	if m == nil {
		return nil
	}
	for i, k := range m.keys {
		if _, dead := k.(deadKey); !dead {
			out = append(out, i)
		}
	}
	return out
}

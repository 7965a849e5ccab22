package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The state that operations share: what can be reached from the package-level
// variables of the repository. An operation that changes it without holding a
// lock races with another one that runs at the same time.

type shared struct {
	cells map[*value]bool
	maps  map[*Map]bool
	snap  map[*value]value
	lens  map[*Map]int
}

func (p *Path) repoCells() []*value {
	var paths []string
	for n := range p.w.eng.pkgs {
		if strings.HasPrefix(n, repoMod) {
			paths = append(paths, n)
		}
	}
	sort.Strings(paths)
	var out []*value
	for _, n := range paths {
		pk := p.w.eng.pkgs[n]
		var names []string
		for m, mem := range pk.Members {
			if _, ok := mem.(*ssa.Global); ok && m != "init$guard" {
				names = append(names, m)
			}
		}
		sort.Strings(names)
		for _, m := range names {
			out = append(out, p.global(pk.Members[m].(*ssa.Global)).(*value))
		}
	}
	return out
}

func (s *shared) visit(v value) {
	switch v := v.(type) {
	case *value:
		if v == nil || s.cells[v] {
			return
		}
		s.cells[v] = true
		s.leaf(v)
		s.visit(*v)
	case Struct:
		s.elems(v)
	case Array:
		s.elems(v)
	case Slice:
		s.elems(v.a[:cap(v.a)])
	case *Map:
		if v == nil || s.maps[v] {
			return
		}
		s.maps[v] = true
		s.lens[v] = len(v.keys)
		for i := range v.keys {
			s.visit(v.keys[i])
			s.visit(v.vals[i])
		}
	case Iface:
		s.visit(v.v)
	case *Closure:
		if v != nil {
			for _, e := range v.env {
				s.visit(e)
			}
		}
	case Tuple:
		s.elems(v)
	}
}

func (s *shared) elems(vs []value) {
	for i := range vs {
		if !s.cells[&vs[i]] {
			s.cells[&vs[i]] = true
			s.leaf(&vs[i])
			s.visit(vs[i])
		}
	}
}

func (s *shared) leaf(c *value) {
	switch v := (*c).(type) {
	case string, int64, bool, float64, *Term, *Rope, *value, *Map:
		s.snap[c] = v
	}
}

func newShared() *shared {
	return &shared{map[*value]bool{}, map[*Map]bool{}, map[*value]value{}, map[*Map]int{}}
}

// changed looks for changes made by the executor's models.
func (s *shared) changed() bool {
	for c, old := range s.snap {
		switch now := (*c).(type) {
		case string, int64, bool, float64, *Term, *Rope, *value, *Map:
			if now != old {
				return true
			}
		default:
			return true
		}
	}
	for m, n := range s.lens {
		if len(m.keys) != n {
			return true
		}
	}
	return false
}

// copier makes a deep copy; pointers to the same thing stay pointers to one thing.
type copier map[*value]*value

func (c copier) copy(v value) value {
	switch v := v.(type) {
	case *value:
		if v == nil {
			return v
		}
		if c[v] == nil {
			c[v] = new(value)
			*c[v] = c.copy(*v)
		}
		return c[v]
	case Struct:
		return Struct(c.elems(v))
	case Array:
		return Array(c.elems(v))
	case Slice:
		return Slice{c.elems(v.a)}
	case *Map:
		if v == nil {
			return v
		}
		m := *v
		m.keys, m.vals, m.idx = append([]value(nil), v.keys...), c.elems(v.vals), map[any]int{}
		for k, i := range v.idx {
			m.idx[k] = i
		}
		return &m
	case Iface:
		return Iface{v.t, c.copy(v.v)}
	}
	return v
}

func (c copier) elems(vs []value) []value {
	if vs == nil {
		return nil
	}
	out := make([]value, len(vs))
	for i := range vs {
		out[i] = c.copy(vs[i])
	}
	return out
}

func (p *Path) race() {
	p.violation("race", "state that all operations share is changed without synchronisation", p.site(), p.model)
	p.end("violation", "")
}

func (p *Path) wrote(c *value) {
	if p.locks == 0 && p.shared.cells[c] {
		p.race()
	}
}

func (p *Path) wroteMap(m *Map) {
	if p.shared != nil && p.locks == 0 && p.shared.maps[m] {
		p.race()
	}
}

func init() {
	apart := func(p *Path, on value, ops []value) value {
		for _, f := range ops {
			s := newShared()
			for _, c := range p.repoCells() {
				s.visit(c)
			}
			s.visit(on)
			p.shared, p.locks, p.locked = s, 0, false
			p.call(f, nil)
			p.shared = nil
			if !p.locked && s.changed() {
				p.race()
			}
		}
		return nil
	}
	reg(symPkg+".Apart", func(p *Path, fn *ssa.Function, a []value) value { return apart(p, nil, a) })
	reg(symPkg+".Together", func(p *Path, fn *ssa.Function, a []value) value { return apart(p, a[0], a[1:]) })
	reg(symPkg+".Copy", func(p *Path, fn *ssa.Function, a []value) value { return copier{}.copy(a[0]) })
	reg(symPkg+".Shares", func(p *Path, fn *ssa.Function, a []value) value {
		x, y := newShared(), newShared()
		x.visit(a[0])
		y.visit(a[1])
		for c := range x.cells {
			if y.cells[c] {
				return true
			}
		}
		for m := range x.maps {
			if y.maps[m] {
				return true
			}
		}
		return false
	})
	lock := func(d int, res value) func(p *Path, fn *ssa.Function, a []value) value {
		return func(p *Path, fn *ssa.Function, a []value) value {
			p.locks += d
			p.locked = true
			return res
		}
	}
	for _, n := range []string{"Mutex", "RWMutex"} {
		reg("(*sync."+n+").Lock", lock(1, nil))
		reg("(*sync."+n+").Unlock", lock(-1, nil))
		reg("(*sync."+n+").TryLock", lock(1, true))
	}
	// atomic operations on a cell
	at := func(n string, f func(p *Path, c *value, a []value) value) {
		g := func(p *Path, fn *ssa.Function, a []value) value {
			p.locked = true
			return f(p, p.cell(a[0]), a[1:])
		}
		for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
			reg("sync/atomic."+n+t, g)
		}
	}
	at("Load", func(p *Path, c *value, a []value) value { return *c })
	at("Store", func(p *Path, c *value, a []value) value { *c = a[0]; return nil })
	at("Swap", func(p *Path, c *value, a []value) value { o := *c; *c = a[0]; return o })
	at("Add", func(p *Path, c *value, a []value) value {
		*c = p.concInt(*c) + p.concInt(a[0])
		return *c
	})
	at("CompareAndSwap", func(p *Path, c *value, a []value) value {
		if x, ok := (*c).(*value); ok {
			if y, _ := a[0].(*value); x != y {
				return false
			}
		} else if p.concInt(*c) != p.concInt(a[0]) {
			return false
		}
		*c = a[1]
		return true
	})
	reg("(*sync/atomic.Value).Load", func(p *Path, fn *ssa.Function, a []value) value {
		p.locked = true
		if x, ok := p.side[p.cell(a[0])].(Iface); ok {
			return x
		}
		return Iface{}
	})
	reg("(*sync/atomic.Value).Store", func(p *Path, fn *ssa.Function, a []value) value {
		p.locked = true
		p.side[p.cell(a[0])] = a[1]
		return nil
	})
	// sync.Map as a map
	sm := func(n string, f func(p *Path, m *Map, a []value) value) {
		reg("(*sync.Map)."+n, func(p *Path, fn *ssa.Function, a []value) value {
			c := p.cell(a[0])
			m, ok := p.side[c].(*Map)
			if !ok {
				m = newMap(types.NewMap(types.NewInterfaceType(nil, nil), types.NewInterfaceType(nil, nil)))
				p.side[c] = m
			}
			p.locked = true
			return f(p, m, a[1:])
		})
	}
	sm("Load", func(p *Path, m *Map, a []value) value {
		if i := m.find(p, a[0]); i >= 0 {
			return Tuple{m.vals[i], true}
		}
		return Tuple{Iface{}, false}
	})
	sm("Store", func(p *Path, m *Map, a []value) value { m.set(p, a[0], a[1]); return nil })
	sm("Delete", func(p *Path, m *Map, a []value) value { m.del(p, a[0]); return nil })
	sm("LoadOrStore", func(p *Path, m *Map, a []value) value {
		if i := m.find(p, a[0]); i >= 0 {
			return Tuple{m.vals[i], true}
		}
		m.set(p, a[0], a[1])
		return Tuple{a[1], false}
	})
	sm("LoadAndDelete", func(p *Path, m *Map, a []value) value {
		if i := m.find(p, a[0]); i >= 0 {
			v := m.vals[i]
			m.del(p, a[0])
			return Tuple{v, true}
		}
		return Tuple{Iface{}, false}
	})
}

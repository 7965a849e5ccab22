// Package sym is the interface between the harnesses and the symbolic
// executor. Under the executor every function here is intercepted and returns
// or constrains symbolic values. Compiled natively it feeds back one concrete
// assignment, so that a counterexample of the solver can be replayed against
// the real code.
package sym

import (
	"fmt"
	"io"
	"os"
	"reflect"
	"sync"
)

// Input is one value of a replayed assignment.
type Input struct {
	Name string `json:"name"`
	Kind string `json:"kind"`
	S    string `json:"s,omitempty"`
	B    []byte `json:"b,omitempty"`
	I    int64  `json:"i,omitempty"`
}

// Failure is the panic value of a failed assertion.
type Failure struct{ Msg string }

// Vacuous is the panic value of a failed assumption.
type Vacuous struct{ Msg string }

var (
	inputs   map[string]Input
	counts   map[string]int
	reached  map[string]bool
	thorough bool
	tempDirs []string
)

// Begin installs an assignment.
func Begin(in []Input, th bool) {
	inputs = map[string]Input{}
	counts = map[string]int{}
	reached = map[string]bool{}
	thorough = th
	for _, i := range in {
		inputs[i.Name] = i
	}
}

// End removes what the run left behind.
func End() map[string]bool {
	for _, d := range tempDirs {
		os.RemoveAll(d)
	}
	tempDirs = nil
	return reached
}

func get(name, kind string) (Input, bool) {
	k := counts[name]
	counts[name]++
	if k > 0 {
		name = fmt.Sprintf("%s#%d", name, k)
	}
	i, ok := inputs[name]
	return i, ok && i.Kind == kind
}

// String is an arbitrary ASCII text of at most max characters.
func String(name string, max int) string {
	i, _ := get(name, "str")
	return string(i.B)
}

// From is an arbitrary text over the given characters.
func From(name, charset string, min, max int) string {
	i, ok := get(name, "str")
	if !ok {
		for len(i.B) < min {
			i.B = append(i.B, charset[0])
		}
	}
	return string(i.B)
}

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	i, ok := get(name, "int")
	if !ok {
		return lo
	}
	return int(i.I)
}

// Bool is an arbitrary truth value.
func Bool(name string) bool {
	i, _ := get(name, "bool")
	return i.I != 0
}

// Choice is an arbitrary integer in [0,n), explored one path per value.
func Choice(name string, n int) int {
	i, _ := get(name, "choice")
	return int(i.I)
}

func Assume(cond bool) {
	if !cond {
		panic(Vacuous{"assumption does not hold"})
	}
}

func Assert(cond bool, msg string) {
	if !cond {
		panic(Failure{msg})
	}
}

func Fail(msg string) { panic(Failure{msg}) }

// Reach records that the path got here; Witness declares a label that some path must reach.
func Reach(label string)   { reached[label] = true }
func Witness(label string) {}

func Thorough() bool             { return thorough }
func Symbolic() bool             { return false }
func Bound(kind string, n int)   {}
func Known(id string, cond bool) {}
func Note(s string)              {}
func Not(a bool) bool            { return !a }
func Eq(a, b string) bool        { return a == b }
func If(c, a, b bool) bool {
	if c {
		return a
	}
	return b
}

func And(cs ...bool) bool {
	for _, c := range cs {
		if !c {
			return false
		}
	}
	return true
}

func Or(cs ...bool) bool {
	for _, c := range cs {
		if c {
			return true
		}
	}
	return false
}

// TempDir is a fresh empty directory.
func TempDir() string {
	d, err := os.MkdirTemp("", "symreplay")
	if err != nil {
		panic(err)
	}
	tempDirs = append(tempDirs, d)
	return d
}

// Equal is deep equality where nil and empty slices and maps are the same.
func Equal(a, b any) bool {
	return equal(reflect.ValueOf(a), reflect.ValueOf(b), 0)
}

func equal(a, b reflect.Value, depth int) bool {
	if a.IsValid() != b.IsValid() {
		return false
	}
	if !a.IsValid() {
		return true
	}
	if a.Type() != b.Type() {
		return false
	}
	switch a.Kind() {
	case reflect.Interface:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return equal(a.Elem(), b.Elem(), depth+1)
	case reflect.Ptr:
		if a.IsNil() || b.IsNil() {
			return a.IsNil() == b.IsNil()
		}
		return equal(a.Elem(), b.Elem(), depth+1)
	case reflect.Struct:
		for i := 0; i < a.NumField(); i++ {
			if !equal(a.Field(i), b.Field(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Slice, reflect.Array:
		if a.Len() != b.Len() {
			return false
		}
		for i := 0; i < a.Len(); i++ {
			if !equal(a.Index(i), b.Index(i), depth+1) {
				return false
			}
		}
		return true
	case reflect.Map:
		if a.Len() != b.Len() {
			return false
		}
		for _, k := range a.MapKeys() {
			v := b.MapIndex(k)
			if !v.IsValid() || !equal(a.MapIndex(k), v, depth+1) {
				return false
			}
		}
		return true
	case reflect.String:
		return a.String() == b.String()
	case reflect.Bool:
		return a.Bool() == b.Bool()
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return a.Int() == b.Int()
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		return a.Uint() == b.Uint()
	case reflect.Float32, reflect.Float64:
		return a.Float() == b.Float()
	}
	return a.IsNil() && b.IsNil()
}

// Source is where a text is read from: it delivers the text in the given
// pieces and then fails with Err, or just ends if Err is nil. With Together
// the end is told along with the last piece, not by a further read. The
// executor takes its text whole where the library does.
type Source struct {
	Parts    []string
	Err      error
	Together bool
	// Ended says that the end was told.
	Ended bool
	at    int
}

func (s *Source) Read(b []byte) (int, error) {
	if s.at >= len(s.Parts) {
		return 0, s.end()
	}
	n := copy(b, s.Parts[s.at])
	if n < len(s.Parts[s.at]) {
		s.Parts[s.at] = s.Parts[s.at][n:]
		return n, nil
	}
	s.at++
	if s.Together && s.at == len(s.Parts) {
		return n, s.end()
	}
	return n, nil
}

func (s *Source) end() error {
	s.Ended = true
	if s.Err != nil {
		return s.Err
	}
	return io.EOF
}

// Orders lets, from here on, up to n maps, or all of them, be iterated the other
// way round; real maps are iterated in any order anyway.
func Orders(n int) {}

// Apart runs two operations as two goroutines would; the executor runs one
// after the other and watches the state they share.
func Apart(f, g func()) {
	var wg sync.WaitGroup
	var panics [2]any
	for i, op := range []func(){f, g} {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() { panics[i] = recover() }()
			op()
		}()
	}
	wg.Wait()
	for _, x := range panics {
		if x != nil {
			panic(x)
		}
	}
}

// Together is Apart for two operations on the same thing, which neither may change.
func Together(on any, f, g func()) { Apart(f, g) }

// Copy is a deep copy; pointers to the same thing stay pointers to one thing.
func Copy(a any) any {
	if a == nil {
		return nil
	}
	return deepCopy(reflect.ValueOf(a), map[uintptr]reflect.Value{}).Interface()
}

func deepCopy(v reflect.Value, seen map[uintptr]reflect.Value) reflect.Value {
	out := reflect.New(v.Type()).Elem()
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return out
		}
		if c, ok := seen[v.Pointer()]; ok && c.Type() == v.Type() {
			return c
		}
		c := reflect.New(v.Type().Elem())
		seen[v.Pointer()] = c
		c.Elem().Set(deepCopy(v.Elem(), seen))
		return c
	case reflect.Interface:
		if !v.IsNil() {
			out.Set(deepCopy(v.Elem(), seen))
		}
	case reflect.Struct:
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if out.Field(i).CanSet() {
				out.Field(i).Set(deepCopy(v.Field(i), seen))
			}
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i), seen))
		}
	case reflect.Slice:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i), seen))
		}
	case reflect.Map:
		if v.IsNil() {
			return out
		}
		out.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			out.SetMapIndex(k, deepCopy(v.MapIndex(k), seen))
		}
	default:
		return v
	}
	return out
}

// Shares says whether two values have changeable memory in common.
func Shares(a, b any) bool {
	x, y := map[uintptr]bool{}, map[uintptr]bool{}
	memory(reflect.ValueOf(a), x)
	memory(reflect.ValueOf(b), y)
	for p := range x {
		if y[p] {
			return true
		}
	}
	return false
}

func memory(v reflect.Value, seen map[uintptr]bool) {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() || v.Type().Elem().Size() == 0 || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		memory(v.Elem(), seen)
	case reflect.Interface:
		if !v.IsNil() {
			memory(v.Elem(), seen)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			memory(v.Field(i), seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			memory(v.Index(i), seen)
		}
	case reflect.Slice:
		if v.Cap() == 0 || v.Type().Elem().Size() == 0 {
			return
		}
		for i := 0; i < v.Cap(); i++ {
			e := v.Slice(0, v.Cap()).Index(i)
			seen[e.UnsafeAddr()] = true
			memory(e, seen)
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		seen[v.Pointer()] = true
		for _, k := range v.MapKeys() {
			memory(k, seen)
			memory(v.MapIndex(k), seen)
		}
	}
}

package main

import (
	"bytes"
	"net/url"
	"path"
	"path/filepath"
	"reflect"
	"strconv"
	"strings"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// nativeWrap runs a pure library function on the host when all arguments are concrete.
type nativeWrap struct {
	f reflect.Value
	t reflect.Type
}

var natives = map[string]*nativeWrap{}

func nat(name string, f any) {
	v := reflect.ValueOf(f)
	natives[name] = &nativeWrap{v, v.Type()}
}

func toHost(p *Path, v value, t reflect.Type) (reflect.Value, bool) {
	if r, ok := v.(*Rope); ok {
		v = elsVal(p.norm(r))
	}
	switch t.Kind() {
	case reflect.String:
		if s, ok := v.(string); ok {
			return reflect.ValueOf(s).Convert(t), true
		}
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Uint8, reflect.Uint64, reflect.Uint, reflect.Uint32, reflect.Int8, reflect.Int16, reflect.Uint16:
		if i, ok := v.(int64); ok {
			return reflect.ValueOf(i).Convert(t), true
		}
	case reflect.Bool:
		if b, ok := v.(bool); ok {
			return reflect.ValueOf(b), true
		}
	case reflect.Float64:
		if b, ok := v.(float64); ok {
			return reflect.ValueOf(b), true
		}
	case reflect.Slice:
		switch x := v.(type) {
		case Slice:
			if x.a == nil {
				return reflect.Zero(t), true
			}
			out := reflect.MakeSlice(t, len(x.a), len(x.a))
			for i, e := range x.a {
				h, ok := toHost(p, e, t.Elem())
				if !ok {
					return h, false
				}
				out.Index(i).Set(h)
			}
			return out, true
		case *BRope:
			if s, ok := elsConst(p.normEls(x.el)); ok {
				return reflect.ValueOf([]byte(s)), true
			}
		}
	}
	return reflect.Value{}, false
}

var hostError = reflect.TypeFor[error]()

func fromHost(p *Path, v reflect.Value) value {
	switch v.Kind() {
	case reflect.String:
		return v.String()
	case reflect.Int, reflect.Int64, reflect.Int32, reflect.Int8, reflect.Int16:
		return v.Int()
	case reflect.Uint8, reflect.Uint64, reflect.Uint, reflect.Uint32, reflect.Uint16:
		return int64(v.Uint())
	case reflect.Bool:
		return v.Bool()
	case reflect.Float64:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return Slice{}
		}
		a := make([]value, v.Len())
		for i := range a {
			a[i] = fromHost(p, v.Index(i))
		}
		return Slice{a}
	case reflect.Interface:
		if v.Type() == hostError {
			if v.IsNil() {
				return Iface{}
			}
			return p.mkError(v.Interface().(error).Error())
		}
	}
	panic("fromHost " + v.Type().String())
}

func (w *nativeWrap) call(p *Path, fn *ssa.Function, args []value) (value, bool) {
	n := w.t.NumIn()
	if len(args) != n {
		return nil, false
	}
	in := make([]reflect.Value, n)
	for i := range in {
		h, ok := toHost(p, args[i], w.t.In(i))
		if !ok {
			return nil, false
		}
		in[i] = h
	}
	var out []reflect.Value
	var pan any
	func() {
		defer func() { pan = recover() }()
		if w.t.IsVariadic() {
			out = w.f.CallSlice(in)
		} else {
			out = w.f.Call(in)
		}
	}()
	if pan != nil {
		p.goPanicStr("panic in library function")
	}
	switch len(out) {
	case 0:
		return nil, true
	case 1:
		return fromHost(p, out[0]), true
	}
	t := make(Tuple, len(out))
	for i, o := range out {
		t[i] = fromHost(p, o)
	}
	return t, true
}

func init() {
	for n, f := range map[string]any{
		"strings.Contains": strings.Contains, "strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny,
		"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Index": strings.Index,
		"strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny, "strings.LastIndex": strings.LastIndex,
		"strings.LastIndexByte": strings.LastIndexByte, "strings.LastIndexAny": strings.LastIndexAny, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN,
		"strings.SplitAfter": strings.SplitAfter, "strings.SplitAfterN": strings.SplitAfterN, "strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix,
		"strings.TrimSpace": strings.TrimSpace, "strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
		"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.Replace": strings.Replace,
		"strings.ReplaceAll": strings.ReplaceAll, "strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper,
		"strings.EqualFold": strings.EqualFold, "strings.Fields": strings.Fields, "strings.Join": strings.Join, "strings.Repeat": strings.Repeat,
		"strings.Count": strings.Count, "strings.Compare": strings.Compare, "strings.Title": strings.Title, "strings.ToTitle": strings.ToTitle,
		"strconv.Itoa": strconv.Itoa, "strconv.Atoi": strconv.Atoi, "strconv.ParseInt": strconv.ParseInt, "strconv.ParseUint": strconv.ParseUint, "strconv.ParseBool": strconv.ParseBool,
		"strconv.ParseFloat": strconv.ParseFloat,
		"strconv.Quote":      strconv.Quote, "strconv.Unquote": strconv.Unquote, "strconv.FormatInt": strconv.FormatInt, "strconv.FormatBool": strconv.FormatBool,
		"path.Join": path.Join, "path.Base": path.Base, "path.Dir": path.Dir, "path.Clean": path.Clean, "path.Split": path.Split, "path.Ext": path.Ext, "path.Match": path.Match, "path.IsAbs": path.IsAbs,
		"path/filepath.Join": filepath.Join, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Clean": filepath.Clean,
		"path/filepath.Split": filepath.Split, "path/filepath.Ext": filepath.Ext, "path/filepath.ToSlash": filepath.ToSlash, "path/filepath.FromSlash": filepath.FromSlash,
		"path/filepath.Rel": filepath.Rel, "path/filepath.IsAbs": filepath.IsAbs, "path/filepath.Match": filepath.Match, "internal/filepathlite.ToSlash": filepath.ToSlash, "internal/filepathlite.FromSlash": filepath.FromSlash,
		"unicode.IsSpace": unicode.IsSpace, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsUpper": unicode.IsUpper,
		"unicode.IsLower": unicode.IsLower, "unicode.ToLower": unicode.ToLower, "unicode.ToUpper": unicode.ToUpper, "unicode.IsPunct": unicode.IsPunct, "unicode.IsControl": unicode.IsControl, "unicode.IsPrint": unicode.IsPrint,
		"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.RuneLen": utf8.RuneLen,
		"bytes.Contains": bytes.Contains, "bytes.HasPrefix": bytes.HasPrefix, "bytes.HasSuffix": bytes.HasSuffix, "bytes.Equal": bytes.Equal,
		"bytes.Trim": bytes.Trim, "bytes.TrimSpace": bytes.TrimSpace, "bytes.Split": bytes.Split, "bytes.Index": bytes.Index, "bytes.IndexByte": bytes.IndexByte,
		"net/url.PathEscape": url.PathEscape, "net/url.QueryEscape": url.QueryEscape,
	} {
		nat(n, f)
	}
}

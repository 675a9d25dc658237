package core

import (
	"math"
	"reflect"
	"sort"
	"strings"
)

// FP computes structural fingerprints of arbitrary values: everything reachable
// through unexported fields, with shared nodes numbered. Functions and channels
// are only checked for nil.
type FP struct {
	// IgnoreKinds are not included (kinds values of a typed tree may have).
	IgnoreKinds map[reflect.Kind]bool
	// IgnoreIfaces excludes dynamic values of interfaces which are not pointers to
	// structures of the repository.
	IgnoreIfaces bool
	// Str maps strings (nil for identity).
	Str func(string) string

	b    []byte
	seen map[uintptr]int
}

// Of returns fingerprint of x.
func (f *FP) Of(x interface{}) string {
	f.b = f.b[:0]
	if f.seen == nil {
		f.seen = map[uintptr]int{}
	} else {
		for k := range f.seen {
			delete(f.seen, k)
		}
	}
	f.walk(reflect.ValueOf(x), 0)
	return string(f.b)
}

func (f *FP) num(n uint64) {
	for n >= 0x80 {
		f.b = append(f.b, byte(n)|0x80)
		n >>= 7
	}
	f.b = append(f.b, byte(n))
}

func (f *FP) walk(v reflect.Value, depth int) {
	if !v.IsValid() {
		f.b = append(f.b, 'z')
		return
	}
	if depth > 3000 {
		f.b = append(f.b, '!')
		return
	}
	k := v.Kind()
	if f.IgnoreKinds[k] {
		f.b = append(f.b, '_')
		return
	}
	switch k {
	case reflect.Bool:
		if v.Bool() {
			f.b = append(f.b, '1')
		} else {
			f.b = append(f.b, '0')
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		f.b = append(f.b, 'i')
		f.num(uint64(v.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
		f.b = append(f.b, 'u')
		f.num(v.Uint())
	case reflect.String:
		s := v.String()
		if f.Str != nil {
			s = f.Str(s)
		}
		f.b = append(f.b, 's')
		f.num(uint64(len(s)))
		f.b = append(f.b, s...)
	case reflect.Ptr:
		if v.IsNil() {
			f.b = append(f.b, 'n')
			return
		}
		p := v.Pointer()
		if i, ok := f.seen[p]; ok {
			f.b = append(f.b, '@')
			f.num(uint64(i))
			return
		}
		f.seen[p] = len(f.seen)
		f.b = append(f.b, '*')
		f.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if v.IsNil() {
			if f.IgnoreIfaces {
				f.b = append(f.b, '_')
			} else {
				f.b = append(f.b, 'N')
			}
			return
		}
		e := v.Elem()
		if f.IgnoreIfaces {
			t := e.Type()
			for t.Kind() == reflect.Ptr {
				t = t.Elem()
			}
			if !strings.HasPrefix(t.PkgPath(), "github.com/infobloxopen/go-trees/") {
				f.b = append(f.b, '_')
				return
			}
		}
		f.b = append(f.b, 'I')
		f.b = append(f.b, e.Type().String()...)
		f.walk(e, depth+1)
	case reflect.Struct:
		f.b = append(f.b, '{')
		for i := 0; i < v.NumField(); i++ {
			f.walk(v.Field(i), depth+1)
		}
		f.b = append(f.b, '}')
	case reflect.Array, reflect.Slice:
		if k == reflect.Slice && v.IsNil() {
			f.b = append(f.b, 'n')
			return
		}
		f.b = append(f.b, '[')
		f.num(uint64(v.Len()))
		for i := 0; i < v.Len(); i++ {
			f.walk(v.Index(i), depth+1)
		}
	case reflect.Map:
		f.b = append(f.b, 'm')
		f.num(uint64(v.Len()))
		if v.Type().Key().Kind() != reflect.String {
			return
		}
		ks := v.MapKeys()
		sort.Slice(ks, func(i, j int) bool { return ks[i].String() < ks[j].String() })
		for _, k := range ks {
			f.walk(k, depth+1)
			f.walk(v.MapIndex(k), depth+1)
		}
	case reflect.Func, reflect.Chan, reflect.UnsafePointer:
		if v.IsNil() {
			f.b = append(f.b, 'n')
		} else {
			f.b = append(f.b, 'f')
		}
	case reflect.Float32, reflect.Float64:
		f.b = append(f.b, 'd')
		f.num(math.Float64bits(v.Float()))
	default:
		f.b = append(f.b, '?')
	}
}

// Depth returns the longest chain of pointers between structures of the type t has,
// following only the type with at least two such links (a binary tree node), and the
// number of nodes. Typed pointers inside interfaces are not followed.
func Depth(x interface{}) (depth, nodes int) {
	seen := map[uintptr]bool{}
	var node reflect.Type
	var find func(v reflect.Value, d int) (reflect.Value, bool)
	find = func(v reflect.Value, d int) (reflect.Value, bool) {
		if d > 8 {
			return reflect.Value{}, false
		}
		switch v.Kind() {
		case reflect.Ptr:
			if v.IsNil() {
				return reflect.Value{}, false
			}
			if v.Type().Elem().Kind() == reflect.Struct && selfLinks(v.Type().Elem()) >= 2 {
				return v, true
			}
			return find(v.Elem(), d+1)
		case reflect.Struct:
			for i := 0; i < v.NumField(); i++ {
				if r, ok := find(v.Field(i), d+1); ok {
					return r, true
				}
			}
		}
		return reflect.Value{}, false
	}
	r, ok := find(reflect.ValueOf(x), 0)
	if !ok {
		return 0, 0
	}
	node = r.Type()
	var rec func(v reflect.Value) int
	rec = func(v reflect.Value) int {
		if v.IsNil() || seen[v.Pointer()] {
			return 0
		}
		seen[v.Pointer()] = true
		nodes++
		m := 0
		e := v.Elem()
		for i := 0; i < e.NumField(); i++ {
			f := e.Field(i)
			if f.Type() == node {
				if d := rec(f); d > m {
					m = d
				}
			} else if (f.Kind() == reflect.Array || f.Kind() == reflect.Slice) && f.Type().Elem() == node {
				for j := 0; j < f.Len(); j++ {
					if d := rec(f.Index(j)); d > m {
						m = d
					}
				}
			}
		}
		return m + 1
	}
	depth = rec(r)
	return depth, nodes
}

func selfLinks(t reflect.Type) int {
	n := 0
	p := reflect.PtrTo(t)
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i).Type
		if f == p {
			n++
		} else if (f.Kind() == reflect.Array || f.Kind() == reflect.Slice) && f.Elem() == p {
			n += 2
		}
	}
	return n
}

package core

import "reflect"

// Reach walks everything reachable from a value, through unexported fields and spare
// capacity of slices too. Functions and channels are not entered.
type Reach struct {
	// Bytes is size of all objects reached, without bytes of strings.
	Bytes int64
	// Found gets pointers of the type Want.
	Want  reflect.Type
	Found func(p uintptr)

	seen, base map[reach]bool
}

type reach struct {
	p uintptr
	t reflect.Type
}

// Walk adds what is reachable from x.
func (r *Reach) Walk(x interface{}) {
	if r.seen == nil {
		r.seen = map[reach]bool{}
	}
	r.walk(reflect.ValueOf(x), 0)
}

// Fresh counts objects reachable from x, and their bytes, which the walks so far have not
// reached.
func (r *Reach) Fresh(x interface{}) (objects int, bytes int64) {
	f := &Reach{base: r.seen, seen: map[reach]bool{}}
	f.walk(reflect.ValueOf(x), 0)
	return len(f.seen), f.Bytes
}

// Reset forgets what was reached.
func (r *Reach) Reset() {
	r.Bytes = 0
	for k := range r.seen {
		delete(r.seen, k)
	}
}

func (r *Reach) walk(v reflect.Value, depth int) {
	if !v.IsValid() || depth > 5000 {
		return
	}
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return
		}
		if r.Want != nil && v.Type() == r.Want {
			r.Found(v.Pointer())
		}
		k := reach{v.Pointer(), v.Type()}
		if r.seen[k] || r.base[k] {
			return
		}
		r.seen[k] = true
		r.Bytes += int64(v.Type().Elem().Size())
		r.walk(v.Elem(), depth+1)
	case reflect.Interface:
		if !v.IsNil() {
			if e := v.Elem(); e.Kind() == reflect.Ptr {
				r.walk(e, depth+1)
			} else {
				r.Bytes += int64(e.Type().Size())
				r.walk(e, depth+1)
			}
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			r.walk(v.Field(i), depth+1)
		}
	case reflect.Array:
		if !flat(v.Type().Elem().Kind()) {
			for i := 0; i < v.Len(); i++ {
				r.walk(v.Index(i), depth+1)
			}
		}
	case reflect.Slice:
		if v.IsNil() {
			return
		}
		k := reach{v.Pointer(), v.Type()}
		if v.Cap() > 0 && (r.seen[k] || r.base[k]) {
			return
		}
		r.seen[k] = true
		r.Bytes += int64(v.Cap()) * int64(v.Type().Elem().Size())
		if !flat(v.Type().Elem().Kind()) {
			v = v.Slice(0, v.Cap())
			for i := 0; i < v.Len(); i++ {
				r.walk(v.Index(i), depth+1)
			}
		}
	case reflect.Map:
		if v.IsNil() {
			return
		}
		k := reach{v.Pointer(), v.Type()}
		if r.seen[k] || r.base[k] {
			return
		}
		r.seen[k] = true
		for it := v.MapRange(); it.Next(); {
			r.Bytes += int64(v.Type().Key().Size() + v.Type().Elem().Size())
			r.walk(it.Key(), depth+1)
			r.walk(it.Value(), depth+1)
		}
	}
}

func flat(k reflect.Kind) bool { return k >= reflect.Bool && k <= reflect.Complex128 }

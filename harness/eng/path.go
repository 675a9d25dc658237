package eng

import (
	"fmt"
	"math/bits"
	gonet "net"
	"runtime"

	"vh/core"

	"github.com/infobloxopen/go-trees/domain"
)

// Paths measures operations with one key in a tree of n keys: nothing but the way to the
// key may be looked at or copied.
type Paths struct {
	*RB
	Name    string
	N       int
	Levels  int // of the way to a key
	Perm    func(i int) int
	Inplace bool // how the tree is built
	// Steps runs an operation and counts its steps; if nil, new objects and allocated bytes
	// are counted.
	Steps    func(f func()) int64
	PerLevel int64 // steps
	// Others are keys which contain stored ones or are contained in them.
	Others []Other

	max [3]int64
}

// Other is a key with its forms; nil means no such form.
type Other struct {
	Sp   [NForms]interface{}
	Text string
	// Below are keys in the other half of the prefix.
	Below []Other
}

// DomOthers are the root domain, the parent of the domain and domains below it.
func DomOthers(k uint64, sub bool) []Other {
	s := Digits(k)
	if sub {
		s += ".com"
	}
	l := []string{"", s, "x." + s, "z.y.x." + s}
	if sub {
		l = append(l, "com", "org", "x.com")
	}
	var os []Other
	for _, s := range l {
		n, err := domain.MakeNameFromString(s)
		if err != nil {
			panic(fmt.Errorf("domain name %q is rejected: %s", s, err))
		}
		o := Other{Text: fmt.Sprintf("%q", s)}
		for i := range o.Sp {
			o.Sp[i] = n
		}
		os = append(os, o)
	}
	return os
}

// NumOthers are all prefixes of the key.
func NumOthers(k uint64, size int) []Other {
	var os []Other
	mk := func(k uint64, b int) Other {
		o := Other{Text: PText(k, b, size)}
		for i := range o.Sp {
			o.Sp[i] = P{k, b}
		}
		return o
	}
	for b := 0; b <= size; b++ {
		o := mk(k, b)
		if b < size {
			f := k ^ 1<<uint(size-1-b)
			o.Below = []Other{mk(f, b+1), mk(f, size)}
		}
		os = append(os, o)
	}
	return os
}

// IPOthers are all networks with the address.
func IPOthers(k uint64, kind int) []Other {
	p := ipOf(k, kind)
	var os []Other
	mk := func(a gonet.IP, b int) Other {
		o := Other{Text: fmt.Sprintf("%x/%d", []byte(a), b)}
		o.Sp[Human] = &gonet.IPNet{IP: a.Mask(maskOf(b, p.size())), Mask: maskOf(b, p.size())}
		if b == p.size() {
			o.Sp[Raw] = a
		}
		return o
	}
	for b := 0; b <= p.size(); b++ {
		o := mk(p.addr(), b)
		if b < p.size() {
			f := append(gonet.IP{}, p.addr()...)
			f[b/8] ^= 0x80 >> uint(b%8)
			o.Below = []Other{mk(f, b+1), mk(f, p.size())}
		}
		os = append(os, o)
	}
	return os
}

// RBLevels is the greatest depth of red-black trees of n entries, and one more.
func RBLevels(n int) int { return 2*bits.Len(uint(n)) + 1 }

func (x *Paths) over(i int, what string, got, limit int64, unit string) {
	if got > x.max[i] {
		x.max[i] = got
	}
	if got > limit {
		x.fail("cost", "%s takes %d %s in a tree of %d keys; no more than %d are needed for the way to the key", what, got, unit, x.N, limit)
	}
}

// measure runs an operation two times and takes the smaller cost, so something prepared
// by the first one for all later ones isn't counted.
func (x *Paths) measure(what string, old *core.Reach, f func() interface{}) {
	x.C.R.Trans++
	x.C.R.Evals++
	if x.Steps != nil {
		a, b := x.Steps(func() { f() }), x.Steps(func() { f() })
		if b < a {
			a = b
		}
		x.over(0, what, a, x.PerLevel*int64(x.Levels)+3000, "steps")
		return
	}
	objects := int64(6*x.Levels + 16)
	var m0, m1, m2 runtime.MemStats
	runtime.ReadMemStats(&m0)
	f()
	runtime.ReadMemStats(&m1)
	h := f()
	runtime.ReadMemStats(&m2)
	a := m2.TotalAlloc - m1.TotalAlloc
	if b := m1.TotalAlloc - m0.TotalAlloc; b < a {
		a = b
	}
	x.over(1, what, int64(a), objects*200+16384, "bytes of memory")
	if old != nil && h != nil {
		n, _ := old.Fresh(h)
		x.over(2, what, int64(n), objects, "objects the tree before didn't have")
	}
}

// PathKey is the i-th key of trees of Paths.
func PathKey(i int) uint64 { return uint64(i+1) << 8 }

// Explore builds the tree and measures all operations with all keys.
func (x *Paths) Explore() {
	c := x.C
	step := ""
	c.At(func() []string {
		return []string{fmt.Sprintf("a tree of %d keys inserted %s, in place: %v", x.N, x.Name, x.Inplace), step}
	})
	key := PathKey
	im := x.I
	h := im.New[0].Fn()
	for i := 0; i < x.N; i++ {
		for oi := range im.Ins {
			o := &im.Ins[oi]
			if o.Inplace == x.Inplace {
				h = o.Fn(h, x.Arg(o.Form, key(x.Perm(i))), im.Vals[i%len(im.Vals)])
				break
			}
		}
		if i%512 == 0 {
			c.Mark()
		}
	}
	old := &core.Reach{}
	if x.Steps == nil {
		old.Walk(h)
	}
	c.R.States++
	for i := 0; i < x.N && !c.Stop(); i++ {
		if i%64 == 0 {
			c.Mark()
		}
		for _, absent := range []bool{false, true} {
			k := key(i)
			if absent {
				k += 128
			}
			for gi := range im.Gets {
				g := &im.Gets[gi]
				a := x.Arg(g.Form, k)
				step = fmt.Sprintf("%s(%s)", g.Name, x.Text(g.Form, k))
				x.measure(step, nil, func() interface{} { g.Fn(h, a); return nil })
			}
			for di := range im.Dels {
				d := &im.Dels[di]
				a := x.Arg(d.Form, k)
				step = fmt.Sprintf("%s(%s)", d.Name, x.Text(d.Form, k))
				x.measure(step, old, func() interface{} { t, _ := d.Fn(h, a); return t })
			}
			for oi := range im.Ins {
				o := &im.Ins[oi]
				if o.Inplace {
					continue
				}
				a, v := x.Arg(o.Form, k), im.Vals[(i+1)%len(im.Vals)]
				step = fmt.Sprintf("%s(%s)", o.Name, x.Text(o.Form, k))
				x.measure(step, old, func() interface{} { return o.Fn(h, a, v) })
			}
		}
	}
	if im.IsEmpty != nil {
		step = "IsEmpty()"
		x.measure(step, nil, func() interface{} { im.IsEmpty(h); return nil })
	}
	for _, o := range x.Others {
		x.other(h, old, o, &step)
	}
	// The tree changes from here.
	old = nil
	for i := 0; i < x.N && !c.Stop(); i++ {
		if i%64 == 0 {
			c.Mark()
		}
		for oi := range im.Ins {
			o := &im.Ins[oi]
			if !o.Inplace {
				continue
			}
			k := key(i)
			if i%8 == 0 {
				k += 64 + uint64(oi)
			}
			a, v := x.Arg(o.Form, k), im.Vals[(i+2)%len(im.Vals)]
			step = fmt.Sprintf("%s(%s)", o.Name, x.Text(o.Form, k))
			x.measure(step, nil, func() interface{} { h = o.Fn(h, a, v); return nil })
		}
	}
	for _, o := range x.Others {
		for oi := range im.Ins {
			f := &im.Ins[oi]
			if a := o.Sp[f.Form]; f.Inplace && a != nil {
				step = fmt.Sprintf("%s(%s)", f.Name, o.Text)
				x.measure(step, nil, func() interface{} { h = f.Fn(h, a, im.Vals[0]); return nil })
			}
		}
	}
	c.R.Traces++
	c.Outcome(fmt.Sprintf("%s: at most %d steps, %d bytes, %d new objects", x.I.Name, x.max[0], x.max[1], x.max[2]))
	c.At(nil2)
}

// other measures operations with the key absent and, after its insertion, stored.
func (x *Paths) other(h interface{}, old *core.Reach, o Other, step *string) {
	im := x.I
	x.C.Mark()
	for round := 0; round < 2 && !x.C.Stop(); round++ {
		if round > 0 {
			for _, b := range o.Below {
				x.other(h, old, b, step)
			}
		}
		for gi := range im.Gets {
			g := &im.Gets[gi]
			if a := o.Sp[g.Form]; a != nil {
				*step = fmt.Sprintf("%s(%s)", g.Name, o.Text)
				x.measure(*step, nil, func() interface{} { g.Fn(h, a); return nil })
			}
		}
		for di := range im.Dels {
			d := &im.Dels[di]
			if a := o.Sp[d.Form]; a != nil {
				*step = fmt.Sprintf("%s(%s)", d.Name, o.Text)
				x.measure(*step, old, func() interface{} { t, _ := d.Fn(h, a); return t })
			}
		}
		var next interface{}
		for ii := range im.Ins {
			f := &im.Ins[ii]
			if a := o.Sp[f.Form]; !f.Inplace && a != nil {
				*step = fmt.Sprintf("%s(%s)", f.Name, o.Text)
				x.measure(*step, old, func() interface{} { return f.Fn(h, a, im.Vals[0]) })
				if next == nil {
					next = f.Fn(h, a, im.Vals[0])
				}
			}
		}
		if next == nil {
			return
		}
		h = next
		x.C.R.States++
	}
}

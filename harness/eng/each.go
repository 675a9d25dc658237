package eng

import (
	"fmt"
	"net"
)

// EachKey is one key of a large family.
type EachKey struct {
	Str  string // the same for equal keys only
	Arg  [NForms]interface{}
	Enum [NForms]string // text in enumerations
	L    []string       // labels of a name
	P    IPKey          // a prefix
}

// Each tries keys of a large family one by one: each one is put into a small tree, found
// there, told from its neighbours, replaced and removed.
type Each struct {
	*Run
	Base     []*EachKey // keys of the tree
	Contains func(a, b *EachKey) bool
	Less     func(a, b *EachKey) bool
	// What is checked.
	Gets, Enums, Inplace, Persist, Del, Dots bool
	// Dump checks a dump of a tree with keys in order.
	Dump func(text string, keys []*EachKey, vals []interface{}) error

	keys  []*EachKey
	cont  [16]uint16 // keys contained in a key, itself included
	order []int
	n     int
	base  interface{}
	bm    eachModel
	ops   []string
}

type eachModel struct {
	m uint16
	v [16]uint8
}

func (x *Each) val(i uint8) interface{} { return x.I.Vals[int(i)%len(x.I.Vals)] }

func (x *Each) index(k *EachKey) int {
	for i, o := range x.keys {
		if o.Str == k.Str {
			return i
		}
	}
	x.keys = append(x.keys, k)
	return len(x.keys) - 1
}

// form finds a method with a form in which key k can be given.
func (x *Each) ins(i, turn int, inplace bool) *InsOp {
	for d := range x.I.Ins {
		o := &x.I.Ins[(d+turn)%len(x.I.Ins)]
		if o.Inplace == inplace && x.keys[i].Arg[o.Form] != nil {
			return o
		}
	}
	return nil
}

func (x *Each) log(op string, i int) {
	x.ops = append(x.ops, fmt.Sprintf("%s(%s)", op, clipped(x.keys[i].Str)))
}

func clipped(s string) string {
	t := fmt.Sprintf("%q", s)
	if len(t) > 300 {
		t = fmt.Sprintf("%s... (%d bytes)", t[:300], len(s))
	}
	return t
}

// check observes a tree.
func (x *Each) check(h interface{}, m *eachModel, enum bool) {
	if x.Gets {
		for i, k := range x.keys {
			best := -1
			exact := -1
			for j := range x.keys {
				if m.m>>uint(j)&1 == 0 || x.cont[j]>>uint(i)&1 == 0 {
					continue
				}
				if j == i {
					exact = j
				}
				if best < 0 || x.cont[best]>>uint(j)&1 != 0 {
					best = j
				}
			}
			for _, g := range x.I.Gets {
				if k.Arg[g.Form] == nil {
					continue
				}
				w := best
				if g.Exact {
					w = exact
				}
				want := x.I.Zero
				if w >= 0 {
					want = x.val(m.v[w])
				}
				v, ok := g.Fn(h, k.Arg[g.Form])
				x.C.R.Evals++
				if ok != (w >= 0) || v != want {
					x.fail("get", "%s(%s) returned %v, %v; expected %v, %v", g.Name, clipped(k.Str), v, ok, want, w >= 0)
				}
			}
		}
	}
	if x.Enums && enum {
		for _, e := range x.I.Enums {
			ks, vs := e.Fn(h)
			x.C.R.Evals++
			n := 0
			for _, i := range x.order {
				if m.m>>uint(i)&1 == 0 {
					continue
				}
				if n >= len(ks) {
					x.fail("enumerate", "%s ended before %s", e.Name, clipped(x.keys[i].Str))
				}
				if ks[n] != x.keys[i].Enum[e.Form] || vs[n] != x.val(m.v[i]) {
					x.fail("enumerate", "item %d of %s is %s: %v, expected %s: %v", n, e.Name, clipped(ks[n]), vs[n], clipped(x.keys[i].Enum[e.Form]), x.val(m.v[i]))
				}
				n++
			}
			if n != len(ks) {
				x.fail("enumerate", "%s yielded %d items more than expected", e.Name, len(ks)-n)
			}
		}
	}
	if x.Dump != nil && enum {
		var ks []*EachKey
		var vs []interface{}
		for _, i := range x.order {
			if m.m>>uint(i)&1 != 0 {
				ks = append(ks, x.keys[i])
				vs = append(vs, x.val(m.v[i]))
			}
		}
		s := x.I.Dot(h)
		x.C.R.Evals++
		if err := x.Dump(s, ks, vs); err != nil {
			x.fail("dot", "%s\n%s", err, s)
		}
	}
	if e := x.I.IsEmpty; e != nil && x.Gets && e(h) != (m.m == 0) {
		x.fail("empty", "IsEmpty is %v with %d entries", m.m != 0, len(x.order))
	}
}

func (m eachModel) with(i int, v uint8) *eachModel {
	m.m |= 1 << uint(i)
	m.v[i] = v
	return &m
}

// delete executes all deletions of key i.
func (x *Each) delete(h interface{}, m *eachModel, i int, enum bool) {
	for _, d := range x.I.Dels {
		a := x.keys[i].Arg[d.Form]
		if a == nil {
			continue
		}
		x.log(d.Name, i)
		nm := *m
		if d.Contain {
			nm.m &^= x.cont[i]
		} else {
			nm.m &^= 1 << uint(i)
		}
		nh, ok := d.Fn(h, a)
		x.C.R.Trans++
		if x.Del {
			if ok != (nm.m != m.m) {
				x.fail("delete", "%s(%s) reported %v, expected %v", d.Name, clipped(x.keys[i].Str), ok, nm.m != m.m)
			}
			x.check(nh, &nm, enum)
		}
		if x.Persist {
			x.ops = append(x.ops, "the tree it was called on:")
			x.check(h, m, enum)
			x.ops = x.ops[:len(x.ops)-1]
		}
		x.ops = x.ops[:len(x.ops)-1]
	}
}

// insert executes a copying insertion.
func (x *Each) insert(h interface{}, m *eachModel, i int, v uint8, enum bool) (interface{}, *eachModel) {
	o := x.ins(i, x.n, false)
	x.log(o.Name, i)
	nh := o.Fn(h, x.keys[i].Arg[o.Form], x.val(v))
	x.C.R.Trans++
	nm := m.with(i, v)
	if !x.Persist {
		x.check(nh, nm, enum)
	} else {
		x.ops = append(x.ops, "the tree it was called on:")
		x.check(h, m, enum)
		x.ops = x.ops[:len(x.ops)-1]
	}
	return nh, nm
}

// Do tries a key and its neighbours.
func (x *Each) Do(k *EachKey, near ...*EachKey) {
	c := x.C
	x.n++
	x.keys = x.keys[:0]
	x.ops = x.ops[:0]
	for _, b := range x.Base {
		x.index(b)
	}
	i := x.index(k)
	for _, n := range near {
		x.index(n)
	}
	for a := range x.keys {
		x.cont[a] = 0
		for b := range x.keys {
			if a == b || x.Contains != nil && x.Contains(x.keys[a], x.keys[b]) {
				x.cont[a] |= 1 << uint(b)
			}
		}
	}
	x.order = x.order[:0]
	for a := range x.keys {
		x.order = append(x.order, a)
		for b := len(x.order) - 1; b > 0 && x.Less(x.keys[x.order[b]], x.keys[x.order[b-1]]); b-- {
			x.order[b], x.order[b-1] = x.order[b-1], x.order[b]
		}
	}
	if x.base == nil {
		c.At(func() []string { return append([]string{"base tree"}, x.ops...) })
		h := x.I.New[0].Fn()
		m := &eachModel{}
		for b := range x.Base {
			h, m = x.insert(h, m, b, uint8(b), true)
			c.R.States++
		}
		x.ops = x.ops[:0]
		x.base, x.bm = h, *m
	}
	c.Mark()
	v := uint8(x.n % 13)
	h, m := x.insert(x.base, &x.bm, i, v, true)
	h2, m2 := x.insert(h, m, i, v+1, false)
	x.ops = x.ops[:1]
	c.R.States += 2
	if x.Del || x.Persist {
		x.delete(h, m, i, true)
		if x.bm.m>>uint(i)&1 == 0 {
			ops := x.ops
			x.ops = x.ops[:0]
			x.delete(x.base, &x.bm, i, false)
			x.ops = ops
		}
	}
	for j := len(x.Base); j < len(x.keys); j++ {
		if j == i {
			continue
		}
		x.ops = x.ops[:1]
		if x.Del {
			x.delete(h, m, j, false)
		}
		x.ops = append(x.ops, "")[:1]
		hn, mn := x.insert(h, m, j, v+2, true)
		c.R.States++
		if x.Del || x.Persist {
			x.delete(hn, mn, i, j&1 == 0)
			x.delete(hn, mn, j, j&1 != 0)
		}
		if x.Persist {
			x.check(h2, m2, false)
		}
	}
	if x.Inplace {
		x.ops = x.ops[:0]
		h := x.I.New[0].Fn()
		m := &eachModel{}
		step := func(j int, v uint8, check bool) {
			o := x.ins(j, x.n, true)
			x.log(o.Name, j)
			h = o.Fn(h, x.keys[j].Arg[o.Form], x.val(v))
			m = m.with(j, v)
			c.R.Trans++
			c.R.States++
			if check {
				x.check(h, m, true)
			}
		}
		for b := range x.Base {
			step(b, uint8(b), false)
		}
		step(i, v, true)
		for j := len(x.Base); j < len(x.keys); j++ {
			if j != i {
				step(j, v+2, j == len(x.keys)-1)
			}
		}
		step(i, v+1, false)
		x.check(h, m, false)
	}
	x.ops = x.ops[:0]
	c.R.Traces++
}

// IPEach makes a key of a network.
func IPEach(p IPKey) *EachKey {
	p.Prefix = p.Prefix.Norm()
	a := p.addr()
	m := maskOf(p.Bits, p.size())
	k := &EachKey{P: p, Str: fmt.Sprintf("%x/%x", []byte(a), []byte(m))}
	k.Arg[Human] = &net.IPNet{IP: a, Mask: m}
	if p.Bits == p.size() && (!p.V6 || a.To4() == nil) {
		k.Arg[Raw] = a
	}
	k.Enum[Human] = k.Str
	return k
}

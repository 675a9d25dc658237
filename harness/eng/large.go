package eng

import (
	"fmt"
	"strings"

	"vh/core"
)

// Big trees: universes of hundreds of keys, too many for all states, are explored along
// directed histories: several orders of insertion in several ways, single deletions
// from the full tree, several orders of deletion down to the empty tree.

// BigModel is a model without a limit of the number of keys.
type BigModel struct {
	Has []bool
	V   []uint8
	N   int
}

// NewBigModel makes an empty model.
func NewBigModel(n int) *BigModel { return &BigModel{Has: make([]bool, n), V: make([]uint8, n)} }

// Clone copies a model.
func (m *BigModel) Clone() *BigModel {
	return &BigModel{append([]bool{}, m.Has...), append([]uint8{}, m.V...), m.N}
}

// Put stores a key.
func (m *BigModel) Put(k int, v uint8) {
	if !m.Has[k] {
		m.N++
	}
	m.Has[k], m.V[k] = true, v
}

// Drop removes a key.
func (m *BigModel) Drop(k int) bool {
	if !m.Has[k] {
		return false
	}
	m.Has[k] = false
	m.N--
	return true
}

// Big explores a big universe.
type Big struct {
	*Run
	Gets    bool // observe lookups
	Enums   bool // observe enumerations
	Flags   bool // check flags of deletions
	Persist bool // observe old versions again
	Twin    bool // compare with a tree made by copying insertions only
	Del     bool // run deletions
	Extra   func(h interface{}, m *BigModel, rebuild func() interface{})

	// Watch checks something else of an observed tree.
	Watch func(h interface{}, m *BigModel)

	hist []string
}

func (b *Big) stored(m *BigModel) string {
	if m.N > 40 {
		return fmt.Sprintf("%d keys", m.N)
	}
	var l []string
	for _, k := range b.U.Order {
		if m.Has[k] {
			l = append(l, fmt.Sprintf("%s: %s", b.U.Keys[k].Str, show(b.I.Vals[m.V[k]])))
		}
	}
	return strings.Join(l, ", ")
}

func (b *Big) spell(k, form int) int {
	n := len(b.U.Keys[k].Sp[form])
	if n == 0 {
		return -1
	}
	b.sp++
	return b.sp % n
}

// Check observes a tree.
func (b *Big) Check(h interface{}, m *BigModel, what string) {
	c := b.C
	c.Mark()
	if b.Watch != nil {
		b.Watch(h, m)
	}
	if b.Gets {
		for gi := range b.I.Gets {
			g := &b.I.Gets[gi]
			for q, key := range b.U.Keys {
				s := b.spell(q, g.Form)
				if s < 0 {
					continue
				}
				wv, wok := b.I.Zero, false
				for _, k := range b.U.Conts[q] {
					if m.Has[k] && (k == q || !g.Exact) {
						wv, wok = b.I.Vals[m.V[k]], true
						break
					}
				}
				v, ok := g.Fn(h, key.Sp[g.Form][s])
				c.R.Evals++
				if ok != wok || !Same(v, wv) {
					b.fail("lookup", "%s: %s(%s) = %s, %v; expected %s, %v; stored: %s", what, g.Name, key.SpStr[g.Form][s], show(v), ok, show(wv), wok, b.stored(m))
				}
			}
		}
		if b.I.IsEmpty != nil && b.I.IsEmpty(h) != (m.N == 0) {
			b.fail("isempty", "%s: IsEmpty() with %d stored", what, m.N)
		}
	}
	if b.Enums {
		for ei := range b.I.Enums {
			e := &b.I.Enums[ei]
			ks, vs := e.Fn(h)
			c.R.Evals++
			i := 0
			for _, k := range b.U.Order {
				if !m.Has[k] {
					continue
				}
				if i >= len(ks) {
					b.fail("enumerate", "%s: %s ends after %d items of %d, %s is missing", what, e.Name, i, m.N, b.U.Keys[k].Str)
					return
				}
				if j, ok := b.U.decode[e.Form][ks[i]]; !ok || j != k {
					b.fail("enumerate", "%s: %s: item %d is %q, expected %s", what, e.Name, i, ks[i], b.U.Keys[k].Str)
					return
				}
				if !Same(vs[i], b.I.Vals[m.V[k]]) {
					b.fail("enumerate", "%s: %s: item %d (%s) has value %s, expected %s", what, e.Name, i, ks[i], show(vs[i]), show(b.I.Vals[m.V[k]]))
					return
				}
				i++
			}
			if i != len(ks) {
				b.fail("enumerate", "%s: %s: extra item %q", what, e.Name, ks[i])
			}
		}
	}
}

func (b *Big) note(format string, a ...interface{}) {
	b.hist = append(b.hist, fmt.Sprintf(format, a...))
}

func (b *Big) ins(h interface{}, m *BigModel, o *InsOp, k int, v uint8) interface{} {
	s := b.spell(k, o.Form)
	if s < 0 {
		return h
	}
	if m != nil {
		t := "t = "
		if o.Inplace {
			t = ""
		}
		b.note("%st.%s(%s, %s)", t, o.Name, b.U.Keys[k].SpStr[o.Form][s], show(b.I.Vals[v]))
		m.Put(k, v)
		b.C.Mark()
		b.C.R.Trans++
	}
	return o.Fn(h, b.U.Keys[k].Sp[o.Form][s], b.I.Vals[v])
}

func (b *Big) del(h interface{}, m *BigModel, o *DelOp, k int) interface{} {
	s := b.spell(k, o.Form)
	if s < 0 {
		return h
	}
	b.note("t, _ = t.%s(%s)", o.Name, b.U.Keys[k].SpStr[o.Form][s])
	b.C.Mark()
	b.C.R.Trans++
	nh, ok := o.Fn(h, b.U.Keys[k].Sp[o.Form][s])
	want := false
	if o.Contain {
		for _, j := range b.U.Below[k] {
			want = m.Drop(j) || want
		}
	} else {
		want = m.Drop(k)
	}
	if b.Flags && ok != want {
		b.fail("delflag", "%s returned %v, expected %v; %d keys are left", b.hist[len(b.hist)-1], ok, want, m.N)
	}
	return nh
}

// Ways of insertion.
const (
	WayCopy = iota
	WayInplace
	WayMixed
)

// Orders gives permutations of n keys which are listed from general ones to specific ones.
func Orders(n int) map[string][]int {
	asc := make([]int, n)
	for i := range asc {
		asc[i] = i
	}
	desc := make([]int, n)
	for i := range desc {
		desc[i] = n - 1 - i
	}
	var zig []int
	for i, j := 0, n-1; i <= j; i, j = i+1, j-1 {
		zig = append(zig, i)
		if j != i {
			zig = append(zig, j)
		}
	}
	s := n*5/8 | 1
	for g := func(a, b int) int {
		for b != 0 {
			a, b = b, a%b
		}
		return a
	}; n > 1 && g(s, n) != 1; {
		s += 2
	}
	var str []int
	for i := 0; i < n; i++ {
		str = append(str, i*s%n)
	}
	return map[string][]int{"general first": asc, "specific first": desc, "from both ends": zig, "stride": str}
}

// Explore runs the history.
func (b *Big) Explore(way int, order string) {
	c := b.C
	var store []int
	for k, key := range b.U.Keys {
		if key.Store {
			store = append(store, k)
		}
	}
	n := len(store)
	perm := Orders(n)[order]
	b.hist = nil
	c.At(func() []string { return append([]string{"t := " + b.I.New[0].Name}, b.hist...) })
	root := 0
	if way != WayCopy {
		for root < len(b.I.New)-1 && b.I.IsNil(b.I.New[root].Fn()) && !b.I.NilOK {
			root++
		}
	}
	opAt := func(i, k int) *InsOp {
		var l []*InsOp
		for oi := range b.I.Ins {
			o := &b.I.Ins[oi]
			if len(b.U.Keys[k].Sp[o.Form]) == 0 || way == WayCopy && o.Inplace || way == WayInplace && !o.Inplace {
				continue
			}
			l = append(l, o)
		}
		return l[i%len(l)]
	}
	type version struct {
		h interface{}
		m *BigModel
		n int
	}
	var vers []version
	every := n/12 + 1
	h := b.I.New[root].Fn()
	m := NewBigModel(len(b.U.Keys))
	var twin interface{}
	if b.Twin {
		twin = b.I.New[root].Fn()
	}
	keep := func(i int, what string) {
		if i%every == 0 || i == n-1 {
			b.Check(h, m, what)
			if b.Twin {
				b.Check(twin, m, "made by copying insertions, "+what)
			}
		}
		if b.Persist && way == WayCopy && i%every == every/2 {
			vers = append(vers, version{h, m.Clone(), len(b.hist)})
		}
		c.R.States++
	}
	for i, p := range perm {
		k := store[p]
		v := b.Base(k % 64)
		h = b.ins(h, m, opAt(i, k), k, v)
		if b.Twin {
			twin = b.ins(twin, nil, &b.I.Ins[0], k, v)
		}
		keep(i, "after the last step")
	}
	// Replacements.
	for i := 0; i < n; i += every {
		k := store[(i*7)%n]
		h = b.ins(h, m, opAt(i, k), k, b.Alt(k%64))
		if b.Twin {
			twin = b.ins(twin, nil, &b.I.Ins[0], k, b.Alt(k%64))
		}
	}
	b.Check(h, m, "after replacements")
	if b.Twin {
		b.Check(twin, m, "made by copying insertions, after replacements")
	}
	if b.Persist && way == WayCopy {
		vers = append(vers, version{h, m.Clone(), len(b.hist)})
	}
	if b.Extra != nil {
		pairs := m.Clone()
		b.Extra(h, m, func() interface{} {
			t := b.I.New[root].Fn()
			for i, p := range perm {
				t = b.ins(t, nil, opAt(i, store[p]), store[p], pairs.V[store[p]])
			}
			return t
		})
	}
	if b.Del {
		// Every deletion from the full tree.
		full := len(b.hist)
		for oi := range b.I.Dels {
			if c.Tier == core.Quick && (way != WayCopy || order != "stride" && order != "specific first") {
				break
			}
			for k, key := range b.U.Keys {
				if !key.Del || c.Stop() {
					continue
				}
				m2 := m.Clone()
				nh := b.del(h, m2, &b.I.Dels[oi], k)
				if len(b.hist) > full {
					b.Check(nh, m2, "after the last step")
					b.hist = b.hist[:full]
				}
			}
		}
		b.Check(h, m, "a tree which others were derived from")
		// Down to the empty tree.
		for i := range perm {
			k := store[perm[(i*3+n/3)%n]]
			if n%3 == 0 {
				k = store[perm[i]]
			}
			o := &b.I.Dels[i%len(b.I.Dels)]
			if o.Contain && i%5 != 0 && len(b.U.Below[k]) > 2 {
				// don't empty the tree at once
				o = nil
				for oi := range b.I.Dels {
					if !b.I.Dels[oi].Contain {
						o = &b.I.Dels[oi]
					}
				}
				if o == nil {
					k = store[n-1-i]
					o = &b.I.Dels[i%len(b.I.Dels)]
				}
			}
			h = b.del(h, m, o, k)
			keep(i, "after the last step")
		}
		for _, k := range store {
			for oi := range b.I.Dels {
				if m.Has[k] {
					h = b.del(h, m, &b.I.Dels[oi], k)
				}
			}
		}
		b.Check(h, m, "after deletion of everything")
		for i := 0; i < n; i += every {
			k := store[perm[i]]
			h = b.ins(h, m, opAt(i, k), k, b.Alt(k%64))
		}
		b.Check(h, m, "refilled")
	}
	if b.Persist {
		l := b.hist
		for _, v := range vers {
			b.hist = append(l[:len(l):len(l)], fmt.Sprintf("(the version after step %d is observed)", v.n))
			b.Check(v.h, v.m, "old version")
		}
		b.hist = l
	}
	c.R.Traces++
	if d := int64(len(b.hist)); d > c.R.MaxDepth {
		c.R.MaxDepth = d
	}
	c.Outcome(fmt.Sprintf("%s/%s/%s", b.I.Name, b.U.Name, order))
	c.At(nil2)
}

// finishBig computes tables of a universe of any size.
func (u *Universe) finishBig(contains, less func(i, j int) bool) {
	n := len(u.Keys)
	in := make([][]bool, n)
	u.Below = make([][]int, n)
	u.Conts = make([][]int, n)
	for i := range in {
		in[i] = make([]bool, n)
		for j := range in[i] {
			in[i][j] = i == j || contains(i, j)
			if in[i][j] {
				u.Below[i] = append(u.Below[i], j)
			}
		}
	}
	for j := 0; j < n; j++ {
		var l []int
		for i := 0; i < n; i++ {
			if in[i][j] {
				l = append(l, i)
			}
		}
		// most specific first
		for a := 1; a < len(l); a++ {
			for b := a; b > 0 && in[l[b-1]][l[b]]; b-- {
				l[b], l[b-1] = l[b-1], l[b]
			}
		}
		u.Conts[j] = l
	}
}

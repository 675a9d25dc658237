package eng

import (
	"crypto/md5"
	"fmt"
	"hash/fnv"
	gonet "net"
	"reflect"
	"sort"
	"strings"

	"vh/core"

	"github.com/infobloxopen/go-trees/domain"
)

// RB explores red-black trees: states are shapes, keys are abstracted to their ranks,
// new keys are put into every gap between existing ones.
type RB struct {
	C    *core.Ctx
	I    *Impl
	Arg  func(form int, k uint64) interface{}
	Text func(form int, k uint64) string
	Desc bool // descending order of keys
	Kind reflect.Kind
	// What is checked.
	Map, Persist, Inplace, Shape, Dot bool
	Depth                             bool // through reflection
	Cmps                              *int64
	MaxN                              int
	MaxStates                         int
	Shard, Shards                     int
	NoMix                             bool // results of in-place insertions are not states
}

// Digits is text of a key: order of texts of the same length is order of numbers.
func Digits(k uint64) string {
	var b [20]byte
	for i := 19; i >= 0; i-- {
		b[i] = byte('0' + k%10)
		k /= 10
	}
	return string(b[:])
}

// plain drops values which are trees themselves, they would get into fingerprints.
func plain(im *Impl) *Impl {
	var l []interface{}
	for _, v := range im.Vals {
		if t := reflect.TypeOf(v); t != nil && t.Kind() == reflect.Ptr && strings.Contains(t.Elem().PkgPath(), "go-trees") {
			continue
		}
		l = append(l, v)
	}
	im.Vals = l
	return im
}

// StrRB makes an exploration of string trees.
func StrRB(c *core.Ctx, variant int, cmp Cmp, desc bool) *RB {
	return &RB{C: c, I: plain(StrImpl(variant, cmp)), Desc: desc, Kind: kindOf(variant),
		Arg:  func(form int, k uint64) interface{} { return Digits(k) },
		Text: func(form int, k uint64) string { return Digits(k) }}
}

// DLRB makes an exploration of label trees.
func DLRB(c *core.Ctx) *RB {
	return &RB{C: c, I: plain(DLImpl()),
		Arg:  func(form int, k uint64) interface{} { return Digits(k) },
		Text: func(form int, k uint64) string { return Digits(k) }}
}

// DomRB makes an exploration of label trees inside domain trees.
func DomRB(c *core.Ctx, variant int) *RB {
	im := plain(DomImpl(variant))
	im.Dels = im.Dels[:1]
	return &RB{C: c, I: im, Kind: kindOf(variant), NoMix: true,
		Arg: func(form int, k uint64) interface{} {
			n, err := domain.MakeNameFromString(Digits(k))
			if err != nil {
				c.Fail("parse", "valid domain name %q is rejected: %s", Digits(k), err)
			}
			return n
		},
		Text: func(form int, k uint64) string { return CanonName([]string{Digits(k)}) }}
}

// DomSubRB makes directed histories of subdomains of one domain.
func DomSubRB(c *core.Ctx, variant int) *RB {
	x := DomRB(c, variant)
	arg := func(k uint64) interface{} {
		n, err := domain.MakeNameFromString(Digits(k) + ".com")
		if err != nil {
			c.Fail("parse", "valid domain name %q is rejected: %s", Digits(k)+".com", err)
		}
		return n
	}
	x.Arg = func(form int, k uint64) interface{} { return arg(k) }
	x.Text = func(form int, k uint64) string { return CanonName([]string{Digits(k), "COM"}) }
	x.I.Dels = DomImpl(variant).Dels
	return x
}

// NumRB makes directed histories of integer trees with keys of full length possible.
func NumRB(c *core.Ctx, size int) *RB {
	return &RB{C: c, I: plain(NumImpl(size)),
		Arg:  func(form int, k uint64) interface{} { return P{k, size} },
		Text: func(form int, k uint64) string { return PText(k, size, size) }}
}

func ipOf(k uint64, kind int) IPKey {
	switch kind {
	case 0:
		return IPKey{Prefix: Prefix{Hi: k << 32, Bits: 32}}
	case 1:
		return IPKey{Prefix: Prefix{Hi: 0x20010db8<<32 | k, Bits: 64}, V6: true}
	}
	return IPKey{Prefix: Prefix{Hi: 0x20010db8 << 32, Lo: k << 20, Bits: 128}, V6: true}
}

// IPRB does the same for networks: IPv4 addresses, IPv6 networks of 64 bits, IPv6 addresses
// in the same network of 64 bits.
func IPRB(c *core.Ctx, variant int, kind int) *RB {
	net := func(k uint64) IPKey { return ipOf(k, kind) }
	im := plain(IPImpl(variant))
	if kind == 1 {
		// no operations by address
		keep := func(form int) bool { return form == Human }
		var ins []InsOp
		for _, o := range im.Ins {
			if keep(o.Form) {
				ins = append(ins, o)
			}
		}
		var gets []GetOp
		for _, o := range im.Gets {
			if keep(o.Form) {
				gets = append(gets, o)
			}
		}
		var dels []DelOp
		for _, o := range im.Dels {
			if keep(o.Form) {
				dels = append(dels, o)
			}
		}
		im.Ins, im.Gets, im.Dels = ins, gets, dels
	}
	return &RB{C: c, I: im,
		Arg: func(form int, k uint64) interface{} {
			p := net(k)
			if form == Raw {
				return p.addr()
			}
			return &gonet.IPNet{IP: p.addr(), Mask: maskOf(p.Bits, p.size())}
		},
		Text: func(form int, k uint64) string {
			p := net(k)
			return fmt.Sprintf("%x/%x", []byte(p.addr()), []byte(maskOf(p.Bits, p.size())))
		}}
}

func kindOf(variant int) reflect.Kind {
	switch variant {
	case 8:
		return reflect.Uint8
	case 16:
		return reflect.Uint16
	case 32:
		return reflect.Uint32
	case 64:
		return reflect.Uint64
	}
	return reflect.Invalid
}

type rbState struct {
	h      interface{}
	keys   []uint64
	vals   []uint8
	parent int32
	kind   uint8 // rbIns..
	op     uint8
	key    uint64
	val    uint8
	root   uint8
	depth  int16
}

const (
	rbIns = iota
	rbDel
)

func (x *RB) stepStr(kind, op uint8, key uint64, val uint8) string {
	if kind == rbIns {
		o := &x.I.Ins[op]
		if o.Inplace {
			return fmt.Sprintf("t.%s(%q, %s)", o.Name, Digits(key), show(x.I.Vals[val]))
		}
		return fmt.Sprintf("t = t.%s(%q, %s)", o.Name, Digits(key), show(x.I.Vals[val]))
	}
	return fmt.Sprintf("t, _ = t.%s(%q)", x.I.Dels[op].Name, Digits(key))
}

type rbModel struct {
	keys []uint64
	vals []uint8
}

func (m rbModel) find(k uint64) (int, bool) {
	i := sort.Search(len(m.keys), func(i int) bool { return m.keys[i] >= k })
	return i, i < len(m.keys) && m.keys[i] == k
}

func (m rbModel) ins(k uint64, v uint8) rbModel {
	i, ok := m.find(k)
	n := rbModel{append([]uint64{}, m.keys...), append([]uint8{}, m.vals...)}
	if ok {
		n.vals[i] = v
		return n
	}
	n.keys = append(n.keys, 0)
	copy(n.keys[i+1:], n.keys[i:])
	n.keys[i] = k
	n.vals = append(n.vals, 0)
	copy(n.vals[i+1:], n.vals[i:])
	n.vals[i] = v
	return n
}

func (m rbModel) del(k uint64) (rbModel, bool) {
	i, ok := m.find(k)
	if !ok {
		return m, false
	}
	n := rbModel{append([]uint64{}, m.keys[:i]...), append([]uint8{}, m.vals[:i]...)}
	n.keys = append(n.keys, m.keys[i+1:]...)
	n.vals = append(n.vals, m.vals[i+1:]...)
	return n, true
}

func (m rbModel) gaps() []uint64 {
	var g []uint64
	lo := uint64(0)
	for i := 0; i <= len(m.keys); i++ {
		hi := ^uint64(0)
		if i < len(m.keys) {
			hi = m.keys[i]
		}
		mid := lo + (hi-lo)/2
		if mid > lo && mid < hi {
			g = append(g, mid)
		}
		lo = hi
	}
	return g
}

func (m rbModel) String(im *Impl) string {
	if len(m.keys) > 400 {
		return fmt.Sprintf("%d keys", len(m.keys))
	}
	var l []string
	for i := range m.keys {
		l = append(l, fmt.Sprintf("%d: %s", m.keys[i], show(im.Vals[m.vals[i]])))
	}
	return "{" + strings.Join(l, ", ") + "}"
}

func (x *RB) fail(sig, format string, a ...interface{}) {
	x.C.Fail(sig, "%s: %s", x.I.Name, fmt.Sprintf(format, a...))
}

func (x *RB) get(h interface{}, m rbModel, k uint64, what string) {
	i, ok := m.find(k)
	want := x.I.Zero
	if ok {
		want = x.I.Vals[m.vals[i]]
	}
	for gi := range x.I.Gets {
		g := &x.I.Gets[gi]
		v, got := g.Fn(h, x.Arg(g.Form, k))
		x.C.R.Evals++
		if got != ok || v != want {
			x.fail("lookup", "%s: %s(%q) = %s, %v; expected %s, %v; stored: %s", what, g.Name, Digits(k), show(v), got, show(want), ok, m.String(x.I))
		}
	}
}

func (x *RB) enum(h interface{}, m rbModel, what string) {
	for ei := range x.I.Enums {
		e := &x.I.Enums[ei]
		ks, vs := e.Fn(h)
		bad := len(ks) != len(m.keys)
		for i := 0; !bad && i < len(ks); i++ {
			j := i
			if x.Desc {
				j = len(m.keys) - 1 - i
			}
			bad = ks[i] != x.Text(e.Form, m.keys[j]) || !Same(vs[i], x.I.Vals[m.vals[j]])
		}
		if bad {
			var l []string
			for i := range ks {
				if i > 400 {
					l = append(l, fmt.Sprintf("... %d items", len(ks)))
					break
				}
				l = append(l, fmt.Sprintf("%s: %s", ks[i], show(vs[i])))
			}
			x.fail("enumerate", "%s: %s gives [%s]; stored: %s", what, e.Name, strings.Join(l, ", "), m.String(x.I))
		}
	}
	if x.I.IsEmpty != nil && x.I.IsEmpty(h) != (len(m.keys) == 0) {
		x.fail("isempty", "%s: IsEmpty() = %v; stored: %s", what, len(m.keys) != 0, m.String(x.I))
	}
}

// obs makes all observations the exploration is configured for.
func (x *RB) obs(h interface{}, m rbModel, what string) {
	if x.Map {
		for _, k := range m.keys {
			x.get(h, m, k, what)
		}
		for _, k := range m.gaps() {
			x.get(h, m, k, what)
		}
		x.enum(h, m, what)
	}
	if (x.Shape || x.Dot) && x.I.Dot != nil {
		x.dot(h, m, what)
	}
	if x.Depth {
		d, _ := core.Depth(h)
		if err := CheckDepth(d, len(m.keys)); err != nil {
			x.fail("shape", "%s: %s (found by walking the structure)", what, err)
		}
	}
}

func (x *RB) dot(h interface{}, m rbModel, what string) {
	s := x.I.Dot(h)
	x.C.R.Evals++
	ns, err := ParseDot(s)
	if err != nil {
		if x.Dot {
			x.fail("dot", "%s: bad dump: %s\n%s", what, err, s)
		}
		return
	}
	if x.Shape {
		if err := CheckRB(ns, len(m.keys)); err != nil {
			x.fail("shape", "%s: %s\n%s", what, err, s)
		}
	}
	if x.Dot {
		if err := x.checkDot(ns, h, m); err != nil {
			x.fail("dot", "%s: %s\n%s", what, err, s)
		}
	}
}

func (x *RB) checkDot(ns []DotNode, h interface{}, m rbModel) error {
	if len(m.keys) == 0 {
		if x.I.IsNil(h) && len(ns) == 0 {
			return nil
		}
		if len(ns) != 1 || !ns[0].Nil {
			return fmt.Errorf("dump of empty tree isn't single nil node")
		}
		return nil
	}
	ord, err := InOrder(ns)
	if err != nil {
		return err
	}
	if len(ord) != len(m.keys) {
		return fmt.Errorf("dump has %d nodes, expected %d", len(ord), len(m.keys))
	}
	for i, n := range ord {
		j := i
		if x.Desc {
			j = len(m.keys) - 1 - i
		}
		if err := DotLabel(ns[n].Label, Digits(m.keys[j]), x.I.Vals[m.vals[j]]); err != nil {
			return err
		}
	}
	return nil
}

// DotLabel checks that label of a node shows a key with a value.
func DotLabel(label, key string, v interface{}) error {
	if !strings.Contains(label, key) {
		return fmt.Errorf("label %q is found where key %q is expected", label, key)
	}
	if v != nil {
		vt := fmt.Sprintf("%#v", v)
		if !strings.Contains(label, vt) && !strings.Contains(label, strings.Trim(fmt.Sprintf("%q", vt), `"`)) && !strings.Contains(label, fmt.Sprint(v)) {
			return fmt.Errorf("label %q has no value %s of key %q", label, vt, key)
		}
	}
	return nil
}

// Explore runs breadth-first search over shapes.
func (x *RB) Explore() {
	c := x.C
	if x.MaxStates == 0 {
		x.MaxStates = 2000000
	}
	var ks []uint64
	trans0 := c.R.Trans
	fp := &core.FP{IgnoreIfaces: true, IgnoreKinds: map[reflect.Kind]bool{}}
	if x.Kind != reflect.Invalid {
		fp.IgnoreKinds[x.Kind] = true
	}
	ranks := map[string]int{}
	fp.Str = func(s string) string {
		if i, ok := ranks[s]; ok {
			return string(rune('A' + i))
		}
		return s
	}
	sig := func(h interface{}, m rbModel) [16]byte {
		ks = m.keys
		for k := range ranks {
			delete(ranks, k)
		}
		for i, k := range ks {
			ranks[Digits(k)] = i
		}
		return md5.Sum([]byte(fp.Of(h)))
	}
	seen := map[[16]byte]bool{}
	var st []rbState
	cur := int32(0)
	step := ""
	trace := func() []string {
		var l []string
		i := cur
		if step != "" {
			l = append(l, step)
		}
		for st[i].parent >= 0 {
			l = append(l, x.stepStr(st[i].kind, st[i].op, st[i].key, st[i].val))
			i = st[i].parent
		}
		l = append(l, "t := "+x.I.New[st[i].root].Name)
		for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
			l[a], l[b] = l[b], l[a]
		}
		return l
	}
	c.At(trace)
	apply := func(h interface{}, kind, op uint8, key uint64, val uint8) (interface{}, bool) {
		if kind == rbIns {
			o := &x.I.Ins[op]
			return o.Fn(h, x.Arg(o.Form, key), x.I.Vals[val]), true
		}
		o := &x.I.Dels[op]
		return o.Fn(h, x.Arg(o.Form, key))
	}
	rebuild := func(i int32) interface{} {
		var buf [512]int32
		n := 0
		for st[i].parent >= 0 {
			buf[n] = i
			n++
			i = st[i].parent
		}
		h := x.I.New[st[i].root].Fn()
		for n--; n >= 0; n-- {
			s := &st[buf[n]]
			h, _ = apply(h, s.kind, s.op, s.key, s.val)
		}
		return h
	}
	for i := range x.I.New {
		h := x.I.New[i].Fn()
		cur = int32(len(st))
		st = append(st, rbState{h: h, parent: -1, root: uint8(i)})
		c.Mark()
		x.obs(h, rbModel{}, "empty tree")
		f := sig(h, rbModel{})
		if seen[f] {
			st = st[:cur]
			continue
		}
		seen[f] = true
	}
	// One store op per kind: the copying human insertion and the in-place one.
	fresh := func(m rbModel, k uint64) uint8 {
		hs := fnv.New32a()
		hs.Write([]byte(Digits(k)))
		v := int(hs.Sum32()) % len(x.I.Vals)
		if v < 0 {
			v += len(x.I.Vals)
		}
	again:
		for _, u := range m.vals {
			if int(u) == v {
				v = (v + 1) % len(x.I.Vals)
				goto again
			}
		}
		return uint8(v)
	}
	shards := x.Shards
	if shards < 1 {
		shards = 1
	}
	for i := int32(0); int(i) < len(st); i++ {
		if c.Stop() {
			break
		}
		cur = i
		s := st[i]
		m := rbModel{s.keys, s.vals}
		if int64(s.depth) > c.R.MaxDepth {
			c.R.MaxDepth = int64(s.depth)
		}
		root := i
		for st[root].parent >= 0 {
			root = st[root].parent
		}
		nilRoot := x.I.IsNil != nil && !x.I.NilOK && x.I.IsNil(x.I.New[st[root].root].Fn())
		mine := int(i)%shards == x.Shard
		var before string
		if x.Persist && mine {
			before = x.snap(s.h, m)
		}
		do := func(kind, op uint8, key uint64, store bool) {
			inpl := kind == rbIns && x.I.Ins[op].Inplace
			if inpl && (!x.Inplace || nilRoot) {
				return
			}
			if !mine && !store {
				return
			}
			val := fresh(m, key)
			step = x.stepStr(kind, op, key, val)
			if mine {
				c.Mark()
			}
			h := s.h
			if inpl {
				h = rebuild(i)
			}
			var cmps int64
			if x.Cmps != nil {
				*x.Cmps = 0
			}
			nh, ok := apply(h, kind, op, key, val)
			if x.Cmps != nil {
				cmps = *x.Cmps
			}
			var nm rbModel
			want := true
			if kind == rbIns {
				nm = m.ins(key, val)
			} else {
				nm, want = m.del(key)
			}
			if mine {
				c.R.Trans++
				if kind == rbDel && ok != want && x.Map {
					x.fail("delflag", "%s returned %v; stored: %s", step, ok, m.String(x.I))
				}
				if x.Cmps != nil {
					x.checkCmps(cmps, len(m.keys), step)
				}
				if !inpl || x.Inplace {
					x.obs(nh, nm, "after the last step")
				}
				if inpl && x.Inplace {
					tw := x.twin(int(op))
					ch, _ := apply(s.h, kind, uint8(tw), key, val)
					if a, b := x.snapNoDot(nh, nm), x.snapNoDot(ch, nm); a != b {
						x.fail("inplace", "in-place insertion gives another tree than the copying one:\n%s\nagainst\n%s", a, b)
					}
				}
				if x.Persist && !inpl {
					if after := x.snap(s.h, m); after != before {
						x.fail("persist", "the tree the last step was called on has changed from\n%s\nto\n%s", before, after)
					}
				}
			}
			if store && len(nm.keys) <= x.MaxN {
				f := sig(nh, nm)
				if !seen[f] {
					if len(st) >= x.MaxStates {
						c.Cap(fmt.Sprintf("state limit %d", x.MaxStates))
						return
					}
					seen[f] = true
					st = append(st, rbState{h: nh, keys: nm.keys, vals: nm.vals, parent: i, kind: kind, op: op, key: key, val: val, depth: s.depth + 1})
				}
			}
			step = ""
		}
		for op := range x.I.Ins {
			for _, k := range m.gaps() {
				do(rbIns, uint8(op), k, !x.NoMix || !x.I.Ins[op].Inplace)
			}
			for _, k := range m.keys {
				do(rbIns, uint8(op), k, false)
			}
		}
		for op := range x.I.Dels {
			for _, k := range m.keys {
				do(rbDel, uint8(op), k, true)
			}
			for _, k := range m.gaps() {
				do(rbDel, uint8(op), k, false)
			}
		}
	}
	if x.Persist || x.Map {
		step = "(state re-read after the whole exploration)"
		for i := range st {
			if i%shards != x.Shard {
				continue
			}
			cur = int32(i)
			c.Mark()
			x.obs(st[i].h, rbModel{st[i].keys, st[i].vals}, "old version")
			if x.Persist && !x.Map {
				m := rbModel{st[i].keys, st[i].vals}
				for _, k := range m.keys {
					x.get(st[i].h, m, k, "old version")
				}
				x.enum(st[i].h, m, "old version")
			}
			if i&255 == 0 && c.Stop() {
				break
			}
		}
	}
	n := int64(0)
	for i := range st {
		if i%shards == x.Shard {
			n++
		}
	}
	c.R.States += n
	c.R.Traces += c.R.Trans - trans0
	c.Outcome(fmt.Sprintf("%s shapes n<=%d: %d", x.I.Name, x.MaxN, len(st)))
	cur, step = int32(len(st)-1), ""
	c.Sample(strings.Join(trace(), "; "))
	c.At(nil2)
}

func (x *RB) checkCmps(cmps int64, n int, what string) {
	lg := 0
	for 1<<uint(lg) < n+1 {
		lg++
	}
	if limit := int64(6*lg + 8); cmps > limit {
		x.fail("compare", "%s made %d comparisons in a tree with %d entries", what, cmps, n)
	}
}

func (x *RB) twin(op int) int {
	o := &x.I.Ins[op]
	for i := range x.I.Ins {
		if t := &x.I.Ins[i]; !t.Inplace && t.Form == o.Form {
			return i
		}
	}
	return 0
}

func (x *RB) snapNoDot(h interface{}, m rbModel) string {
	var b strings.Builder
	for gi := range x.I.Gets {
		g := &x.I.Gets[gi]
		for _, k := range m.keys {
			v, ok := g.Fn(h, x.Arg(g.Form, k))
			fmt.Fprintf(&b, "%s %v;", show(v), ok)
		}
	}
	for ei := range x.I.Enums {
		ks, vs := x.I.Enums[ei].Fn(h)
		for i := range ks {
			b.WriteString(ks[i])
			b.WriteByte('=')
			b.WriteString(show(vs[i]))
			b.WriteByte(';')
		}
	}
	return b.String()
}

func (x *RB) snap(h interface{}, m rbModel) string {
	s := x.snapNoDot(h, m)
	if x.I.Dot != nil {
		s += x.I.Dot(h)
	}
	return s
}

// Big runs directed histories over many keys: insertions in the order of perm, then
// deletions in the order of del, observing everything after each `every` steps.
func (x *RB) Big(name string, n int, perm, del func(i int) int, every int, inplace bool) {
	c := x.C
	var hist []string
	step := ""
	c.At(func() []string {
		l := hist
		if len(l) > 40 {
			l = append([]string{fmt.Sprintf("... %d steps of %s", len(hist)-40, name)}, l[len(l)-40:]...)
		}
		return append(append([]string{}, l...), step)
	})
	h := x.I.New[0].Fn()
	m := rbModel{}
	key := func(i int) uint64 { return uint64(i+1) << 20 }
	type old struct {
		h interface{}
		m rbModel
	}
	var olds []old
	op := 0
	if inplace {
		for i := range x.I.Ins {
			if x.I.Ins[i].Inplace {
				op = i
				break
			}
		}
	}
	for i := 0; i < n && !c.Stop(); i++ {
		k := key(perm(i))
		v := uint8((i*7 + 3) % len(x.I.Vals))
		step = x.stepStr(rbIns, uint8(op), k, v)
		c.Mark()
		if x.Cmps != nil {
			*x.Cmps = 0
		}
		h = x.I.Ins[op].Fn(h, x.Arg(x.I.Ins[op].Form, k), x.I.Vals[v])
		if x.Cmps != nil {
			x.checkCmps(*x.Cmps, len(m.keys), step)
		}
		m = m.ins(k, v)
		c.R.Trans++
		hist = append(hist, step)
		step = ""
		if i%every == every-1 || i == n-1 {
			x.obs(h, m, "after insertions")
			if !inplace {
				olds = append(olds, old{h, m})
			}
		}
		if x.Cmps != nil && i%16 == 0 {
			*x.Cmps = 0
			x.I.Gets[0].Fn(h, x.Arg(0, k+1))
			x.checkCmps(*x.Cmps, len(m.keys), "Get")
		}
	}
	if del != nil {
		for i := 0; i < n && !c.Stop(); i++ {
			k := key(del(i))
			step = x.stepStr(rbDel, 0, k, 0)
			c.Mark()
			if x.Cmps != nil {
				*x.Cmps = 0
			}
			nh, ok := x.I.Dels[0].Fn(h, x.Arg(x.I.Dels[0].Form, k))
			if x.Cmps != nil {
				x.checkCmps(*x.Cmps, len(m.keys), step)
			}
			nm, want := m.del(k)
			if ok != want && x.Map {
				x.fail("delflag", "%s returned %v", step, ok)
			}
			h, m = nh, nm
			c.R.Trans++
			hist = append(hist, step)
			step = ""
			if i%every == every-1 || i == n-1 {
				x.obs(h, m, "after deletions")
			}
		}
	}
	step = "(old version re-read)"
	for _, o := range olds {
		x.obs(o.h, o.m, "old version")
		if x.Persist && !x.Map {
			x.enum(o.h, o.m, "old version")
		}
	}
	c.R.States++
	c.R.Traces++
	c.Outcome(fmt.Sprintf("%s directed histories ending with %d entries", x.I.Name, len(m.keys)))
	c.At(nil2)
}

// Huge runs one directed history of a tree which is too big to be observed after every
// step: insertion of n keys, deletion of all but a few, filling again.
func (x *RB) Huge(name string, n int, perm, del func(i int) int, inplace bool) {
	c := x.C
	step := ""
	c.At(func() []string { return []string{fmt.Sprintf("directed history %s of %d keys", name, n), step} })
	has := make([]bool, n)
	vals := make([]uint8, n)
	key := func(i int) uint64 { return uint64(i+1) << 8 }
	var ops []int
	for i := range x.I.Ins {
		if x.I.Ins[i].Inplace == inplace {
			ops = append(ops, i)
		}
	}
	h := x.I.New[0].Fn()
	obs := func(h interface{}, what string) {
		m := rbModel{}
		for i, ok := range has {
			if ok {
				m.keys = append(m.keys, key(i))
				m.vals = append(m.vals, vals[i])
			}
		}
		c.R.States++
		x.obs(h, m, what)
	}
	put := func(i, k int, v uint8) {
		op := ops[i%len(ops)]
		h = x.I.Ins[op].Fn(h, x.Arg(x.I.Ins[op].Form, key(k)), x.I.Vals[v])
		has[k], vals[k] = true, v
		c.R.Trans++
		if i%512 == 0 {
			c.Mark()
		}
	}
	for i := 0; i < n && !c.Stop(); i++ {
		k := perm(i)
		step = fmt.Sprintf("insertion %d: %d", i, k)
		put(i, k, uint8((i*7+3)%len(x.I.Vals)))
	}
	obs(h, "after insertions")
	for i := 0; i < n && !c.Stop(); i++ {
		k := del(i)
		if i > n/2 && k%97 == 0 {
			continue // a few are left
		}
		step = fmt.Sprintf("deletion %d: %d", i, k)
		op := i % len(x.I.Dels)
		nh, ok := x.I.Dels[op].Fn(h, x.Arg(x.I.Dels[op].Form, key(k)))
		if ok != has[k] && x.Map {
			x.fail("delflag", "%s returned %v", step, ok)
		}
		h = nh
		has[k] = false
		c.R.Trans++
		if i%512 == 0 {
			c.Mark()
		}
		if i == n/3 {
			obs(h, "after a third of deletions")
		}
	}
	obs(h, "after deletions")
	for i := 0; i < n && !c.Stop(); i++ {
		k := perm(n - 1 - i)
		step = fmt.Sprintf("insertion %d into what is left: %d", i, k)
		put(i, k, uint8((i*5+2)%len(x.I.Vals)))
	}
	obs(h, "refilled")
	c.R.Traces++
	c.Outcome(fmt.Sprintf("%s directed history of %d entries", x.I.Name, n))
	c.At(nil2)
}

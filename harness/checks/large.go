package checks

import (
	"fmt"
	"net"
	"sort"
	"strings"

	"vh/core"
	"vh/eng"

	"github.com/infobloxopen/go-trees/iptree"
)

// Big universes: long chains of nested keys and wide fans, explored along directed histories.

type bigUni struct {
	name string
	mk   func(c *core.Ctx) *eng.Universe
}

func bigNum(size int) []bigUni {
	base := eng.Prefix{Hi: 0xb6a5c3f01e2d4b79}
	if size == 32 {
		base.Hi &^= 0xffffffff
	}
	flip := func(i, bits int) eng.Prefix {
		p := base.SetBit(i, 1-base.Bit(i))
		p.Bits = bits
		return p
	}
	chain := func(store, hosts, sibs bool) []eng.Prefix {
		var ps []eng.Prefix
		for i := 0; i <= size; i++ {
			p := base
			p.Bits, p.Store = i, store
			ps = append(ps, p)
			if i < size {
				q := flip(i, size)
				q.Store = hosts
				ps = append(ps, q)
				if sibs {
					q = flip(i, i+1)
					q.Store = true
					ps = append(ps, q)
				}
			}
		}
		return ps
	}
	// One leaf to every side of the way to the given key.
	along := func(hi uint64) []eng.Prefix {
		was := base
		defer func() { base = was }()
		if base.Hi = hi; size == 32 {
			base.Hi &^= 0xffffffff
		}
		ps := chain(false, true, false)
		ps[len(ps)-1].Store = true
		return ps
	}
	fan := func(off int, inner bool) []eng.Prefix {
		ps := eng.Adjacent(base, off, 8, inner)
		for i := range ps {
			if ps[i].Bits == off+8 {
				ps[i].Store = true
			}
		}
		return ps
	}
	mk := func(name string, junk bool, ps []eng.Prefix) bigUni {
		return bigUni{name, func(c *core.Ctx) *eng.Universe { return eng.NumUniverse(name, size, ps, junk) }}
	}
	return []bigUni{
		mk("nested prefixes of all lengths", false, chain(true, false, false)),
		mk("keys which differ at every bit", true, chain(false, true, false)),
		mk("nested prefixes and their siblings", false, chain(true, false, true)),
		mk("keys which differ from zero at every bit", false, along(0)),
		mk("keys which differ from all ones at every bit", false, along(^uint64(0))),
		mk("fan of 256", true, fan(size/2-4, false)),
		mk("fan of 256 with all prefixes", false, fan(size-8, true)),
	}
}

func bigIP() []bigUni {
	base := eng.Prefix{Hi: 0x20010db8a5a5c3c3, Lo: 0xb6a5c3f01e2d4b79}
	chain := func(store bool, host bool) []eng.IPKey {
		var ks []eng.IPKey
		for i := 0; i <= 128; i++ {
			p := base
			p.Bits, p.Store = i, store
			ks = append(ks, ip6(p))
			if i < 128 {
				q := base.SetBit(i, 1-base.Bit(i))
				q.Bits = 128
				q.Store = host
				ks = append(ks, ip6(q))
			}
		}
		return ks
	}
	chain4 := func(v6 bool) []eng.IPKey {
		var ks []eng.IPKey
		for i := 0; i <= 32; i++ {
			p := eng.Prefix{Hi: base.Hi &^ 0xffffffff, Bits: i, Store: true}
			ks = append(ks, ip4(p))
			if i < 32 {
				q := p.SetBit(i, 1-p.Bit(i))
				q.Bits = 32
				q.Store = i%3 != 0
				ks = append(ks, ip4(q))
			}
			if v6 {
				p.Bits = 4 * i
				p.Lo = base.Lo
				ks = append(ks, ip6(p))
			}
		}
		return ks
	}
	// One host to every side of the way to the given address, in both families.
	along := func(x uint64) []eng.IPKey {
		var ks []eng.IPKey
		p := eng.Prefix{Hi: x, Lo: x, Bits: 128, Store: true}
		for i := 0; i < 128; i++ {
			ks = append(ks, ip6(p.SetBit(i, 1-p.Bit(i))))
		}
		ks = append(ks, ip6(p))
		p = eng.Prefix{Hi: x &^ 0xffffffff, Bits: 32, Store: true}
		for i := 0; i < 32; i++ {
			ks = append(ks, ip4(p.SetBit(i, 1-p.Bit(i))))
		}
		return append(ks, ip4(p))
	}
	sep := func(n int) []eng.IPKey {
		var ks []eng.IPKey
		for i := 0; i < n; i++ {
			p := base
			p.Hi = p.Hi&^0x1ff<<1 | uint64(i*5)
			p.Bits = []int{64, 65, 72, 128, 64, 96}[i%6]
			p.Store = true
			ks = append(ks, ip6(p))
			q := p
			q.Store = i%4 == 0
			q.Bits = 128
			ks = append(ks, ip6(q))
			q.Store = i%10 == 0
			q.Bits = 56
			ks = append(ks, ip6(q))
		}
		return ks
	}
	mk := func(name string, junk bool, ks []eng.IPKey) bigUni {
		return bigUni{name, func(c *core.Ctx) *eng.Universe { return eng.IPUniverse(name, ks, junk, false) }}
	}
	return []bigUni{
		mk("nested IPv6 networks of all lengths", false, chain(true, false)),
		mk("IPv6 hosts which differ at every bit", true, chain(false, true)),
		mk("nested networks of both families", false, chain4(true)),
		mk("hosts which differ from zero at every bit", false, along(0)),
		mk("hosts which differ from all ones at every bit", false, along(^uint64(0))),
		mk("many IPv6 subtrees", true, sep(140)),
	}
}

func bigDom() []bigUni {
	// labels differ by position, upper levels share letters with lower ones
	at := func(i int) string { return string(rune('A' + i%3)) }
	tail := func(n int) []string {
		l := make([]string, n)
		for i := range l {
			l[n-1-i] = at(i)
		}
		return l
	}
	var deep, comb, wide, tops []eng.Dom
	for i := 0; i <= 127; i++ {
		deep = append(deep, eng.Dom{Labels: tail(i), Store: true})
		comb = append(comb, eng.Dom{Labels: tail(i), Store: i%2 == 0})
		if i > 0 {
			s := tail(i)
			s[0] = "X"
			comb = append(comb, eng.Dom{Labels: s, Store: true})
			deep = append(deep, eng.Dom{Labels: s})
		}
	}
	lab := func(i int) string { return fmt.Sprintf("%s%d", string(rune('A'+i%26)), i/2) }
	wide = append(wide, eng.D(""), eng.D("com"), eng.Q("x.y.com"))
	tops = append(tops, eng.Q(""), eng.Q("com"))
	for i := 0; i < 280; i++ {
		wide = append(wide, eng.Dom{Labels: []string{lab(i), "COM"}, Store: true})
		tops = append(tops, eng.Dom{Labels: []string{lab(i)}, Store: true})
		if i%9 == 0 {
			wide = append(wide, eng.Dom{Labels: []string{"X", lab(i), "COM"}, Store: i%2 == 0})
			tops = append(tops, eng.Dom{Labels: []string{"X", lab(i)}, Store: i%2 == 0})
		}
	}
	mk := func(name string, ds []eng.Dom) bigUni {
		return bigUni{name, func(c *core.Ctx) *eng.Universe { return eng.DomUniverse(c, name, ds, 1) }}
	}
	one := func(l []string, store bool) []eng.Dom {
		var ds []eng.Dom
		for i, s := range l {
			if s != "" {
				ds = append(ds, eng.Dom{Labels: []string{s}, Store: store || i%4 == 0}, eng.Dom{Labels: []string{"X", s, "COM"}, Store: i%4 == 1})
			}
		}
		return ds
	}
	return []bigUni{
		mk("nested domains of all lengths", deep),
		mk("nested domains with neighbours", comb),
		mk("280 subdomains", wide),
		mk("280 top-level domains", tops),
		mk("labels of all lengths", one(byLength(63), false)),
		mk("labels which differ at every position", one(byPos(shortLens[:10]...), true)),
	}
}

// fill makes a string of n bytes a with byte b at position i.
func fill(n, i int, a, b byte) string {
	s := []byte(rep(string(rune(a)), n))
	if i >= 0 && i < n {
		s[i] = b
	}
	return string(s)
}

// byLength are strings of all lengths which differ at the ends, byPos strings of some
// lengths which differ at every position.
func byLength(max int) []string {
	l := []string{""}
	for n := 1; n <= max; n++ {
		l = append(l, fill(n, -1, 'M', 0), fill(n, 0, 'M', 'N'))
		if n > 1 {
			l = append(l, fill(n, n-1, 'M', 'N'))
		}
	}
	return l
}

func byPos(lens ...int) []string {
	var l []string
	for _, n := range lens {
		l = append(l, fill(n, -1, 'M', 0))
		for i := 0; i < n; i++ {
			l = append(l, fill(n, i, 'M', "NL"[i%2]))
		}
	}
	return l
}

var shortLens = []int{2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 18}

func bigStr() []bigUni {
	mk := func(name string, l []string) bigUni {
		return bigUni{name, func(c *core.Ctx) *eng.Universe {
			l := append([]string{}, l...)
			sort.Strings(l)
			var g [][]string
			for _, s := range l {
				g = append(g, []string{s})
			}
			return eng.StrUniverse(name, g)
		}}
	}
	return []bigUni{
		mk("keys of all lengths", byLength(70)),
		mk("keys which differ at every position", byPos(shortLens...)),
		mk("long keys which differ at every position", byPos(66, 130)),
	}
}

func bigLab() []bigUni {
	mk := func(name string, l []string) bigUni {
		return bigUni{name, func(c *core.Ctx) *eng.Universe { return eng.LabelUniverse(name, l, 1) }}
	}
	return []bigUni{
		mk("labels of all lengths", byLength(63)),
		mk("labels which differ at every position", byPos(shortLens...)),
		mk("long labels which differ at every position", byPos(31, 32, 33, 63)),
	}
}

var bigOrders = []string{"general first", "specific first", "from both ends", "stride"}

// largeJobs explores big universes of some kinds: "num", "ip", "dom", "str", "lab".
func largeJobs(kinds string, variants []int, ways []int, set func(b *eng.Big)) []core.Job {
	var js []core.Job
	add := func(prefix string, us []bigUni, impl func() *eng.Impl) {
		for i, u := range us {
			i, u := i, u
			js = append(js, core.Job{Name: prefix + "/" + u.name, Run: func(c *core.Ctx) {
				uni := u.mk(c)
				for _, way := range ways {
					for _, order := range bigOrders {
						if way == eng.WayMixed && order != "stride" {
							continue
						}
						b := &eng.Big{Run: &eng.Run{C: c, I: impl(), U: uni, Rot: i * 5}}
						set(b)
						b.Explore(way, order)
						if c.Stop() {
							return
						}
					}
				}
			}})
		}
	}
	if strings.Contains(kinds, "num") {
		for _, size := range []int{32, 64} {
			size := size
			add(fmt.Sprintf("numtree%d/large", size), bigNum(size), func() *eng.Impl { return eng.NumImpl(size) })
		}
	}
	if strings.Contains(kinds, "lab") {
		add("dltree/large", bigLab(), eng.DLImpl)
	}
	for _, v := range variants {
		v := v
		if strings.Contains(kinds, "str") {
			add(fmt.Sprintf("strtree%d/large", v), bigStr(), func() *eng.Impl { return eng.StrImpl(v, cmpDef) })
		}
		if strings.Contains(kinds, "ip") {
			add(fmt.Sprintf("iptree%d/large", v), bigIP(), func() *eng.Impl { return eng.IPImpl(v) })
		}
		if strings.Contains(kinds, "dom") {
			add(fmt.Sprintf("domaintree%d/large", v), bigDom(), func() *eng.Impl { return eng.DomImpl(v) })
		}
	}
	return js
}

var (
	copyWay  = []int{eng.WayCopy}
	inWays   = []int{eng.WayInplace, eng.WayMixed}
	allWays  = []int{eng.WayCopy, eng.WayInplace, eng.WayMixed}
	bigRule  = "; directed histories (four orders of insertion, copying, in place and mixed, every single deletion from full trees, deletion down to the empty tree and refilling) of big trees: "
	hugeR    = "; directed histories of 70,000 keys"
	bigNumR  = "nested prefixes of all lengths, keys that differ at every bit (from a mixed key, from zero and from all ones), fans of 256 prefixes"
	bigIPR   = "all 129 nested IPv6 networks, hosts that differ at every bit (from a mixed address, from zero and from all ones), nested networks of both families, 140 subtrees of IPv6 networks"
	bigDomR  = "128 nested domains, nested domains with neighbours at every level, 280 siblings, labels of all lengths and labels which differ at every position"
	bigStrR  = "keys of all lengths up to 70, keys up to 130 bytes which differ at every position"
	bigLabR  = "labels of all lengths, labels which differ at every position"
	eachRule = "; large families of keys, each of which is put into a small tree, found, told from its neighbours, replaced and removed: "
	eachStrR = "strings of all lengths up to 600 (4,200 in the thorough tier) and around powers of two up to 128 KiB, every byte in every position of strings up to 40 bytes (100)"
	eachLabR = "every byte in every position of labels of all lengths"
	eachNumR = "every byte in every position of prefixes of all lengths; all pairs of lengths"
	eachAllR = "every byte in every position of strings up to 40 bytes (100 in the thorough tier), of labels of all lengths and of prefixes of all lengths; all pairs of lengths of prefixes"
	allKinds = []int{0, 8, 16, 32, 64}
)

// bigUpdate calls UpdateDescendants on big trees for every network.
func bigUpdate(b *eng.Big) {
	b.Extra = func(h interface{}, m *eng.BigModel, rebuild func() interface{}) {
		c := b.C
		names := map[string]int{}
		for i, x := range b.U.Keys {
			names[x.Enum[eng.Human][0]] = i
		}
		for k, key := range b.U.Keys {
			below := map[int]bool{}
			for _, j := range b.U.Below[k] {
				if j != k && m.Has[j] {
					below[j] = true
				}
			}
			for pat := 0; pat < 3; pat++ {
				if len(below) == 0 && pat > 0 || c.Stop() {
					continue
				}
				c.Mark()
				t := rebuild().(*iptree.Tree)
				nm := m.Clone()
				seen := map[int]bool{}
				cur := fmt.Sprintf("UpdateDescendants(%s), accepting %s of %d networks below", key.SpStr[eng.Human][0], []string{"all", "every other", "none"}[pat], len(below))
				t.UpdateDescendants(key.Sp[eng.Human][0].(*net.IPNet), func(p iptree.Pair) (interface{}, bool) {
					j, ok := names[eng.NetText(p.Key)]
					if !ok || !below[j] || seen[j] {
						c.Fail("update", "%s, %s: visited %v which isn't a stored network strictly below the target or has been visited before", b.U.Name, cur, p.Key)
						return nil, false
					}
					seen[j] = true
					if want := b.I.Vals[m.V[j]]; !eng.Same(p.Value, want) {
						c.Fail("update", "%s, %s: %v visited with value %v, expected %v", b.U.Name, cur, p.Key, p.Value, want)
					}
					if pat == 0 || pat == 1 && j%2 == 0 {
						nm.V[j] = b.Alt(j % 64)
						return b.I.Vals[nm.V[j]], true
					}
					return "not to be stored", false
				})
				c.R.Trans++
				if m.Has[k] && len(seen) != len(below) {
					c.Fail("update", "%s, %s: %d networks visited", b.U.Name, cur, len(seen))
				}
				b.Check(t, nm, "after "+cur)
			}
		}
	}
}

// bigDot checks dumps of big integer trees.
func bigDot(b *eng.Big) {
	size := 64
	if strings.Contains(b.I.Name, "32") {
		size = 32
	}
	b.Watch = func(h interface{}, m *eng.BigModel) {
		s := b.I.Dot(h)
		b.C.R.Evals++
		if err := checkNumDot(s, size, b.Run, m.N == 0, func(i int) bool { return m.Has[i] }, func(i int) uint8 { return m.V[i] }); err != nil {
			b.C.Fail("dot", "%s, %s: %s; %d keys are stored", b.I.Name, b.U.Name, err, m.N)
		}
	}
}

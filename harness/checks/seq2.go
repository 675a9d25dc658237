package checks

import (
	"fmt"
	"net"
	"strings"

	"vh/core"
	"vh/eng"

	"github.com/infobloxopen/go-trees/dltree"
	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/domaintree"
	"github.com/infobloxopen/go-trees/iptree"
)

// ---- C18: every byte in labels ----

func enumBytesJobs() []core.Job {
	var js []core.Job
	for _, v := range eng.Variants {
		v := v
		js = append(js, core.Job{Name: fmt.Sprintf("domaintree%d/all bytes", v), Run: func(c *core.Ctx) {
			im := eng.DomImpl(v)
			for _, shape := range []string{"%", "%%", "x%", "%.x", "x.%", "%.%"} {
				h := im.New[0].Fn()
				type item struct {
					labels []string
					val    interface{}
				}
				var items []item
				c.At(func() []string { return []string{fmt.Sprintf("%d names of the form %s inserted", len(items), shape)} })
				for b := 0; b < 256; b++ {
					if b >= 'a' && b <= 'z' {
						continue
					}
					c.Mark()
					var labels []string
					for _, p := range strings.Split(shape, ".") {
						labels = append(labels, strings.ToUpper(strings.Replace(p, "%", "\x01", -1)))
						l := &labels[len(labels)-1]
						*l = strings.Replace(*l, "\x01", string([]byte{byte(b)}), -1)
					}
					text := eng.NameSpellings(labels, 1)[0]
					n, err := domain.MakeNameFromString(text)
					if err != nil {
						c.Fail("parse", "valid domain name %q is rejected: %s", text, err)
						continue
					}
					val := im.Vals[(b*7+3)%len(im.Vals)]
					if b%2 == 0 {
						h = im.Ins[0].Fn(h, n, val)
					} else {
						h = im.Ins[1].Fn(h, n, val)
					}
					c.R.Trans++
					i := len(items)
					items = append(items, item{labels, val})
					for i > 0 && eng.NameLess(labels, items[i-1].labels) {
						items[i] = items[i-1]
						i--
					}
					items[i] = item{labels, val}
					ks, vs := im.Enums[0].Fn(h)
					c.R.Evals++
					if len(ks) != len(items) {
						c.Fail("enumerate", "%s: %d domains enumerated, %d stored", im.Name, len(ks), len(items))
						break
					}
					for i := range ks {
						if ks[i] != eng.CanonName(items[i].labels) || vs[i] != items[i].val {
							c.Fail("enumerate", "%s: item %d is %s: %v, expected %s: %v", im.Name, i, ks[i], vs[i], eng.CanonName(items[i].labels), items[i].val)
						}
					}
				}
				c.R.States += int64(len(items))
				c.R.Traces++
				c.Outcome(fmt.Sprintf("%s all bytes %s", im.Name, shape))
			}
		}})
	}
	return js
}

// ---- C25 ----

func spellJobs(t core.Tier) []core.Job {
	var js []core.Job
	mode := eng.Mode{CheckIns: true, CheckDel: true, Inplace: true}
	for _, v := range eng.Variants {
		v := v
		for i, du := range domUnis(t) {
			i, du := i, du
			if du.name != "spellings" && du.name != "bytes" && du.name != "long" {
				continue
			}
			if t == core.Quick && du.name == "long" && v != 0 {
				continue
			}
			js = append(js, core.Job{Name: fmt.Sprintf("domaintree%d/%s", v, du.name), Run: func(c *core.Ctx) {
				r := &eng.Run{C: c, I: eng.DomImpl(v), U: du.mk(c), Rot: i * 5, AllSp: true}
				mode := mode
				mode.NoMix = true
				r.BFS(mode)
			}})
		}
	}
	us := labelUnis()
	js = append(js, group("dltree/alphabets", len(us), len(us), func(c *core.Ctx, i int) {
		r := &eng.Run{C: c, I: eng.DLImpl(), U: eng.LabelUniverse(fmt.Sprintf("labels %d", i), us[i], 6), Rot: i * 7, AllSp: true}
		r.BFS(mode)
	})...)
	js = append(js, core.Job{Name: "one-byte labels", Run: oneByteSpellings})
	return js
}

// spellByte lists all texts of a one-byte label.
func spellByte(b byte) []string {
	add := func(l []string, c byte) []string {
		if c != '.' && c != '\\' {
			l = append(l, string([]byte{c}))
		}
		if c < '0' || c > '9' {
			l = append(l, "\\"+string([]byte{c}))
		}
		return append(l, fmt.Sprintf("\\%03d", c))
	}
	l := add(nil, b)
	if b >= 'A' && b <= 'Z' {
		l = add(l, b+32)
	}
	return l
}

func oneByteSpellings(c *core.Ctx) {
	cur := ""
	c.At(func() []string { return []string{cur} })
	// All pairs of spellings of the same byte, and all different bytes stay apart.
	full := new(domaintree.Node)
	var fullL *dltree.Tree
	for b := 0; b < 256; b++ {
		if b >= 'a' && b <= 'z' {
			continue
		}
		sp := spellByte(byte(b))
		for _, tail := range []string{"", ".x", ".\\X."} {
			for i, s1 := range sp {
				for _, s2 := range sp {
					c.Mark()
					cur = fmt.Sprintf("%q and %q", s1+tail, s2+tail)
					n1, err1 := domain.MakeNameFromString(s1 + tail)
					n2, err2 := domain.MakeNameFromString(s2 + tail)
					if err1 != nil || err2 != nil {
						c.Fail("parse", "valid names rejected: %v, %v", err1, err2)
						continue
					}
					tr := (*domaintree.Node)(nil).Insert(n1, i)
					v, ok := tr.Get(n2)
					_, del := tr.Delete(n2)
					_, sub := tr.DeleteSubdomains(n2)
					t2 := tr.Insert(n2, "new")
					n := 0
					for p := range t2.Enumerate() {
						n++
						if p.Value != "new" {
							ok = false
						}
					}
					if !ok || v != i || !del || !sub || n != 1 {
						c.Fail("spelling", "they are different keys of a domain tree: Get %v %v, Delete %v, DeleteSubdomains %v, %d after reinsertion", v, ok, del, sub, n)
					}
					c.R.Trans += 4
					c.R.Evals++
					if tail != "" {
						continue
					}
					for _, dot := range []string{"", "."} {
						lt := (*dltree.Tree)(nil).Insert(s1+dot, i)
						v, ok = lt.Get(s2)
						rv, rok := lt.RawGet(string([]byte{byte(b)}))
						_, del = lt.Delete(s2)
						l2 := lt.Insert(s2, "new")
						n = 0
						for range l2.RawEnumerate() {
							n++
						}
						if !ok || v != i || !rok || rv != i || !del || n != 1 {
							c.Fail("spelling", "they are different keys of a label tree: Get %v %v, RawGet %v %v, Delete %v, %d after reinsertion", v, ok, rv, rok, del, n)
						}
						c.R.Trans += 4
						c.R.Evals++
					}
				}
			}
		}
		n, _ := domain.MakeNameFromString(sp[b%len(sp)] + ".x")
		full = full.Insert(n, b)
		fullL = fullL.Insert(sp[b%len(sp)], b)
	}
	for b := 0; b < 256; b++ {
		if b >= 'a' && b <= 'z' {
			continue
		}
		for _, s := range spellByte(byte(b)) {
			cur = fmt.Sprintf("%q in the tree of all bytes", s)
			n, _ := domain.MakeNameFromString(s + ".X")
			v, ok := full.Get(n)
			lv, lok := fullL.Get(s)
			if !ok || !lok || v != b || lv != b {
				c.Fail("spelling", "got %v %v and %v %v, expected %d", v, ok, lv, lok, b)
			}
			c.R.Evals++
		}
	}
	c.R.States += 230
	c.R.Traces++
	c.Outcome("all pairs of spellings of one-byte labels")
}

// ---- C11 ----

func updHook(r *eng.Run, h interface{}, m *eng.Model, rebuild func() interface{}, trace func() []string) {
	updStates(r, m, rebuild, trace, false)
}

// updStates calls UpdateDescendants for all targets; own makes the caller and the callback
// spoil all networks as soon as they may.
func updStates(r *eng.Run, m *eng.Model, rebuild func() interface{}, trace func() []string, own bool) {
	c := r.C
	cur := ""
	c.At(func() []string { return append(trace(), cur) })
	defer c.At(trace)
	for k, key := range r.U.Keys {
		// stored networks strictly below
		var below []int
		for _, j := range r.U.Order {
			if j != k && m.M>>uint(j)&1 != 0 && r.U.Cont[k]>>uint(j)&1 != 0 {
				below = append(below, j)
			}
		}
		stored := m.M>>uint(k)&1 != 0
		pats := []uint64{0, ^uint64(0)}
		if len(below) > 1 && len(below) <= 3 {
			pats = pats[:0]
			for p := uint64(0); p < 1<<uint(len(below)); p++ {
				pats = append(pats, p)
			}
		} else if len(below) > 3 {
			pats = append(pats, 0x5555555555555555, 0xaaaaaaaaaaaaaaaa, 1, 1<<uint(len(below)-1))
		}
		for sp, spk := range key.Sp[eng.Human] {
			if sp > 0 && !key.Bad && c.Tier == core.Quick && sp != 1+k%3 {
				continue
			}
			for _, pat := range pats {
				if sp > 0 && pat != pats[len(pats)-1] {
					continue
				}
				cur = fmt.Sprintf("t.UpdateDescendants(%s, callback accepting %b of %d networks below)", key.SpStr[eng.Human][sp], pat, len(below))
				c.Mark()
				t := rebuild().(*iptree.Tree)
				nm := *m
				seen := map[int]bool{}
				decode := func(n *net.IPNet) int {
					s := eng.NetText(n)
					for i, x := range r.U.Keys {
						if !x.Bad && x.Enum[eng.Human][0] == s {
							return i
						}
					}
					return -1
				}
				target := spk
				back := func() string { return "" }
				if own {
					target, back = eng.Lend(spk)
				}
				t.UpdateDescendants(target.(*net.IPNet), func(p iptree.Pair) (interface{}, bool) {
					j := decode(p.Key)
					if own {
						defer eng.Spoil(p.Key)
					}
					pos := -1
					for i, x := range below {
						if x == j {
							pos = i
						}
					}
					if pos < 0 {
						c.Fail("update", "visited %v which isn't a stored network strictly below the target; stored: %s", p.Key, r.Stored(m))
						return nil, false
					}
					if seen[j] {
						c.Fail("update", "visited %v twice", p.Key)
						return nil, false
					}
					seen[j] = true
					if want := r.I.Vals[m.V[j]]; !eng.Same(p.Value, want) {
						c.Fail("update", "%v visited with value %v, expected %v", p.Key, p.Value, want)
					}
					if pat>>uint(pos)&1 != 0 {
						nm.V[j] = r.Alt(j)
						return r.I.Vals[r.Alt(j)], true
					}
					return "not to be stored", false
				})
				if s := back(); s != "" {
					c.Fail("argument", "iptree: UpdateDescendants %s", s)
				}
				c.R.Trans++
				if stored && len(seen) != len(below) {
					c.Fail("update", "%d networks visited, %d are below the target; stored: %s", len(seen), len(below), r.Stored(m))
				}
				r.Obs(t, &nm, "after "+cur)
			}
		}
	}
	if m.M == 0 {
		cur = "nil tree"
		var t *iptree.Tree
		for _, key := range r.U.Keys {
			for _, spk := range key.Sp[eng.Human] {
				t.UpdateDescendants(spk.(*net.IPNet), func(iptree.Pair) (interface{}, bool) {
					c.Fail("update", "callback is called for a nil tree")
					return nil, true
				})
			}
		}
	}
}

func init() {
	register(&core.Check{
		ID: "C11", Level: "model_checking",
		Rule:        "breadth-first search over all states on alphabets of networks (as for C08, with unusable networks); in every state UpdateDescendants is called on a rebuilt tree for every network of the universe with all accept patterns of the callback for up to 3 networks below (six patterns for more); visits and the resulting tree are compared with the model; then on every network of big trees (129 nested IPv6 networks, hosts that differ at every bit, both families, 140 subtrees) accepting all, half or none of updates",
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			js := ipBFS(t, eng.Mode{Hook: updHook}, []int{0}, 1)
			for i := 0; i < 3; i++ {
				i := i
				js = append(js, core.Job{Name: fmt.Sprintf("iptree/unusable/%d", i), Run: func(c *core.Ctx) {
					r := &eng.Run{C: c, I: eng.IPImpl(0), U: badUniverse(i)}
					r.BFS(eng.Mode{Hook: updHook})
				}})
			}
			js = append(js, largeJobs("ip", []int{0}, allWays, func(b *eng.Big) {
				b.Gets, b.Enums = true, true
				bigUpdate(b)
			})...)
			return js
		},
	})
	register(&core.Check{
		ID: "C12", Level: "model_checking",
		Rule:        "breadth-first search over all states on small alphabets of networks of both families from new, zero and nil trees; in every state every operation is called with every unusable network and address (nil, wrong lengths of address or mask, masks which are not contiguous, mixed forms) and with both forms of IPv4 addresses",
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			var js []core.Job
			for _, v := range eng.Variants {
				for i := 0; i < 3; i++ {
					i, v := i, v
					js = append(js, core.Job{Name: fmt.Sprintf("iptree%d/unusable/%d", v, i), Run: func(c *core.Ctx) {
						r := &eng.Run{C: c, I: eng.IPImpl(v), U: badUniverse(i), Rot: i, AllSp: true}
						r.BFS(eng.Mode{CheckIns: true, CheckDel: true, Inplace: true})
					}})
				}
				v := v
				js = append(js, core.Job{Name: fmt.Sprintf("iptree%d/masks", v), Run: func(c *core.Ctx) { allMasks(c, v) }})
			}
			return js
		},
	})
}

func badUniverse(i int) *eng.Universe {
	var ks []eng.IPKey
	switch i {
	case 0:
		for _, b := range []int{0, 9, 32} {
			ks = append(ks, ip4(eng.Prefix{Hi: 0x0a01020300000000, Bits: b, Store: true}))
		}
		ks = append(ks, ip6(eng.Prefix{Hi: 0x0a01020300000000, Bits: 20, Store: true}))
	case 1:
		for _, b := range []int{0, 33, 64, 77, 128} {
			ks = append(ks, ip6(eng.Prefix{Hi: 0x20010db8ffff0001, Lo: 0x8000000000000001, Bits: b, Store: true}))
		}
	case 2:
		ks = append(ks, ip4(eng.Prefix{Hi: 0x7f00000100000000, Bits: 32, Store: true}), ip4(eng.Prefix{Hi: 0x7f00000000000000, Bits: 31, Store: true}),
			ip6(eng.Prefix{Lo: 0xffff7f000001, Bits: 128, Store: true}), ip6(eng.Prefix{Lo: 0xffff00000000, Bits: 96, Store: true}), ip6(eng.Prefix{Lo: 1, Bits: 128, Store: true}))
	}
	return eng.IPUniverse(fmt.Sprintf("networks %d and unusable keys", i), ks, false, true)
}

// allMasks tries masks of all byte lengths up to 20 made of few bytes with addresses of all lengths up to 20.
func allMasks(c *core.Ctx, variant int) {
	im := eng.IPImpl(variant)
	cur := ""
	c.At(func() []string { return []string{cur} })
	var masks []net.IPMask
	for l := 0; l <= 20; l++ {
		for n := 0; n <= l*8; n++ {
			m := make(net.IPMask, l)
			for i := 0; i < n; i++ {
				m[i/8] |= 0x80 >> uint(i%8)
			}
			masks = append(masks, m)
			if l == 4 || l == 16 {
				// one more bit set or cleared
				for x := 0; x < l*8; x++ {
					d := append(net.IPMask{}, m...)
					d[x/8] ^= 0x80 >> uint(x%8)
					masks = append(masks, d)
				}
			}
		}
	}
	full := im.New[0].Fn()
	for _, s := range []string{"0.0.0.0/0", "255.255.255.255/32", "::/0", "ffff:ffff:ffff:ffff::/64", "ffff:ffff:ffff:ffff:ffff:ffff:ffff:ffff/128"} {
		_, n, _ := net.ParseCIDR(s)
		full = im.Ins[0].Fn(full, n, im.Vals[3])
	}
	count := func(h interface{}) int {
		ks, _ := im.Enums[0].Fn(h)
		return len(ks)
	}
	nf := count(full)
	for _, m := range masks {
		ones := 0
		contiguous := true
		for i := 0; i < len(m)*8; i++ {
			if m[i/8]>>uint(7-i%8)&1 != 0 {
				if i != ones {
					contiguous = false
				}
				ones++
			}
		}
		for _, al := range []int{0, 1, 3, 4, 5, 8, 12, 15, 16, 17, 20} {
			a := make(net.IP, al)
			for i := range a {
				a[i] = 0xff
			}
			n := &net.IPNet{IP: a, Mask: m}
			cur = fmt.Sprintf("&net.IPNet{IP: net.IP(%q), Mask: net.IPMask(%q)}", string(a), string(m))
			c.Mark()
			good := contiguous && al == len(m) && (al == 4 || al == 16)
			for _, base := range []interface{}{full, im.New[0].Fn(), im.New[1].Fn()} {
				before := count(base)
				t := im.Ins[0].Fn(base, n, im.Vals[1])
				v, ok := im.Gets[0].Fn(t, n)
				d, del := im.Dels[0].Fn(base, n)
				c.R.Trans += 3
				if good {
					if !ok || v != im.Vals[1] {
						c.Fail("unusable", "inserted network isn't found: %v, %v", v, ok)
					}
					continue
				}
				if ok || v != im.Zero || del || count(t) != before || count(d) != before || count(base) != before {
					c.Fail("unusable", "unusable network isn't ignored: found %v (%v), deleted %v, %d networks after insertion and %d after deletion, %d before", ok, v, del, count(t), count(d), before)
				}
				if _, ok := im.Gets[0].Fn(full, n); ok {
					c.Fail("unusable", "unusable network is found")
				}
			}
		}
		if c.Stop() {
			break
		}
	}
	if count(full) != nf {
		c.Fail("unusable", "the tree has changed")
	}
	c.R.States += 3
	c.R.Traces += int64(len(masks))
	c.Outcome(fmt.Sprintf("%s masks tried", im.Name))
}

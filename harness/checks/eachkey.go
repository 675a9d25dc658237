package checks

import (
	"fmt"

	"vh/core"
	"vh/eng"

	"github.com/infobloxopen/go-trees/domain"
)

// Families of keys tried one by one.

// filler is a string without two equal bytes close to each other.
func filler(n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = "KQ2ZB7XMG-A9WTE4"[(i*5+i/16)%16]
	}
	return b
}

func strKey(s string) *eng.EachKey {
	k := &eng.EachKey{Str: s}
	for f := range k.Arg {
		k.Arg[f], k.Enum[f] = s, s
	}
	return k
}

func labKey(l string) *eng.EachKey {
	k := &eng.EachKey{Str: l}
	k.Arg[eng.Human] = eng.HumanLabel(l)
	k.Arg[eng.Raw] = l
	k.Enum[eng.Human], k.Enum[eng.Raw] = eng.HumanLabel(l), l
	return k
}

func nameKey(c *core.Ctx, labels ...string) *eng.EachKey {
	t := eng.NameSpellings(labels, 1)[0]
	n, err := domain.MakeNameFromString(t)
	if err != nil {
		c.Fail("parse", "valid domain name %q is rejected: %s", t, err)
	}
	k := &eng.EachKey{Str: eng.CanonName(labels), L: labels}
	k.Arg[eng.Human] = n
	k.Enum[eng.Human] = k.Str
	return k
}

func numKey(p eng.Prefix, size int) *eng.EachKey {
	p = p.Norm()
	v := p.Hi
	if size == 32 {
		v >>= 32
	}
	k := &eng.EachKey{Str: eng.PText(v, p.Bits, size), P: eng.IPKey{Prefix: p}}
	k.Arg[eng.Human] = eng.P{Key: v, Bits: p.Bits}
	k.Enum[eng.Human] = k.Str
	return k
}

// eachStr: all lengths, and every byte in every position.
func eachStr(x *eng.Each, t core.Tier, shard, shards, maxLen int) {
	x.Less = func(a, b *eng.EachKey) bool { return a.Str < b.Str }
	for _, s := range []string{"", "K", "\x80"} {
		x.Base = append(x.Base, strKey(s))
	}
	near := func(b []byte, pos int) {
		k := strKey(string(b))
		l := []*eng.EachKey{strKey(string(b[:len(b)-1])), strKey(string(b) + "\x00")}
		if pos >= 0 {
			b[pos]++
			l[pos%2] = strKey(string(b))
			b[pos]--
		}
		x.Do(k, l...)
	}
	var lens []int
	for n := 1; n <= pick(t, 600, 4200); n++ {
		lens = append(lens, n)
	}
	for _, p := range []int{10, 11, 12, 13, 14, 15, 16, 17} {
		lens = append(lens, 1<<uint(p)-1, 1<<uint(p), 1<<uint(p)+1)
	}
	for i := shard; i < len(lens); i += shards {
		b := filler(lens[i])
		near(b, len(b)-1)
		near(b, len(b)/2)
		near(b, -1)
		if x.C.Stop() {
			return
		}
	}
	for n := 1 + shard; n <= maxLen; n += shards {
		for pos := 0; pos < n; pos++ {
			b := filler(n)
			for v := 0; v < 256; v++ {
				b[pos] = byte(v)
				near(b, pos)
			}
			if x.C.Stop() {
				return
			}
		}
	}
}

// eachLabel calls f for labels of all lengths with every byte in every position, and
// with similar labels.
func eachLabel(c *core.Ctx, t core.Tier, shard, shards, step int, f func(l string, near ...string)) {
	for n := 1 + shard; n <= 63; n += shards {
		for pos := 0; pos < n; pos++ {
			b := filler(n)
			for v := (n + pos) % step; v < 256; v += step {
				if v >= 'a' && v <= 'z' {
					continue
				}
				b[pos] = byte(v)
				l := string(b)
				w := v + 1
				if w == 'a' {
					w = '{'
				}
				b[pos] = byte(w)
				o := string(b)
				if pos%2 == 0 {
					f(l, o)
				} else if n > 1 {
					f(l, o, l[:n-1])
				} else {
					f(l, o)
				}
			}
			if c.Stop() {
				return
			}
		}
	}
}

func eachDL(x *eng.Each, t core.Tier, shard, shards, step int) {
	x.Less = func(a, b *eng.EachKey) bool { return eng.ShortLex(a.Str, b.Str) < 0 }
	for _, s := range []string{"K", "\x80", "KLMNOPQRSTUVWXYZ0123456789"} {
		x.Base = append(x.Base, labKey(s))
	}
	eachLabel(x.C, t, shard, shards, step, func(l string, near ...string) {
		var ks []*eng.EachKey
		for _, n := range near {
			ks = append(ks, labKey(n))
		}
		x.Do(labKey(l), ks...)
	})
}

func eachDom(x *eng.Each, t core.Tier, shard, shards, step int) {
	x.Less = func(a, b *eng.EachKey) bool { return eng.NameLess(a.L, b.L) }
	x.Contains = func(a, b *eng.EachKey) bool { return eng.IsSub(b.L, a.L) }
	c := x.C
	x.Base = append(x.Base, nameKey(c, "X"), nameKey(c, "K", "X"), nameKey(c, "COM"))
	i := 0
	eachLabel(c, t, shard, shards, step, func(l string, near ...string) {
		i++
		var ks []*eng.EachKey
		for _, n := range near {
			ks = append(ks, nameKey(c, n, "X"))
		}
		switch i % 3 {
		case 0:
			ks = append(ks, nameKey(c, "WWW", l, "X"))
		case 1:
			ks = append(ks, nameKey(c, l))
		}
		x.Do(nameKey(c, l, "X"), ks...)
	})
}

// eachPrefix calls f for prefixes of all lengths with every byte in every position.
func eachPrefix(c *core.Ctx, size, shard, shards, step int, f func(p eng.Prefix, near ...eng.Prefix)) {
	for n := 1 + shard; n <= size; n += shards {
		for pos := 0; pos*8 < n; pos++ {
			for v := (n + pos) % step; v < 256; v += step {
				p := eng.Prefix{Hi: bases[(n+pos)%len(bases)], Lo: bases[(n+pos+1)%len(bases)], Bits: n}
				for i := 0; i < 8; i++ {
					p = p.SetBit(pos*8+i, v>>uint(7-i)&1)
				}
				last := n - 1
				q := p.SetBit(last, 1-p.Bit(last))
				if v%2 == 0 && n > 1 {
					q = p
					q.Bits--
				}
				f(p, q)
			}
			if c.Stop() {
				return
			}
		}
	}
}

func eachNum(x *eng.Each, size, shard, shards, step int) {
	x.Less = func(a, b *eng.EachKey) bool { return a.P.Less(b.P.Prefix) }
	x.Contains = func(a, b *eng.EachKey) bool { return a.P.Contains(b.P.Prefix) }
	for _, b := range []uint64{0, 0xc << 60, 0x8123 << 48} {
		x.Base = append(x.Base, numKey(eng.Prefix{Hi: b, Bits: len(x.Base) * 8}, size))
	}
	eachPrefix(x.C, size, shard, shards, step, func(p eng.Prefix, near ...eng.Prefix) {
		x.Do(numKey(p, size), numKey(near[0], size))
	})
}

func eachIP(x *eng.Each, size, shard, shards, step int) {
	x.Less = func(a, b *eng.EachKey) bool {
		if a.P.V6 != b.P.V6 {
			return b.P.V6
		}
		return a.P.Less(b.P.Prefix)
	}
	x.Contains = func(a, b *eng.EachKey) bool { return a.P.V6 == b.P.V6 && a.P.Contains(b.P.Prefix) }
	key := func(p eng.Prefix, v6 bool) *eng.EachKey { return eng.IPEach(eng.IPKey{Prefix: p, V6: v6}) }
	x.Base = append(x.Base, key(eng.Prefix{Hi: 10 << 56, Bits: 8}, false), key(eng.Prefix{Hi: 0x20010db8 << 32, Bits: 32}, true), key(eng.Prefix{Hi: 0x20010db8 << 32, Lo: 1, Bits: 128}, true))
	eachPrefix(x.C, size, shard, shards, step, func(p eng.Prefix, near ...eng.Prefix) {
		x.Do(key(p, size == 128), key(near[0], size == 128))
	})
}

func rbDump(text string, keys []*eng.EachKey, vals []interface{}) error {
	ns, err := eng.ParseDot(text)
	if err != nil {
		return err
	}
	ord, err := eng.InOrder(ns)
	if err != nil {
		return err
	}
	if len(ord) != len(keys) && len(keys) > 0 {
		return fmt.Errorf("%d nodes are listed, %d are stored", len(ord), len(keys))
	}
	for i, k := range keys {
		if err := eng.DotLabel(ns[ord[i]].Label, k.Enum[eng.Raw], vals[i]); err != nil {
			return fmt.Errorf("label %q is found where key %q with value %#v is expected: %s", ns[ord[i]].Label, k.Str, vals[i], err)
		}
	}
	return nil
}

func numDump(size int) func(text string, keys []*eng.EachKey, vals []interface{}) error {
	return func(text string, keys []*eng.EachKey, vals []interface{}) error {
		u := &eng.Universe{}
		r := &eng.Run{I: &eng.Impl{}, U: u}
		for i, k := range keys {
			ek := &eng.Key{Str: k.Str}
			ek.Enum[eng.Human] = []string{k.Str}
			u.Keys = append(u.Keys, ek)
			r.I.Vals = append(r.I.Vals, vals[i])
		}
		return checkNumDot(text, size, r, len(keys) == 0, func(int) bool { return true }, func(i int) uint8 { return uint8(i) })
	}
}

// eachJobs makes jobs for kinds of trees. Typed trees have keys only partially in the
// quick tier.
func eachJobs(t core.Tier, kind string, variants []int, set func(x *eng.Each)) []core.Job {
	var js []core.Job
	mk := func(c *core.Ctx, im *eng.Impl, name string) *eng.Each {
		x := &eng.Each{Run: &eng.Run{C: c, I: im, U: &eng.Universe{Name: name}}}
		set(x)
		return x
	}
	dump := func(x *eng.Each, f func(text string, keys []*eng.EachKey, vals []interface{}) error) *eng.Each {
		if x.Dots {
			x.Dump = f
		}
		return x
	}
	step3 := 1
	if x := (&eng.Each{}); t == core.Quick {
		// values of bytes are spread over positions and lengths where more is checked
		if set(x); x.Enums || x.Persist {
			step3 = 3
		}
	}
	add := func(name string, shards int, run func(c *core.Ctx, shard int)) {
		for s := 0; s < shards; s++ {
			s := s
			js = append(js, core.Job{Name: fmt.Sprintf("%s/each key/%d", name, s), Run: func(c *core.Ctx) {
				run(c, s)
				c.Outcome(name + " each key")
			}})
		}
	}
	switch kind {
	case "str":
		for _, v := range variants {
			v := v
			im := eng.StrImpl(v, cmpDef)
			n := pick(t, 40, 100)
			if t == core.Quick && v != 0 {
				n = 24
			}
			add(im.Name, pick(t, 4, 16), func(c *core.Ctx, s int) {
				eachStr(dump(mk(c, im, "strings"), rbDump), t, s, pick(t, 4, 16), n)
			})
		}
	case "dl":
		add("dltree", pick(t, 6, 16), func(c *core.Ctx, s int) {
			eachDL(dump(mk(c, eng.DLImpl(), "labels"), rbDump), t, s, pick(t, 6, 16), 1)
		})
	case "dom":
		for _, v := range variants {
			v := v
			im := eng.DomImpl(v)
			add(im.Name, pick(t, 4, 16), func(c *core.Ctx, s int) {
				eachDom(mk(c, im, "labels of domains"), t, s, pick(t, 4, 16), step3)
			})
		}
	case "num":
		for _, size := range []int{32, 64} {
			size := size
			add(fmt.Sprintf("numtree%d", size), pick(t, size/16, 8), func(c *core.Ctx, s int) {
				eachNum(dump(mk(c, eng.NumImpl(size), "prefixes"), numDump(size)), size, s, pick(t, size/16, 8), 1)
			})
		}
	case "ip":
		for _, v := range variants {
			v := v
			im := eng.IPImpl(v)
			for _, size := range []int{32, 128} {
				size := size
				step := 1
				if t == core.Quick && size == 128 {
					step = 3
				}
				add(fmt.Sprintf("%s/v%d", im.Name, 4+size/128*2), pick(t, 1+size/64, 8), func(c *core.Ctx, s int) {
					eachIP(mk(c, im, "networks"), size, s, pick(t, 1+size/64, 8), step)
				})
			}
		}
	}
	return js
}

package checks

import (
	"fmt"

	"vh/core"
	"vh/eng"
)

// pairOf is a universe for two lengths a < b: a prefix, a longer one in it, and another one
// of the same length which parts from that right after a bits.
func pairOf(x eng.Prefix, a, b, size int) []eng.Prefix {
	x = x.Norm()
	var ps []eng.Prefix
	add := func(p eng.Prefix, bits int, store bool) {
		p.Bits, p.Store = bits, store
		ps = append(ps, p)
	}
	y := x.SetBit(a, 1-x.Bit(a))
	add(x, a, true)
	add(x, b, true)
	add(y, b, true)
	add(x, size, false)
	if a > 0 {
		add(x, a-1, false)
	}
	if b-a > 1 {
		add(x, b-1, false)
	}
	return ps
}

func eachPair(size int, f func(i, a, b int)) {
	i := 0
	for a := 0; a < size; a++ {
		for b := a + 1; b <= size; b++ {
			f(i, a, b)
			i++
		}
	}
}

type lengths struct{ a, b int }

func allPairs(size int) []lengths {
	var l []lengths
	eachPair(size, func(i, a, b int) { l = append(l, lengths{a, b}) })
	return l
}

// numPairs are states of all pairs of lengths.
func numPairs(t core.Tier, mode eng.Mode) []core.Job {
	var js []core.Job
	for _, size := range []int{32, 64} {
		size := size
		l := allPairs(size)
		js = append(js, group(fmt.Sprintf("numtree%d/all pairs of lengths", size), len(l), pick(t, 2, 8), func(c *core.Ctx, i int) {
			for bi, b := range bases {
				if t == core.Quick && bi != i%len(bases) {
					continue
				}
				if size == 32 {
					b <<= 32
				}
				p := l[i]
				r := &eng.Run{C: c, I: eng.NumImpl(size), U: eng.NumUniverse("prefixes of two lengths", size, pairOf(eng.Prefix{Hi: b, Bits: size}, p.a, p.b, size), i%3 == 1), Rot: i}
				r.BFS(mode)
			}
		})...)
	}
	return js
}

// ipPairs is the same for networks.
func ipPairs(t core.Tier, mode eng.Mode, variants []int) []core.Job {
	var js []core.Job
	for _, v := range variants {
		v := v
		for _, size := range []int{32, 128} {
			size := size
			l := allPairs(size)
			js = append(js, group(fmt.Sprintf("iptree%d/all pairs of lengths %d", v, size), len(l), pick(t, size/32, size/16), func(c *core.Ctx, i int) {
				// typed trees are made from the same templates
				if t == core.Quick && v != 0 && i%4 != v/8%4 {
					return
				}
				x := eng.Prefix{Hi: bases[i%len(bases)], Lo: bases[(i+1)%len(bases)], Bits: 128}
				if size == 32 {
					x = eng.Prefix{Hi: bases[i%len(bases)] << 32, Bits: 32}
				}
				p := l[i]
				var ks []eng.IPKey
				for _, q := range pairOf(x, p.a, p.b, size) {
					ks = append(ks, eng.IPKey{Prefix: q, V6: size == 128})
				}
				r := &eng.Run{C: c, I: eng.IPImpl(v), U: eng.IPUniverse("networks of two lengths", ks, i%3 == 1, false), Rot: i}
				r.BFS(mode)
			})...)
		}
	}
	return js
}

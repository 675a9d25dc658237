package checks

import (
	"fmt"
	"strings"

	"vh/core"
	"vh/eng"
)

// ---- domains ----

type domUni struct {
	name string
	mk   func(c *core.Ctx) *eng.Universe
	big  bool // many states
	// in-place insertions make states too
	mixed bool
}

func names(max int, store bool, labels ...string) []eng.Dom {
	out := []eng.Dom{{Labels: nil, Store: store}}
	cur := [][]string{nil}
	for d := 0; d < max; d++ {
		var next [][]string
		for _, n := range cur {
			for _, l := range labels {
				m := append([]string{l}, n...)
				next = append(next, m)
				out = append(out, eng.Dom{Labels: m, Store: store})
			}
		}
		cur = next
	}
	return out
}

func rep(s string, n int) string { return strings.Repeat(s, n) }

func labelsOf(n int, l string) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = l
	}
	return out
}

// chain makes names with given numbers of labels, every one below the previous one.
func chain(c *core.Ctx, lens []int, store bool) []eng.Dom {
	var out []eng.Dom
	for _, n := range lens {
		out = append(out, eng.Dom{Labels: labelsOf(n, "A"), Store: store})
	}
	return out
}

func domUnis(t core.Tier) []domUni {
	us := []domUni{
		{name: "binary", big: true, mk: func(c *core.Ctx) *eng.Universe {
			ds := names(2, true, "A", "B")
			for _, n := range []string{"a.a.a", "b.a.a", "a.b.a", "b.b.a"} {
				ds = append(ds, eng.D(n))
			}
			ds = append(ds, eng.Q("c"), eng.Q("c.a"), eng.Q("a.a.a.a"), eng.Q("a.a.b"), eng.Q("c.b.b.a"))
			return eng.DomUniverse(c, "2 labels, 3 levels", ds, 1)
		}},
		{name: "mixed", mixed: true, mk: func(c *core.Ctx) *eng.Universe {
			ds := []eng.Dom{eng.D(""), eng.D("a"), eng.D("a.a"), eng.D("b.a"), eng.D("a.b.a"), eng.D("b"), eng.Q("c.a"), eng.Q("a.b")}
			return eng.DomUniverse(c, "mixed ways of insertion", ds, 1)
		}},
		{name: "lean", mk: func(c *core.Ctx) *eng.Universe {
			var ds []eng.Dom
			for _, n := range []string{"", "a", "b", "a.a", "b.a", "a.b", "a.a.a", "b.a.a"} {
				ds = append(ds, eng.D(n))
			}
			ds = append(ds, eng.Q("c"), eng.Q("a.a.a.a"), eng.Q("b.b"))
			return eng.DomUniverse(c, "2 labels, up to 3 levels", ds, 2)
		}},
		{name: "wide", big: true, mk: func(c *core.Ctx) *eng.Universe {
			ds := []eng.Dom{eng.D(""), eng.D("com"), eng.D("a.com"), eng.D("b.com"), eng.D("c.com"), eng.D("d.com"), eng.D("e.com"), eng.D("f.com"), eng.D("x.c.com"), eng.Q("g.com"), eng.Q("x.a.com"), eng.Q("net")}
			return eng.DomUniverse(c, "6 siblings", ds, 2)
		}},
		{name: "tld", mk: func(c *core.Ctx) *eng.Universe {
			var ds []eng.Dom
			for _, s := range []string{"", "a", "b", "c", "dd", "ee", "ff", "ggg", "x.dd"} {
				ds = append(ds, eng.D(s))
			}
			ds = append(ds, eng.Q("h"), eng.Q("x.y.dd"))
			return eng.DomUniverse(c, "top-level siblings", ds, 2)
		}},
		{name: "chains", mk: func(c *core.Ctx) *eng.Universe {
			lens := []int{0, 1, 2, 63, 64, 65, 125, 126, 127}
			if t == core.Quick {
				lens = []int{0, 1, 64, 125, 126, 127}
			}
			ds := chain(c, lens, true)
			b := labelsOf(127, "A")
			b[0] = "B"
			ds = append(ds, eng.Dom{Labels: b, Store: true})
			m := labelsOf(126, "A")
			m[0] = "B"
			ds = append(ds, eng.Dom{Labels: m, Store: false})
			return eng.DomUniverse(c, "names up to 127 labels", ds, 1)
		}},
		{name: "long", mk: func(c *core.Ctx) *eng.Universe {
			l63 := rep("A", 63)
			k63 := rep("A", 62) + "B"
			l62 := rep("A", 62)
			l61 := rep("A", 61)
			ds := []eng.Dom{
				{Labels: []string{l63}, Store: true}, {Labels: []string{k63}, Store: true}, {Labels: []string{l62}, Store: true},
				{Labels: []string{l63, l63, l63}, Store: true}, {Labels: []string{l62, l63, l63, l63}, Store: true},
				{Labels: []string{l61 + "B", l63, l63, l63}, Store: true},
				{Labels: []string{rep("\xff", 63), l63}, Store: true},
				{Labels: []string{rep("\x00", 63), l63}, Store: true},
				{Labels: []string{l63, l63}, Store: false},
				{Labels: []string{l61, l63, l63, l63}, Store: false},
			}
			return eng.DomUniverse(c, "long labels", ds, 3)
		}},
		{name: "bytes", mk: func(c *core.Ctx) *eng.Universe {
			var ds []eng.Dom
			for _, l := range []string{".", "\\", "A.B", "\x00", "\xff", " ", "\"", "@"} {
				ds = append(ds, eng.Dom{Labels: []string{l, "X"}, Store: true})
			}
			ds = append(ds, eng.Dom{Labels: []string{"A", "B", "X"}, Store: false}, eng.Dom{Labels: []string{"X"}, Store: false},
				eng.Dom{Labels: []string{"Y", ".", "X"}, Store: true})
			return eng.DomUniverse(c, "odd bytes", ds, 6)
		}},
		{name: "utf-8", mk: func(c *core.Ctx) *eng.Universe {
			var ds []eng.Dom
			for _, l := range []string{"\xc3\xa9", "\xc3\x89", "\xff", "\xef\xbf\xbd", "\xe9"} {
				ds = append(ds, eng.Dom{Labels: []string{l, "X"}, Store: true})
			}
			ds = append(ds, eng.Dom{Labels: []string{"\xc3\xa9"}, Store: true}, eng.Dom{Labels: []string{"\xc3", "\xc3\xa9"}, Store: false})
			return eng.DomUniverse(c, "bytes of letters beyond ASCII", ds, 6)
		}},
		{name: "spellings", mk: func(c *core.Ctx) *eng.Universe {
			ds := []eng.Dom{eng.D(""), eng.D("Com"), eng.D("a.com"), eng.D("Ab9.a.com"), {Labels: []string{"A.COM"}, Store: true}, {Labels: []string{"A\\.COM"}, Store: true}, {Labels: []string{"{"}, Store: true}, {Labels: []string{"["}, Store: true}}
			return eng.DomUniverse(c, "spellings", ds, 6)
		}},
		{name: "special", mk: func(c *core.Ctx) *eng.Universe {
			ds := []eng.Dom{eng.D("*"), eng.D("*.com"), eng.D("com"), eng.D("_a.com"), eng.D("xn--4ca.com"), eng.D("1.0.127.in-addr.arpa"), eng.D("arpa"), eng.D("-.*.com"),
				eng.Q("a.com"), eng.Q("a.b.com"), eng.Q("*.*.com"), eng.Q("localhost"), eng.Q("a.-.*.com"), eng.Q("01.0.127.in-addr.arpa")}
			return eng.DomUniverse(c, "labels with a meaning elsewhere", ds, 2)
		}},
		{name: "lengths", mk: func(c *core.Ctx) *eng.Universe {
			// concatenated labels and bytes equal to lengths
			ds := []eng.Dom{eng.D("ab"), eng.D("a.b"), eng.D("b"), eng.D("aab"),
				{Labels: []string{"\x01A", "B"}, Store: true}, {Labels: []string{"A\x01B"}, Store: true}, {Labels: []string{"\x01", "B"}, Store: true},
				{Labels: []string{"A", "\x01B"}, Store: true}, {Labels: []string{"A\x00", "B"}, Store: false}, {Labels: []string{"\x00A", "B"}, Store: false}}
			return eng.DomUniverse(c, "labels which look like several ones in binary form", ds, 3)
		}},
	}
	if t == core.Thorough {
		us = append(us, domUni{name: "ternary", big: true, mk: func(c *core.Ctx) *eng.Universe {
			ds := names(2, true, "A", "B")
			ds = append(ds, eng.D("c"), eng.D("a.c"), eng.D("b.c"), eng.D("c.a"), eng.D("c.b"), eng.Q("c.a.a"), eng.Q("d"))
			return eng.DomUniverse(c, "3 labels, 2 levels", ds, 2)
		}})
	}
	return us
}

// ---- prefixes ----

var bases = []uint64{0, ^uint64(0), 0xaaaaaaaaaaaaaaaa, 0x123456789abcdef0}

type numUni struct {
	name string
	mk   func(c *core.Ctx) *eng.Universe
	big  bool
}

func withQueries(ps []eng.Prefix, size int) []eng.Prefix {
	out := append([]eng.Prefix{}, ps...)
	// hosts below and neighbours outside
	for i, p := range ps {
		if i > 8 {
			break
		}
		q := p
		q.Bits = size
		out = append(out, q)
		if p.Bits > 0 {
			q = p.SetBit(p.Bits-1, 1-p.Bit(p.Bits-1))
			out = append(out, q)
			q.Bits = size
			out = append(out, q)
		}
		if p.Bits > 1 {
			q = p.SetBit(0, 1-p.Bit(0))
			out = append(out, q)
		}
	}
	for i := len(ps); i < len(out); i++ {
		out[i].Store = false
	}
	return out
}

// numUnis are universes of prefixes for a key size.
func numUnis(t core.Tier, size int) []numUni {
	var us []numUni
	base := func(b uint64) eng.Prefix {
		if size == 32 {
			b <<= 32
			if b == 0 {
				b = 0x9abcdef0 << 32
			}
		}
		return eng.Prefix{Hi: b}
	}
	// All prefixes of three adjacent lengths at every offset: all subsets and orders.
	step := pick(t, 1, 1)
	for off := 0; off+2 <= size; off += step {
		off := off
		for bi, b := range bases {
			if t == core.Quick && bi != off%len(bases) && bi != (off+1)%len(bases) {
				continue
			}
			b := b
			us = append(us, numUni{name: fmt.Sprintf("adjacent-%d-%d", off, bi), mk: func(c *core.Ctx) *eng.Universe {
				bp := base(b)
				if bi == 0 {
					bp.Hi = 0
				}
				ps := eng.Adjacent(bp, off, 2, true)
				sp := bp
				if off > 0 {
					sp.Bits = 0
					ps = append(ps, sp)
				}
				sp.Bits = 0
				sp.Store = false
				ps = append(ps, sp)
				return eng.NumUniverse(fmt.Sprintf("prefixes of lengths %d to %d, base %#x", off, off+2, b), size, withQueries(ps, size), bi%2 == 1)
			}})
		}
	}
	// Pairs and triples of far branching positions.
	var pos []int
	if t == core.Quick {
		pos = []int{0, 1, 7, 8, 15, 16, 30, 31}
		if size == 64 {
			pos = []int{0, 1, 7, 31, 32, 33, 62, 63}
		}
	} else {
		for i := 0; i < size; i++ {
			pos = append(pos, i)
		}
	}
	for _, a := range pos {
		a := a
		for _, b := range pos {
			if b <= a {
				continue
			}
			b := b
			us = append(us, numUni{name: fmt.Sprintf("branch-%d-%d", a, b), mk: func(c *core.Ctx) *eng.Universe {
				x := base(0x5a5a5a5a5a5a5a5a)
				x.Store = true
				var ps []eng.Prefix
				add := func(p eng.Prefix, bits int) {
					p.Bits = bits
					ps = append(ps, p)
				}
				y := x.SetBit(a, 1-x.Bit(a))
				z := x.SetBit(b, 1-x.Bit(b))
				add(x, a)
				add(x, a+1)
				add(y, a+1)
				add(x, b+1)
				add(z, b+1)
				add(x, size)
				add(y, size)
				add(z, size)
				return eng.NumUniverse(fmt.Sprintf("branches at bits %d and %d", a, b), size, ps, (a+b)%2 == 0)
			}})
		}
	}
	// Depth three at a few offsets: 15 prefixes.
	offs := []int{size - 3, 14}
	if size == 64 {
		offs = []int{0, 30}
	}
	if t == core.Thorough {
		offs = []int{0, 1, 5, 13, size/2 - 2, size/2 - 1, size - 4, size - 3}
	}
	for _, off := range offs {
		off := off
		us = append(us, numUni{name: fmt.Sprintf("deep-%d", off), big: true, mk: func(c *core.Ctx) *eng.Universe {
			ps := eng.Adjacent(base(0x96a5c3f01e2d4b78), off, 3, true)
			q := ps[0]
			q.Store = false
			q.Bits = size
			ps = append(ps, q)
			return eng.NumUniverse(fmt.Sprintf("prefixes of lengths %d to %d", off, off+3), size, ps, false)
		}})
	}
	return us
}

// ---- networks ----

type ipUni struct {
	name string
	mk   func(c *core.Ctx) *eng.Universe
	big  bool
}

func ip4(p eng.Prefix) eng.IPKey { return eng.IPKey{Prefix: p} }
func ip6(p eng.Prefix) eng.IPKey { return eng.IPKey{Prefix: p, V6: true} }

// IPHosts adds hosts below and besides networks as queries.
func ipQueries(ks []eng.IPKey, size int) []eng.IPKey {
	n := len(ks)
	for i := 0; i < n && i < 7; i++ {
		p := ks[i]
		q := p
		q.Bits = size
		q.Store = false
		ks = append(ks, q)
		if p.Bits > 0 {
			q = p
			q.Store = false
			q.Prefix = q.SetBit(p.Bits-1, 1-p.Bit(p.Bits-1))
			ks = append(ks, q)
			q.Bits = size
			ks = append(ks, q)
		}
	}
	return ks
}

// ipUnis are universes of networks.
func ipUnis(t core.Tier, variant int) []ipUni {
	var us []ipUni
	for off := 0; off+2 <= 32; off++ {
		off := off
		bi := (off + variant) % len(bases)
		us = append(us, ipUni{name: fmt.Sprintf("v4-%d", off), mk: func(c *core.Ctx) *eng.Universe {
			var ks []eng.IPKey
			for _, p := range eng.Adjacent(eng.Prefix{Hi: bases[bi] << 32}, off, 2, true) {
				ks = append(ks, ip4(p))
			}
			return eng.IPUniverse(fmt.Sprintf("IPv4 networks of lengths %d to %d", off, off+2), ipQueries(ks, 32), off%3 == 1, false)
		}})
	}
	for off := 0; off+2 <= 128; off++ {
		off := off
		bi := (off + variant) % len(bases)
		us = append(us, ipUni{name: fmt.Sprintf("v6-%d", off), mk: func(c *core.Ctx) *eng.Universe {
			var ks []eng.IPKey
			for _, p := range eng.Adjacent(eng.Prefix{Hi: bases[bi], Lo: bases[(bi+1)%4]}, off, 2, true) {
				ks = append(ks, ip6(p))
			}
			ks = ipQueries(ks, 128)
			// the whole halves as queries
			for _, b := range []int{0, 63, 64, 65, 128} {
				p := eng.Prefix{Hi: bases[bi], Lo: bases[(bi+1)%4], Bits: b}
				ks = append(ks, ip6(p))
			}
			return eng.IPUniverse(fmt.Sprintf("IPv6 networks of lengths %d to %d", off, off+2), ks, off%3 == 1, false)
		}})
	}
	mk := func(name string, lens []int, extra func(p eng.Prefix) []eng.Prefix) {
		us = append(us, ipUni{name: name, big: len(lens) > 8, mk: func(c *core.Ctx) *eng.Universe {
			p := eng.Prefix{Hi: 0x20010db8a5a5c3c3, Lo: 0x0f0f123456789abc, Store: true}
			var ks []eng.IPKey
			for _, l := range lens {
				p.Bits = l
				ks = append(ks, ip6(p))
			}
			if extra != nil {
				for _, q := range extra(p) {
					ks = append(ks, ip6(q))
				}
			}
			return eng.IPUniverse(name, ks, false, false)
		}})
	}
	// Nested lengths around and on both sides of 64.
	mk("v6 nested 0,32,62..67,96,128", []int{0, 32, 62, 63, 64, 65, 66, 67, 96, 128}, nil)
	mk("v6 nested with siblings at 64", []int{0, 48, 63, 64, 65, 128}, func(p eng.Prefix) []eng.Prefix {
		var out []eng.Prefix
		q := p.SetBit(63, 1-p.Bit(63))
		for _, b := range []int{64, 65, 128} {
			q.Bits = b
			out = append(out, q)
		}
		q = p.SetBit(64, 1-p.Bit(64))
		for _, b := range []int{65, 128} {
			q.Bits = b
			out = append(out, q)
		}
		return out
	})
	mk("v6 separate /64s", []int{64, 72}, func(p eng.Prefix) []eng.Prefix {
		var out []eng.Prefix
		for i, pos := range []int{63, 62, 40, 0} {
			q := p.SetBit(pos, 1-p.Bit(pos))
			q.Bits = []int{64, 80, 128, 100}[i]
			out = append(out, q)
			q.Store = false
			q.Bits = 64
			out = append(out, q)
			q.Bits = 63
			out = append(out, q)
		}
		return out
	})
	us = append(us, ipUni{name: "families", mk: func(c *core.Ctx) *eng.Universe {
		return eng.IPUniverse("both families", familyKeys(), false, false)
	}})
	us = append(us, ipUni{name: "zero", mk: func(c *core.Ctx) *eng.Universe {
		var ks []eng.IPKey
		for _, b := range []int{0, 1, 31, 32} {
			ks = append(ks, ip4(eng.Prefix{Bits: b, Store: true}))
		}
		for _, b := range []int{0, 1, 64, 65, 127, 128} {
			ks = append(ks, ip6(eng.Prefix{Bits: b, Store: true}))
		}
		return eng.IPUniverse("zero addresses", ks, true, false)
	}})
	us = append(us, ipUni{name: "special v4", mk: func(c *core.Ctx) *eng.Universe {
		var ks []eng.IPKey
		for _, a := range []uint64{0, 0x7f000001, 0x7f000000, 0xe0000001, 0xffffffff, 0xa9fe0000, 0x0a000000} {
			b := 32
			if a&0xff == 0 && a != 0 {
				b = 8
			}
			ks = append(ks, ip4(eng.Prefix{Hi: a << 32, Bits: b, Store: true}))
		}
		ks = append(ks, ip4(eng.Prefix{Hi: 0xc0a80001 << 32, Bits: 32}), ip4(eng.Prefix{Hi: 0x7f000002 << 32, Bits: 32}), ip4(eng.Prefix{Hi: 0xfffffffe << 32, Bits: 32}), ip4(eng.Prefix{}))
		return eng.IPUniverse("IPv4 addresses with a meaning", ks, false, false)
	}}, ipUni{name: "special v6", mk: func(c *core.Ctx) *eng.Universe {
		var ks []eng.IPKey
		for _, p := range []eng.Prefix{{Bits: 128}, {Lo: 1, Bits: 128}, {Lo: 0x0000ffff00000000, Bits: 96}, {Lo: 0x0a010203, Bits: 128}, {Hi: 0xfe80 << 48, Bits: 10}, {Hi: 0xff02 << 48, Lo: 1, Bits: 128}, {Hi: 0x0064ff9b << 32, Bits: 96}, {Hi: 0x20020a0102030000, Bits: 48}} {
			p.Store = true
			ks = append(ks, ip6(p))
		}
		for _, p := range []eng.Prefix{{Lo: 0x0000ffff0a010203, Bits: 128}, {Hi: 0x0064ff9b << 32, Lo: 0x0a010203, Bits: 128}, {Hi: 0xfe80 << 48, Lo: 1, Bits: 128}, {Lo: 2, Bits: 128}, {}} {
			ks = append(ks, ip6(p))
		}
		ks = append(ks, ip4(eng.Prefix{Hi: 0x0a010203 << 32, Bits: 32}), ip4(eng.Prefix{Bits: 32}), ip4(eng.Prefix{Hi: 1 << 32, Bits: 32}))
		return eng.IPUniverse("IPv6 addresses with a meaning", ks, false, false)
	}})
	if t == core.Thorough {
		for _, off := range []int{0, 13, 29} {
			off := off
			us = append(us, ipUni{name: fmt.Sprintf("v4-deep-%d", off), big: true, mk: func(c *core.Ctx) *eng.Universe {
				var ks []eng.IPKey
				for _, p := range eng.Adjacent(eng.Prefix{Hi: 0x96a5c3f0 << 32}, off, 3, true) {
					ks = append(ks, ip4(p))
				}
				return eng.IPUniverse(fmt.Sprintf("IPv4 networks of lengths %d to %d", off, off+3), ks, false, false)
			}})
		}
		for _, off := range []int{0, 30, 60, 61, 62, 63, 64, 65, 95, 125} {
			off := off
			us = append(us, ipUni{name: fmt.Sprintf("v6-deep-%d", off), big: true, mk: func(c *core.Ctx) *eng.Universe {
				var ks []eng.IPKey
				for _, p := range eng.Adjacent(eng.Prefix{Hi: 0x96a5c3f01e2d4b78, Lo: 0x0123456789abcdef}, off, 3, true) {
					ks = append(ks, ip6(p))
				}
				return eng.IPUniverse(fmt.Sprintf("IPv6 networks of lengths %d to %d", off, off+3), ks, false, false)
			}})
		}
	}
	return us
}

func familyKeys() []eng.IPKey {
	var ks []eng.IPKey
	a := eng.Prefix{Hi: 0x0a01020300000000, Store: true}
	for _, b := range []int{0, 8, 31, 32} {
		a.Bits = b
		ks = append(ks, ip4(a))
	}
	// the same leading bits as IPv6, and IPv4-mapped IPv6 networks
	b := a
	for _, n := range []int{0, 8, 32, 128} {
		b.Bits = n
		ks = append(ks, ip6(b))
	}
	m := eng.Prefix{Lo: 0x0000ffff0a010203, Store: true}
	for _, n := range []int{96, 104, 128} {
		m.Bits = n
		ks = append(ks, ip6(m))
	}
	return ks
}

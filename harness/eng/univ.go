package eng

import (
	"fmt"
	"net"
	"sort"
	"strings"

	"vh/core"

	"github.com/infobloxopen/go-trees/domain"
)

// StrUniverse makes a universe of strings: every group is a list of texts which
// compare equal, groups are in ascending order of the comparison.
func StrUniverse(name string, groups [][]string) *Universe {
	u := &Universe{Name: name}
	for _, g := range groups {
		k := &Key{Str: brief(g[0]), Store: true, Del: true}
		for _, s := range g {
			k.Sp[Human] = append(k.Sp[Human], s)
			k.SpStr[Human] = append(k.SpStr[Human], brief(s))
			k.Enum[Human] = append(k.Enum[Human], s)
		}
		u.Keys = append(u.Keys, k)
	}
	return u.Finish(func(i, j int) bool { return false }, func(i, j int) bool { return i < j })
}

// brief quotes a string without what is in its middle if it is long.
func brief(s string) string {
	if len(s) > 500 {
		return fmt.Sprintf("%q...(%d bytes)...%q", s[:8], len(s), s[len(s)-2:])
	}
	return fmt.Sprintf("%q", s)
}

// LabelUniverse makes a universe of labels given in binary upper-case form.
func LabelUniverse(name string, labels []string, spells int) *Universe {
	u := &Universe{Name: name}
	for _, l := range labels {
		k := &Key{Str: fmt.Sprintf("%q", l), Store: true, Del: true}
		for i, s := range LabelSpellings(l) {
			if i >= spells {
				break
			}
			k.Sp[Human] = append(k.Sp[Human], s)
			k.SpStr[Human] = append(k.SpStr[Human], fmt.Sprintf("%q", s))
			if len(s) > 0 && i == 0 {
				k.Sp[Human] = append(k.Sp[Human], s+".")
				k.SpStr[Human] = append(k.SpStr[Human], fmt.Sprintf("%q", s+"."))
			}
		}
		if l == "" {
			k.Sp[Human] = append(k.Sp[Human], ".")
			k.SpStr[Human] = append(k.SpStr[Human], `"."`)
		}
		k.Sp[Raw] = []interface{}{l}
		k.SpStr[Raw] = []string{fmt.Sprintf("%q", l)}
		k.Enum[Human] = []string{HumanLabel(l)}
		k.Enum[Raw] = []string{l}
		u.Keys = append(u.Keys, k)
	}
	return u.Finish(func(i, j int) bool { return false }, func(i, j int) bool { return ShortLex(labels[i], labels[j]) < 0 })
}

// Dom is a name of a domain universe: labels in order of the text.
type Dom struct {
	Labels []string
	Store  bool
}

// D makes a stored name from a text.
func D(s string) Dom {
	l, f := ParseName(s)
	if f.Any() {
		panic("bad name " + s)
	}
	return Dom{l, true}
}

// Q makes a query-only name from a text.
func Q(s string) Dom {
	d := D(s)
	d.Store = false
	return d
}

// DomUniverse makes a universe of domain names.
func DomUniverse(c *core.Ctx, name string, doms []Dom, spells int) *Universe {
	u := &Universe{Name: name}
	seen := map[string]bool{}
	var ds []Dom
	for _, d := range doms {
		cn := CanonName(d.Labels)
		if seen[cn] {
			continue
		}
		seen[cn] = true
		ds = append(ds, d)
		k := &Key{Str: fmt.Sprintf("%q", short(NameSpellings(d.Labels, 1)[0])), Store: d.Store, Del: true}
		for _, s := range NameSpellings(d.Labels, spells) {
			n, err := domain.MakeNameFromString(s)
			if err != nil {
				c.Fail("parse", "valid domain name %q is rejected: %s", s, err)
				continue
			}
			k.Sp[Human] = append(k.Sp[Human], n)
			k.SpStr[Human] = append(k.SpStr[Human], fmt.Sprintf("%q", short(s)))
		}
		k.Enum[Human] = []string{cn}
		u.Keys = append(u.Keys, k)
	}
	return u.Finish(func(i, j int) bool { return IsSub(ds[j].Labels, ds[i].Labels) },
		func(i, j int) bool { return NameLess(ds[i].Labels, ds[j].Labels) })
}

func short(s string) string {
	if len(s) > 90 {
		return fmt.Sprintf("%s...(%d bytes)...%s", s[:30], len(s), s[len(s)-30:])
	}
	return s
}

// Prefix is a key of an integer or IP universe.
type Prefix struct {
	Hi, Lo uint64 // address, left aligned at the top of Hi
	Bits   int
	Store  bool
}

// Norm clears host bits.
func (p Prefix) Norm() Prefix {
	if p.Bits <= 0 {
		p.Bits = 0
		p.Hi, p.Lo = 0, 0
		return p
	}
	if p.Bits <= 64 {
		p.Lo = 0
		if p.Bits < 64 {
			p.Hi &^= 1<<uint(64-p.Bits) - 1
		}
		return p
	}
	if p.Bits < 128 {
		p.Lo &^= 1<<uint(128-p.Bits) - 1
	}
	return p
}

// Bit returns bit i of the address.
func (p Prefix) Bit(i int) int {
	if i < 64 {
		return int(p.Hi >> uint(63-i) & 1)
	}
	return int(p.Lo >> uint(127-i) & 1)
}

// SetBit returns p with bit i set to v.
func (p Prefix) SetBit(i, v int) Prefix {
	if i < 64 {
		p.Hi &^= 1 << uint(63-i)
		p.Hi |= uint64(v) << uint(63-i)
	} else {
		p.Lo &^= 1 << uint(127-i)
		p.Lo |= uint64(v) << uint(127-i)
	}
	return p
}

// Contains tells if p contains q. It works bit by bit.
func (p Prefix) Contains(q Prefix) bool {
	if p.Bits > q.Bits {
		return false
	}
	for i := 0; i < p.Bits; i++ {
		if p.Bit(i) != q.Bit(i) {
			return false
		}
	}
	return true
}

// Less orders by address, then length.
func (p Prefix) Less(q Prefix) bool {
	a, b := p.Norm(), q.Norm()
	if a.Hi != b.Hi {
		return a.Hi < b.Hi
	}
	if a.Lo != b.Lo {
		return a.Lo < b.Lo
	}
	return a.Bits < b.Bits
}

// Dedup normalises, merges and sorts by length (shortest first).
func Dedup(ps []Prefix) []Prefix {
	m := map[[3]uint64]int{}
	var out []Prefix
	for _, p := range ps {
		p = p.Norm()
		k := [3]uint64{p.Hi, p.Lo, uint64(p.Bits)}
		if i, ok := m[k]; ok {
			out[i].Store = out[i].Store || p.Store
			continue
		}
		m[k] = len(out)
		out = append(out, p)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Bits < out[j].Bits })
	return out
}

// NumUniverse makes a universe of prefixes for integer trees. Host bits are filled by
// junk in other spellings.
func NumUniverse(name string, size int, ps []Prefix, junkFirst bool) *Universe {
	u := &Universe{Name: name}
	ps = Dedup(ps)
	for _, p := range ps {
		v := p.Hi
		if size == 32 {
			v >>= 32
		}
		k := &Key{Str: PText(v, p.Bits, size), Store: p.Store, Del: true}
		host := ^uint64(0)
		if p.Bits > 0 {
			host = 1<<uint(size-p.Bits) - 1
		}
		if size == 32 {
			host &= 0xffffffff
		}
		cand := []P{{v, p.Bits}, {v | host, p.Bits}, {v | (host & 0x5555555555555555), p.Bits}, {v | (host & 0x8000000080000001 & host), p.Bits}}
		if p.Bits == 0 {
			cand = append(cand, P{v, -1}, P{v | host, -100}, P{v | (host & 0xa5a5a5a5a5a5a5a5), -1 << 31}, P{v, -247}, P{v, -1 << 63}, P{v, -1<<32 | 9})
		}
		if p.Bits == size {
			cand = append(cand, P{v, size + 1}, P{v, size + 256}, P{v, 256}, P{v, 1<<31 - 1}, P{v, 288 + 32}, P{v, 1 << 32}, P{v, 1<<32 + 5}, P{v, 1<<63 - 1})
		}
		if junkFirst {
			cand[0], cand[1] = cand[1], cand[0]
		}
		seen := map[P]bool{}
		for _, c := range cand {
			if seen[c] {
				continue
			}
			seen[c] = true
			k.Sp[Human] = append(k.Sp[Human], c)
			k.SpStr[Human] = append(k.SpStr[Human], fmt.Sprintf("%#x, %d", c.Key, c.Bits))
		}
		k.Enum[Human] = []string{PText(v, p.Bits, size)}
		u.Keys = append(u.Keys, k)
	}
	return u.Finish(func(i, j int) bool { return ps[i].Contains(ps[j]) }, func(i, j int) bool { return ps[i].Less(ps[j]) })
}

// IPKeys is a prefix with a family.
type IPKey struct {
	Prefix
	V6 bool
}

func (k IPKey) addr() net.IP {
	var b [16]byte
	for i := 0; i < 8; i++ {
		b[i] = byte(k.Hi >> uint(56-8*i))
		b[8+i] = byte(k.Lo >> uint(56-8*i))
	}
	if k.V6 {
		return net.IP(b[:])
	}
	return net.IP(b[:4])
}

func (k IPKey) size() int {
	if k.V6 {
		return 128
	}
	return 32
}

func maskOf(bits, size int) net.IPMask {
	m := make(net.IPMask, size/8)
	for i := 0; i < bits; i++ {
		m[i/8] |= 0x80 >> uint(i%8)
	}
	return m
}

// IPUniverse makes a universe of networks of both families, with extra unusable keys.
func IPUniverse(name string, ps []IPKey, junkFirst, bad bool) *Universe {
	u := &Universe{Name: name}
	m := map[[4]uint64]int{}
	var ks []IPKey
	for _, p := range ps {
		p.Prefix = p.Prefix.Norm()
		id := [4]uint64{p.Hi, p.Lo, uint64(p.Bits), 0}
		if p.V6 {
			id[3] = 1
		}
		if i, ok := m[id]; ok {
			ks[i].Store = ks[i].Store || p.Store
			continue
		}
		m[id] = len(ks)
		ks = append(ks, p)
	}
	sort.SliceStable(ks, func(i, j int) bool { return ks[i].Bits < ks[j].Bits })
	for _, p := range ks {
		size := p.size()
		a := p.addr()
		k := &Key{Str: fmt.Sprintf("%s/%d", a, p.Bits), Store: p.Store, Del: true}
		if p.V6 && a.To4() != nil {
			k.Str = fmt.Sprintf("::ffff:%s/%d", a.To4(), p.Bits)
		}
		addNet := func(ip net.IP) {
			t := fmt.Sprintf("&net.IPNet{IP: net.IP(%q), Mask: net.CIDRMask(%d, %d)}", string(ip), p.Bits, size)
			for _, x := range k.SpStr[Human] {
				if x == t {
					return
				}
			}
			k.Sp[Human] = append(k.Sp[Human], &net.IPNet{IP: ip, Mask: maskOf(p.Bits, size)})
			k.SpStr[Human] = append(k.SpStr[Human], t)
		}
		junk := func(pat byte) net.IP {
			b := append(net.IP{}, a...)
			for i := p.Bits; i < size; i++ {
				if pat>>uint(i%8)&1 != 0 {
					b[i/8] |= 0x80 >> uint(i%8)
				}
			}
			return b
		}
		if junkFirst {
			addNet(junk(0xff))
		}
		addNet(a)
		addNet(junk(0xff))
		addNet(junk(0x55))
		addNet(junk(0x18))
		if p.Bits == size {
			addIP := func(ip net.IP) {
				k.Sp[Raw] = append(k.Sp[Raw], ip)
				k.SpStr[Raw] = append(k.SpStr[Raw], fmt.Sprintf("net.IP(%q)", string(ip)))
			}
			if p.V6 {
				if a.To4() == nil {
					addIP(a)
				}
			} else {
				addIP(a)
				addIP(append(net.IP("\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff"), a...))
			}
		}
		k.Enum[Human] = []string{fmt.Sprintf("%x/%x", []byte(a), []byte(maskOf(p.Bits, size)))}
		u.Keys = append(u.Keys, k)
	}
	n := len(u.Keys)
	if bad {
		for _, b := range BadKeys(ks) {
			u.Keys = append(u.Keys, b)
		}
	}
	return u.Finish(func(i, j int) bool {
		return i < n && j < n && ks[i].V6 == ks[j].V6 && ks[i].Contains(ks[j].Prefix)
	}, func(i, j int) bool {
		if i >= n || j >= n {
			return i < j
		}
		if ks[i].V6 != ks[j].V6 {
			return !ks[i].V6
		}
		return ks[i].Less(ks[j].Prefix)
	})
}

// BadKeys makes unusable networks and addresses resembling the given keys.
func BadKeys(ks []IPKey) []*Key {
	var nets []*net.IPNet
	var ips []net.IP
	nets = append(nets, nil, &net.IPNet{})
	ips = append(ips, nil, net.IP{}, net.IP{1}, net.IP{1, 2, 3}, net.IP{1, 2, 3, 4, 5}, make(net.IP, 15), make(net.IP, 17), make(net.IP, 32), make(net.IP, 8))
	for i, k := range ks {
		if i > 3 && i < len(ks)-2 {
			continue
		}
		a := k.addr()
		m := maskOf(k.Bits, k.size())
		other := 160 - k.size()
		nets = append(nets,
			&net.IPNet{IP: nil, Mask: m},
			&net.IPNet{IP: a, Mask: nil},
			&net.IPNet{IP: a, Mask: net.IPMask{}},
			&net.IPNet{IP: a[:len(a)-1], Mask: m},
			&net.IPNet{IP: append(append(net.IP{}, a...), 0), Mask: m},
			&net.IPNet{IP: a, Mask: m[:len(m)-1]},
			&net.IPNet{IP: a, Mask: append(append(net.IPMask{}, m...), 0)},
			&net.IPNet{IP: a, Mask: maskOf(min(k.Bits, other), other)},
		)
		// masks which are not contiguous
		nc := append(net.IPMask{}, m...)
		nc[len(nc)-1] |= 1
		if k.Bits < k.size()-1 {
			nets = append(nets, &net.IPNet{IP: a, Mask: nc})
		}
		if k.Bits >= 2 {
			nc := append(net.IPMask{}, m...)
			nc[0] &^= 0x80
			nets = append(nets, &net.IPNet{IP: a, Mask: nc})
		}
		// 16-byte form of IPv4 address with IPv4 mask: neither form
		if !k.V6 {
			nets = append(nets, &net.IPNet{IP: append(net.IP("\x00\x00\x00\x00\x00\x00\x00\x00\x00\x00\xff\xff"), a...), Mask: m})
		}
		ips = append(ips, a[:len(a)-1], append(append(net.IP{}, a...), 9))
	}
	bn := &Key{Str: "unusable", Bad: true, Store: true, Del: true}
	for _, n := range nets {
		bn.Sp[Human] = append(bn.Sp[Human], n)
		if n == nil {
			bn.SpStr[Human] = append(bn.SpStr[Human], "nil")
		} else {
			bn.SpStr[Human] = append(bn.SpStr[Human], fmt.Sprintf("&net.IPNet{IP: net.IP(%q), Mask: net.IPMask(%q)}", string(n.IP), string(n.Mask)))
		}
	}
	for _, ip := range ips {
		bn.Sp[Raw] = append(bn.Sp[Raw], ip)
		bn.SpStr[Raw] = append(bn.SpStr[Raw], fmt.Sprintf("net.IP(%q)", string(ip)))
	}
	return []*Key{bn}
}

// Adjacent returns prefixes of all lengths from off to off+depth made of the base and
// every combination of bits after off.
func Adjacent(base Prefix, off, depth int, store bool) []Prefix {
	var out []Prefix
	for d := 0; d <= depth; d++ {
		for x := 0; x < 1<<uint(d); x++ {
			p := base
			for i := 0; i < d; i++ {
				p = p.SetBit(off+i, x>>uint(d-1-i)&1)
			}
			p.Bits = off + d
			p.Store = store
			out = append(out, p.Norm())
		}
	}
	return out
}

// Describe lists keys of a universe.
func (u *Universe) Describe() string {
	var l []string
	for _, k := range u.Keys {
		l = append(l, k.Str)
	}
	return strings.Join(l, " ")
}

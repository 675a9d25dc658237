package eng

import (
	"bytes"
	"net"
)

const guard = 24

// roomy makes a copy of b inside of a larger array.
func roomy(b []byte) (view, all []byte) {
	all = make([]byte, guard+len(b)+guard)
	for i := range all {
		all[i] = byte(0xc3 ^ i)
	}
	copy(all[guard:], b)
	return all[guard : guard+len(b)], all
}

func spoil(b []byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] ^= 0x5a
	}
}

// borrowed is an argument given to a tree for the time of a call.
type borrowed struct {
	net        *net.IPNet
	ip, mask   []byte
	ipC, maskC []byte
	netC       net.IPNet
}

// Lend makes a private copy of a key; back checks that it has not been changed by the tree and
// spoils it.
func Lend(k interface{}) (key interface{}, back func() string) {
	b := &borrowed{}
	ipOf := func(ip net.IP) net.IP {
		if ip == nil {
			return nil
		}
		v, all := roomy(ip)
		b.ip, b.ipC = all, append([]byte(nil), all...)
		return v
	}
	switch k := k.(type) {
	case net.IP:
		key = ipOf(k)
	case *net.IPNet:
		if k == nil {
			return k, func() string { return "" }
		}
		n := &net.IPNet{IP: ipOf(k.IP)}
		if k.Mask != nil {
			v, all := roomy(k.Mask)
			n.Mask = v
			b.mask, b.maskC = all, append([]byte(nil), all...)
		}
		b.net, b.netC, key = n, *n, n
	default:
		return k, func() string { return "" }
	}
	return key, func() string {
		bad := ""
		switch {
		case !bytes.Equal(b.ip, b.ipC):
			bad = "changes bytes of the address passed to it"
		case !bytes.Equal(b.mask, b.maskC):
			bad = "changes bytes of the mask passed to it"
		case b.net != nil && (len(b.net.IP) != len(b.netC.IP) || len(b.net.Mask) != len(b.netC.Mask) ||
			len(b.net.IP) > 0 && &b.net.IP[0] != &b.netC.IP[0] || len(b.net.Mask) > 0 && &b.net.Mask[0] != &b.netC.Mask[0]):
			bad = "changes the network passed to it"
		}
		spoil(b.ip)
		spoil(b.mask)
		if b.net != nil {
			b.net.IP, b.net.Mask = net.IP{1}, nil
		}
		return bad
	}
}

// Own makes an adapter which lends its keys to the tree for the time of calls only.
func Own(im *Impl, fail func(sig, format string, a ...interface{})) *Impl {
	o := *im
	o.Ins, o.Gets, o.Dels = nil, nil, nil
	check := func(name string, back func() string) {
		if s := back(); s != "" {
			fail("argument", "%s: %s %s", im.Name, name, s)
		}
	}
	for _, x := range im.Ins {
		x := x
		f := x.Fn
		x.Fn = func(t, k, v interface{}) interface{} {
			k, back := Lend(k)
			h := f(t, k, v)
			check(x.Name, back)
			return h
		}
		o.Ins = append(o.Ins, x)
	}
	for _, x := range im.Gets {
		x := x
		f := x.Fn
		x.Fn = func(t, k interface{}) (interface{}, bool) {
			k, back := Lend(k)
			v, ok := f(t, k)
			check(x.Name, back)
			return v, ok
		}
		o.Gets = append(o.Gets, x)
	}
	for _, x := range im.Dels {
		x := x
		f := x.Fn
		x.Fn = func(t, k interface{}) (interface{}, bool) {
			k, back := Lend(k)
			h, ok := f(t, k)
			check(x.Name, back)
			return h, ok
		}
		o.Dels = append(o.Dels, x)
	}
	return &o
}

// Keeper keeps networks received from trees, as callers may do.
type Keeper struct {
	nets  []*net.IPNet
	texts []string
}

// Keep registers a network with the text it had when received.
func (k *Keeper) Keep(n *net.IPNet, text string) {
	if n != nil {
		k.nets = append(k.nets, n)
		k.texts = append(k.texts, text)
	}
}

// Check tells which network has changed since it was received, and forgets all.
func (k *Keeper) Check() (was, is string) {
	for i, n := range k.nets {
		if t := netText(n); t != k.texts[i] {
			was, is = k.texts[i], t
			break
		}
	}
	k.nets, k.texts = k.nets[:0], k.texts[:0]
	return
}

// Apart overwrites the kept networks one after another, spare capacity included, and tells
// which of the others has changed by that. It forgets all.
func (k *Keeper) Apart() (one, other string) {
	for i, n := range k.nets {
		spoil(n.IP[:cap(n.IP)])
		spoil(n.Mask[:cap(n.Mask)])
		for j := i + 1; j < len(k.nets); j++ {
			if k.nets[j] != n && netText(k.nets[j]) != k.texts[j] || k.nets[j] == n {
				one, other = k.texts[i], k.texts[j]
			}
		}
		if one != "" {
			break
		}
	}
	k.nets, k.texts = k.nets[:0], k.texts[:0]
	return
}

// Spoil overwrites a received network.
func Spoil(n *net.IPNet) {
	if n == nil {
		return
	}
	spoil(n.IP)
	spoil(n.Mask)
	n.IP, n.Mask = nil, nil
}

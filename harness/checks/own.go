package checks

import (
	"fmt"
	"net"

	"vh/core"
	"vh/eng"
)

// ---- C26: memory of callers and trees is independent ----

func ownKinds(t core.Tier) []kind {
	var ks []kind
	for _, v := range eng.Variants {
		v := v
		ip := func() *eng.Impl { return eng.IPImpl(v) }
		add := func(name string, bad bool, nets ...eng.IPKey) {
			ks = append(ks, kind{fmt.Sprintf("iptree%d/%s", v, name), ip, func(c *core.Ctx) *eng.Universe {
				return eng.IPUniverse(name, nets, false, bad)
			}, 0})
		}
		add("mixed", false,
			ip4(eng.Prefix{Hi: 10 << 56, Bits: 8, Store: true}),
			ip4(eng.Prefix{Hi: 0x0a010203 << 32, Bits: 32, Store: true}),
			ip4(eng.Prefix{Hi: 0x0a010200 << 32, Bits: 25}),
			ip6(eng.Prefix{Hi: 0x20010db800000000, Bits: 48, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db8000000ff, Bits: 64, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db8000000ff, Lo: 1, Bits: 128, Store: true}))
		add("subtree", false,
			ip6(eng.Prefix{Hi: 0x20010db8ffffffff, Lo: 1 << 63, Bits: 65, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db8ffffffff, Lo: 0xc000000000000000, Bits: 66, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db8ffffffff, Lo: 0xc000000000000001, Bits: 128, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db8fffffffe, Lo: 0xc000000000000001, Bits: 128, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db8ffffffff, Bits: 64, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db800000000, Bits: 32, Store: true}))
		add("ends", true,
			ip4(eng.Prefix{Bits: 0, Store: true}),
			ip4(eng.Prefix{Hi: 0xffffffff << 32, Bits: 32, Store: true}),
			ip6(eng.Prefix{Bits: 0, Store: true}),
			ip6(eng.Prefix{Hi: ^uint64(0), Lo: ^uint64(0), Bits: 128, Store: true}))
		// Networks of the same length one after another.
		add("siblings", false,
			ip4(eng.Prefix{Hi: 0x0a000000 << 32, Bits: 8, Store: true}),
			ip4(eng.Prefix{Hi: 0x0b000000 << 32, Bits: 8, Store: true}),
			ip4(eng.Prefix{Hi: 0x0c000000 << 32, Bits: 8, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db800000000, Bits: 48, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db800010000, Bits: 48, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db800020000, Bits: 48, Store: true}))
		add("siblings below 64", false,
			ip4(eng.Prefix{Hi: 0x0a000001 << 32, Bits: 32, Store: true}),
			ip4(eng.Prefix{Hi: 0x0a000002 << 32, Bits: 32, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db800000001, Lo: 1, Bits: 128, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db800000001, Lo: 2, Bits: 128, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db800000002, Lo: 1, Bits: 128, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db800000003, Bits: 64, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db800000004, Bits: 64, Store: true}))
		{
			for i, u := range ipUnis(t, v) {
				i, u := i, u
				if !u.big && i%pick(t, 12, 2) == 0 {
					ks = append(ks, kind{fmt.Sprintf("iptree%d/%d", v, i), ip, u.mk, 0})
				}
			}
		}
	}
	return ks
}

func ownJobs(t core.Tier) []core.Job {
	var js []core.Job
	for _, k := range ownKinds(t) {
		k := k
		js = append(js, core.Job{Name: k.name, Run: func(c *core.Ctx) {
			im := eng.Own(k.impl(), c.Fail)
			r := &eng.Run{C: c, I: im, U: k.uni(c), AllSp: true}
			var keeper eng.Keeper
			keep := func(n *net.IPNet, text string) { keeper.Keep(n, text) }
			spoil := func(n *net.IPNet, text string) { eng.Spoil(n) }
			hook := func(r *eng.Run, h interface{}, m *eng.Model, rebuild func() interface{}, trace func() []string) {
				e := im.Enums[0]
				// Networks received stay as they are.
				eng.OnNet = keep
				ks, _ := e.Fn(h)
				r.CheckGets(h, m, "after enumeration")
				e.Fn(h)
				if was, is := keeper.Check(); was != "" {
					c.Fail("result", "%s: a network received from Enumerate was %s and has become %s; stored: %s", im.Name, was, is, r.Stored(m))
				}
				// None is a part of another one.
				e.Fn(h)
				e.Fn(h)
				if one, other := keeper.Apart(); one != "" {
					c.Fail("result", "%s: overwriting network %s received from Enumerate changes %s received from it too; stored: %s", im.Name, one, other, r.Stored(m))
				}
				// Received networks may be overwritten at once.
				eng.OnNet = spoil
				r.CheckEnums(h, m, "when the receiver overwrites networks it gets")
				a, b := e.Open(h), e.Open(h)
				for i := 0; ; i++ {
					ak, _, aok := a()
					if i == 0 && aok {
						a()
					}
					bk, _, bok := b()
					if bok != (i < len(ks)) || bok && bk != ks[i] {
						c.Fail("result", "%s: item %d of the second enumeration is %q, %v (the first one got %q); stored: %s", im.Name, i, bk, bok, ak, r.Stored(m))
					}
					if !bok {
						for aok {
							_, _, aok = a()
						}
						break
					}
				}
				eng.OnNet = nil
				r.Obs(h, m, "after receivers of networks have overwritten them")
				if len(im.Vals) > 0 && im.Name == "iptree" {
					updStates(r, m, rebuild, trace, true)
				}
				c.R.Evals += 4
			}
			r.BFS(eng.Mode{CheckIns: true, CheckDel: true, Inplace: true, Sweep: true, Hook: hook})
		}})
	}
	return js
}

// ---- C27: values are opaque ----

func opaqueJobs(t core.Tier) []core.Job {
	var js []core.Job
	nv := len(eng.OpaqueVals())
	for _, k := range smallKinds([]int{0}) {
		k := k
		mode := eng.Mode{CheckIns: true, CheckDel: true, Inplace: true, Persist: true, SameAsCow: true}
		if k.impl().Name == "iptree" {
			mode.Hook = updHook
		}
		for part := 0; part < 4; part++ {
			part := part
			js = append(js, core.Job{Name: fmt.Sprintf("pairs/%s/%d", k.name, part), Run: func(c *core.Ctx) {
				for a := 0; a < nv; a++ {
					for b := 0; b < nv; b++ {
						if (a*nv+b)%4 != part {
							continue
						}
						im := k.impl()
						im.Vals = eng.OpaqueVals()
						r := &eng.Run{C: c, I: im, U: k.uni(c), Two: &[2]uint8{uint8(a), uint8(b)}}
						r.BFS(mode)
						if c.Stop() {
							return
						}
					}
				}
			}})
		}
		js = append(js, core.Job{Name: "rotations/" + k.name, Run: func(c *core.Ctx) {
			for rot := 0; rot < nv; rot++ {
				im := k.impl()
				im.Vals = eng.OpaqueVals()
				r := &eng.Run{C: c, I: im, U: k.uni(c), Rot: rot}
				r.BFS(mode)
			}
		}})
	}
	js = append(js, core.Job{Name: "strtree/alphabets", Run: func(c *core.Ctx) {
		for i, su := range strUnis()[1:] {
			im := eng.StrImpl(0, su.cmp)
			im.Vals = eng.OpaqueVals()
			r := &eng.Run{C: c, I: im, U: su.u(), Rot: i * 3}
			r.BFS(eng.Mode{CheckIns: true, CheckDel: true, Inplace: true})
		}
	}})
	us := labelUnis()
	js = append(js, group("dltree/alphabets", len(us), len(us), func(c *core.Ctx, i int) {
		im := eng.DLImpl()
		im.Vals = eng.OpaqueVals()
		r := &eng.Run{C: c, I: im, U: eng.LabelUniverse(fmt.Sprintf("labels %d", i), us[i], 2), Rot: i * 7}
		r.BFS(eng.Mode{CheckIns: true, CheckDel: true, Inplace: true})
	})...)
	for i, du := range domUnis(t) {
		if du.big {
			continue
		}
		i, du := i, du
		js = append(js, core.Job{Name: "domaintree/" + du.name, Run: func(c *core.Ctx) {
			im := eng.DomImpl(0)
			im.Vals = eng.OpaqueVals()
			r := &eng.Run{C: c, I: im, U: du.mk(c), Rot: i * 5}
			r.BFS(eng.Mode{CheckIns: true, CheckDel: true, Inplace: true, NoMix: !du.mixed})
		}})
	}
	for _, size := range []int{32, 64} {
		size := size
		var small []numUni
		for i, u := range numUnis(t, size) {
			if !u.big && i%pick(t, 8, 2) == 0 {
				small = append(small, u)
			}
		}
		js = append(js, group(fmt.Sprintf("numtree%d", size), len(small), 2, func(c *core.Ctx, i int) {
			im := eng.NumImpl(size)
			im.Vals = eng.OpaqueVals()
			r := &eng.Run{C: c, I: im, U: small[i].mk(c), Rot: i * 3}
			r.BFS(eng.Mode{CheckIns: true, CheckDel: true, Inplace: true})
		})...)
	}
	var small []ipUni
	for i, u := range ipUnis(t, 0) {
		if !u.big && i%pick(t, 8, 2) == 0 {
			small = append(small, u)
		}
	}
	return append(js, group("iptree", len(small), 4, func(c *core.Ctx, i int) {
		im := eng.IPImpl(0)
		im.Vals = eng.OpaqueVals()
		r := &eng.Run{C: c, I: im, U: small[i].mk(c), Rot: i * 3}
		r.BFS(eng.Mode{CheckIns: true, CheckDel: true, Inplace: true})
	})...)
}

func init() {
	register(&core.Check{
		ID: "C26", Level: "model_checking",
		Rule:        "breadth-first search over all states of small alphabets of networks (both families, around 64 bits, the ends of address space, unusable keys); every network or address is lent to every operation in a larger array, compared after the call and overwritten; in every state networks received from enumerations (whole, interleaved) and callbacks of UpdateDescendants are kept and compared later, or overwritten at once, and the state observed again",
		Assumptions: commonAssumptions,
		Jobs:        ownJobs,
	})
	register(&core.Check{
		ID: "C27", Level: "model_checking",
		Rule:        "breadth-first search over all states of small alphabets for every ordered pair of values from a table (nil, typed nil, values which can't be compared, not a number, zeros of both signs, values equal but not the same) as the value of all keys and its replacement, and with rotations of the table; every lookup and enumeration must give the very value stored last; larger alphabets with rotations",
		Assumptions: commonAssumptions,
		Jobs:        opaqueJobs,
	})
}

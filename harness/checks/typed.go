package checks

import (
	"fmt"
	"math/bits"

	"vh/core"
	"vh/eng"
)

// lockstep explores all histories of generic and typed trees together.
func lockstep(c *core.Ctx, name string, impls []*eng.Impl, u *eng.Universe, depth int, root int) {
	var runs []*eng.Run
	for _, im := range impls {
		runs = append(runs, &eng.Run{C: c, I: im, U: u})
	}
	g := runs[0]
	steps := oneSpell(g.Steps(true, true, true))
	if im := impls[0]; root < len(im.New) && im.IsNil(im.New[root].Fn()) {
		steps = oneSpell(g.Steps(false, true, true))
	}
	var hist []eng.Step
	c.At(func() []string {
		l := []string{"t := " + impls[0].New[root].Name}
		for _, s := range hist {
			l = append(l, g.StepStr(s))
		}
		return append(l, "(the same with typed trees)")
	})
	nv := len(impls[0].Vals)
	for _, im := range impls {
		if len(im.Vals) < nv {
			nv = len(im.Vals)
		}
	}
	index := make([]map[interface{}]int, len(impls))
	for i, im := range impls {
		index[i] = map[interface{}]int{}
		for j, v := range im.Vals {
			if v != nil {
				index[i][v] = j
			} else {
				index[i][nil] = j
			}
		}
	}
	idx := func(i int, v interface{}) int {
		j, ok := index[i][v]
		if !ok {
			return -1
		}
		return j
	}
	count := int64(0)
	var rec func(d int)
	rec = func(d int) {
		for _, s := range steps {
			if c.Stop() {
				return
			}
			s.Val = uint8((len(hist)*41 + int(s.Key)*17 + 3) % nv)
			hist = append(hist, s)
			c.Mark()
			var base *eng.Snap
			var bok bool
			for i, r := range runs {
				h := impls[i].New[root].Fn()
				var ok bool
				for _, x := range hist {
					h, ok, _ = r.Do(h, nil, x)
				}
				sn := r.TakeSnap(h, false)
				if i == 0 {
					base, bok = sn, ok
					continue
				}
				if ok != bok {
					c.Fail("mirror", "%s: the last step returned %v, in the generic tree %v", impls[i].Name, ok, bok)
				}
				for j := range sn.OK {
					if sn.OK[j] != base.OK[j] {
						c.Fail("mirror", "%s: lookup %d gives %v, in the generic tree %v", impls[i].Name, j, sn.OK[j], base.OK[j])
					}
					if !sn.OK[j] && sn.V[j] != impls[i].Zero {
						c.Fail("mirror", "%s: missed lookup %d gives %v", impls[i].Name, j, sn.V[j])
					}
					if sn.OK[j] && idx(i, sn.V[j]) != idx(0, base.V[j]) {
						c.Fail("mirror", "%s: lookup %d gives value %v (number %d), the generic tree number %d", impls[i].Name, j, sn.V[j], idx(i, sn.V[j]), idx(0, base.V[j]))
					}
				}
				for e := range sn.EK {
					if len(sn.EK[e]) != len(base.EK[e]) {
						c.Fail("mirror", "%s: enumerates %q, the generic tree %q", impls[i].Name, sn.EK[e], base.EK[e])
						continue
					}
					for j := range sn.EK[e] {
						if sn.EK[e][j] != base.EK[e][j] || idx(i, sn.EV[e][j]) != idx(0, base.EV[e][j]) {
							c.Fail("mirror", "%s: enumerates %q (%v), the generic tree %q (%v)", impls[i].Name, sn.EK[e], sn.EV[e], base.EK[e], base.EV[e])
						}
					}
				}
				c.R.Evals++
			}
			c.R.Trans++
			count++
			if d > 1 {
				rec(d - 1)
			}
			hist = hist[:len(hist)-1]
		}
	}
	rec(depth)
	c.R.Traces += count
	c.R.States += count
	if c.R.MaxDepth < int64(depth) {
		c.R.MaxDepth = int64(depth)
	}
	c.Outcome(fmt.Sprintf("%s lockstep root=%d depth=%d histories=%d", name, root, depth, count))
}

func lockstepJobs(t core.Tier, dq, dt int) []core.Job {
	var js []core.Job
	kinds := smallKinds([]int{0})
	mk := map[string]func(v int) *eng.Impl{
		"strtree0":             func(v int) *eng.Impl { return eng.StrImpl(v, cmpDef) },
		"domaintree0":          eng.DomImpl,
		"domaintree0-siblings": eng.DomImpl,
		"iptree0":              eng.IPImpl,
		"iptree0-v6":           eng.IPImpl,
	}
	for _, k := range kinds {
		k := k
		f := mk[k.name]
		if f == nil {
			continue
		}
		for root := range f(0).New {
			root := root
			js = append(js, core.Job{Name: fmt.Sprintf("lockstep/%s/%d", k.name, root), Run: func(c *core.Ctx) {
				var ims []*eng.Impl
				for _, v := range eng.Variants {
					ims = append(ims, f(v))
				}
				d := pick(t, dq, dt)
				if root > 0 {
					d--
				}
				lockstep(c, k.name, ims, k.uni(c), d, root)
			}})
		}
	}
	return js
}

// valueSet lists values of a width: all of 8 and 16 bits, words with up to two bits set
// or cleared and bytes patterns for others.
func valueSet(w int) []uint64 {
	max := ^uint64(0) >> uint(64-w)
	var l []uint64
	if w <= 16 {
		for x := uint64(0); x <= max; x++ {
			l = append(l, x)
		}
		return l
	}
	seen := map[uint64]bool{}
	add := func(x uint64) {
		x &= max
		if !seen[x] {
			seen[x] = true
			l = append(l, x, max&^x)
			seen[max&^x] = true
		}
	}
	add(0)
	for i := 0; i < w; i++ {
		for j := i; j < w; j++ {
			add(1<<uint(i) | 1<<uint(j))
			add(1<<uint(j) - 1<<uint(i)) // runs of ones
		}
	}
	for b := uint64(0); b < 256; b++ {
		add(b * 0x0101010101010101)
		add(b | b<<24 | b<<48)
		add(bits.ReverseBytes64(b))
	}
	return l
}

func toVal(v int, x uint64) interface{} {
	switch v {
	case 8:
		return uint8(x)
	case 16:
		return uint16(x)
	case 32:
		return uint32(x)
	}
	return x
}

func valueJobs() []core.Job {
	var js []core.Job
	for _, k := range smallKinds([]int{8, 16, 32, 64}) {
		k := k
		im0 := k.impl()
		w := 0
		switch im0.Zero.(type) {
		case uint8:
			w = 8
		case uint16:
			w = 16
		case uint32:
			w = 32
		case uint64:
			w = 64
		default:
			continue
		}
		js = append(js, core.Job{Name: "values/" + k.name, Run: func(c *core.Ctx) {
			im := k.impl()
			u := k.uni(c)
			r := &eng.Run{C: c, I: im, U: u}
			vals := valueSet(w)
			base := im.New[0].Fn()
			cur := ""
			c.At(func() []string { return []string{cur} })
			n := uint64(0)
			for _, x := range vals {
				if c.Stop() {
					break
				}
				val := toVal(w, x)
				n++
				// the value is stored under every key by every kind of insertion
				for oi := range im.Ins {
					o := &im.Ins[oi]
					if n%4 != 0 && w >= 16 && oi > 1 {
						continue
					}
					for ki, key := range u.Keys {
						if !key.Store || len(key.Sp[o.Form]) == 0 {
							continue
						}
						if w == 16 && (uint64(ki)+n)%uint64(len(u.Keys)) != 0 {
							continue
						}
						cur = fmt.Sprintf("%s of %s under %s", o.Name, fmt.Sprintf("%#x", val), key.Str)
						c.Mark()
						im.Vals = []interface{}{val, toVal(w, ^x)}
						h := base
						if o.Inplace {
							h = im.New[0].Fn()
						}
						var m eng.Model
						h, _, _ = r.Do(h, &m, eng.Step{Kind: eng.KIns, Op: uint8(oi), Key: uint8(ki), Val: 0})
						r.Obs(h, &m, "after insertion")
						// then replaced by its complement and back
						h, _, _ = r.Do(h, &m, eng.Step{Kind: eng.KIns, Op: uint8(oi), Key: uint8(ki), Val: 1})
						r.Obs(h, &m, "after replacement")
						c.R.Trans += 2
					}
				}
			}
			c.R.States += int64(len(vals))
			c.R.Traces += int64(len(vals))
			c.Outcome(fmt.Sprintf("%s values=%d", k.name, len(vals)))
		}})
	}
	return js
}

func init() {
	register(&core.Check{
		ID: "C19", Level: "model_checking",
		Rule:        "all histories up to a depth executed in lockstep by the generic tree and its four typed variants (hits, misses, flags, values by number, enumeration order compared after each); all values of 8 and 16 bits and all words of 32 and 64 bits with up to two bits or one run of bits set or cleared stored under every key by every kind of insertion and read back; states of larger alphabets of every typed variant against the model of the generic ones" + bigRule + bigIPR + ", " + bigDomR + hugeR + eachRule + eachAllR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			js := lockstepJobs(t, 4, 5)
			js = append(js, valueJobs()...)
			mode := eng.Mode{CheckIns: true, CheckDel: true}
			js = append(js, domBFS(t, mode, eng.Variants[1:])...)
			js = append(js, ipBFS(t, mode, eng.Variants[1:], 8)...)
			js = append(js, strBFS(t, mode)[1:]...)
			js = append(js, hugeIPJobs(t, eng.Variants[1:])...)
			js = append(js, hugeDomJobs(t, eng.Variants[1:])...)
			for _, kind := range []string{"str", "dom", "ip"} {
				js = append(js, eachJobs(t, kind, eng.Variants[1:], func(x *eng.Each) { x.Gets, x.Enums, x.Del = true, true, true })...)
			}
			js = append(js, largeJobs("ip dom", eng.Variants[1:], allWays, func(b *eng.Big) { b.Gets, b.Enums, b.Del, b.Flags = true, true, true, true })...)
			return js
		},
	})
}

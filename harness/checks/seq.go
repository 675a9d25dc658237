package checks

import (
	"fmt"
	"strings"

	"vh/core"
	"vh/eng"
)

// group spreads n pieces of work over at most `jobs` jobs.
func group(prefix string, n, jobs int, run func(c *core.Ctx, i int)) []core.Job {
	if jobs > n {
		jobs = n
	}
	var js []core.Job
	for j := 0; j < jobs; j++ {
		j := j
		nm := prefix
		if jobs > 1 {
			nm = fmt.Sprintf("%s/%d", prefix, j)
		}
		js = append(js, core.Job{Name: nm, Run: func(c *core.Ctx) {
			for i := j; i < n; i += jobs {
				run(c, i)
				if c.Stop() {
					return
				}
			}
		}})
	}
	return js
}

func domBFS(t core.Tier, mode eng.Mode, variants []int) []core.Job {
	us := domUnis(t)
	var js []core.Job
	for _, v := range variants {
		v := v
		for i, du := range us {
			i, du := i, du
			if t == core.Quick && v != 0 && du.big && !(du.name == "wide" && v == 8) {
				continue
			}
			js = append(js, core.Job{Name: fmt.Sprintf("domaintree%d/%s", v, du.name), Run: func(c *core.Ctx) {
				r := &eng.Run{C: c, I: eng.DomImpl(v), U: du.mk(c), Rot: i * 5}
				mode := mode
				mode.NoMix = !du.mixed
				r.BFS(mode)
			}})
		}
	}
	return append(js, sameValueJobs("domaintree", mode, variants)...)
}

// sameValueJobs explores small universes where all keys have the same value: nil or zero,
// or the next one in the table.
func sameValueJobs(prefix string, mode eng.Mode, variants []int) []core.Job {
	var js []core.Job
	for _, k := range smallKinds(variants) {
		k := k
		if !strings.HasPrefix(k.name, prefix) {
			continue
		}
		js = append(js, core.Job{Name: "same value/" + k.name, Run: func(c *core.Ctx) {
			for _, two := range [][2]uint8{{0, 1}, {1, 0}} {
				two := two
				r := &eng.Run{C: c, I: k.impl(), U: k.uni(c), Two: &two}
				r.BFS(mode)
			}
		}})
	}
	return js
}

func numBFS(t core.Tier, mode eng.Mode) []core.Job {
	var js []core.Job
	for _, size := range []int{32, 64} {
		size := size
		var small, big []numUni
		for _, u := range numUnis(t, size) {
			if u.big {
				big = append(big, u)
			} else {
				small = append(small, u)
			}
		}
		run := func(c *core.Ctx, nu numUni, i int) {
			r := &eng.Run{C: c, I: eng.NumImpl(size), U: nu.mk(c), Rot: i * 3}
			r.BFS(mode)
		}
		if t == core.Quick && (mode.Persist || mode.SameAsCow) {
			big = nil
		}
		js = append(js, group(fmt.Sprintf("numtree%d/deep", size), len(big), 8, func(c *core.Ctx, i int) { run(c, big[i], i) })...)
		js = append(js, group(fmt.Sprintf("numtree%d/small", size), len(small), pick(t, 8, 32), func(c *core.Ctx, i int) { run(c, small[i], i) })...)
	}
	js = append(js, numPairs(t, mode)...)
	return append(js, sameValueJobs("numtree", mode, nil)...)
}

func ipBFS(t core.Tier, mode eng.Mode, variants []int, every int) []core.Job {
	var js []core.Job
	for _, v := range variants {
		v := v
		var small, big []ipUni
		for i, u := range ipUnis(t, v) {
			if u.big {
				big = append(big, u)
			} else if every < 2 || v == 0 || i%every == v/8%every || i >= 158 {
				small = append(small, u)
			}
		}
		run := func(c *core.Ctx, iu ipUni, i int) {
			r := &eng.Run{C: c, I: eng.IPImpl(v), U: iu.mk(c), Rot: i * 3}
			r.BFS(mode)
		}
		js = append(js, group(fmt.Sprintf("iptree%d/deep", v), len(big), 12, func(c *core.Ctx, i int) { run(c, big[i], i) })...)
		js = append(js, group(fmt.Sprintf("iptree%d/small", v), len(small), pick(t, 6, 16), func(c *core.Ctx, i int) { run(c, small[i], i) })...)
	}
	js = append(js, ipPairs(t, mode, variants)...)
	return append(js, sameValueJobs("iptree", mode, variants)...)
}

// ---- labels ----

func labelUnis() [][]string {
	return [][]string{
		{"", "A", "B", "Z", "[", "{", "AA", "AB"},
		{".", "\\", "A.", "A\\", "\\046", "\x00", "\xff", " "},
		{"\xc3\xa9", "\xc3\x89", "\xff", "\xc3", "\xe9", "\xc5\xbf", "S", "\xef\xbf\xbd"},
		{rep("A", 63), rep("A", 62), rep("A", 62) + "B", "B" + rep("A", 62), rep("\xff", 63), rep("\x00", 63), rep(".", 63), "A"},
		{"*", "-", "_", "0", "00", "XN--4CA", "LOCALHOST", "A-"},
	}
}

func dlBFS(mode eng.Mode) []core.Job {
	us := labelUnis()
	js := group("dltree/alphabets", len(us), len(us), func(c *core.Ctx, i int) {
		r := &eng.Run{C: c, I: eng.DLImpl(), U: eng.LabelUniverse(fmt.Sprintf("labels %d", i), us[i], 6), Rot: i * 7}
		r.BFS(mode)
	})
	return append(js, sameValueJobs("dltree", mode, nil)...)
}

func dlShapes(t core.Tier, set func(x *eng.RB), nq, nt int) []core.Job {
	var js []core.Job
	n := pick(t, nq, nt)
	shards := pick(t, 2, 6)
	for s := 0; s < shards; s++ {
		s := s
		js = append(js, core.Job{Name: fmt.Sprintf("dltree/shapes-n%d/%d", n, s), Run: func(c *core.Ctx) {
			x := eng.DLRB(c)
			set(x)
			x.MaxN, x.Shard, x.Shards = n, s, shards
			x.Explore()
		}})
	}
	return js
}

func dlLinear(t core.Tier, dq, dt int, twin bool) []core.Job {
	return group("dltree/histories", 2, 2, func(c *core.Ctx, i int) {
		r := &eng.Run{C: c, I: eng.DLImpl(), U: eng.LabelUniverse("small", [][]string{{"A", "BB"}, {"", "A", "."}}[i], 2), Rot: i}
		r.Linear(pick(t, dq, dt), r.Steps(true, true, true), 0, twin)
	})
}

// ---- versions: branching histories ----

type kind struct {
	name string
	impl func() *eng.Impl
	uni  func(c *core.Ctx) *eng.Universe
	root int
}

// smallKinds lists every tree kind over a universe of two or three keys.
func smallKinds(variants []int) []kind {
	var ks []kind
	for _, v := range variants {
		v := v
		ks = append(ks,
			kind{fmt.Sprintf("strtree%d", v), func() *eng.Impl { return eng.StrImpl(v, cmpDef) }, func(c *core.Ctx) *eng.Universe {
				return eng.StrUniverse("3 keys", [][]string{{"a"}, {"b"}, {"c"}})
			}, 0},
			kind{fmt.Sprintf("domaintree%d", v), func() *eng.Impl { return eng.DomImpl(v) }, func(c *core.Ctx) *eng.Universe {
				return eng.DomUniverse(c, "4 names", []eng.Dom{eng.D("a"), eng.D("b.a"), eng.D("c.b.a"), eng.D("")}, 1)
			}, 0},
			kind{fmt.Sprintf("domaintree%d-siblings", v), func() *eng.Impl { return eng.DomImpl(v) }, func(c *core.Ctx) *eng.Universe {
				return eng.DomUniverse(c, "siblings", []eng.Dom{eng.D("a.x"), eng.D("b.x"), eng.D("c.x"), eng.Q("x")}, 1)
			}, 0},
			kind{fmt.Sprintf("iptree%d", v), func() *eng.Impl { return eng.IPImpl(v) }, func(c *core.Ctx) *eng.Universe {
				return eng.IPUniverse("networks", []eng.IPKey{
					ip4(eng.Prefix{Hi: 10 << 56, Bits: 8, Store: true}),
					ip4(eng.Prefix{Hi: 0x0a01 << 48, Bits: 32, Store: true}),
					ip4(eng.Prefix{Hi: 0x0a81 << 48, Bits: 32, Store: true}),
				}, false, false)
			}, 0},
			kind{fmt.Sprintf("iptree%d-v6", v), func() *eng.Impl { return eng.IPImpl(v) }, func(c *core.Ctx) *eng.Universe {
				return eng.IPUniverse("networks", []eng.IPKey{
					ip6(eng.Prefix{Hi: 0x20010db800000000, Bits: 48, Store: true}),
					ip6(eng.Prefix{Hi: 0x20010db800000000, Bits: 64, Store: true}),
					ip6(eng.Prefix{Hi: 0x20010db800000000, Lo: 1 << 63, Bits: 65, Store: true}),
					ip6(eng.Prefix{Hi: 0x20010db800000000, Lo: 1, Bits: 128, Store: true}),
				}, false, false)
			}, 0},
		)
	}
	ks = append(ks, kind{"dltree", eng.DLImpl, func(c *core.Ctx) *eng.Universe {
		return eng.LabelUniverse("3 labels", []string{"A", "B", "CC"}, 1)
	}, 0})
	for _, size := range []int{32, 64} {
		size := size
		ks = append(ks, kind{fmt.Sprintf("numtree%d", size), func() *eng.Impl { return eng.NumImpl(size) }, func(c *core.Ctx) *eng.Universe {
			return eng.NumUniverse("4 prefixes", size, []eng.Prefix{
				{Hi: 0, Bits: 0, Store: true},
				{Hi: 0xa << 60, Bits: 4, Store: true},
				{Hi: 0xa8 << 56, Bits: 8, Store: true},
				{Hi: 0xa0 << 56, Bits: 8, Store: true},
			}, false)
		}, 0})
	}
	return ks
}

// oneSpell keeps only the first spelling of every key, to keep histories few.
func oneSpell(steps []eng.Step) []eng.Step {
	var l []eng.Step
	for _, s := range steps {
		if s.Sp == 0 {
			l = append(l, s)
		}
	}
	return l
}

func versionJobs(t core.Tier, dq, dt int, variants []int) []core.Job {
	var js []core.Job
	for _, k := range smallKinds(variants) {
		k := k
		js = append(js, core.Job{Name: "versions/" + k.name, Run: func(c *core.Ctx) {
			im := k.impl()
			for root := range im.New {
				d := pick(c.Tier, dq, dt)
				if root > 0 {
					d--
				}
				r := &eng.Run{C: c, I: im, U: k.uni(c), Rot: root}
				r.Versions(d, oneSpell(r.Steps(false, true, true)), root)
			}
		}})
	}
	return js
}

func linearJobs(t core.Tier, dq, dt int, variants []int, twin bool) []core.Job {
	var js []core.Job
	for _, k := range smallKinds(variants) {
		k := k
		js = append(js, core.Job{Name: "histories/" + k.name, Run: func(c *core.Ctx) {
			im := k.impl()
			for root := range im.New {
				if im.IsNil(im.New[root].Fn()) && !im.NilOK {
					continue
				}
				r := &eng.Run{C: c, I: im, U: k.uni(c), Rot: root}
				r.Linear(pick(c.Tier, dq, dt), oneSpell(r.Steps(true, true, true)), root, twin)
			}
		}})
	}
	return js
}

func init() {
	register(&core.Check{
		ID: "C02", Level: "model_checking",
		Rule:        "breadth-first search over all shapes of label trees up to n entries, over all states on alphabets of labels with all their spellings (letter case, numeric and character escapes, ending dot) and in binary form, all short histories, directed histories with hundreds and with 70,000 labels; human-readable and raw methods are mixed in every state" + bigRule + bigLabR + eachRule + eachLabR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			js := dlBFS(eng.Mode{CheckIns: true, CheckDel: true, Inplace: true, Sweep: true})
			js = append(js, dlShapes(t, func(x *eng.RB) { x.Map, x.Inplace = true, true }, 12, 17)...)
			js = append(js, dlLinear(t, 3, 4, false)...)
			js = append(js, bigJobs(t, "dltree", func(c *core.Ctx) *eng.RB {
				x := eng.DLRB(c)
				x.Map = true
				return x
			}, 200, 1500)...)
			js = append(js, hugeJobs(t, "dltree", func(c *core.Ctx) *eng.RB {
				x := eng.DLRB(c)
				x.Map = true
				return x
			}, 70000)...)
			js = append(js, largeJobs("lab", nil, allWays, func(b *eng.Big) { b.Gets, b.Enums, b.Del, b.Flags = true, true, true, true })...)
			js = append(js, eachJobs(t, "dl", nil, func(x *eng.Each) { x.Gets, x.Enums, x.Inplace, x.Del = true, true, true, true })...)
			return js
		},
	})
	register(&core.Check{
		ID: "C03", Level: "model_checking",
		Rule:        "breadth-first search over all shapes of red-black trees up to n entries (fixpoint: all shapes reachable by any history of copying and in-place insertions and deletions), each dump checked for the red-black rules and depth, the in-memory structure for depth, each operation for the number of comparisons; then directed histories with hundreds and with 20,000 entries",
		Assumptions: append([]string{"behaviour of the trees depends on keys only through the comparison"}, commonAssumptions...),
		Jobs: func(t core.Tier) []core.Job {
			set := func(x *eng.RB) { x.Shape, x.Depth, x.Inplace = true, true, true }
			js := rbJobs(t, set, 12, 17, true)
			js = append(js, dlShapes(t, set, 12, 17)...)
			counted := func(c *core.Ctx, v int) *eng.RB {
				n := new(int64)
				x := eng.StrRB(c, v, eng.Cmp{Name: "counting", Fn: func(a, b string) int {
					*n++
					switch {
					case a < b:
						return -1
					case a > b:
						return 1
					}
					return 0
				}}, false)
				x.Cmps = n
				x.Shape, x.Depth = true, true
				return x
			}
			for _, v := range eng.Variants {
				v := v
				js = append(js, core.Job{Name: fmt.Sprintf("strtree%d/comparisons", v), Run: func(c *core.Ctx) {
					x := counted(c, v)
					x.MaxN = pick(t, 9, 13)
					x.Explore()
				}})
				js = append(js, bigJobs(t, fmt.Sprintf("strtree%d", v), func(c *core.Ctx) *eng.RB { return counted(c, v) }, 300, 3000)...)
			}
			js = append(js, bigJobs(t, "dltree", func(c *core.Ctx) *eng.RB {
				x := eng.DLRB(c)
				x.Shape, x.Depth = true, true
				return x
			}, 300, 3000)...)
			deep := func(x *eng.RB) *eng.RB {
				x.Depth = true
				return x
			}
			for _, v := range eng.Variants {
				v := v
				js = append(js, hugeJobs(t, fmt.Sprintf("strtree%d", v), func(c *core.Ctx) *eng.RB { return deep(eng.StrRB(c, v, cmpDef, false)) }, 20000)...)
				js = append(js, hugeJobs(t, fmt.Sprintf("domaintree%d", v), func(c *core.Ctx) *eng.RB { return deep(eng.DomRB(c, v)) }, 5000)...)
			}
			js = append(js, hugeJobs(t, "dltree", func(c *core.Ctx) *eng.RB { return deep(eng.DLRB(c)) }, 20000)...)
			return js
		},
	})
	register(&core.Check{
		ID: "C04", Level: "model_checking",
		Rule:        "every copying operation is executed in every reachable state of every tree kind over small alphabets and in every red-black shape up to n entries; the source is observed completely before and after it and every state kept is observed again at the end; plus all branching histories (any operation on any earlier version) up to a depth" + bigRule + strings.Join([]string{bigNumR, bigIPR, bigDomR}, ", ") + eachRule + eachAllR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			mode := eng.Mode{Persist: true, Sweep: true}
			var js []core.Job
			js = append(js, domBFS(t, mode, []int{0, 16, 64})...)
			js = append(js, numBFS(t, mode)...)
			vs := []int{0, 8}
			if t == core.Thorough {
				vs = eng.Variants
			}
			js = append(js, ipBFS(t, mode, vs, 8)...)
			js = append(js, dlBFS(mode)...)
			js = append(js, strBFS(t, mode)...)
			set := func(x *eng.RB) { x.Persist = true }
			js = append(js, rbJobs(t, set, 10, 15, true)...)
			js = append(js, dlShapes(t, set, 10, 15)...)
			js = append(js, versionJobs(t, 3, 4, eng.Variants)...)
			for _, v := range eng.Variants {
				v := v
				js = append(js, bigJobs(t, fmt.Sprintf("strtree%d", v), func(c *core.Ctx) *eng.RB {
					x := eng.StrRB(c, v, cmpDef, false)
					x.Persist = true
					return x
				}, 100, 1000)[:1]...)
			}
			js = append(js, bigJobs(t, "dltree", func(c *core.Ctx) *eng.RB {
				x := eng.DLRB(c)
				x.Persist = true
				return x
			}, 100, 1000)[:1]...)
			js = append(js, largeJobs("num ip dom", eng.Variants, copyWay, func(b *eng.Big) { b.Persist, b.Gets, b.Enums, b.Del = true, true, true, true })...)
			for _, kind := range []string{"str", "dl", "dom", "num", "ip"} {
				js = append(js, eachJobs(t, kind, eng.Variants, func(x *eng.Each) { x.Gets, x.Enums, x.Persist = true, true, true })...)
			}
			return js
		},
	})
	register(&core.Check{
		ID: "C05", Level: "model_checking",
		Rule:        "in every reachable state of every tree kind every in-place insertion is executed on a tree rebuilt for it and compared with the copying insertion and the model; plus all mixed histories of copying and in-place insertions and deletions up to a depth, in lockstep with the history that only copies" + bigRule + strings.Join([]string{bigNumR, bigIPR, bigDomR}, ", ") + eachRule + eachAllR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			mode := eng.Mode{Inplace: true, SameAsCow: true}
			var js []core.Job
			js = append(js, domBFS(t, mode, eng.Variants)...)
			js = append(js, numBFS(t, mode)...)
			js = append(js, ipBFS(t, mode, eng.Variants, 8)...)
			js = append(js, dlBFS(mode)...)
			js = append(js, strBFS(t, mode)...)
			set := func(x *eng.RB) { x.Inplace = true }
			js = append(js, rbJobs(t, set, 10, 16, true)...)
			js = append(js, dlShapes(t, set, 10, 16)...)
			js = append(js, linearJobs(t, 4, 5, eng.Variants, true)...)
			js = append(js, largeJobs("num ip dom", eng.Variants, inWays, func(b *eng.Big) { b.Twin, b.Gets, b.Enums = true, true, true })...)
			for _, kind := range []string{"str", "dl", "dom", "num", "ip"} {
				js = append(js, eachJobs(t, kind, eng.Variants, func(x *eng.Each) { x.Gets, x.Enums, x.Inplace = true, true, true })...)
			}
			return js
		},
	})
	register(&core.Check{
		ID: "C06", Level: "model_checking",
		Rule:        "breadth-first search over all states on prefix alphabets (all prefixes of 3-4 adjacent lengths at every offset, branches at all pairs of bit positions), each insertion's result observed by Match, ExactMatch, FindNode and Enumerate for every key of the universe with changing host bits and out-of-range lengths against a bitwise containment model" + bigRule + bigNumR + hugeR + eachRule + eachNumR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			js := numBFS(t, eng.Mode{CheckIns: true, CheckRes: true, Inplace: true})
			js = append(js, hugeNumJobs(t)...)
			js = append(js, eachJobs(t, "num", nil, func(x *eng.Each) { x.Gets, x.Enums, x.Inplace = true, true, true })...)
			return append(js, largeJobs("num", nil, allWays, func(b *eng.Big) { b.Gets, b.Enums = true, true })...)
		},
	})
	register(&core.Check{
		ID: "C07", Level: "model_checking",
		Rule:        "breadth-first search over all states on prefix alphabets (as for C06); every deletion of every key of the universe, stored or not, is executed in every state and its flag and complete result observed against the model; results of deletions are states again" + bigRule + bigNumR + hugeR + eachRule + eachNumR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			js := numBFS(t, eng.Mode{CheckDel: true, Sweep: true})
			js = append(js, hugeNumJobs(t)...)
			js = append(js, eachJobs(t, "num", nil, func(x *eng.Each) { x.Gets, x.Enums, x.Del = true, true, true })...)
			return append(js, largeJobs("num", nil, allWays, func(b *eng.Big) { b.Gets, b.Enums, b.Del, b.Flags = true, true, true, true })...)
		},
	})
	ipVar := func(t core.Tier) []int { return eng.Variants }
	register(&core.Check{
		ID: "C08", Level: "model_checking",
		Rule:        "breadth-first search over all states on alphabets of networks (all networks of 3-4 adjacent lengths at every offset of both families, nested chains around 64 bits, both families mixed, IPv4-mapped networks); every insertion's result observed by GetByNet and GetByIP for every key of the universe with changing host bits and IPv4 forms against a bitwise containment model" + bigRule + bigIPR + hugeR + eachRule + eachNumR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			js := ipBFS(t, eng.Mode{CheckIns: true, CheckRes: true, Inplace: true, NoEnum: true}, ipVar(t), 4)
			js = append(js, hugeIPJobs(t, eng.Variants)...)
			js = append(js, eachJobs(t, "ip", eng.Variants, func(x *eng.Each) { x.Gets, x.Inplace = true, true })...)
			return append(js, largeJobs("ip", eng.Variants, allWays, func(b *eng.Big) { b.Gets = true })...)
		},
	})
	register(&core.Check{
		ID: "C09", Level: "model_checking",
		Rule:        "breadth-first search over all states on alphabets of networks (as for C08); every deletion of every network and address of the universe, stored or not, is executed in every state and its flag and complete result observed against the model; results of deletions are states again" + bigRule + bigIPR + hugeR + eachRule + eachNumR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			js := ipBFS(t, eng.Mode{CheckDel: true, Sweep: true}, ipVar(t), 4)
			js = append(js, hugeIPJobs(t, eng.Variants)...)
			js = append(js, eachJobs(t, "ip", eng.Variants, func(x *eng.Each) { x.Gets, x.Del = true, true })...)
			return append(js, largeJobs("ip", eng.Variants, allWays, func(b *eng.Big) { b.Gets, b.Enums, b.Del, b.Flags = true, true, true, true })...)
		},
	})
	register(&core.Check{
		ID: "C10", Level: "model_checking",
		Rule:        "breadth-first search over all states on alphabets of networks (as for C08) reached by insertions of both kinds and deletions; the complete enumeration of every state compared with the sorted list of stored networks in their exact binary form" + bigRule + bigIPR + hugeR + eachRule + eachNumR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			js := ipBFS(t, eng.Mode{CheckIns: true, CheckRes: true, Inplace: true, NoGet: true}, ipVar(t), 4)
			js = append(js, hugeIPJobs(t, eng.Variants)...)
			js = append(js, eachJobs(t, "ip", eng.Variants, func(x *eng.Each) { x.Enums, x.Inplace, x.Del = true, true, true })...)
			return append(js, largeJobs("ip", eng.Variants, allWays, func(b *eng.Big) { b.Enums, b.Del = true, true })...)
		},
	})
	register(&core.Check{
		ID: "C16", Level: "model_checking",
		Rule:        "breadth-first search over all states on alphabets of names (all names over 2 labels up to 3 levels with the root, wide sibling sets, chains up to 127 labels, labels of 63 bytes, unusual bytes); Get of every name of the universe in every state against the longest-suffix model" + bigRule + bigDomR + hugeR + eachRule + eachLabR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			js := domBFS(t, eng.Mode{CheckIns: true, CheckRes: true, Inplace: true, NoEnum: true}, eng.Variants)
			js = append(js, rbJobsDom(t, 10, 14)...)
			js = append(js, hugeDomJobs(t, eng.Variants)...)
			js = append(js, eachJobs(t, "dom", eng.Variants, func(x *eng.Each) { x.Gets, x.Inplace = true, true })...)
			return append(js, largeJobs("dom", eng.Variants, allWays, func(b *eng.Big) { b.Gets = true })...)
		},
	})
	register(&core.Check{
		ID: "C17", Level: "model_checking",
		Rule:        "breadth-first search over all states on alphabets of names (as for C16); Delete and DeleteSubdomains of every name, stored or not, are executed in every state, flag and complete result observed against the model; results of deletions are states again" + bigRule + bigDomR + hugeR + eachRule + eachLabR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			js := domBFS(t, eng.Mode{CheckDel: true, Sweep: true}, eng.Variants)
			js = append(js, rbJobsDom(t, 10, 14)...)
			js = append(js, hugeDomJobs(t, eng.Variants)...)
			js = append(js, eachJobs(t, "dom", eng.Variants, func(x *eng.Each) { x.Gets, x.Del = true, true })...)
			return append(js, largeJobs("dom", eng.Variants, allWays, func(b *eng.Big) { b.Gets, b.Enums, b.Del, b.Flags = true, true, true, true })...)
		},
	})
	register(&core.Check{
		ID: "C18", Level: "model_checking",
		Rule:        "breadth-first search over all states on alphabets of names (as for C16) reached by all ways (insertions of both kinds, deletions); the complete enumeration is parsed back by an independent parser and compared with the model's order" + bigRule + bigDomR + hugeR + eachRule + eachLabR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			js := domBFS(t, eng.Mode{CheckIns: true, CheckRes: true, Inplace: true, NoGet: true}, eng.Variants)
			js = append(js, rbJobsDom(t, 10, 14)...)
			js = append(js, enumBytesJobs()...)
			js = append(js, hugeDomJobs(t, eng.Variants)...)
			js = append(js, eachJobs(t, "dom", eng.Variants, func(x *eng.Each) { x.Enums, x.Inplace, x.Del = true, true, true })...)
			return append(js, largeJobs("dom", eng.Variants, allWays, func(b *eng.Big) { b.Enums, b.Del = true, true })...)
		},
	})
	register(&core.Check{
		ID: "C25", Level: "model_checking",
		Rule:        "breadth-first search over all states on alphabets of names and labels with five spellings of each (case, numeric, character and mixed escapes, ending dot) where every operation uses another spelling, together with names which only look alike; plus all pairs of spellings of every one-byte label",
		Assumptions: commonAssumptions,
		Jobs:        spellJobs,
	})
}

func rbJobsDom(t core.Tier, nq, nt int) []core.Job {
	var js []core.Job
	n := pick(t, nq, nt)
	for _, v := range eng.Variants {
		v := v
		js = append(js, core.Job{Name: fmt.Sprintf("domaintree%d/shapes-n%d", v, n), Run: func(c *core.Ctx) {
			x := eng.DomRB(c, v)
			x.Map, x.Inplace = true, true
			x.MaxN = n
			x.Explore()
		}})
	}
	return js
}

func hugeDomJobs(t core.Tier, variants []int) []core.Job {
	var js []core.Job
	for _, v := range variants {
		v := v
		js = append(js, hugeJobs(t, fmt.Sprintf("domaintree%d", v), func(c *core.Ctx) *eng.RB {
			x := eng.DomSubRB(c, v)
			x.Map = true
			return x
		}, 70000)[v/8%3:][:pick(t, 1, 4)]...)
	}
	return js
}

func hugeNumJobs(t core.Tier) []core.Job {
	var js []core.Job
	for _, size := range []int{32, 64} {
		size := size
		js = append(js, hugeJobs(t, fmt.Sprintf("numtree%d", size), func(c *core.Ctx) *eng.RB {
			x := eng.NumRB(c, size)
			x.Map = true
			return x
		}, 70000)...)
	}
	return js
}

func hugeIPJobs(t core.Tier, variants []int) []core.Job {
	var js []core.Job
	for _, v := range variants {
		for kind, nm := range []string{"v4", "v6-64", "v6-128"} {
			v, kind := v, kind
			js = append(js, hugeJobs(t, fmt.Sprintf("iptree%d/%s", v, nm), func(c *core.Ctx) *eng.RB {
				x := eng.IPRB(c, v, kind)
				x.Map = true
				return x
			}, 70000)[v/8%3:][:pick(t, 1, 4)]...)
		}
	}
	return js
}

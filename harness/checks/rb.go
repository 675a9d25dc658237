package checks

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"

	"vh/core"
	"vh/eng"
)

func revCmp(a, b string) int { return strings.Compare(b, a) }

func foldCmp(a, b string) int { return strings.Compare(strings.ToLower(a), strings.ToLower(b)) }

func lenCmp(a, b string) int {
	if len(a) != len(b) {
		return len(a) - len(b)
	}
	return strings.Compare(a, b)
}

// bigCmp returns large numbers, not only -1, 0 and 1.
func bigCmp(a, b string) int { return strings.Compare(a, b) * (1 << 40) }

// minCmp returns the extreme numbers, the lower of which can't be negated.
func minCmp(a, b string) int {
	switch strings.Compare(a, b) {
	case -1:
		return math.MinInt
	case 1:
		return math.MaxInt
	}
	return 0
}

// midCmp puts the empty string and others into the middle.
func midCmp(a, b string) int {
	x, _ := strconv.Atoi(a)
	y, _ := strconv.Atoi(b)
	return x - y
}

var (
	cmpDef  = eng.Cmp{Name: "default"}
	cmpRev  = eng.Cmp{Name: "reverse", Fn: revCmp}
	cmpFold = eng.Cmp{Name: "fold", Fn: foldCmp}
	cmpLen  = eng.Cmp{Name: "length", Fn: lenCmp}
	cmpMin  = eng.Cmp{Name: "extreme", Fn: minCmp}
	cmpMid  = eng.Cmp{Name: "numbers", Fn: midCmp}
	cmpBig  = eng.Cmp{Name: "large", Fn: bigCmp}
)

type pattern struct {
	name string
	f    func(n int) func(i int) int
}

func gcd(a, b int) int {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

var patterns = []pattern{
	{"ascending", func(n int) func(int) int { return func(i int) int { return i } }},
	{"descending", func(n int) func(int) int { return func(i int) int { return n - 1 - i } }},
	{"zigzag", func(n int) func(int) int {
		return func(i int) int {
			if i%2 == 0 {
				return i / 2
			}
			return n - 1 - i/2
		}
	}},
	{"inside-out", func(n int) func(int) int {
		return func(i int) int {
			i = n - 1 - i
			if i%2 == 0 {
				return i / 2
			}
			return n - 1 - i/2
		}
	}},
	{"bit-reversed", func(n int) func(int) int {
		w := bits.Len(uint(n - 1))
		var p []int
		for i := 0; i < 1<<uint(w); i++ {
			x := int(bits.Reverse64(uint64(i)) >> uint(64-w))
			if x < n {
				p = append(p, x)
			}
		}
		return func(i int) int { return p[i] }
	}},
	{"stride", func(n int) func(int) int {
		s := n*618/1000 | 1
		for gcd(s, n) != 1 {
			s += 2
		}
		return func(i int) int { return i * s % n }
	}},
}

// bigJobs are directed histories over many keys.
func bigJobs(t core.Tier, prefix string, mk func(c *core.Ctx) *eng.RB, nq, nt int) []core.Job {
	n := pick(t, nq, nt)
	var js []core.Job
	for _, inplace := range []bool{false, true} {
		inplace := inplace
		nm := "cow"
		if inplace {
			nm = "inplace"
		}
		js = append(js, core.Job{Name: fmt.Sprintf("%s/big-%s-n%d", prefix, nm, n), Run: func(c *core.Ctx) {
			for _, p := range patterns {
				for _, d := range patterns {
					x := mk(c)
					x.Big(p.name+" then delete "+d.name, n, p.f(n), d.f(n), n/8+1, inplace)
				}
			}
			// sizes around powers of two
			for _, m := range []int{1, 2, 3, 4, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257} {
				x := mk(c)
				p := patterns[m%len(patterns)]
				x.Big(p.name+" all sizes", m, p.f(m), patterns[(m+1)%len(patterns)].f(m), m/4+1, inplace)
			}
		}})
	}
	return js
}

// hugeJobs are directed histories over tens of thousands of keys: the depth which short
// histories can't reach.
func hugeJobs(t core.Tier, prefix string, mk func(c *core.Ctx) *eng.RB, n int) []core.Job {
	var js []core.Job
	for i, p := range patterns {
		i, p := i, p
		if t == core.Quick && p.name != "ascending" && p.name != "descending" && p.name != "stride" {
			continue
		}
		js = append(js, core.Job{Name: fmt.Sprintf("%s/huge-%s-n%d", prefix, p.name, n), Run: func(c *core.Ctx) {
			for _, inplace := range []bool{true, false} {
				mk(c).Huge(p.name, n, p.f(n), patterns[(i+3)%len(patterns)].f(n), inplace)
			}
		}})
	}
	return js
}

// rbJobs are explorations of all shapes of red-black trees.
func rbJobs(t core.Tier, set func(x *eng.RB), nq, nt int, dom bool) []core.Job {
	var js []core.Job
	n := pick(t, nq, nt)
	shards := pick(t, 1, 3)
	add := func(name string, n int, mk func(c *core.Ctx) *eng.RB) {
		for s := 0; s < shards; s++ {
			s := s
			js = append(js, core.Job{Name: fmt.Sprintf("%s/shapes-n%d/%d", name, n, s), Run: func(c *core.Ctx) {
				x := mk(c)
				set(x)
				x.MaxN, x.Shard, x.Shards = n, s, shards
				x.Explore()
			}})
		}
	}
	for _, v := range eng.Variants {
		v := v
		add(fmt.Sprintf("strtree%d", v), n, func(c *core.Ctx) *eng.RB { return eng.StrRB(c, v, cmpDef, false) })
		add(fmt.Sprintf("strtree%d-reverse", v), n-3, func(c *core.Ctx) *eng.RB { return eng.StrRB(c, v, cmpRev, true) })
		if dom {
			add(fmt.Sprintf("domaintree%d", v), n-3, func(c *core.Ctx) *eng.RB { return eng.DomRB(c, v) })
		}
	}
	return js
}

// Alphabets of string keys, in ascending order of the comparison.
var strAlpha = [][][]string{
	{{""}, {"\x00"}, {"A"}, {"AA"}, {"B"}, {"a"}, {"\x7f"}, {"\x80"}, {"\xff"}, {"\xff\x00"}},
	{{"a"}, {"aa"}, {"aaa"}, {"aab"}, {"ab"}, {"b"}, {"ba"}},
}

var foldAlpha = [][]string{{""}, {"a", "A"}, {"aa", "aA", "AA"}, {"ab", "AB"}, {"b", "B"}, {"bc", "Bc", "bC", "BC"}, {"z"}}

// Numbers in their order, the empty string being zero.
var numAlpha = [][]string{{"-20", "-020"}, {"-3"}, {"", "0", "-0"}, {"7", "007"}, {"10"}, {"200"}}

// Texts which some treat as equal, or order in other ways.
var textAlpha = [][]string{{"10"}, {"9"}, {"A"}, {"a"}, {"a\x00"}, {"e\u0301"}, {"\u00c9"}, {"\u00e9"}}

var longKey = rep("long key ", 40)

// Long keys with a common beginning.
var longAlpha = [][]string{{longKey[:127]}, {longKey[:128]}, {longKey[:255]}, {longKey[:256]}, {longKey[:257]}, {longKey}, {longKey + "a"}, {longKey + "b"}}

var hugeAlpha = [][]string{{rep("k", 65535)}, {rep("k", 65536)}, {rep("k", 70000) + "a"}, {rep("k", 70000) + "b"}}

var lenAlpha = [][]string{{""}, {"a"}, {"b"}, {"\xff"}, {"aa"}, {"ab"}, {"zz"}, {"aaa"}}

var revAlpha = [][]string{{"b"}, {"aab"}, {"aa"}, {"a\xff"}, {"a"}, {"\x00"}, {""}}

func init() {
	// revAlpha must descend
	for i := 1; i < len(revAlpha); i++ {
		for j := i; j > 0 && revCmp(revAlpha[j][0], revAlpha[j-1][0]) < 0; j-- {
			revAlpha[j], revAlpha[j-1] = revAlpha[j-1], revAlpha[j]
		}
	}
}

type strUni struct {
	cmp eng.Cmp
	u   func() *eng.Universe
}

func strUnis() []strUni {
	return []strUni{
		{cmpDef, func() *eng.Universe { return eng.StrUniverse("bytes", strAlpha[0]) }},
		{cmpDef, func() *eng.Universe { return eng.StrUniverse("prefixes", strAlpha[1]) }},
		{cmpFold, func() *eng.Universe { return eng.StrUniverse("letter case", foldAlpha) }},
		{cmpLen, func() *eng.Universe { return eng.StrUniverse("length first", lenAlpha) }},
		{cmpRev, func() *eng.Universe { return eng.StrUniverse("reverse", revAlpha) }},
		{cmpBig, func() *eng.Universe { return eng.StrUniverse("large results", strAlpha[1]) }},
		{cmpMin, func() *eng.Universe { return eng.StrUniverse("extreme results", strAlpha[1][:6]) }},
		{cmpMid, func() *eng.Universe { return eng.StrUniverse("numbers", numAlpha) }},
		{cmpDef, func() *eng.Universe { return eng.StrUniverse("texts", textAlpha[:7]) }},
		{cmpDef, func() *eng.Universe { return eng.StrUniverse("long keys", longAlpha[1:]) }},
		{cmpDef, func() *eng.Universe { return eng.StrUniverse("very long keys", hugeAlpha) }},
	}
}

func strBFS(t core.Tier, mode eng.Mode) []core.Job {
	var js []core.Job
	for _, v := range eng.Variants {
		v := v
		js = append(js, core.Job{Name: fmt.Sprintf("strtree%d/alphabets", v), Run: func(c *core.Ctx) {
			for i, su := range strUnis() {
				if c.Tier == core.Quick && v != 0 && i == 0 {
					continue
				}
				r := &eng.Run{C: c, I: eng.StrImpl(v, su.cmp), U: su.u(), Rot: i * 3}
				r.BFS(mode)
			}
		}})
	}
	return append(js, sameValueJobs("strtree", mode, eng.Variants)...)
}

func strLinear(t core.Tier, dq, dt int, twin bool) []core.Job {
	var js []core.Job
	for _, v := range eng.Variants {
		v := v
		js = append(js, core.Job{Name: fmt.Sprintf("strtree%d/histories", v), Run: func(c *core.Ctx) {
			for i, a := range []struct {
				cmp eng.Cmp
				g   [][]string
			}{
				{cmpDef, [][]string{{""}, {"a"}, {"b"}}},
				{cmpFold, [][]string{{"a", "A"}, {"b", "B"}}},
			} {
				r := &eng.Run{C: c, I: eng.StrImpl(v, a.cmp), U: eng.StrUniverse("small", a.g), Rot: i}
				r.Linear(pick(c.Tier, dq, dt), r.Steps(true, true, true), 0, twin)
			}
		}})
	}
	return js
}

func init() {
	register(&core.Check{
		ID: "C01", Level: "model_checking",
		Rule: "breadth-first search over all shapes of string trees up to n entries (keys abstracted to ranks, new keys in every gap, replacements, deletions of present and absent keys, copying and in-place), over all states on small alphabets with 7 comparisons and long keys, all histories up to a depth, and directed histories with hundreds and with 70,000 keys; every transition is executed by the real code and observed by Get of every key, Enumerate, IsEmpty and Delete's flag against an ordered map" + bigRule + bigStrR + eachRule + eachStrR,
		Assumptions: append([]string{
			"shapes: behaviour depends on keys only through the comparison (other jobs vary the keys themselves)",
		}, commonAssumptions...),
		Jobs: func(t core.Tier) []core.Job {
			js := rbJobs(t, func(x *eng.RB) { x.Map, x.Inplace = true, true }, 13, 18, false)
			js = append(js, strBFS(t, eng.Mode{CheckIns: true, CheckDel: true, Inplace: true, Sweep: true})...)
			js = append(js, strLinear(t, 4, 6, false)...)
			for _, v := range eng.Variants {
				v := v
				js = append(js, bigJobs(t, fmt.Sprintf("strtree%d", v), func(c *core.Ctx) *eng.RB {
					x := eng.StrRB(c, v, cmpDef, false)
					x.Map = true
					return x
				}, 200, 1500)...)
				js = append(js, hugeJobs(t, fmt.Sprintf("strtree%d", v), func(c *core.Ctx) *eng.RB {
					x := eng.StrRB(c, v, cmpDef, false)
					x.Map = true
					return x
				}, 70000)...)
			}
			js = append(js, eachJobs(t, "str", eng.Variants, func(x *eng.Each) { x.Gets, x.Enums, x.Inplace, x.Del = true, true, true, true })...)
			js = append(js, largeJobs("str", eng.Variants, allWays, func(b *eng.Big) { b.Gets, b.Enums, b.Del, b.Flags = true, true, true, true })...)
			return js
		},
	})
}

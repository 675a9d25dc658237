package checks

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"

	"vh/core"
	"vh/eng"
)

var numLabel = regexp.MustCompile(`^k: ([0-9a-f]+), b: ([0-9]+)(?:, v: ((?s).*))?$`)

// numDot checks dump of an integer tree.
func numDot(size int) func(r *eng.Run, h interface{}, m *eng.Model, rebuild func() interface{}, trace func() []string) {
	return func(r *eng.Run, h interface{}, m *eng.Model, rebuild func() interface{}, trace func() []string) {
		s := r.I.Dot(h)
		r.C.R.Evals++
		if err := checkNumDot(s, size, r, m.M == 0, func(i int) bool { return m.M>>uint(i)&1 != 0 }, func(i int) uint8 { return m.V[i] }); err != nil {
			r.C.Fail("dot", "%s: %s\n%s\nstored: %s", r.I.Name, err, s, r.Stored(m))
		}
	}
}

func checkNumDot(s string, size int, r *eng.Run, empty bool, stored func(i int) bool, val func(i int) uint8) error {
	ns, err := eng.ParseDot(s)
	if err != nil {
		return err
	}
	if empty {
		if len(ns) != 1 || !ns[0].Nil {
			return fmt.Errorf("dump of an empty tree isn't a single nil node")
		}
		return nil
	}
	text := map[string]int{}
	for i, k := range r.U.Keys {
		text[k.Enum[eng.Human][0]] = i
	}
	ps := make([]eng.Prefix, len(ns))
	seen := map[int]bool{}
	for i, n := range ns {
		if n.Nil {
			continue
		}
		l := numLabel.FindStringSubmatch(n.Label)
		if l == nil {
			return fmt.Errorf("label %q of N%d is neither a prefix nor nil", n.Label, i)
		}
		k, err := strconv.ParseUint(l[1], 16, 64)
		if err != nil {
			return err
		}
		b, _ := strconv.Atoi(l[2])
		if b > size || len(l[1]) != size/4 {
			return fmt.Errorf("label %q of N%d is not a prefix of %d bits", n.Label, i, size)
		}
		if size == 32 {
			k <<= 32
		}
		ps[i] = eng.Prefix{Hi: k, Bits: b}.Norm()
		leaf := strings.Contains(n.Label, ", v: ")
		v := ps[i].Hi
		if size == 32 {
			v >>= 32
		}
		key, known := text[eng.PText(v, b, size)]
		if known && leaf && stored(key) {
			if seen[key] {
				return fmt.Errorf("%s is listed twice", r.U.Keys[key].Str)
			}
			seen[key] = true
			want := r.I.Vals[val(key)]
			wt := fmt.Sprintf("%#v", want)
			if got := strings.Trim(l[3], `"`); got != strings.Trim(wt, `"`) {
				return fmt.Errorf("%s is listed with value %s, expected %s", r.U.Keys[key].Str, l[3], wt)
			}
		} else if leaf {
			return fmt.Errorf("N%d (%s) is listed as stored", i, n.Label)
		}
	}
	for i, n := range ns {
		if len(n.Kids) > 2 {
			return fmt.Errorf("N%d has %d children", i, len(n.Kids))
		}
		for _, k := range n.Kids {
			if !ns[k].Nil && (!ps[i].Contains(ps[k]) || ps[i].Bits >= ps[k].Bits) {
				return fmt.Errorf("N%d (%s) isn't inside its parent N%d (%s)", k, ns[k].Label, i, n.Label)
			}
		}
	}
	for i := range r.U.Keys {
		if stored(i) && !seen[i] {
			return fmt.Errorf("%s is not listed", r.U.Keys[i].Str)
		}
	}
	return nil
}

// rbDot checks dump of a string or label tree with unusual keys.
func rbDot(r *eng.Run, h interface{}, m *eng.Model, rebuild func() interface{}, trace func() []string) {
	s := r.I.Dot(h)
	r.C.R.Evals++
	err := func() error {
		ns, err := eng.ParseDot(s)
		if err != nil {
			return err
		}
		if m.M == 0 {
			if len(ns) == 1 && ns[0].Nil || len(ns) == 0 && r.I.IsNil(h) {
				return nil
			}
			return fmt.Errorf("dump of an empty tree isn't a single nil node")
		}
		ord, err := eng.InOrder(ns)
		if err != nil {
			return err
		}
		i := 0
		for _, k := range r.U.Order {
			if m.M>>uint(k)&1 == 0 {
				continue
			}
			if i >= len(ord) {
				return fmt.Errorf("%s is not listed", r.U.Keys[k].Str)
			}
			l := ns[ord[i]].Label
			forms := r.U.Keys[k].Enum[eng.Human]
			if len(r.U.Keys[k].Enum[eng.Raw]) > 0 {
				forms = r.U.Keys[k].Enum[eng.Raw]
			}
			ok := false
			v := r.I.Vals[m.V[k]]
			for _, f := range forms {
				if eng.DotLabel(l, f, v) == nil {
					ok = true
				}
			}
			if !ok {
				return fmt.Errorf("label %q is found where key %s with value %#v is expected", l, r.U.Keys[k].Str, v)
			}
			i++
		}
		if i != len(ord) {
			return fmt.Errorf("%d nodes are listed, %d are stored", len(ord), i)
		}
		return nil
	}()
	if err != nil {
		r.C.Fail("dot", "%s: %s\n%s\nstored: %s", r.I.Name, err, s, r.Stored(m))
	}
}

func init() {
	register(&core.Check{
		ID: "C22", Level: "model_checking",
		Rule:        "breadth-first search over all shapes of red-black trees up to n entries and over all states of alphabets of unusual strings, labels and prefixes; every dump is parsed and checked node by node against the model; directed histories with 150 strings, and of big integer trees (" + bigNumR + ")" + eachRule + eachAllR,
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			set := func(x *eng.RB) { x.Dot, x.Inplace = true, true }
			js := rbJobs(t, set, 11, 16, false)
			js = append(js, dlShapes(t, set, 11, 16)...)
			for _, v := range eng.Variants {
				v := v
				js = append(js, bigJobs(t, fmt.Sprintf("strtree%d", v), func(c *core.Ctx) *eng.RB {
					x := eng.StrRB(c, v, cmpDef, false)
					x.Dot = true
					return x
				}, 150, 800)[v/8%2:][:1]...)
			}
			js = append(js, largeJobs("num", nil, allWays, func(b *eng.Big) { bigDot(b); b.Del = true })...)
			for _, kind := range []string{"str", "dl", "num"} {
				js = append(js, eachJobs(t, kind, eng.Variants, func(x *eng.Each) { x.Dots = true })...)
			}
			js = append(js, strBFS(t, eng.Mode{Hook: rbDot})...)
			for _, v := range eng.Variants {
				v := v
				js = append(js, core.Job{Name: fmt.Sprintf("strtree%d/quoting", v), Run: func(c *core.Ctx) {
					u := eng.StrUniverse("quoting", [][]string{{""}, {"\n"}, {" "}, {"\""}, {"\\"}, {"k: \" v: "}, {"{}->[]"}, {"é"}, {"\xff"}})
					r := &eng.Run{C: c, I: eng.StrImpl(v, cmpDef), U: u, Rot: v}
					r.BFS(eng.Mode{Hook: rbDot})
				}})
			}
			js = append(js, dlBFS(eng.Mode{Hook: rbDot})...)
			for _, size := range []int{32, 64} {
				size := size
				us := numUnis(t, size)
				js = append(js, group(fmt.Sprintf("numtree%d", size), len(us), pick(t, 8, 32), func(c *core.Ctx, i int) {
					r := &eng.Run{C: c, I: eng.NumImpl(size), U: us[i].mk(c), Rot: i * 3}
					r.BFS(eng.Mode{Hook: numDot(size)})
				})...)
			}
			return js
		},
	})
}

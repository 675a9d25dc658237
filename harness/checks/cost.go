package checks

import (
	"fmt"
	"strings"

	"vh/core"
	"vh/eng"
	"vsched"
)

// ---- C29: operations touch nothing but the way to the key ----

type costKind struct {
	name     string
	mk       func(c *core.Ctx) *eng.RB
	levels   func(n int) int
	perLevel int64
	others   func(k uint64) []eng.Other
}

func costKinds() []costKind {
	var ks []costKind
	rb := func(labels int) func(n int) int {
		return func(n int) int { return eng.RBLevels(n) + 4*labels }
	}
	radix := func(l int) func(n int) int { return func(n int) int { return l + 2 } }
	for _, v := range eng.Variants {
		v := v
		ks = append(ks,
			costKind{fmt.Sprintf("strtree%d", v), func(c *core.Ctx) *eng.RB { return eng.StrRB(c, v, cmpDef, false) }, rb(0), 100, nil},
			costKind{fmt.Sprintf("domaintree%d", v), func(c *core.Ctx) *eng.RB { return eng.DomRB(c, v) }, rb(4), 100, func(k uint64) []eng.Other { return eng.DomOthers(k, false) }},
			costKind{fmt.Sprintf("domaintree%d/subdomains", v), func(c *core.Ctx) *eng.RB { return eng.DomSubRB(c, v) }, rb(5), 100, func(k uint64) []eng.Other { return eng.DomOthers(k, true) }})
		for i, l := range []int{32, 64, 128} {
			i := i
			ks = append(ks, costKind{fmt.Sprintf("iptree%d/%s", v, []string{"IPv4", "IPv6 64", "IPv6 128"}[i]), func(c *core.Ctx) *eng.RB { return eng.IPRB(c, v, i) }, radix(l), 60, func(k uint64) []eng.Other { return eng.IPOthers(k, i) }})
		}
	}
	ks = append(ks, costKind{"dltree", eng.DLRB, rb(0), 100, nil})
	for _, size := range []int{32, 64} {
		size := size
		ks = append(ks, costKind{fmt.Sprintf("numtree%d", size), func(c *core.Ctx) *eng.RB { return eng.NumRB(c, size) }, radix(size), 60, func(k uint64) []eng.Other { return eng.NumOthers(k, size) }})
	}
	return ks
}

func costJobs(t core.Tier, prefix string, n int, steps func(c *core.Ctx) func(f func()) int64) []core.Job {
	var js []core.Job
	for _, k := range costKinds() {
		k := k
		for i, p := range patterns {
			if t == core.Quick && p.name != "ascending" && p.name != "stride" {
				continue
			}
			i, p := i, p
			js = append(js, core.Job{Name: fmt.Sprintf("%s%s/%s-n%d", prefix, k.name, p.name, n), Run: func(c *core.Ctx) {
				for _, inplace := range []bool{true, false} {
					if t == core.Quick && inplace != (i%2 == 0) {
						continue
					}
					x := &eng.Paths{RB: k.mk(c), Name: p.name, N: n, Levels: k.levels(n), PerLevel: k.perLevel, Perm: p.f(n), Inplace: inplace}
					if steps != nil {
						x.Steps = steps(c)
					}
					if k.others != nil {
						x.Others = append(k.others(eng.PathKey(n/2)), k.others(eng.PathKey(n/3)+128)...)
					}
					x.Explore()
				}
			}})
		}
	}
	return js
}

func costStepJobs(t core.Tier) []core.Job {
	return costJobs(t, "sched/", pick(t, 16384, 65536), func(c *core.Ctx) func(f func()) int64 {
		return func(f func()) int64 {
			st := vsched.Explore(vsched.Limits{Bound: 0, Steps: 20000000, Stop: c.Stop}, func() []func() { return []func(){f} }, func(o *vsched.Outcome) {
				if b := o.Bad(); b != "" {
					c.Fail("blocked", "%s", b)
				}
			})
			return st.Steps
		}
	})
}

func init() {
	register(&core.Check{
		ID: "C29", Level: "model_checking",
		Rule: "in trees of thousands of keys of every kind (several orders of insertion, copying and in place) every operation with every stored key and with its absent neighbour is run: objects of the result that the source doesn't have and allocated bytes are counted, and, with the instrumented code, steps; " +
			"each count has a limit made of the depth the kind of tree promises, far from the number of keys",
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			return append(costJobs(t, "", pick(t, 4096, 16384), nil), costStepJobs(t)...)
		},
		Select:  func(n string) bool { return !strings.HasPrefix(n, "sched/") },
		ExecFor: execFor,
		Custom: func(p *core.Parent) error {
			exe, ok := instrumented(p)
			if !ok {
				return nil
			}
			p.RunJobs(namesOf(costStepJobs(p.Tier), "sched/"), core.Exec{Exe: exe})
			return nil
		},
	})
}

package checks

import (
	"fmt"
	"reflect"
	"strconv"
	"strings"

	"vh/core"
	"vh/eng"
)

// ---- C28: trees keep nothing but what they store ----

// kept is a value whose address tells which one it is.
type kept struct {
	ID  int
	pad [3]int
}

var keptVals, keptIDs = func() ([]interface{}, map[uintptr]int) {
	var l []interface{}
	m := map[uintptr]int{}
	for i := 0; i < 128; i++ {
		k := &kept{ID: i}
		l = append(l, k)
		m[reflect.ValueOf(k).Pointer()] = i
	}
	return l, m
}()

// keeper looks for values and garbage in trees.
type keeper struct {
	r     *eng.Run
	reach core.Reach
	have  map[int]bool
	ptrs  bool // values are pointers
	dot   bool
	size  int
}

func newKeeper(r *eng.Run, ptrs bool) *keeper {
	k := &keeper{r: r, ptrs: ptrs, have: map[int]bool{}}
	if ptrs {
		r.I.Vals = keptVals
		k.reach.Want = reflect.TypeOf(&kept{})
		k.reach.Found = func(p uintptr) {
			if i, ok := keptIDs[p]; ok {
				k.have[i] = true
			}
		}
	}
	return k
}

func (k *keeper) bytes(h interface{}) int64 {
	k.reach.Reset()
	for i := range k.have {
		delete(k.have, i)
	}
	k.reach.Walk(h)
	return k.reach.Bytes
}

// check looks for values which are not stored.
func (k *keeper) check(h interface{}, m *eng.Model, what string) {
	if !k.ptrs {
		return
	}
	k.bytes(h)
	n := 0
	for i := range k.r.U.Keys {
		if m.M>>uint(i)&1 != 0 {
			n++
			delete(k.have, int(m.V[i]))
		}
	}
	k.r.C.R.Evals++
	for i := range k.have {
		k.r.C.Fail("kept", "%s, %s: %s the tree still refers to value %d, which was deleted or replaced; stored: %s", k.r.I.Name, k.r.U.Name, what, i, k.r.Stored(m))
	}
}

// cycles inserts and deletes all absent keys, one after another, many times, by copying
// operations and in place: the contents are as before, so must be the size.
func (k *keeper) cycles(h interface{}, m *eng.Model, rebuild func() interface{}, trace func() []string) {
	r := k.r
	type cyc struct{ ins, del eng.Step }
	for oi := range r.I.Ins {
		o := &r.I.Ins[oi]
		for di := range r.I.Dels {
			d := &r.I.Dels[di]
			var cs []cyc
			for i, key := range r.U.Keys {
				if key.Bad || !key.Store || !key.Del || m.M>>uint(i)&1 != 0 || len(key.Sp[o.Form]) == 0 || len(key.Sp[d.Form]) == 0 {
					continue
				}
				if d.Contain && r.U.Cont[i]&m.M != 0 {
					continue
				}
				cs = append(cs, cyc{
					eng.Step{Kind: eng.KIns, Op: uint8(oi), Key: uint8(i), Val: r.Base(i)},
					eng.Step{Kind: eng.KDel, Op: uint8(di), Key: uint8(i)},
				})
			}
			if len(cs) == 0 {
				continue
			}
			t := h
			if o.Inplace {
				if !r.I.NilOK && r.I.IsNil(h) {
					continue
				}
				t = rebuild()
			}
			round := 0
			r.C.At(func() []string {
				l := trace()
				for _, c := range cs {
					l = append(l, r.StepStr(c.ins), r.StepStr(c.del))
				}
				return append(l, fmt.Sprintf("the last %d steps again, %d rounds in all", 2*len(cs), round+1))
			})
			// The sizes are those before, after the first round and after the last one. A
			// little that doesn't depend on the number of operations is allowed.
			s0 := k.bytes(t)
			var s1 int64
			const rounds = 8
			for ; round < rounds; round++ {
				for _, c := range cs {
					t, _, _ = r.Do(t, nil, c.ins)
					t, _, _ = r.Do(t, nil, c.del)
					r.C.R.Trans += 2
				}
				if round == 0 {
					s1 = k.bytes(t)
				}
			}
			round--
			s2 := k.bytes(t)
			if s2-s1 >= 8*(rounds-1) {
				r.C.Fail("grows", "%s, %s: the tree has grown from %d to %d bytes in %d rounds though its contents are the same: %s", r.I.Name, r.U.Name, s1, s2, rounds-1, r.Stored(m))
			}
			if len(cs) >= 4 && s1-s0 >= int64(16*len(cs)) {
				r.C.Fail("grows", "%s, %s: the tree has grown from %d to %d bytes after insertion and deletion of %d keys though its contents are the same: %s", r.I.Name, r.U.Name, s0, s1, len(cs), r.Stored(m))
			}
			r.C.R.Evals++
		}
	}
	r.C.At(trace)
}

// lean checks that a dump of a radix tree has stored prefixes and points of branching only.
func (k *keeper) lean(h interface{}, m *eng.Model) {
	r := k.r
	s := r.I.Dot(h)
	ns, err := eng.ParseDot(s)
	if err != nil {
		r.C.Fail("dump", "%s: %s", r.I.Name, err)
		return
	}
	stored := 0
	for x := m.M; x != 0; x &= x - 1 {
		stored++
	}
	leafs := 0
	for i, n := range ns {
		if n.Nil {
			continue
		}
		l := numLabel.FindStringSubmatch(n.Label)
		if l == nil {
			r.C.Fail("dump", "%s: label %q of N%d", r.I.Name, n.Label, i)
			return
		}
		if strings.Contains(n.Label, ", v: ") {
			leafs++
			continue
		}
		kids := 0
		for _, c := range n.Kids {
			if !ns[c].Nil {
				kids++
			}
		}
		if b, _ := strconv.Atoi(l[2]); kids < 2 || b >= k.size {
			r.C.Fail("lean", "%s: node N%d (%s) is neither stored nor a point where two prefixes part; stored: %s\n%s", r.I.Name, i, n.Label, r.Stored(m), s)
		}
	}
	if leafs != stored {
		r.C.Fail("lean", "%s: %d prefixes are dumped; stored: %s\n%s", r.I.Name, leafs, r.Stored(m), s)
	}
	r.C.R.Evals++
}

func (k *keeper) bfs(cycles, mix bool) {
	mode := eng.Mode{Inplace: true, NoGet: true, NoEnum: true, NoMix: !mix}
	mode.After = func(nh interface{}, m *eng.Model) { k.check(nh, m, "after the last step") }
	mode.Hook = func(r *eng.Run, h interface{}, m *eng.Model, rebuild func() interface{}, trace func() []string) {
		k.check(h, m, "here")
		if k.dot {
			k.lean(h, m)
		}
		if cycles {
			k.cycles(h, m, rebuild, trace)
		}
	}
	k.r.BFS(mode)
}

func keepJobs(t core.Tier) []core.Job {
	var js []core.Job
	for _, k := range smallKinds(eng.Variants) {
		k := k
		js = append(js, core.Job{Name: "small/" + k.name, Run: func(c *core.Ctx) {
			newKeeper(&eng.Run{C: c, I: k.impl(), U: k.uni(c)}, isGeneric(k.name)).bfs(true, true)
		}})
	}
	vs := []int{0}
	if t == core.Thorough {
		vs = eng.Variants
	}
	for _, v := range vs {
		v := v
		for i, su := range strUnis() {
			su := su
			js = append(js, core.Job{Name: fmt.Sprintf("strtree%d/%d", v, i), Run: func(c *core.Ctx) {
				newKeeper(&eng.Run{C: c, I: eng.StrImpl(v, su.cmp), U: su.u()}, v == 0).bfs(true, false)
			}})
		}
		for _, du := range domUnis(t) {
			du := du
			if du.big && t == core.Quick {
				continue
			}
			js = append(js, core.Job{Name: fmt.Sprintf("domaintree%d/%s", v, du.name), Run: func(c *core.Ctx) {
				newKeeper(&eng.Run{C: c, I: eng.DomImpl(v), U: du.mk(c)}, v == 0).bfs(true, false)
			}})
		}
		us := ipUnis(t, v)
		js = append(js, group(fmt.Sprintf("iptree%d", v), len(us), pick(t, 4, 16), func(c *core.Ctx, i int) {
			if t == core.Quick && (us[i].big || i%3 != 0) {
				return
			}
			newKeeper(&eng.Run{C: c, I: eng.IPImpl(v), U: us[i].mk(c)}, v == 0).bfs(true, true)
		})...)
	}
	ls := labelUnis()
	js = append(js, group("dltree", len(ls), len(ls), func(c *core.Ctx, i int) {
		newKeeper(&eng.Run{C: c, I: eng.DLImpl(), U: eng.LabelUniverse(fmt.Sprintf("labels %d", i), ls[i], 2)}, true).bfs(true, false)
	})...)
	for _, size := range []int{32, 64} {
		us := numUnis(t, size)
		js = append(js, group(fmt.Sprintf("numtree%d", size), len(us), pick(t, 8, 24), func(c *core.Ctx, i int) {
			k := newKeeper(&eng.Run{C: c, I: eng.NumImpl(size), U: us[i].mk(c)}, true)
			k.dot, k.size = true, size
			k.bfs(!us[i].big, !us[i].big)
		})...)
	}
	return js
}

func init() {
	register(&core.Check{
		ID: "C28", Level: "model_checking",
		Rule:        "breadth-first search over all states of alphabets of all kinds of trees; after every operation everything reachable from the tree is walked and no value but the stored ones may be found; in every state all absent keys are inserted and deleted again for many rounds by every pair of operations and the reachable memory must not grow with the number of them; every dump of a radix tree has only stored prefixes and points of branching",
		Assumptions: commonAssumptions,
		Jobs:        keepJobs,
	})
}

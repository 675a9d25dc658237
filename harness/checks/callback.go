package checks

import (
	"errors"
	"fmt"
	"net"
	"strings"

	"vh/core"
	"vh/eng"

	"github.com/infobloxopen/go-trees/domain"
	"github.com/infobloxopen/go-trees/iptree"
)

// ---- C30: callers' functions may panic or use the tree ----

// escape is what callers' functions panic with.
var escape = errors.New("panic of a caller's function")

// escaped runs f and tells if it ended with the caller's panic.
func escaped(c *core.Ctx, f func()) (out bool) {
	defer func() {
		if e := recover(); e != nil {
			if e != error(escape) {
				panic(e)
			}
			out = true
		}
	}()
	f()
	return false
}

// hooked is a comparison which calls something at the given call.
type hooked struct {
	cmp  func(a, b string) int
	n    int
	at   int
	call func()
}

func (h *hooked) compare(a, b string) int {
	if h.at > 0 {
		h.n++
		if h.n == h.at {
			f := h.call
			h.at = 0
			f()
			h.at = 1 << 30
		}
	}
	return h.cmp(a, b)
}

// run does f; call is called at the at-th comparison. It tells if it was.
func (h *hooked) run(at int, call func(), f func()) (reached bool) {
	h.n, h.at = 0, at
	h.call = func() { reached = true; call() }
	defer func() { h.at = 0 }()
	f()
	return reached
}

// compareHook disturbs every comparison of every operation in a state.
func compareHook(k *hooked) func(r *eng.Run, h interface{}, m *eng.Model, rebuild func() interface{}, trace func() []string) {
	return func(r *eng.Run, h interface{}, m *eng.Model, rebuild func() interface{}, trace func() []string) {
		c := r.C
		cur := ""
		c.At(func() []string { return append(trace(), cur) })
		defer c.At(trace)
		dot := func() string {
			if r.I.Dot == nil {
				return ""
			}
			return r.I.Dot(h)
		}
		dot0 := dot()
		intact := func(what string) {
			r.Obs(h, m, what)
			if dot() != dot0 {
				c.Fail("changed", "%s: the tree the operation was called on has changed:\n%s\nwas\n%s", what, dot(), dot0)
			}
		}
		// use reads the tree and derives versions of it.
		use := func(what string, key int, kk interface{}) {
			intact(what)
			for ii := range r.I.Ins {
				if o := &r.I.Ins[ii]; !o.Inplace {
					nm := *m
					nm.ApplyIns(key, r.Alt(key))
					r.Obs(o.Fn(h, kk, r.I.Vals[r.Alt(key)]), &nm, what+", insertion inside of it")
				}
			}
			for di := range r.I.Dels {
				nm := *m
				want := r.ApplyDel(&nm, key, r.I.Dels[di].Contain)
				t, ok := r.I.Dels[di].Fn(h, kk)
				if ok != want {
					c.Fail("delete", "%s: deletion inside of it reports %v", what, ok)
				}
				r.Obs(t, &nm, what+", deletion inside of it")
			}
		}
		ops := func(key int, kk interface{}, each func(name string, f func(), check func(what string))) {
			for gi := range r.I.Gets {
				o := &r.I.Gets[gi]
				var v interface{}
				var ok bool
				each(o.Name, func() { v, ok = o.Fn(h, kk) }, func(what string) {
					if w, wok := r.Expect(m, key, true); ok != wok || !eng.Same(v, w) {
						c.Fail("lookup", "%s: gives %v, %v; expected %v, %v", what, v, ok, w, wok)
					}
				})
			}
			for ii := range r.I.Ins {
				o := &r.I.Ins[ii]
				if o.Inplace {
					continue
				}
				var t interface{}
				each(o.Name, func() { t = o.Fn(h, kk, r.I.Vals[r.Alt(key)]) }, func(what string) {
					nm := *m
					nm.ApplyIns(key, r.Alt(key))
					r.Obs(t, &nm, what)
				})
			}
			for di := range r.I.Dels {
				o := &r.I.Dels[di]
				var t interface{}
				var ok bool
				each(o.Name, func() { t, ok = o.Fn(h, kk) }, func(what string) {
					nm := *m
					if want := r.ApplyDel(&nm, key, o.Contain); ok != want {
						c.Fail("delete", "%s: reports %v", what, ok)
					}
					r.Obs(t, &nm, what)
				})
			}
		}
		for key, kk := range r.U.Keys {
			text := kk.SpStr[eng.Human][0]
			other := (key + 1) % len(r.U.Keys)
			sp, spo := kk.Sp[eng.Human][0], r.U.Keys[other].Sp[eng.Human][0]
			ops(key, sp, func(name string, f func(), check func(what string)) {
				for at := 1; !c.Stop(); at++ {
					c.Mark()
					c.R.Trans++
					what := fmt.Sprintf("%s(%s), panic in comparison %d", name, text, at)
					cur = what
					thrown := false
					if got := escaped(c, func() { thrown = k.run(at, func() { panic(escape) }, f) }); !got {
						if thrown {
							c.Fail("panic", "%s: the panic doesn't reach the caller", what)
						}
						// no so many comparisons
						check(what + " which isn't reached")
						break
					}
					intact("after " + what)
					f()
					check("after " + what + ", once more")
					what = fmt.Sprintf("%s(%s), the tree is used in comparison %d", name, text, at)
					cur = what
					k.run(at, func() { use(what, other, spo) }, f)
					check("after " + what)
					c.R.Evals++
					if at > 200 {
						c.Fail("comparisons", "%s takes over 200 comparisons", what)
					}
				}
			})
		}
		intact("at the end")
	}
}

// callbackUpdates disturbs every callback of UpdateDescendants in a state.
func callbackUpdates(r *eng.Run, h interface{}, m *eng.Model, rebuild func() interface{}, trace func() []string) {
	c := r.C
	cur := ""
	c.At(func() []string { return append(trace(), cur) })
	defer c.At(trace)
	alt := func(i int) uint8 { return r.Alt(i) }
	for k, key := range r.U.Keys {
		if key.Bad {
			continue
		}
		for at := 1; !c.Stop(); at++ {
			reached := false
			for _, use := range []bool{false, true} {
				cur = fmt.Sprintf("UpdateDescendants(%s) with a panic at callback %d", key.SpStr[eng.Human][0], at)
				if use {
					cur = fmt.Sprintf("UpdateDescendants(%s) with use of the tree in callback %d", key.SpStr[eng.Human][0], at)
				}
				c.Mark()
				c.R.Trans++
				t := rebuild().(*iptree.Tree)
				n := 0
				var seen uint64
				// either accepts one of both values for networks visited before
				either := func(nt *iptree.Tree, want *eng.Model, what string) {
					nm := *want
					for i := range r.U.Keys {
						if seen>>uint(i)&1 == 0 || nm.M>>uint(i)&1 == 0 {
							continue
						}
						v, ok := nt.GetByNet(r.U.Keys[i].Sp[eng.Human][0].(*net.IPNet))
						if ok && eng.Same(v, r.I.Vals[alt(i)]) {
							nm.V[i] = alt(i)
						}
					}
					r.Obs(nt, &nm, what)
				}
				decode := func(n *net.IPNet) int {
					s := eng.NetText(n)
					for i, x := range r.U.Keys {
						if !x.Bad && x.Enum[eng.Human][0] == s {
							return i
						}
					}
					c.Fail("update", "%v is visited", n)
					return 0
				}
				f := func(p iptree.Pair) (interface{}, bool) {
					j := decode(p.Key)
					n++
					if n == at {
						reached = true
						if !use {
							panic(escape)
						}
						either(t, m, cur)
						for i, x := range r.U.Keys {
							if x.Bad || i != j && i != (j+1)%len(r.U.Keys) && i != k {
								continue
							}
							a := x.Sp[eng.Human][0].(*net.IPNet)
							nm := *m
							bit := seen & (1 << uint(i))
							nm.ApplyIns(i, r.Base(i))
							seen &^= bit
							either(t.InsertNet(a, r.I.Vals[r.Base(i)]), &nm, cur+", insertion inside of it")
							seen |= bit
							nm = *m
							want := r.ApplyDel(&nm, i, true)
							nt, ok := t.DeleteByNet(a)
							if ok != want {
								c.Fail("delete", "%s: deletion inside of it reports %v", cur, ok)
							}
							either(nt, &nm, cur+", deletion inside of it")
						}
					}
					seen |= 1 << uint(j)
					return r.I.Vals[alt(j)], true
				}
				a := key.Sp[eng.Human][0].(*net.IPNet)
				if escaped(c, func() { t.UpdateDescendants(a, f) }) {
					if use {
						panic("impossible")
					}
				} else if reached && !use {
					c.Fail("panic", "%s: the panic doesn't reach the caller", cur)
				}
				if use && reached || !reached {
					nm := *m
					for i := range r.U.Keys {
						if seen>>uint(i)&1 != 0 {
							nm.V[i] = alt(i)
						}
					}
					r.Obs(t, &nm, "after "+cur)
				} else {
					either(t, m, "after "+cur)
				}
				// The tree is usable as before.
				seen = ^uint64(0)
				at0, done := 0, uint64(0)
				t.UpdateDescendants(a, func(p iptree.Pair) (interface{}, bool) {
					at0++
					j := decode(p.Key)
					if done>>uint(j)&1 != 0 {
						c.Fail("update", "after %s: %v is visited twice", cur, p.Key)
					}
					done |= 1 << uint(j)
					return r.I.Vals[r.Base(j)], true
				})
				for i := range r.U.Keys {
					if m.M>>uint(k)&1 != 0 && i != k && r.U.Cont[k]>>uint(i)&1 != 0 && m.M>>uint(i)&1 != 0 && done>>uint(i)&1 == 0 {
						c.Fail("update", "after %s: %s isn't visited", cur, r.U.Keys[i].SpStr[eng.Human][0])
					}
				}
				c.R.Evals++
			}
			if !reached {
				break
			}
		}
	}
}

// callbackNames disturbs every callback of GetLabels.
func callbackNames(c *core.Ctx) {
	texts := []string{"", "a", "a.b", "A.b.C.d", `x\.y.z`, `\000\255.q.`, strings.Repeat("a.", 126) + "a", strings.Repeat("b", 63) + ".c." + strings.Repeat("d", 63), "b.c.d", "1.0.0.127.in-addr.arpa"}
	var names []domain.Name
	var labels [][]string
	for _, s := range texts {
		n, err := domain.MakeNameFromString(s)
		if err != nil {
			c.Fail("parse", "valid name %q is rejected: %s", s, err)
			return
		}
		l, _ := eng.ParseName(s)
		names, labels = append(names, n), append(labels, l)
	}
	cur := ""
	c.At(func() []string { return []string{cur} })
	var walk func(i int, what string, at int, f func()) int
	walk = func(i int, what string, at int, f func()) int {
		n, l := 0, labels[i]
		err := names[i].GetLabels(func(s string) error {
			if n >= len(l) || s != l[len(l)-1-n] {
				c.Fail("labels", "%s: label %d of %q is %q", what, n, texts[i], s)
			}
			n++
			if n == at {
				f()
			}
			return nil
		})
		if err != nil || n != len(l) {
			c.Fail("labels", "%s: %d labels of %q, error %v", what, n, texts[i], err)
		}
		return n
	}
	var trees []*eng.Impl
	for _, v := range eng.Variants {
		trees = append(trees, eng.DomImpl(v))
	}
	for i := range names {
		for j := range names {
			for at := 1; at <= len(labels[i]); at++ {
				c.Mark()
				c.R.States++
				c.R.Trans += 2
				cur = fmt.Sprintf("GetLabels of %q with GetLabels of %q in callback %d", texts[i], texts[j], at)
				walk(i, cur, at, func() {
					walk(j, cur, 1, func() { walk(i, cur, 0, nil) })
					for ti, im := range trees {
						if len(labels[i]) > 10 && at > 3 && ti != at%5 {
							continue
						}
						h := im.New[0].Fn()
						for _, o := range im.Ins {
							if o.Inplace {
								o.Fn(h, names[j], im.Vals[0])
							} else {
								h = o.Fn(h, names[j], im.Vals[0])
							}
						}
						for _, g := range im.Gets {
							if v, ok := g.Fn(h, names[j]); !ok || !eng.Same(v, im.Vals[0]) {
								c.Fail("labels", "%s: a tree used in the callback gives %v, %v", cur, v, ok)
							}
						}
						for _, d := range im.Dels {
							if _, ok := d.Fn(h, names[j]); !ok {
								c.Fail("labels", "%s: a tree used in the callback deletes nothing", cur)
							}
						}
					}
					if n, err := domain.MakeNameFromString(texts[j]); err != nil || n.String() != texts[j] {
						c.Fail("labels", "%s: parsed to %q, %v in the callback", cur, n.String(), err)
					}
				})
				cur = fmt.Sprintf("GetLabels of %q with a panic in callback %d", texts[i], at)
				if !escaped(c, func() { walk(i, cur, at, func() { panic(escape) }) }) {
					c.Fail("panic", "%s: the panic doesn't reach the caller", cur)
				}
				walk(i, "after "+cur, 0, nil)
				walk(j, "after "+cur, 0, nil)
				c.R.Evals++
			}
		}
	}
	c.R.Traces++
}

func callbackJobs(t core.Tier) []core.Job {
	var js []core.Job
	for _, v := range eng.Variants {
		v := v
		for i, keys := range [][][]string{
			{{"a"}, {"b"}, {"c"}, {"d"}, {"e"}, {"f"}, {"g"}, {"h"}},
			foldAlpha,
		} {
			i, keys := i, keys
			n := len(keys)
			if i == 0 {
				n = pick(t, 8, 8)
			}
			if n > len(keys) {
				n = len(keys)
			}
			js = append(js, core.Job{Name: fmt.Sprintf("strtree%d/%d/%d keys", v, i, n), Run: func(c *core.Ctx) {
				k := &hooked{cmp: strings.Compare}
				name := "compare"
				if i == 1 {
					k.cmp, name = foldCmp, "fold"
				}
				r := &eng.Run{C: c, I: eng.StrImpl(v, eng.Cmp{Name: name, Fn: k.compare}), U: eng.StrUniverse(fmt.Sprintf("%d keys", n), keys[:n])}
				r.BFS(eng.Mode{NoGet: false, Hook: compareHook(k)})
			}})
		}
	}
	js = append(js, ipBFS(t, eng.Mode{Hook: callbackUpdates}, []int{0}, 1)...)
	return append(js, core.Job{Name: "names", Run: callbackNames})
}

func init() {
	register(&core.Check{
		ID: "C30", Level: "model_checking",
		Rule: "breadth-first search over all states of string trees with a custom comparison: for every lookup, copying insertion and deletion of every key the comparison panics at its first, second, ... call until the operation makes no more, and uses the tree (all reads, a copying insertion and deletion) there instead; " +
			"the same with every callback of UpdateDescendants in all states of small alphabets of networks and every callback of GetLabels for pairs of names; the panic must come out, the tree must be as before and work, results must be right",
		Assumptions: commonAssumptions,
		Jobs:        callbackJobs,
	})
}

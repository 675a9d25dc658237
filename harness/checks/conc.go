package checks

import (
	"errors"
	"fmt"
	"math/bits"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"strings"
	"time"

	"vh/core"
	"vh/eng"
	"vh/instr"
	"vsched"

	"github.com/infobloxopen/go-trees/domain"
)

// obs is what a concurrent call has observed.
type obs struct {
	vals []interface{}
	h    interface{} // a new version
	tree bool
}

// cop is an operation for concurrent use: a reader or a copying update.
type cop struct {
	name string
	main bool // a representative
	fn   func(h interface{}) obs
}

// concKind is a kind of trees for concurrent use.
type concKind struct {
	kind
	only   []int // keys to work with, all if empty
	spells int   // spellings of keys to look up by
	extra  bool
}

func (k *concKind) run(c *core.Ctx) *eng.Run { return &eng.Run{C: c, I: k.impl(), U: k.uni(c)} }

// concKinds lists kinds of trees: those of the usual small universes and generic ones
// with unusual keys or deep.
func concKinds() []*concKind {
	var l []*concKind
	for _, k := range smallKinds(eng.Variants) {
		l = append(l, &concKind{kind: k, spells: 1})
	}
	add := func(name string, im func() *eng.Impl, spells int, only []int, u func(c *core.Ctx) *eng.Universe) {
		l = append(l, &concKind{kind{name, im, u, 0}, only, spells, true})
	}
	ip := func() *eng.Impl { return eng.IPImpl(0) }
	dom := func() *eng.Impl { return eng.DomImpl(0) }
	add("iptree0-mixed", ip, 2, []int{0, 1, 2, 3, 4, 7}, func(c *core.Ctx) *eng.Universe {
		return eng.IPUniverse("mixed", []eng.IPKey{
			ip4(eng.Prefix{Bits: 0, Store: true}),
			ip4(eng.Prefix{Hi: 0x0a010203 << 32, Bits: 32, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db800000000, Bits: 60, Store: true}),
			ip6(eng.Prefix{Hi: 0x20010db800000000, Lo: 0x0a01020300000000, Bits: 128, Store: true}),
		}, true, true)
	})
	add("dltree-escapes", eng.DLImpl, 3, nil, func(c *core.Ctx) *eng.Universe {
		return eng.LabelUniverse("escapes", []string{"A.B", "\xffZ", ""}, 3)
	})
	add("domaintree0-escapes", dom, 3, nil, func(c *core.Ctx) *eng.Universe {
		return eng.DomUniverse(c, "escapes", []eng.Dom{eng.D("a\\.b"), eng.D("b.\\200"), eng.D("y.z.a\\.b")}, 3)
	})
	add("strtree0-fold", func() *eng.Impl { return eng.StrImpl(0, cmpFold) }, 2, nil, func(c *core.Ctx) *eng.Universe {
		return eng.StrUniverse("quotes", [][]string{{""}, {"\"", "\""}, {"\\a\n", "\\A\n"}})
	})
	var groups [][]string
	for i := 0; i < 26; i++ {
		groups = append(groups, []string{string(rune('a' + i))})
	}
	add("strtree0-deep", func() *eng.Impl { return eng.StrImpl(0, cmpDef) }, 1, []int{0, 25}, func(c *core.Ctx) *eng.Universe {
		return eng.StrUniverse("26 keys", groups)
	})
	var labels []string
	for i := 0; i < 26; i++ {
		labels = append(labels, string(rune('A'+i)))
	}
	add("dltree-deep", eng.DLImpl, 1, []int{0, 25}, func(c *core.Ctx) *eng.Universe {
		return eng.LabelUniverse("26 labels", labels, 1)
	})
	var doms []eng.Dom
	nm := "z"
	for i := 0; i < 13; i++ {
		nm = string(rune('a'+i)) + "." + nm
		doms = append(doms, eng.D(nm))
	}
	add("domaintree0-deep", dom, 1, []int{0, 12}, func(c *core.Ctx) *eng.Universe {
		return eng.DomUniverse(c, "chain", doms, 1)
	})
	for _, size := range []int{32, 64} {
		size := size
		var ps []eng.Prefix
		for i := 0; i < 15; i++ {
			ps = append(ps, eng.Prefix{Hi: 0xaaaaaaaa << 32, Bits: 2 * i, Store: true})
		}
		add(fmt.Sprintf("numtree%d-deep", size), func() *eng.Impl { return eng.NumImpl(size) }, 1, []int{0, 14}, func(c *core.Ctx) *eng.Universe {
			return eng.NumUniverse("chain", size, ps, false)
		})
	}
	var ks []eng.IPKey
	for i := 0; i < 14; i++ {
		ks = append(ks, ip6(eng.Prefix{Hi: 0x20010db8aaaaaaaa, Lo: 0xaaaaaaaaaaaaaaaa, Bits: 37 + 4*i, Store: true}))
	}
	add("iptree0-deep", ip, 1, []int{0, 13}, func(c *core.Ctx) *eng.Universe { return eng.IPUniverse("chain", ks, false, false) })
	return l
}

// ops lists readers and copying updates over a universe.
func (ck *concKind) ops(r *eng.Run) []cop {
	var l []cop
	n := len(r.U.Keys)
	if len(ck.only) > 0 {
		n = ck.only[len(ck.only)-1] + 1
	}
	use := func(k int) bool {
		for _, x := range ck.only {
			if x == k {
				return true
			}
		}
		return len(ck.only) == 0
	}
	rep := func(k int) bool { return k == 0 || k == n-1 }
	for gi := range r.I.Gets {
		g := &r.I.Gets[gi]
		for k, key := range r.U.Keys {
			for s, x := range key.Sp[g.Form] {
				if !use(k) || s >= ck.spells {
					break
				}
				l = append(l, cop{fmt.Sprintf("%s(%s)", g.Name, key.SpStr[g.Form][s]), k == n-1 && s == 0, func(h interface{}) obs {
					v, ok := g.Fn(h, x)
					return obs{vals: []interface{}{v, ok}}
				}})
			}
		}
	}
	for ei := range r.I.Enums {
		e := r.I.Enums[ei]
		l = append(l, cop{e.Name + "()", true, func(h interface{}) obs {
			ks, vs := e.Fn(h)
			o := obs{vals: []interface{}{strings.Join(ks, "\x00")}}
			o.vals = append(o.vals, vs...)
			return o
		}})
	}
	if r.I.Dot != nil {
		l = append(l, cop{"Dot()", true, func(h interface{}) obs { return obs{vals: []interface{}{r.I.Dot(h)}} }})
	}
	if r.I.IsEmpty != nil {
		l = append(l, cop{"IsEmpty()", false, func(h interface{}) obs { return obs{vals: []interface{}{r.I.IsEmpty(h)}} }})
	}
	for _, s := range oneSpell(r.Steps(false, true, true)) {
		s := s
		if !use(int(s.Key)) {
			continue
		}
		s.Val = r.Alt(int(s.Key))
		g := &r.I.Gets[0]
		if len(r.U.Keys[s.Key].Sp[g.Form]) == 0 {
			g = &r.I.Gets[len(r.I.Gets)-1]
		}
		x := r.U.Keys[s.Key].Sp[g.Form][0]
		l = append(l, cop{r.StepStr(s) + "; " + g.Name, rep(int(s.Key)), func(h interface{}) obs {
			nh, ok, _ := r.Do(h, nil, s)
			v, found := g.Fn(nh, x)
			return obs{vals: []interface{}{ok, v, found}, h: nh, tree: true}
		}})
	}
	return l
}

// nameOps lists operations with names and labels.
func nameOps() []cop {
	var l []cop
	for i, s := range []string{"a.b", `X\.y.\200Z`, "www.example.com.", "", "..", `a\2`, "trees-of-names.test"} {
		s := s
		l = append(l, cop{fmt.Sprintf("MakeNameFromString(%q)", s), i < 3, func(interface{}) obs {
			n, err := domain.MakeNameFromString(s)
			o := obs{vals: []interface{}{n.String(), err}}
			if err == nil {
				err = n.GetLabels(func(l string) error {
					o.vals = append(o.vals, l, domain.MakeHumanReadableLabel(l))
					return nil
				})
				lb, off := n.GetLabel(0)
				o.vals = append(o.vals, err, lb, off)
			}
			return o
		}})
	}
	shared, _ := domain.MakeNameFromString(`One.t\.wo.THREE`)
	stop := errors.New("stop")
	l = append(l, cop{"walk of a shared name", true, func(interface{}) obs {
		o := obs{vals: []interface{}{shared.String()}}
		err := shared.GetLabels(func(l string) error {
			o.vals = append(o.vals, l)
			if len(o.vals) == 3 {
				return stop
			}
			return nil
		})
		o.vals = append(o.vals, err)
		off := 0
		for i := 0; i < 4; i++ {
			var s string
			s, off = shared.GetLabel(off)
			o.vals = append(o.vals, s, off)
		}
		return o
	}})
	for i, s := range []string{`aB\.c`, "\x80", "plain"} {
		s := s
		l = append(l, cop{fmt.Sprintf("labels of %q", s), i == 0, func(interface{}) obs {
			m, err := domain.MakeLabel(s)
			return obs{vals: []interface{}{m, err, domain.MakeHumanReadableLabel(s), domain.MakeHumanReadableLabel(m)}}
		}})
	}
	l = append(l, cop{"MakeNameFromReflection", false, func(interface{}) obs {
		n := domain.MakeNameFromReflection(reflect.ValueOf("by.Reflection"))
		m := domain.MakeNameFromReflection(reflect.ValueOf(&n))
		return obs{vals: []interface{}{n.String(), m.String(), n == m}}
	}})
	return l
}

func diffObs(a, b obs) string {
	if len(a.vals) != len(b.vals) {
		return fmt.Sprintf("%v against %v", a.vals, b.vals)
	}
	for i := range a.vals {
		if !eng.Same(a.vals[i], b.vals[i]) {
			return fmt.Sprintf("%v against %v", a.vals, b.vals)
		}
	}
	return ""
}

// base is a tree to work on, made afresh for each execution. The second handle is a
// version derived from the first one by copying updates.
type base struct {
	name string
	mk   func() []interface{}
}

// concBases lists trees to start from.
func concBases(r *eng.Run, few bool) []base {
	var bs []base
	store := []int{}
	for k, key := range r.U.Keys {
		if key.Store && !key.Bad && len(key.Sp[r.I.Ins[0].Form]) > 0 {
			store = append(store, k)
		}
	}
	step := func(op, k int, alt bool) eng.Step {
		v := r.Base(k)
		if alt {
			v = r.Alt(k)
		}
		return eng.Step{Kind: eng.KIns, Op: uint8(op), Key: uint8(k), Val: v}
	}
	fill := func(op int, ks []int) interface{} {
		h := r.I.New[0].Fn()
		for _, k := range ks {
			h, _, _ = r.Do(h, nil, step(op, k, false))
		}
		return h
	}
	bs = append(bs, base{"all keys, and a version without the first one", func() []interface{} {
		h := fill(0, store)
		d, _, _ := r.Do(h, nil, eng.Step{Kind: eng.KDel, Key: uint8(store[0])})
		return []interface{}{h, d}
	}})
	if !few {
		bs = append(bs, base{"all keys but the last, and a version with it", func() []interface{} {
			h := fill(0, store[:len(store)-1])
			d, _, _ := r.Do(h, nil, step(0, store[len(store)-1], true))
			return []interface{}{h, d}
		}})
		bs = append(bs, base{"all keys inserted in place, and a version with another value", func() []interface{} {
			h := r.I.New[0].Fn()
			if r.I.IsNil(h) && !r.I.NilOK {
				return nil
			}
			for _, k := range store {
				h, _, _ = r.Do(h, nil, step(1, k, false))
			}
			d, _, _ := r.Do(h, nil, step(0, store[len(store)/2], true))
			return []interface{}{h, d}
		}})
	}
	bs = append(bs, base{"an empty tree, and a version with one key", func() []interface{} {
		h := r.I.New[0].Fn()
		d, _, _ := r.Do(h, nil, step(0, store[0], false))
		return []interface{}{h, d}
	}})
	return bs
}

// alone computes what each operation gives when nothing else happens.
type alone struct {
	o    obs
	snap *eng.Snap
}

func runAlone(r *eng.Run, op cop, h interface{}) alone {
	a := alone{o: op.fn(h)}
	if a.o.tree {
		a.snap = r.TakeSnap(a.o.h, false)
	}
	return a
}

// compare checks a result against what the operation returns alone.
func compare(c *core.Ctx, r *eng.Run, op cop, got obs, want alone) {
	if d := diffObs(got, want.o); d != "" {
		c.Fail("result", "%s, concurrently: %s (when alone)", op.name, d)
	}
	if got.tree {
		if d := r.Diff(r.TakeSnap(got.h, false), want.snap); d != "" {
			c.Fail("version", "%s: the version it made differs from the one made alone: %s", op.name, d)
		}
	}
}

// ---- race pass ----

//go:norace
//go:noinline
func awaitTurn(p *int32, v int32) {
	for *p != v {
		runtime.Gosched()
	}
}

//go:norace
//go:noinline
func setTurn(p *int32, v int32) { *p = v }

// inOrder runs a and then b in two goroutines which have no happens-before relation, so
// that the race detector sees every conflict of the two, whatever the schedule.
func inOrder(a, b func()) {
	turn := new(int32)
	done := make(chan struct{}, 2)
	go func() {
		awaitTurn(turn, 1)
		a()
		setTurn(turn, 2)
		awaitTurn(turn, 4)
		done <- struct{}{}
	}()
	go func() {
		awaitTurn(turn, 2)
		// Pools of the standard library would order the two.
		runtime.GC()
		runtime.GC()
		b()
		setTurn(turn, 3)
		awaitTurn(turn, 4)
		done <- struct{}{}
	}()
	setTurn(turn, 1)
	awaitTurn(turn, 3)
	setTurn(turn, 4)
	<-done
	<-done
}

func racePairs(c *core.Ctx, r *eng.Run, ops []cop, bs []base, all bool) {
	for _, b := range bs {
		for i := range ops {
			for j := range ops {
				for hb := 0; hb < 2; hb++ {
					if hb == 1 && !(ops[i].main && ops[j].main || all) {
						continue
					}
					if c.Stop() {
						return
					}
					hs := b.mk()
					if hs == nil {
						continue
					}
					c.At(func() []string {
						return []string{"base: " + b.name, "goroutine 1: " + ops[i].name, fmt.Sprintf("goroutine 2: %s on version %d", ops[j].name, hb)}
					})
					c.Mark()
					if c.NSamples() < 1 {
						c.Sample(b.name + "; " + ops[i].name + " and then " + ops[j].name)
					}
					var oi, oj obs
					inOrder(func() { oi = ops[i].fn(hs[0]) }, func() { oj = ops[j].fn(hs[hb]) })
					c.R.Trans++
					c.R.Traces++
					c.R.Evals++
					if r == nil {
						compare(c, r, ops[i], oi, runAlone(r, ops[i], nil))
						compare(c, r, ops[j], oj, runAlone(r, ops[j], nil))
						continue
					}
					fresh := b.mk()
					compare(c, r, ops[i], oi, runAlone(r, ops[i], fresh[0]))
					compare(c, r, ops[j], oj, runAlone(r, ops[j], fresh[hb]))
				}
			}
		}
		c.R.States++
	}
	c.Outcome(fmt.Sprintf("%s: %d operations", c.Job, len(ops)))
}

var noBase = []base{{"none", func() []interface{} { return []interface{}{nil, nil} }}}

// coldBody uses a kind of trees for the first time: nothing of the packages is used
// before it runs. A short one doesn't enumerate or dump.
type coldBody struct {
	name string
	fn   func(short bool) []interface{}
}

func coldBodies(c *core.Ctx) []coldBody {
	var l []coldBody
	for _, k := range smallKinds(eng.Variants) {
		k := k
		if strings.HasSuffix(k.name, "-siblings") {
			continue
		}
		im := k.impl()
		dom := strings.HasPrefix(k.name, "domaintree")
		var keys [2][]interface{}
		texts := []string{"a", "b.A", ""}
		if !dom {
			for i, x := range k.uni(c).Keys {
				if i == 3 {
					break
				}
				for f := range keys {
					if len(x.Sp[f]) > 0 {
						keys[f] = append(keys[f], x.Sp[f][0])
					} else {
						keys[f] = append(keys[f], nil)
					}
				}
			}
		}
		l = append(l, coldBody{k.name, func(short bool) []interface{} {
			var res []interface{}
			n := len(texts)
			if short {
				n = 1
			}
			key := func(i, form int) interface{} {
				if dom {
					x, err := domain.MakeNameFromString(texts[i])
					if err != nil {
						res = append(res, "error")
					}
					return x
				}
				return keys[form][i]
			}
			h := im.New[0].Fn()
			for i := 0; i < n; i++ {
				in := im.Ins[i%len(im.Ins)]
				if k := key(i, in.Form); k != nil {
					h = in.Fn(h, k, im.Vals[i+1])
				}
			}
			for i := 0; i < n; i++ {
				for j, g := range im.Gets {
					if k := key(i, g.Form); k != nil && (!short || j == 0) {
						v, ok := g.Fn(h, k)
						res = append(res, v, ok)
					}
				}
			}
			if short {
				return res
			}
			for _, e := range im.Enums {
				ks, vs := e.Fn(h)
				for i := range ks {
					res = append(res, ks[i], vs[i])
				}
			}
			if im.Dot != nil {
				res = append(res, im.Dot(h))
			}
			for i, d := range im.Dels {
				if k := key(i%n, d.Form); k != nil {
					h2, ok := d.Fn(h, k)
					ks, _ := im.Enums[0].Fn(h2)
					res = append(res, ok, len(ks))
				}
			}
			return res
		}})
	}
	return append(l, coldBody{"names", func(short bool) []interface{} {
		n, err := domain.MakeNameFromString(`a.B\.c.\200`)
		if err != nil {
			return []interface{}{"error"}
		}
		res := []interface{}{n.String()}
		n.GetLabels(func(s string) error {
			res = append(res, s, domain.MakeHumanReadableLabel(s))
			return nil
		})
		if short {
			return res
		}
		lb, err := domain.MakeLabel(`x\.Y\007`)
		s, off := n.GetLabel(0)
		_, err2 := domain.MakeNameFromString("a..b")
		m := domain.MakeNameFromReflection(reflect.ValueOf("q.w"))
		return append(res, lb, err, s, off, err2, m.String())
	}})
}

func coldDiff(a, b []interface{}) string {
	same := len(a) == len(b)
	for i := 0; same && i < len(a); i++ {
		same = eng.Same(a[i], b[i])
	}
	if same {
		return ""
	}
	return fmt.Sprintf("%v instead of %v", a, b)
}

// coldPairs lists names of bodies and pairs of them with something in common.
func coldPairs() [][2]string {
	var l [][2]string
	for _, k := range smallKinds(eng.Variants) {
		if !strings.HasSuffix(k.name, "-siblings") {
			l = append(l, [2]string{k.name, k.name})
		}
	}
	l = append(l, [2]string{"names", "names"})
	for _, p := range []string{"names domaintree0", "domaintree0 names", "names dltree", "dltree domaintree0", "numtree64 iptree0-v6", "iptree0 numtree32", "iptree0 iptree0-v6", "iptree8 iptree0", "strtree0 strtree8", "domaintree8 names"} {
		f := strings.Fields(p)
		l = append(l, [2]string{f[0], f[1]})
	}
	return l
}

func coldPair(c *core.Ctx, p [2]string) (a, b coldBody) {
	for _, x := range coldBodies(c) {
		if x.name == p[0] {
			a = x
		}
		if x.name == p[1] {
			b = x
		}
	}
	return
}

// coldRaceJobs are the first uses of packages in a process, by two goroutines.
func coldRaceJobs() []core.Job {
	var js []core.Job
	for _, p := range coldPairs() {
		p := p
		js = append(js, core.Job{Name: "race/first use/" + p[0] + "+" + p[1], Run: func(c *core.Ctx) {
			a, b := coldPair(c, p)
			c.At(func() []string {
				return []string{"first uses of the packages in the process:", "goroutine 1: " + p[0] + ": insertions, lookups, enumeration, deletion", "goroutine 2: the same with " + p[1]}
			})
			var ra, rb []interface{}
			inOrder(func() { ra = a.fn(false) }, func() { rb = b.fn(false) })
			wa, wb := a.fn(false), b.fn(false)
			if d := coldDiff(ra, wa); d != "" {
				c.Fail("result", "goroutine 1 got %s (when repeated alone)", d)
			}
			if d := coldDiff(rb, wb); d != "" {
				c.Fail("result", "goroutine 2 got %s (when repeated alone)", d)
			}
			c.R.States++
			c.R.Traces++
			c.R.Trans += 2
			c.R.Evals += 2
			c.Outcome(c.Job)
		}})
	}
	return js
}

// coldSchedJobs explore schedules from the state of a new process: all variables of the
// packages are initialized again before each execution.
func coldSchedJobs(t core.Tier) []core.Job {
	var js []core.Job
	for _, p := range coldPairs() {
		p := p
		js = append(js, core.Job{Name: "sched/first use/" + p[0] + "+" + p[1], Run: func(c *core.Ctx) {
			a, b := coldPair(c, p)
			for _, short := range []bool{true, false} {
				short := short
				bound := 1
				if short {
					bound = 2
				}
				if c.Tier == core.Thorough {
					bound++
				}
				wa, wb := a.fn(short), b.fn(short)
				var ra, rb []interface{}
				explore(c, bound, func() []string {
					return []string{"variables of all packages as in a new process", fmt.Sprintf("thread 0: %s (short: %v)", p[0], short), "thread 1: " + p[1]}
				}, func() []func() {
					vsched.Reset()
					return []func(){func() { ra = a.fn(short) }, func() { rb = b.fn(short) }}
				}, func(o *vsched.Outcome) {
					if d := coldDiff(ra, wa); d != "" {
						c.Fail("result", "thread 0 got %s (when alone)", d)
					}
					if d := coldDiff(rb, wb); d != "" {
						c.Fail("result", "thread 1 got %s (when alone)", d)
					}
				})
			}
			c.Outcome(c.Job)
		}})
	}
	return js
}

func raceJobs(t core.Tier) []core.Job {
	var js []core.Job
	for _, k := range concKinds() {
		k := k
		few := (k.extra || !isGeneric(k.name)) && t == core.Quick
		js = append(js, core.Job{Name: "race/" + k.name, Run: func(c *core.Ctx) {
			r := k.run(c)
			racePairs(c, r, k.ops(r), concBases(r, few), c.Tier == core.Thorough)
		}})
	}
	js = append(js, core.Job{Name: "race/names", Run: func(c *core.Ctx) {
		racePairs(c, nil, nameOps(), noBase, false)
	}})
	js = append(js, coldRaceJobs()...)
	return js
}

// ---- controlled scheduling ----

// explore runs all schedules of the threads.
func explore(c *core.Ctx, bound int, desc func() []string, setup func() []func(), check func(o *vsched.Outcome)) {
	var last *vsched.Outcome
	c.At(func() []string {
		l := desc()
		if last != nil {
			l = append(l, fmt.Sprintf("threads in order of running: %v", last.Trace), fmt.Sprintf("steps: %d, deviations from the round-robin schedule: %d", last.Steps, last.Devs))
			if last.Stack != "" {
				l = append(l, last.Stack)
			}
		}
		return l
	})
	c.Mark()
	if c.NSamples() < 2 {
		c.Sample(strings.Join(desc(), "; "))
	}
	st := vsched.Explore(vsched.Limits{Bound: bound, Steps: 200000, Stop: c.Stop}, func() []func() { last = nil; return setup() }, func(o *vsched.Outcome) {
		last = o
		if b := o.Bad(); b != "" {
			c.Fail("blocked", "%s", b)
			return
		}
		check(o)
	})
	c.R.Traces += st.Schedules
	c.R.Trans += st.Steps
	c.R.States++
	c.R.Evals += st.Schedules
	if int64(st.MaxSteps) > c.R.MaxDepth {
		c.R.MaxDepth = int64(st.MaxSteps)
	}
	if st.Diverged > 3 {
		c.Cap("the code under test doesn't behave the same way when a schedule is replayed")
	}
}

func schedPairs(c *core.Ctx, r *eng.Run, ops []cop, bs []base, bound int, mainOnly, derived bool, shard, shards int) {
	pair := 0
	for _, b := range bs {
		if b.mk() == nil {
			continue
		}
		var want [2][]alone
		var snaps [2]*eng.Snap
		for hb := range want {
			for _, op := range ops {
				want[hb] = append(want[hb], runAlone(r, op, b.mk()[hb]))
			}
			if r != nil {
				snaps[hb] = r.TakeSnap(b.mk()[hb], false)
			}
		}
		for i := range ops {
			for j := range ops {
				for hb := 0; hb < 2; hb++ {
					if mainOnly && !(ops[i].main && ops[j].main) {
						continue
					}
					if hb == 1 && (!derived || r == nil) {
						continue
					}
					if pair++; pair%shards != shard {
						continue
					}
					if c.Stop() {
						return
					}
					var hs []interface{}
					var oi, oj obs
					explore(c, bound, func() []string {
						return []string{"base: " + b.name, "thread 0: " + ops[i].name, fmt.Sprintf("thread 1: %s on version %d", ops[j].name, hb)}
					}, func() []func() {
						hs = b.mk()
						return []func(){func() { oi = ops[i].fn(hs[0]) }, func() { oj = ops[j].fn(hs[hb]) }}
					}, func(o *vsched.Outcome) {
						compare(c, r, ops[i], oi, want[0][i])
						compare(c, r, ops[j], oj, want[hb][j])
						// The same again, now that both are over: nothing they left behind may show up.
						compare(c, r, ops[j], ops[j].fn(hs[hb]), want[hb][j])
						compare(c, r, ops[i], ops[i].fn(hs[0]), want[0][i])
						if r != nil {
							for x := range hs {
								if d := r.Diff(r.TakeSnap(hs[x], false), snaps[x]); d != "" {
									c.Fail("base", "version %d has changed: %s", x, d)
								}
							}
						}
					})
				}
			}
		}
	}
	c.Outcome(fmt.Sprintf("%s: %d operations", c.Job, len(ops)))
}

func schedTriples(c *core.Ctx, r *eng.Run, ops []cop, b base, bound int) {
	hs := b.mk()
	if hs == nil {
		return
	}
	var m []cop
	for _, o := range ops {
		if o.main {
			m = append(m, o)
		}
	}
	ops = m
	var want []alone
	for _, op := range ops {
		want = append(want, runAlone(r, op, b.mk()[0]))
	}
	for i := range ops {
		for j := i; j < len(ops); j++ {
			for k := j; k < len(ops); k++ {
				if c.Stop() {
					return
				}
				var res [3]obs
				idx := []int{i, j, k}
				explore(c, bound, func() []string {
					return []string{"base: " + b.name, "thread 0: " + ops[i].name, "thread 1: " + ops[j].name, "thread 2: " + ops[k].name}
				}, func() []func() {
					hs := b.mk()
					var fs []func()
					for x := range idx {
						fs = append(fs, func() { res[x] = ops[idx[x]].fn(hs[0]) })
					}
					return fs
				}, func(o *vsched.Outcome) {
					for x := range idx {
						compare(c, r, ops[idx[x]], res[x], want[idx[x]])
					}
				})
			}
		}
	}
}

func isGeneric(name string) bool {
	switch {
	case strings.HasPrefix(name, "strtree"), strings.HasPrefix(name, "domaintree"), strings.HasPrefix(name, "iptree"):
		return strings.HasPrefix(strings.TrimLeft(name, "abcdefghijklmnopqrstuvwxyz"), "0")
	}
	return true
}

func schedJobs(t core.Tier) []core.Job {
	var js []core.Job
	for _, k := range concKinds() {
		k := k
		gen := isGeneric(k.name)
		few := (k.extra || !gen) && t == core.Quick
		shards := 1
		if k.extra {
			shards = 2
		}
		js = append(js, group("sched/pairs/"+k.name, shards, shards, func(c *core.Ctx, i int) {
			r := k.run(c)
			schedPairs(c, r, k.ops(r), concBases(r, few), 1, false, gen && !few, i, shards)
		})...)
		if gen && !k.extra || t == core.Thorough {
			const deep = 4
			js = append(js, group("sched/deep/"+k.name, deep, deep, func(c *core.Ctx, i int) {
				r := k.run(c)
				schedPairs(c, r, k.ops(r), concBases(r, true), 2, true, false, i, deep)
			})...)
			js = append(js, core.Job{Name: "sched/triples/" + k.name, Run: func(c *core.Ctx) {
				r := k.run(c)
				schedTriples(c, r, k.ops(r), concBases(r, true)[0], 1)
			}})
		}
	}
	for i := 0; i < 2; i++ {
		i := i
		js = append(js, core.Job{Name: fmt.Sprintf("sched/pairs/names/%d", i), Run: func(c *core.Ctx) {
			schedPairs(c, nil, nameOps(), noBase, pick(c.Tier, 2, 3), false, false, i, 2)
		}})
	}
	js = append(js, coldSchedJobs(t)...)
	return js
}

func namesOf(js []core.Job, prefix string) []string {
	var l []string
	for _, j := range js {
		if strings.HasPrefix(j.Name, prefix) {
			l = append(l, j.Name)
		}
	}
	return l
}

func goBuild(dir, out string, args ...string) error {
	a := append([]string{"build", "-o", out}, args...)
	cmd := exec.Command("go", append(a, "./cmd/vc")...)
	cmd.Dir = dir
	b, err := cmd.CombinedOutput()
	if err != nil {
		s := string(b)
		if len(s) > 3000 {
			s = s[:3000] + "..."
		}
		return fmt.Errorf("go build: %s\n%s", err, s)
	}
	return nil
}

// harnessFor makes a copy of the harness that works with another copy of the repository.
func harnessFor(p *core.Parent, repo, name string) (string, error) {
	dir := filepath.Join(p.Scratch, name)
	if err := instr.CopyTree(os.Getenv("VC_HARNESS"), dir, nil); err != nil {
		return "", err
	}
	fn := filepath.Join(dir, "go.mod")
	b, err := os.ReadFile(fn)
	if err != nil {
		return "", err
	}
	s := strings.Replace(string(b), "go-trees => /repo", "go-trees => "+repo, 1)
	if s == string(b) {
		return "", fmt.Errorf("no replacement in %s", fn)
	}
	return dir, os.WriteFile(fn, []byte(s), 0644)
}

// instrumented builds the harness with an instrumented copy of the repository. It
// returns false, having registered a cap, if the code can't be put under control.
func instrumented(p *core.Parent) (string, bool) {
	repo := filepath.Join(p.Scratch, "instrumented")
	if err := instr.CopyTree(p.Repo, repo, func(rel string) bool { return strings.HasSuffix(rel, "_test.go") }); err != nil {
		p.Err("copy of the repository: %s", err)
		return "", false
	}
	rep, err := instr.Make(repo)
	if err != nil {
		p.Capped("controlled scheduling is off: " + err.Error())
		return "", false
	}
	p.Extra("instrumented", map[string]interface{}{"files": rep.Files, "points": rep.Points, "go_statements": rep.Gos, "channel_operations": rep.Chans, "initializations": rep.Globals, "skipped_packages": rep.Skipped})
	if len(rep.Unsup) > 0 {
		p.Capped("controlled scheduling is off, the code uses what can't be controlled: " + strings.Join(rep.Unsup, ", "))
		return "", false
	}
	h, err := harnessFor(p, repo, "harness-instrumented")
	if err != nil {
		p.Err("%s", err)
		return "", false
	}
	exe := filepath.Join(p.Scratch, "vc-instrumented")
	if err := goBuild(h, exe); err != nil {
		p.Capped("controlled scheduling is off: " + err.Error())
		return "", false
	}
	return exe, true
}

var raceEnv = []string{"GORACE=halt_on_error=1 exitcode=66 history_size=3"}

func execFor(p *core.Parent, job string) (*core.Exec, error) {
	if strings.HasPrefix(job, "race/") {
		exe := filepath.Join(p.Scratch, "vc-race")
		return &core.Exec{Exe: exe, Env: raceEnv}, goBuild(os.Getenv("VC_HARNESS"), exe, "-race")
	}
	if strings.HasPrefix(job, "sched/") {
		exe, ok := instrumented(p)
		if !ok {
			return nil, errors.New("can't put the code under control")
		}
		return &core.Exec{Exe: exe}, nil
	}
	return nil, nil
}

func init() {
	register(&core.Check{
		ID: "C20", Level: "model_checking",
		Rule: "race pass: every ordered pair of readers and copying updates of every tree kind and width (and of name operations) runs in two goroutines without any happens-before relation under the race detector; " +
			"controlled scheduling: the working tree is instrumented with a scheduling point before every statement that may touch shared memory, goroutines, channels and locks are put under control, and all schedules with up to the given number of deviations from the round-robin schedule are run for all pairs and for triples of representative operations, and from the state of a new process (package variables initialized again) for the first uses of all packages; results, made versions and bases are compared with what the operations give alone",
		Assumptions: append([]string{
			"the race detector of the Go toolchain sees every conflicting access that happened in an execution",
			"a statement without calls is atomic for the controlled scheduler (conflicts inside of it are left to the race pass)",
			"uncontrolled parts of the standard library don't synchronize goroutines by themselves",
		}, commonAssumptions...),
		Jobs: func(t core.Tier) []core.Job {
			return append(raceJobs(t), schedJobs(t)...)
		},
		Select:  func(string) bool { return false },
		ExecFor: execFor,
		Custom: func(p *core.Parent) error {
			exe := filepath.Join(p.Scratch, "vc-race")
			type built struct {
				exe string
				ok  bool
			}
			ch := make(chan built, 1)
			go func() {
				e, ok := instrumented(p)
				ch <- built{e, ok}
			}()
			err := goBuild(os.Getenv("VC_HARNESS"), exe, "-race")
			b := <-ch
			if err != nil {
				return err
			}
			js := append(raceJobs(p.Tier), schedJobs(p.Tier)...)
			p.RunJobs(namesOf(js, "race/"), core.Exec{Exe: exe, Env: raceEnv})
			if p.Failed() || !b.ok {
				return nil
			}
			p.RunJobs(namesOf(js, "sched/"), core.Exec{Exe: b.exe})
			return nil
		},
	})
}

// ---- enumerations ----

type seqs struct {
	ks []string
	vs []interface{}
}

func (s *seqs) add(k string, v interface{}) { s.ks = append(s.ks, k); s.vs = append(s.vs, v) }

func (s *seqs) diff(o *seqs) string {
	same := len(s.ks) == len(o.ks)
	for i := 0; same && i < len(s.ks); i++ {
		same = s.ks[i] == o.ks[i] && eng.Same(s.vs[i], o.vs[i])
	}
	if same {
		return ""
	}
	return fmt.Sprintf("%q %v instead of %q %v", s.ks, s.vs, o.ks, o.vs)
}

func drainSeq(e eng.EnumOp, h interface{}) *seqs {
	s := &seqs{}
	s.ks, s.vs = e.Fn(h)
	return s
}

// quiet waits until goroutines started by enumerations are gone.
func quiet(c *core.Ctx, n int) {
	start := time.Now()
	for i := 0; runtime.NumGoroutine() > n; i++ {
		runtime.Gosched()
		if i > 1000 {
			time.Sleep(time.Millisecond)
		}
		if time.Since(start) > 10*time.Second {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, true)]
			c.Fail("leak", "%d goroutines are left behind after all channels were closed:\n%s", runtime.NumGoroutine()-n, buf)
			return
		}
	}
}

// merges explores all orders of taking items of two enumerations and making copying updates.
func merges(c *core.Ctx, r *eng.Run, b base, ea, eb eng.EnumOp, hb int, steps []eng.Step, nupd int) {
	hs := b.mk()
	if hs == nil {
		return
	}
	wa, wb := drainSeq(ea, b.mk()[0]), drainSeq(eb, b.mk()[hb])
	la, lb := len(wa.ks)+2, len(wb.ks)+2
	n0 := runtime.NumGoroutine()
	order := make([]byte, 0, la+lb+nupd)
	var upd [2]eng.Step
	c.At(func() []string {
		l := []string{"base: " + b.name, fmt.Sprintf("a: %s of version 0, b: %s of version %d; capital letters open, small ones take an item, u makes a copying update", ea.Name, eb.Name, hb), "order: " + string(order)}
		for i := 0; i < nupd; i++ {
			l = append(l, r.StepStr(upd[i]))
		}
		return l
	})
	exec := func() {
		hs := b.mk()
		var sa, sb eng.Stream
		ga, gb := &seqs{}, &seqs{}
		cur := hs[0]
		nu := 0
		next := func(st eng.Stream, g, w *seqs, name string) {
			k, v, ok := st()
			if ok {
				g.add(k, v)
			}
			if len(g.ks) > len(w.ks) {
				c.Fail("sequence", "enumeration %s delivers more than it must: %s", name, g.diff(w))
			}
		}
		for i := 0; i < len(order); i++ {
			switch order[i] {
			case 'A':
				sa = ea.Open(hs[0])
			case 'B':
				sb = eb.Open(hs[hb])
			case 'a':
				next(sa, ga, wa, "a")
			case 'b':
				next(sb, gb, wb, "b")
			case 'u':
				s := upd[nu]
				nu++
				cur, _, _ = r.Do(cur, nil, s)
			}
		}
		if d := ga.diff(wa); d != "" {
			c.Fail("sequence", "enumeration a delivered %s", d)
		}
		if d := gb.diff(wb); d != "" {
			c.Fail("sequence", "enumeration b delivered %s", d)
		}
		if _, _, ok := sa(); ok {
			c.Fail("sequence", "the channel of enumeration a isn't closed")
		}
		if _, _, ok := sb(); ok {
			c.Fail("sequence", "the channel of enumeration b isn't closed")
		}
		c.R.Traces++
		c.R.Evals++
		c.R.Trans += int64(len(order))
		quiet(c, n0)
	}
	var rec func(a, bb, u int)
	rec = func(a, bb, u int) {
		if c.Stop() {
			return
		}
		if a == la && bb == lb && u == nupd {
			c.Mark()
			exec()
			return
		}
		if a < la {
			x := byte('a')
			if a == 0 {
				x = 'A'
			}
			order = append(order, x)
			rec(a+1, bb, u)
			order = order[:len(order)-1]
		}
		if bb < lb {
			x := byte('b')
			if bb == 0 {
				x = 'B'
			}
			order = append(order, x)
			rec(a, bb+1, u)
			order = order[:len(order)-1]
		}
		if u < nupd {
			order = append(order, 'u')
			rec(a, bb, u+1)
			order = order[:len(order)-1]
		}
	}
	var pickUpd func(i int)
	pickUpd = func(i int) {
		if i == nupd {
			rec(0, 0, 0)
			return
		}
		for _, s := range steps {
			s.Val = r.Alt(int(s.Key))
			upd[i] = s
			pickUpd(i + 1)
		}
	}
	pickUpd(0)
	c.R.States++
}

// enumKinds lists kinds of trees for enumerations: all but deep ones.
func enumKinds() []kind {
	var l []kind
	for _, k := range concKinds() {
		if !strings.HasSuffix(k.name, "-deep") {
			l = append(l, k.kind)
		}
	}
	return l
}

func mergeJobs(t core.Tier) []core.Job {
	var js []core.Job
	for _, k := range enumKinds() {
		k := k
		gen := isGeneric(k.name)
		js = append(js, core.Job{Name: "orders/" + k.name, Run: func(c *core.Ctx) {
			r := &eng.Run{C: c, I: k.impl(), U: k.uni(c)}
			steps := oneSpell(r.Steps(false, true, true))
			for _, b := range concBases(r, !gen && c.Tier == core.Quick) {
				for _, ea := range r.I.Enums {
					for _, eb := range r.I.Enums {
						merges(c, r, b, ea, eb, 0, steps, 1)
						merges(c, r, b, ea, eb, 1, steps, 0)
						if c.Tier == core.Thorough && gen {
							merges(c, r, b, ea, eb, 1, steps, 1)
							merges(c, r, b, ea, eb, 0, steps, 2)
						}
					}
				}
			}
			c.Outcome(c.Job)
		}}, core.Job{Name: "ends/" + k.name, Run: func(c *core.Ctx) { ends(c, k) }})
	}
	js = append(js, core.Job{Name: "slow reader", Run: slow}, core.Job{Name: "many at once", Run: many})
	return js
}

// many opens very many enumerations of each kind, two trees in turn, uses the trees in all
// other ways while they are open, takes items by turns and drains the youngest first.
func many(c *core.Ctx) {
	N := pick(c.Tier, 700, 20000)
	n0 := runtime.NumGoroutine()
	for _, k := range enumKinds() {
		im := k.impl()
		r := &eng.Run{C: c, I: im, U: k.uni(c)}
		var hs [2]interface{}
		var ms [2]eng.Model
		var desc []string
		for x := range hs {
			hs[x] = im.New[0].Fn()
			for i, key := range r.U.Keys {
				if key.Store && !key.Bad && len(key.Sp[im.Ins[0].Form]) > 0 && (x == 0 || i%2 == 0) {
					st := eng.Step{Kind: eng.KIns, Key: uint8(i), Val: r.Base(i)}
					if x == 0 {
						desc = append(desc, k.name+"; "+r.StepStr(st))
					}
					hs[x], _, _ = r.Do(hs[x], &ms[x], st)
				}
			}
		}
		cur := ""
		c.At(func() []string {
			return append(desc, fmt.Sprintf("%d enumerations of this tree and one with every second key are open", N), cur)
		})
		for _, e := range im.Enums {
			var want [2]*seqs
			for x := range hs {
				want[x] = drainSeq(e, hs[x])
			}
			cur = "they are opened"
			sts := make([]eng.Stream, N)
			got := make([]seqs, N)
			for i := range sts {
				sts[i] = e.Open(hs[i&1])
			}
			take := func(i int) bool {
				k, v, ok := sts[i]()
				if ok {
					if got[i].add(k, v); len(got[i].ks) > len(want[i&1].ks) {
						c.Fail("sequence", "enumeration %d of %d doesn't end", i, N)
					}
				}
				return ok
			}
			for _, first := range []bool{true, false} {
				cur = "one item of each is taken"
				for i := range sts {
					if first {
						i = N - 1 - i
					}
					take(i)
				}
				c.Mark()
				for x := range hs {
					cur = "trees are looked at"
					r.Obs(hs[x], &ms[x], "while enumerations are open")
					for i, key := range r.U.Keys {
						if key.Store && !key.Bad && len(key.Sp[im.Ins[0].Form]) > 0 {
							for _, kind := range []uint8{eng.KIns, eng.KDel} {
								if kind == eng.KDel && len(im.Dels) == 0 {
									continue
								}
								st := eng.Step{Kind: kind, Key: uint8(i), Val: r.Base(i)}
								cur = r.StepStr(st)
								m := ms[x]
								r.Do(hs[x], &m, st)
							}
						}
					}
				}
				c.Mark()
			}
			cur = "the last ones are drained first"
			for i := N - 1; i >= 0; i-- {
				for take(i) {
				}
				if d := got[i].diff(want[i&1]); d != "" {
					c.Fail("sequence", "enumeration %d of %d delivered %s", i, N, d)
				}
				if _, _, ok := sts[i](); ok {
					c.Fail("sequence", "the channel isn't closed at the end")
				}
				c.R.Traces++
				c.R.Evals++
			}
			c.R.Trans += int64(N)
			quiet(c, n0)
			c.Mark()
		}
		c.R.States += 2
	}
	c.Outcome(c.Job)
}

// ends drains enumerations of all trees over the universe, of nil and empty ones, and
// of one with many entries, and sees that no goroutine is left.
func ends(c *core.Ctx, k kind) {
	im := k.impl()
	u := k.uni(c)
	n0 := runtime.NumGoroutine()
	for root := range im.New {
		r := &eng.Run{C: c, I: im, U: u, Rot: root}
		var sets int
		store := []int{}
		for i, key := range u.Keys {
			if key.Store && !key.Bad && len(key.Sp[im.Ins[0].Form]) > 0 {
				store = append(store, i)
			}
		}
		sets = 1 << uint(len(store))
		for s := 0; s < sets; s++ {
			var m eng.Model
			h := im.New[root].Fn()
			desc := []string{"t := " + im.New[root].Name}
			for i, x := range store {
				if s>>uint(i)&1 != 0 {
					st := eng.Step{Kind: eng.KIns, Key: uint8(x), Val: r.Base(x)}
					desc = append(desc, r.StepStr(st))
					h, _, _ = r.Do(h, &m, st)
				}
			}
			c.At(func() []string { return append(desc, "enumerations in any order") })
			c.Mark()
			for round := 0; round < 2; round++ {
				for _, e := range im.Enums {
					st := e.Open(h)
					n := 0
					for {
						_, _, ok := st()
						if !ok {
							break
						}
						n++
						if n > 64 {
							c.Fail("sequence", "%s doesn't end", e.Name)
						}
					}
					for i := 0; i < 3; i++ {
						if _, _, ok := st(); ok {
							c.Fail("sequence", "%s goes on after the end", e.Name)
						}
					}
					quiet(c, n0)
					c.R.Traces++
					c.R.Trans++
				}
				r.CheckEnums(h, &m, "after complete enumerations")
			}
			c.R.States++
		}
	}
	c.Outcome(c.Job)
}

// slow takes items of many enumerations of all kinds with long pauses and collections of
// garbage at different places: before the first item, after one, before the last one and
// before the end.
func slow(c *core.Ctx) {
	type open struct {
		kind *kind
		what string
		st   eng.Stream
		want *seqs
		got  *seqs
		stop [2]int
	}
	var l []*open
	cur := ""
	c.At(func() []string {
		return []string{cur, "items are taken with pauses of seconds in which garbage is collected"}
	})
	n0 := runtime.NumGoroutine()
	for _, k := range enumKinds() {
		k := k
		im := k.impl()
		r := &eng.Run{C: c, I: im, U: k.uni(c)}
		h := im.New[0].Fn()
		var m eng.Model
		desc := k.name
		for i, key := range r.U.Keys {
			if key.Store && !key.Bad && len(key.Sp[im.Ins[0].Form]) > 0 {
				st := eng.Step{Kind: eng.KIns, Key: uint8(i), Val: r.Base(i)}
				desc += "; " + r.StepStr(st)
				h, _, _ = r.Do(h, &m, st)
			}
		}
		for _, e := range im.Enums {
			want := drainSeq(e, h)
			n := len(want.ks)
			for _, stop := range [][2]int{{0, 1}, {1, n - 1}, {n - 1, n}, {n, n + 1}} {
				l = append(l, &open{kind: &k, what: desc + "; " + e.Name, st: e.Open(h), want: want, got: &seqs{}, stop: stop})
			}
		}
	}
	for phase := 0; phase < 3; phase++ {
		for _, o := range l {
			cur = fmt.Sprintf("%s; pauses after %d and %d items", o.what, o.stop[0], o.stop[1])
			for phase == 2 || len(o.got.ks) < o.stop[phase] {
				k, v, ok := o.st()
				if !ok {
					break
				}
				o.got.add(k, v)
				if len(o.got.ks) > len(o.want.ks) {
					break
				}
			}
			if phase == 2 {
				if d := o.got.diff(o.want); d != "" {
					c.Fail("sequence", "a slowly read enumeration delivered %s", d)
				}
				if _, _, ok := o.st(); ok {
					c.Fail("sequence", "the channel isn't closed at the end")
				}
				c.R.Traces++
				c.R.Evals++
			}
			c.R.Trans++
		}
		if phase < 2 {
			for i := 0; i < pick(c.Tier, 6, 130); i++ {
				time.Sleep(time.Second / 2)
				runtime.GC()
				c.Mark()
			}
		}
	}
	cur = "all of them are drained"
	quiet(c, n0)
	c.R.States += int64(len(l))
	c.Outcome(c.Job)
}

// endsHook drains, in every state of an exploration, each enumeration, then all of them
// two times by turns, and sees that the channels are closed and no goroutine is left.
func endsHook(n0 func() int) func(r *eng.Run, h interface{}, m *eng.Model, rebuild func() interface{}, trace func() []string) {
	return func(r *eng.Run, h interface{}, m *eng.Model, rebuild func() interface{}, trace func() []string) {
		c := r.C
		n := n0()
		stored := bits.OnesCount64(m.M)
		// Trees made in place too.
		for _, x := range []interface{}{h, rebuild()} {
			r.CheckEnums(x, m, "complete enumeration")
			quiet(c, n)
			var sts []eng.Stream
			for i := 0; i < 2; i++ {
				for _, e := range r.I.Enums {
					sts = append(sts, e.Open(x))
				}
			}
			for i := 0; i < stored; i++ {
				for j, st := range sts {
					if _, _, ok := st(); !ok {
						c.Fail("sequence", "%s ends after %d items of %d when read by turns with others; stored: %s", r.I.Enums[j%len(r.I.Enums)].Name, i, stored, r.Stored(m))
					}
				}
			}
			for k := 0; k < 3; k++ {
				for j, st := range sts {
					if _, _, ok := st(); ok {
						c.Fail("sequence", "%s goes on after %d items; stored: %s", r.I.Enums[j%len(r.I.Enums)].Name, stored, r.Stored(m))
					}
				}
			}
			quiet(c, n)
			c.R.Traces += int64(len(sts))
		}
	}
}

// endsMode explores states only, for endsHook.
func endsMode() eng.Mode {
	base := 0
	return eng.Mode{NoGet: true, Inplace: true, Hook: endsHook(func() int {
		if base == 0 {
			base = runtime.NumGoroutine()
		}
		return base
	})}
}

// endStateJobs explores states of all universes that aren't big.
func endStateJobs(t core.Tier) []core.Job {
	var js []core.Job
	add := func(name string, parts int, n int, run func(c *core.Ctx, i int)) {
		js = append(js, group("ends of states/"+name, n, parts, run)...)
	}
	for _, v := range eng.Variants {
		v := v
		add(fmt.Sprintf("strtree%d", v), 1, 1, func(c *core.Ctx, i int) {
			var g [][]string
			for _, s := range []string{"", "a", "b", "c", "d", "e"} {
				g = append(g, []string{s})
			}
			r := &eng.Run{C: c, I: eng.StrImpl(v, cmpDef), U: eng.StrUniverse("6 keys", g)}
			r.BFS(endsMode())
		})
		var dus []domUni
		for _, u := range domUnis(t) {
			if !u.big || v == 0 && t == core.Thorough {
				dus = append(dus, u)
			}
		}
		add(fmt.Sprintf("domaintree%d", v), 2, len(dus), func(c *core.Ctx, i int) {
			m := endsMode()
			m.NoMix = !dus[i].mixed
			r := &eng.Run{C: c, I: eng.DomImpl(v), U: dus[i].mk(c), Rot: i}
			r.BFS(m)
		})
		var ius []ipUni
		for i, u := range ipUnis(t, v) {
			if !u.big && (t == core.Thorough || i >= 158 || (i+v/8)%4 == 0) {
				ius = append(ius, u)
			}
		}
		ius = append(ius, ipUni{name: "halves", mk: func(c *core.Ctx) *eng.Universe {
			return eng.IPUniverse("both families and both halves", halfKeys(), false, false)
		}})
		add(fmt.Sprintf("iptree%d", v), 2, len(ius), func(c *core.Ctx, i int) {
			r := &eng.Run{C: c, I: eng.IPImpl(v), U: ius[i].mk(c), Rot: i}
			r.BFS(endsMode())
		})
	}
	us := labelUnis()
	add("dltree", 1, 1, func(c *core.Ctx, i int) {
		r := &eng.Run{C: c, I: eng.DLImpl(), U: eng.LabelUniverse("labels", us[0][:pick(t, 6, 8)], 1)}
		r.BFS(endsMode())
	})
	for _, size := range []int{32, 64} {
		size := size
		var nus []numUni
		for i, u := range numUnis(t, size) {
			if !u.big && (t == core.Thorough || i%3 == 0) {
				nus = append(nus, u)
			}
		}
		add(fmt.Sprintf("numtree%d", size), 2, len(nus), func(c *core.Ctx, i int) {
			r := &eng.Run{C: c, I: eng.NumImpl(size), U: nus[i].mk(c), Rot: i}
			r.BFS(endsMode())
		})
	}
	return js
}

// halfKeys are networks of both families, IPv6 ones nested in, around and besides the
// upper and the lower 64 bits.
func halfKeys() []eng.IPKey {
	p := eng.Prefix{Hi: 0x20010db8a5a5c3c3, Lo: 0x0f0f123456789abc, Store: true}
	q := p.SetBit(60, 1-p.Bit(60))
	at := func(p eng.Prefix, bits int) eng.Prefix { p.Bits = bits; return p }
	return []eng.IPKey{
		ip4(eng.Prefix{Hi: 10 << 56, Bits: 8, Store: true}),
		ip4(eng.Prefix{Hi: 0x0a01 << 48, Bits: 32, Store: true}),
		ip6(at(p, 32)), ip6(at(p, 48)), ip6(at(p, 64)), ip6(at(p, 96)), ip6(at(p, 128)),
		ip6(at(q, 64)), ip6(at(q, 128)),
	}
}

// schedEnums explores schedules of consumers, producers and updaters.
func schedEnums(c *core.Ctx, r *eng.Run, bs []base, bound, bound3 int) {
	type thr struct {
		name string
		fn   func(hs []interface{}, rep func(what string, got *seqs, enum int, ver int))
	}
	for _, b := range bs {
		if b.mk() == nil {
			continue
		}
		var want [2][]*seqs
		for ver := 0; ver < 2; ver++ {
			for _, e := range r.I.Enums {
				want[ver] = append(want[ver], drainSeq(e, b.mk()[ver]))
			}
		}
		steps := oneSpell(r.Steps(false, true, true))
		var threads []thr
		for ei, e := range r.I.Enums {
			for ver := 0; ver < 2; ver++ {
				threads = append(threads, thr{fmt.Sprintf("drains %s of version %d", e.Name, ver), func(hs []interface{}, rep func(string, *seqs, int, int)) {
					rep(e.Name, drainSeq(e, hs[ver]), ei, ver)
				}})
			}
		}
		zip := func(e1, e2 int, upd bool) thr {
			nm := fmt.Sprintf("takes items of %s and %s by turns", r.I.Enums[e1].Name, r.I.Enums[e2].Name)
			if upd {
				nm += ", making copying updates in between"
			}
			return thr{nm, func(hs []interface{}, rep func(string, *seqs, int, int)) {
				a, bb := r.I.Enums[e1].Open(hs[0]), r.I.Enums[e2].Open(hs[0])
				ga, gb := &seqs{}, &seqs{}
				okA, okB := true, true
				cur := hs[0]
				for i := 0; okA || okB; i++ {
					var k string
					var v interface{}
					if okA {
						if k, v, okA = a(); okA {
							ga.add(k, v)
						}
					}
					if upd {
						s := steps[i%len(steps)]
						s.Val = r.Alt(int(s.Key))
						cur, _, _ = r.Do(cur, nil, s)
					}
					if okB {
						if k, v, okB = bb(); okB {
							gb.add(k, v)
						}
					}
				}
				rep("first", ga, e1, 0)
				rep("second", gb, e2, 0)
			}}
		}
		for e1 := range r.I.Enums {
			for e2 := e1; e2 < len(r.I.Enums); e2++ {
				threads = append(threads, zip(e1, e2, false))
			}
		}
		threads = append(threads, zip(0, len(r.I.Enums)-1, true))
		nEnum := len(threads)
		threads = append(threads, thr{"makes a chain of copying updates", func(hs []interface{}, rep func(string, *seqs, int, int)) {
			h := hs[0]
			for _, s := range steps {
				s.Val = r.Alt(int(s.Key))
				h, _, _ = r.Do(h, nil, s)
			}
		}})
		scen := func(bound int, ts ...thr) {
			if c.Stop() {
				return
			}
			type rp struct {
				what string
				got  *seqs
				e, v int
			}
			var reps []rp
			explore(c, bound, func() []string {
				l := []string{"base: " + b.name}
				for i, t := range ts {
					l = append(l, fmt.Sprintf("thread %d %s", i, t.name))
				}
				return l
			}, func() []func() {
				hs := b.mk()
				reps = reps[:0]
				var fs []func()
				for _, t := range ts {
					fs = append(fs, func() {
						t.fn(hs, func(w string, g *seqs, e, v int) { reps = append(reps, rp{w, g, e, v}) })
					})
				}
				return fs
			}, func(o *vsched.Outcome) {
				for _, x := range reps {
					if d := x.got.diff(want[x.v][x.e]); d != "" {
						c.Fail("sequence", "enumeration (%s) delivered %s", x.what, d)
					}
				}
			})
		}
		for i, a := range threads[:nEnum] {
			scen(bound, a)
			for _, bb := range threads[i:] {
				scen(bound3, a, bb)
			}
		}
	}
	c.Outcome(c.Job)
}

func schedEnumJobs(t core.Tier) []core.Job {
	var js []core.Job
	for _, k := range enumKinds() {
		k := k
		gen := isGeneric(k.name)
		js = append(js, core.Job{Name: "sched/enum/" + k.name, Run: func(c *core.Ctx) {
			r := &eng.Run{C: c, I: k.impl(), U: k.uni(c)}
			schedEnums(c, r, concBases(r, !gen), pick(c.Tier, 1, 2), 1)
		}})
	}
	for _, k := range concKinds() {
		k := k
		if strings.HasSuffix(k.name, "-deep") {
			js = append(js, core.Job{Name: "sched/enum/" + k.name, Run: func(c *core.Ctx) {
				r := k.run(c)
				schedEnums(c, r, concBases(r, true)[:1], 1, pick(c.Tier, 0, 1))
			}})
		}
	}
	return js
}

func init() {
	register(&core.Check{
		ID: "C21", Level: "model_checking",
		Rule: "all orders of opening two enumerations, taking their items and making copying updates are run with the code as it is; in every reachable state of the universes every enumeration is drained alone and by turns; enumerations of all kinds are read with long pauses; with the instrumented code (scheduling points before statements, goroutines and channels under control) " +
			"all schedules of producers, consumers and updaters within the bound of deviations from the round-robin schedule are run; complete sequences, closed channels and the end of every goroutine are required",
		Assumptions: append([]string{"a statement without calls is atomic for the controlled scheduler"}, commonAssumptions...),
		Jobs: func(t core.Tier) []core.Job {
			return append(append(mergeJobs(t), endStateJobs(t)...), schedEnumJobs(t)...)
		},
		Select:  func(n string) bool { return !strings.HasPrefix(n, "sched/") },
		ExecFor: execFor,
		Custom: func(p *core.Parent) error {
			exe, ok := instrumented(p)
			if !ok {
				return nil
			}
			p.RunJobs(namesOf(schedEnumJobs(p.Tier), "sched/"), core.Exec{Exe: exe})
			return nil
		},
	})
}

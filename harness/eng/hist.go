package eng

import (
	"fmt"
	"strings"
)

// Steps lists all steps over the universe. Values are chosen by the caller.
func (r *Run) Steps(inplace, cow, del bool) []Step {
	var l []Step
	for oi := range r.I.Ins {
		o := &r.I.Ins[oi]
		if o.Inplace && !inplace || !o.Inplace && !cow {
			continue
		}
		for k, key := range r.U.Keys {
			if !key.Store {
				continue
			}
			for s := range key.Sp[o.Form] {
				l = append(l, Step{KIns, uint8(oi), uint8(k), uint8(s), 0})
			}
		}
	}
	if del {
		for oi := range r.I.Dels {
			o := &r.I.Dels[oi]
			for k, key := range r.U.Keys {
				if !key.Del {
					continue
				}
				for s := range key.Sp[o.Form] {
					l = append(l, Step{KDel, uint8(oi), uint8(k), uint8(s), 0})
				}
			}
		}
	}
	return l
}

type version struct {
	h    interface{}
	m    Model
	snap *Snap
	desc string
}

// Versions explores all histories of copying operations up to the given depth in which
// every operation may start from any version obtained before. After every operation
// the new version is compared with the model and all older ones with what they were.
func (r *Run) Versions(depth int, steps []Step, start int) {
	c := r.C
	var vs []version
	cur := ""
	trace := func() []string {
		var l []string
		for i := range vs {
			l = append(l, fmt.Sprintf("t%d := %s", i, vs[i].desc))
		}
		return append(l, cur)
	}
	c.At(trace)
	h := r.I.New[start].Fn()
	vs = append(vs, version{h: h, desc: r.I.New[start].Name})
	vs[0].snap = r.TakeSnap(h, true)
	count := int64(0)
	var rec func(d int)
	rec = func(d int) {
		for vi := 0; vi < len(vs); vi++ {
			for _, s := range steps {
				if c.Stop() {
					return
				}
				s.Val = uint8((3*d + 7*len(vs) + int(s.Key)*5 + r.Rot) % len(r.I.Vals))
				m := vs[vi].m
				cur = strings.Replace(r.StepStr(s), "t.", fmt.Sprintf("t%d.", vi), 1)
				c.Mark()
				nh, ok, want := r.Do(vs[vi].h, &m, s)
				c.R.Trans++
				count++
				if s.Kind == KDel && ok != want {
					r.fail("delflag", "%s returned %v, expected %v", cur, ok, want)
				}
				for i := range vs {
					if df := r.Diff(vs[i].snap, r.TakeSnap(vs[i].h, true)); df != "" {
						r.fail("persist", "version t%d has changed: %s", i, df)
					}
				}
				r.Obs(nh, &m, "new version")
				if d > 1 {
					vs = append(vs, version{h: nh, m: m, snap: r.TakeSnap(nh, true), desc: cur})
					rec(d - 1)
					vs = vs[:len(vs)-1]
				}
			}
		}
	}
	rec(depth)
	c.R.Traces += count
	c.R.States += count
	if c.R.MaxDepth < int64(depth) {
		c.R.MaxDepth = int64(depth)
	}
	c.Outcome(fmt.Sprintf("%s/%s versions depth=%d histories=%d", r.I.Name, r.U.Name, depth, count))
	c.At(nil2)
}

// Linear explores all histories of copying and in-place insertions and deletions up to
// the given depth. Every history runs from scratch; it is compared with the model and
// with its twin made only by copying operations.
func (r *Run) Linear(depth int, steps []Step, start int, twin bool) {
	c := r.C
	hist := make([]Step, 0, depth)
	cur := func() []string {
		l := []string{"t := " + r.I.New[start].Name}
		for _, s := range hist {
			l = append(l, r.StepStr(s))
		}
		return l
	}
	c.At(cur)
	count := int64(0)
	var rec func(d int, th interface{})
	rec = func(d int, th interface{}) {
		for _, s := range steps {
			if c.Stop() {
				return
			}
			s.Val = uint8((5*len(hist) + int(s.Key)*3 + r.Rot) % len(r.I.Vals))
			hist = append(hist, s)
			c.Mark()
			h := r.I.New[start].Fn()
			var m Model
			var ok, want bool
			for _, x := range hist {
				h, ok, want = r.Do(h, &m, x)
				// reads between updates
				if len(r.I.Gets) > 0 {
					g := &r.I.Gets[0]
					k := r.U.Keys[x.Key]
					if len(k.Sp[g.Form]) > 0 {
						g.Fn(h, k.Sp[g.Form][0])
					}
				}
			}
			c.R.Trans++
			count++
			if s.Kind == KDel && ok != want {
				r.fail("delflag", "the last step returned %v, expected %v", ok, want)
			}
			r.Obs(h, &m, "after the last step")
			var nt interface{}
			if twin {
				s2 := s
				if s.Kind == KIns && r.I.Ins[s.Op].Inplace {
					if tw := r.twin(int(s.Op)); tw >= 0 {
						s2.Op = uint8(tw)
					}
				}
				var tok bool
				nt, tok, _ = r.Do(th, nil, s2)
				if s.Kind == KDel && ok != tok {
					r.fail("inplace", "deletion returned %v, in the twin without in-place insertions %v", ok, tok)
				}
				if df := r.Diff(r.TakeSnap(h, false), r.TakeSnap(nt, false)); df != "" {
					r.fail("inplace", "differs from the tree made by copying insertions: %s", df)
				}
			}
			if d > 1 {
				rec(d-1, nt)
			}
			hist = hist[:len(hist)-1]
		}
	}
	rec(depth, r.I.New[start].Fn())
	c.R.Traces += count
	c.R.States += count
	if c.R.MaxDepth < int64(depth) {
		c.R.MaxDepth = int64(depth)
	}
	c.Outcome(fmt.Sprintf("%s/%s linear depth=%d histories=%d", r.I.Name, r.U.Name, depth, count))
	c.At(nil2)
}

// Package eng explores operation histories of trees exhaustively and compares every
// step with a reference model: a set of stored keys with values and a table that tells
// which keys contain which.
package eng

import (
	"crypto/md5"
	"fmt"
	"math/bits"
	"reflect"
	"strings"

	"vh/core"
)

// Forms of keys operations accept.
const (
	Human = iota // text or main form
	Raw          // alternative form
	NForms
)

// InsOp is an insertion.
type InsOp struct {
	Name    string
	Form    int
	Inplace bool
	Fn      func(t, k, v interface{}) interface{}
}

// GetOp is a lookup.
type GetOp struct {
	Name  string
	Form  int
	Exact bool // no containment
	Fn    func(t, k interface{}) (interface{}, bool)
}

// DelOp is a deletion.
type DelOp struct {
	Name    string
	Form    int
	Contain bool // removes contained keys too
	Fn      func(t, k interface{}) (interface{}, bool)
}

// EnumOp is an enumeration.
type EnumOp struct {
	Name string
	Form int
	Open func(t interface{}) Stream
}

// Impl is a tree implementation under test.
type Impl struct {
	Name    string
	New     []NamedNew // ways to get an empty tree; the first one is used in place
	Ins     []InsOp
	Gets    []GetOp
	Dels    []DelOp
	Enums   []EnumOp
	Zero    interface{}
	Vals    []interface{}
	IsEmpty func(t interface{}) bool
	Dot     func(t interface{}) string
	IsNil   func(t interface{}) bool // in-place operations are impossible on nil trees
	NilOK   bool                     // in-place insertion works on a nil handle
}

// NamedNew makes an empty tree.
type NamedNew struct {
	Name string
	Fn   func() interface{}
}

// Key is a canonical key with its spellings.
type Key struct {
	Str   string
	Sp    [NForms][]interface{}
	SpStr [NForms][]string
	Enum  [NForms][]string // accepted texts in enumerations
	Store bool             // used in insertions
	Del   bool             // used in deletions
	Bad   bool             // unusable key: stored never, found never
}

// Universe is a finite set of keys.
type Universe struct {
	Name string
	Keys []*Key
	// Cont[i] is the set of keys contained in key i, itself included.
	Cont []uint64
	// Conts[i] lists keys that contain key i, most specific first (itself included).
	Conts [][]int
	// Order lists keys in order of enumeration.
	Order []int
	// Below[i] lists keys contained in key i, itself included (universes of any size).
	Below [][]int

	decode [NForms]map[string]int
}

// Finish computes derived tables. contains(i, j) tells if key i contains key j,
// it must be a partial order. less gives the order of enumeration.
func (u *Universe) Finish(contains func(i, j int) bool, less func(i, j int) bool) *Universe {
	n := len(u.Keys)
	if n > 64 {
		// For directed histories only.
		u.finishBig(contains, less)
		u.finishOrder(less)
		return u
	}
	u.Below = make([][]int, n)
	u.Cont = make([]uint64, n)
	u.Conts = make([][]int, n)
	for i := 0; i < n; i++ {
		for j := 0; j < n; j++ {
			if !u.Keys[i].Bad && !u.Keys[j].Bad && (i == j || contains(i, j)) {
				u.Cont[i] |= 1 << uint(j)
				u.Below[i] = append(u.Below[i], j)
			}
		}
	}
	for j := 0; j < n; j++ {
		for i := 0; i < n; i++ {
			if u.Cont[i]>>uint(j)&1 != 0 {
				u.Conts[j] = append(u.Conts[j], i)
			}
		}
		// most specific first: the one that contains fewer keys of the chain
		l := u.Conts[j]
		for a := 0; a < len(l); a++ {
			for b := a + 1; b < len(l); b++ {
				if u.Cont[l[b]]>>uint(l[a])&1 == 0 && u.Cont[l[a]]>>uint(l[b])&1 != 0 {
					l[a], l[b] = l[b], l[a]
				}
			}
		}
	}
	u.finishOrder(less)
	return u
}

func (u *Universe) finishOrder(less func(i, j int) bool) {
	n := len(u.Keys)
	u.Order = u.Order[:0]
	for i := 0; i < n; i++ {
		u.Order = append(u.Order, i)
	}
	for a := 1; a < n; a++ {
		for b := a; b > 0 && less(u.Order[b], u.Order[b-1]); b-- {
			u.Order[b], u.Order[b-1] = u.Order[b-1], u.Order[b]
		}
	}
	for f := 0; f < NForms; f++ {
		u.decode[f] = map[string]int{}
		for i, k := range u.Keys {
			for _, s := range k.Enum[f] {
				if o, ok := u.decode[f][s]; ok && o != i {
					panic("ambiguous enumeration text " + s)
				}
				u.decode[f][s] = i
			}
		}
	}
}

// Model is the reference: which keys are stored and with which values.
type Model struct {
	M uint64
	V [64]uint8 // index in Impl.Vals
}

// Run is an exploration of an implementation over a universe.
type Run struct {
	C   *core.Ctx
	I   *Impl
	U   *Universe
	Rot int // rotation of the value table
	// Two makes all keys have the same value, the first of the two (numbers in the table
	// of values), replaced by the second.
	Two *[2]uint8

	sp       int  // rotation of spellings
	AllSp    bool // every operation under every spelling
	NoGet    bool
	NoEnum   bool
	UseDot   bool // compare Dot of versions too (persistence)
	enumBusy []string
}

// Base returns index of the value normally stored with key k, Alt another one.
func (r *Run) Base(k int) uint8 {
	if r.Two != nil {
		return r.Two[0]
	}
	return uint8((2*k + r.Rot) % len(r.I.Vals))
}

// Alt returns index of the replacing value for key k.
func (r *Run) Alt(k int) uint8 {
	if r.Two != nil {
		return r.Two[1]
	}
	return uint8((2*k + 1 + r.Rot) % len(r.I.Vals))
}

func (r *Run) fail(sig, format string, a ...interface{}) {
	r.C.Fail(sig, "%s, %s: %s", r.I.Name, r.U.Name, fmt.Sprintf(format, a...))
}

func show(v interface{}) string {
	switch v := v.(type) {
	case nil:
		return "nil"
	case string:
		return fmt.Sprintf("%q", v)
	case uint8, uint16, uint32, uint64:
		return fmt.Sprintf("%#x", v)
	}
	return fmt.Sprintf("%T(%v)", v, v)
}

// Expect returns what a lookup of q must give.
func (r *Run) Expect(m *Model, q int, exact bool) (interface{}, bool) {
	if exact {
		if m.M>>uint(q)&1 != 0 {
			return r.I.Vals[m.V[q]], true
		}
		return r.I.Zero, false
	}
	for _, k := range r.U.Conts[q] {
		if m.M>>uint(k)&1 != 0 {
			return r.I.Vals[m.V[k]], true
		}
	}
	return r.I.Zero, false
}

// Spells returns how many spellings a key has in a form.
func (k *Key) Spells(form int) int { return len(k.Sp[form]) }

// CheckGets compares all lookups with the model.
func (r *Run) CheckGets(h interface{}, m *Model, what string) {
	for gi := range r.I.Gets {
		g := &r.I.Gets[gi]
		for q, k := range r.U.Keys {
			n := len(k.Sp[g.Form])
			if n == 0 {
				continue
			}
			lo, hi := 0, n
			if !r.AllSp && !k.Bad && n > 1 {
				r.sp++
				lo = r.sp % n
				hi = lo + 1
			}
			wv, wok := r.Expect(m, q, g.Exact)
			for s := lo; s < hi; s++ {
				v, ok := g.Fn(h, k.Sp[g.Form][s])
				r.C.R.Evals++
				if ok != wok || !Same(v, wv) {
					r.fail("lookup", "%s: %s(%s) = %s, %v; expected %s, %v; stored: %s", what, g.Name, k.SpStr[g.Form][s], show(v), ok, show(wv), wok, r.Stored(m))
				}
			}
		}
	}
	if r.I.IsEmpty != nil {
		if e := r.I.IsEmpty(h); e != (m.M == 0) {
			r.fail("isempty", "%s: IsEmpty() = %v; stored: %s", what, e, r.Stored(m))
		}
	}
}

// Stored writes out the model.
func (r *Run) Stored(m *Model) string {
	var b strings.Builder
	b.WriteByte('{')
	for _, k := range r.U.Order {
		if m.M>>uint(k)&1 != 0 {
			if b.Len() > 1 {
				b.WriteString(", ")
			}
			fmt.Fprintf(&b, "%s: %s", r.U.Keys[k].Str, show(r.I.Vals[m.V[k]]))
		}
	}
	b.WriteByte('}')
	return b.String()
}

// CheckEnums compares all enumerations with the model.
func (r *Run) CheckEnums(h interface{}, m *Model, what string) {
	for ei := range r.I.Enums {
		e := &r.I.Enums[ei]
		ks, vs := e.Fn(h)
		r.C.R.Evals++
		i := 0
		bad := ""
		for _, k := range r.U.Order {
			if m.M>>uint(k)&1 == 0 {
				continue
			}
			if i >= len(ks) {
				bad = fmt.Sprintf("%s is missing", r.U.Keys[k].Str)
				break
			}
			j, ok := r.U.decode[e.Form][ks[i]]
			if !ok {
				bad = fmt.Sprintf("item %d has unexpected key %q", i, ks[i])
				break
			}
			if j != k {
				bad = fmt.Sprintf("item %d is %s, expected %s", i, r.U.Keys[j].Str, r.U.Keys[k].Str)
				break
			}
			if !Same(vs[i], r.I.Vals[m.V[k]]) {
				bad = fmt.Sprintf("item %d (%s) has value %s, expected %s", i, r.U.Keys[k].Str, show(vs[i]), show(r.I.Vals[m.V[k]]))
				break
			}
			i++
		}
		if bad == "" && i != len(ks) {
			bad = fmt.Sprintf("extra item %q", ks[i])
		}
		if bad != "" {
			var l []string
			for x := range ks {
				l = append(l, fmt.Sprintf("%s: %s", brief(ks[x]), show(vs[x])))
			}
			r.fail("enumerate", "%s: %s: %s; got [%s]; stored: %s", what, e.Name, bad, strings.Join(l, ", "), r.Stored(m))
		}
	}
}

// Obs checks all observations that are switched on.
func (r *Run) Obs(h interface{}, m *Model, what string) {
	if !r.NoGet {
		r.CheckGets(h, m, what)
	}
	if !r.NoEnum {
		r.CheckEnums(h, m, what)
	}
}

// ApplyIns updates the model.
func (m *Model) ApplyIns(k int, v uint8) {
	m.M |= 1 << uint(k)
	m.V[k] = v
}

// ApplyDel updates the model and tells if something was removed.
func (r *Run) ApplyDel(m *Model, k int, contain bool) bool {
	var x uint64
	if contain {
		x = r.U.Cont[k]
	} else if !r.U.Keys[k].Bad {
		x = 1 << uint(k)
	}
	ok := m.M&x != 0
	m.M &^= x
	return ok
}

// Kind of step.
const (
	KIns = iota
	KDel
)

// Step is one operation of a history.
type Step struct {
	Kind uint8
	Op   uint8
	Key  uint8
	Sp   uint8
	Val  uint8
}

// StepStr writes a step out.
func (r *Run) StepStr(s Step) string {
	k := r.U.Keys[s.Key]
	if s.Kind == KIns {
		o := &r.I.Ins[s.Op]
		if o.Inplace {
			return fmt.Sprintf("t.%s(%s, %s)", o.Name, k.SpStr[o.Form][s.Sp], show(r.I.Vals[s.Val]))
		}
		return fmt.Sprintf("t = t.%s(%s, %s)", o.Name, k.SpStr[o.Form][s.Sp], show(r.I.Vals[s.Val]))
	}
	o := &r.I.Dels[s.Op]
	return fmt.Sprintf("t, _ = t.%s(%s)", o.Name, k.SpStr[o.Form][s.Sp])
}

// Do executes a step and updates the model.
func (r *Run) Do(h interface{}, m *Model, s Step) (nh interface{}, ok, want bool) {
	k := r.U.Keys[s.Key]
	if s.Kind == KIns {
		o := &r.I.Ins[s.Op]
		nh = o.Fn(h, k.Sp[o.Form][s.Sp], r.I.Vals[s.Val])
		if m != nil && !k.Bad {
			m.ApplyIns(int(s.Key), s.Val)
		}
		return nh, true, true
	}
	o := &r.I.Dels[s.Op]
	nh, ok = o.Fn(h, k.Sp[o.Form][s.Sp])
	if m != nil {
		want = r.ApplyDel(m, int(s.Key), o.Contain)
	}
	return nh, ok, want
}

// Snap is everything observable of a tree.
type Snap struct {
	V    []interface{}
	OK   []bool
	EK   [][]string
	EV   [][]interface{}
	Dot  string
	Emp  bool
	dots bool
}

// TakeSnap reads everything.
func (r *Run) TakeSnap(h interface{}, dot bool) *Snap {
	s := &Snap{dots: dot && r.I.Dot != nil}
	for gi := range r.I.Gets {
		g := &r.I.Gets[gi]
		for _, k := range r.U.Keys {
			if len(k.Sp[g.Form]) == 0 {
				continue
			}
			v, ok := g.Fn(h, k.Sp[g.Form][0])
			s.V = append(s.V, v)
			s.OK = append(s.OK, ok)
		}
	}
	for ei := range r.I.Enums {
		k, v := r.I.Enums[ei].Fn(h)
		s.EK = append(s.EK, k)
		s.EV = append(s.EV, v)
	}
	if s.dots {
		s.Dot = r.I.Dot(h)
	}
	if r.I.IsEmpty != nil {
		s.Emp = r.I.IsEmpty(h)
	}
	r.C.R.Evals++
	return s
}

// Diff returns a description of the first difference or an empty string.
func (r *Run) Diff(a, b *Snap) string {
	i := 0
	for gi := range r.I.Gets {
		g := &r.I.Gets[gi]
		for _, k := range r.U.Keys {
			if len(k.Sp[g.Form]) == 0 {
				continue
			}
			if !Same(a.V[i], b.V[i]) || a.OK[i] != b.OK[i] {
				return fmt.Sprintf("%s(%s): %s, %v against %s, %v", g.Name, k.SpStr[g.Form][0], show(a.V[i]), a.OK[i], show(b.V[i]), b.OK[i])
			}
			i++
		}
	}
	for ei := range r.I.Enums {
		if len(a.EK[ei]) != len(b.EK[ei]) {
			return fmt.Sprintf("%s: %q against %q", r.I.Enums[ei].Name, a.EK[ei], b.EK[ei])
		}
		for j := range a.EK[ei] {
			if a.EK[ei][j] != b.EK[ei][j] || !Same(a.EV[ei][j], b.EV[ei][j]) {
				return fmt.Sprintf("%s item %d: %q: %s against %q: %s", r.I.Enums[ei].Name, j, a.EK[ei][j], show(a.EV[ei][j]), b.EK[ei][j], show(b.EV[ei][j]))
			}
		}
	}
	if a.Emp != b.Emp {
		return fmt.Sprintf("IsEmpty: %v against %v", a.Emp, b.Emp)
	}
	if a.dots && b.dots && a.Dot != b.Dot {
		return fmt.Sprintf("Dot:\n%s\nagainst\n%s", a.Dot, b.Dot)
	}
	return ""
}

// Mode selects what exploration checks.
type Mode struct {
	CheckIns  bool // observe results of copying insertions
	CheckDel  bool // observe results and flags of deletions
	CheckRes  bool // observe results of deletions but not flags
	Persist   bool // re-observe the source after every copying operation
	Inplace   bool // in-place insertions on rebuilt trees, observed against the model
	SameAsCow bool // in-place result against copying result
	Sweep     bool // re-observe every stored state at the end
	MaxStates int
	NoGet     bool                           // lookups are not observed
	NoEnum    bool                           // enumerations are not observed
	NoMix     bool                           // results of in-place insertions are not states
	After     func(nh interface{}, m *Model) // called after every operation
	Hook      func(r *Run, h interface{}, m *Model, rebuild func() interface{}, trace func() []string)
}

type node struct {
	h      interface{}
	m      uint64
	parent int32
	s      Step
	depth  int16
	root   int8
}

// BFS explores all reachable states.
func (r *Run) BFS(mode Mode) {
	c := r.C
	r.NoGet = r.NoGet || mode.NoGet
	r.NoEnum = r.NoEnum || mode.NoEnum
	if mode.MaxStates == 0 {
		mode.MaxStates = 400000
	}
	trans0 := c.R.Trans
	fp := &core.FP{}
	seen := map[[16]byte]bool{}
	var nodes []node
	model := func(mask uint64) *Model {
		m := &Model{M: mask}
		for x := mask; x != 0; x &= x - 1 {
			k := bits.TrailingZeros64(x)
			m.V[k] = r.Base(k)
		}
		return m
	}
	path := func(i int32) []string {
		var l []string
		for j := i; nodes[j].parent >= 0; j = nodes[j].parent {
			l = append(l, r.StepStr(nodes[j].s))
			i = nodes[j].parent
		}
		l = append(l, "t := "+r.I.New[nodes[i].root].Name)
		for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
			l[a], l[b] = l[b], l[a]
		}
		return l
	}
	rebuild := func(i int32) interface{} {
		var steps [256]Step
		n := 0
		for ; nodes[i].parent >= 0; i = nodes[i].parent {
			steps[n] = nodes[i].s
			n++
		}
		h := r.I.New[nodes[i].root].Fn()
		for n--; n >= 0; n-- {
			h, _, _ = r.Do(h, nil, steps[n])
		}
		return h
	}
	cur := int32(0)
	curStep := ""
	trace := func() []string {
		l := path(cur)
		if curStep != "" {
			l = append(l, curStep)
		}
		return l
	}
	c.At(trace)
	for i := range r.I.New {
		h := r.I.New[i].Fn()
		nodes = append(nodes, node{h: h, parent: -1, root: int8(i)})
		cur = int32(len(nodes) - 1)
		c.Mark()
		r.Obs(h, model(0), "empty tree")
		f := md5.Sum([]byte(fp.Of(h)))
		if seen[f] {
			nodes = nodes[:len(nodes)-1]
			continue
		}
		seen[f] = true
	}
	add := func(h interface{}, m uint64, parent int32, s Step) {
		f := md5.Sum([]byte(fp.Of(h)))
		if seen[f] {
			return
		}
		if len(nodes) >= mode.MaxStates {
			c.Cap(fmt.Sprintf("state limit %d of %s", mode.MaxStates, r.U.Name))
			return
		}
		seen[f] = true
		nodes = append(nodes, node{h: h, m: m, parent: parent, s: s, depth: nodes[parent].depth + 1})
	}
	for i := int32(0); int(i) < len(nodes); i++ {
		if c.Stop() {
			break
		}
		cur = i
		h, mask := nodes[i].h, nodes[i].m
		root := i
		for nodes[root].parent >= 0 {
			root = nodes[root].parent
		}
		if d := int64(nodes[i].depth); d > c.R.MaxDepth {
			c.R.MaxDepth = d
		}
		var before *Snap
		if mode.Persist {
			curStep = ""
			c.Mark()
			before = r.TakeSnap(h, true)
		}
		src := model(mask)
		if mode.Hook != nil {
			curStep = ""
			c.Mark()
			mode.Hook(r, h, src, func() interface{} { return rebuild(i) }, trace)
		}
		do := func(s Step, store, observe bool) {
			curStep = r.StepStr(s)
			c.Mark()
			m := *src
			inpl := s.Kind == KIns && r.I.Ins[s.Op].Inplace
			hh := h
			if inpl {
				hh = rebuild(i)
			}
			nh, ok, want := r.Do(hh, &m, s)
			c.R.Trans++
			if s.Kind == KDel && mode.CheckDel && ok != want {
				r.fail("delflag", "%s returned %v, expected %v; stored: %s", curStep, ok, want, r.Stored(src))
			}
			if observe {
				r.Obs(nh, &m, "after the last step")
			}
			if mode.After != nil {
				mode.After(nh, &m)
			}
			if inpl && mode.SameAsCow {
				// The copying twin: same name without Inplace, same form.
				tw := r.twin(int(s.Op))
				if tw >= 0 {
					s2 := s
					s2.Op = uint8(tw)
					ch, _, _ := r.Do(h, nil, s2)
					a, b := r.TakeSnap(nh, false), r.TakeSnap(ch, false)
					if d := r.Diff(a, b); d != "" {
						r.fail("inplace", "in-place insertion differs from %s: %s", r.StepStr(s2), d)
					}
				}
			}
			if mode.Persist && !inpl {
				after := r.TakeSnap(h, true)
				if d := r.Diff(before, after); d != "" {
					r.fail("persist", "the tree the last step was called on has changed: %s", d)
				}
			}
			if store {
				add(nh, m.M, i, s)
			}
		}
		for oi := range r.I.Ins {
			o := &r.I.Ins[oi]
			if o.Inplace && (!mode.Inplace || (!r.I.NilOK && r.I.IsNil != nil && r.I.IsNil(r.I.New[nodes[root].root].Fn()))) {
				continue
			}
			for k, key := range r.U.Keys {
				if !key.Store {
					continue
				}
				n := len(key.Sp[o.Form])
				if n == 0 {
					continue
				}
				if key.Bad || r.AllSp {
					for s := 0; s < n; s++ {
						do(Step{KIns, uint8(oi), uint8(k), uint8(s), r.Base(k)}, key.Bad || s == 0 && (!o.Inplace || !mode.NoMix), mode.CheckIns || (o.Inplace && mode.Inplace))
						if key.Bad || mask>>uint(k)&1 == 0 {
							continue
						}
						do(Step{KIns, uint8(oi), uint8(k), uint8(s), r.Alt(k)}, false, mode.CheckIns || (o.Inplace && mode.Inplace))
					}
					continue
				}
				present := mask>>uint(k)&1 != 0
				do(Step{KIns, uint8(oi), uint8(k), 0, r.Base(k)}, !o.Inplace || !mode.NoMix, mode.CheckIns || (o.Inplace && mode.Inplace))
				if present || n > 1 {
					r.sp++
					do(Step{KIns, uint8(oi), uint8(k), uint8(r.sp % n), r.Alt(k)}, false, mode.CheckIns || (o.Inplace && mode.Inplace))
				}
			}
		}
		for oi := range r.I.Dels {
			o := &r.I.Dels[oi]
			for k, key := range r.U.Keys {
				if !key.Del {
					continue
				}
				n := len(key.Sp[o.Form])
				if n == 0 {
					continue
				}
				if key.Bad || r.AllSp {
					for s := 0; s < n; s++ {
						do(Step{KDel, uint8(oi), uint8(k), uint8(s), 0}, true, mode.CheckDel || mode.CheckRes)
					}
					continue
				}
				r.sp++
				do(Step{KDel, uint8(oi), uint8(k), uint8(r.sp % n), 0}, true, mode.CheckDel || mode.CheckRes)
			}
		}
	}
	if mode.Sweep {
		curStep = "(state re-read after the whole exploration)"
		for i := range nodes {
			cur = int32(i)
			c.Mark()
			r.Obs(nodes[i].h, model(nodes[i].m), "old version")
			if i&1023 == 0 && c.Stop() {
				break
			}
		}
	}
	c.R.States += int64(len(nodes))
	c.R.Traces += c.R.Trans - trans0
	c.Outcome(fmt.Sprintf("%s/%s states=%d", r.I.Name, r.U.Name, len(nodes)))
	if len(nodes) > 1 && c.NSamples() < 2 {
		cur = int32(len(nodes) - 1)
		curStep = ""
		c.Sample(strings.Join(trace(), "; "))
	}
	c.At(nil2)
}

func nil2() []string { return nil }

func (r *Run) twin(op int) int {
	o := &r.I.Ins[op]
	for i := range r.I.Ins {
		t := &r.I.Ins[i]
		if !t.Inplace && t.Form == o.Form && strings.Replace(o.Name, "Inplace", "", 1) == t.Name {
			return i
		}
	}
	return -1
}

// typeName is used in diagnostics.
func typeName(x interface{}) string { return reflect.TypeOf(x).String() }

package checks

import (
	"errors"
	"fmt"
	"math"
	"reflect"
	"strings"

	"vh/core"
	"vh/eng"

	"github.com/infobloxopen/go-trees/domain"
)

// texts enumerates texts and passes each to f.
type textSet struct {
	name string
	jobs int
	gen  func(t core.Tier, shard, shards int, f func(s string))
}

var small8 = []byte(`aZ.\0256`)

func words(alpha []byte, max int, shard, shards int, f func(s string)) {
	buf := make([]byte, max)
	n := 0
	var rec func(l, to int)
	rec = func(l, to int) {
		if l == to {
			n++
			if n%shards == shard {
				f(string(buf[:l]))
			}
			return
		}
		for _, c := range alpha {
			buf[l] = c
			rec(l+1, to)
		}
	}
	for l := 0; l <= max; l++ {
		rec(0, l)
	}
}

func allBytes() []byte {
	b := make([]byte, 256)
	for i := range b {
		b[i] = byte(i)
	}
	return b
}

// unit texts which decode to one byte.
var units = []string{"a", "Q", "7", "\\.", "\\x", "\\097", "\\000", "\\255", "\xff", " ", "\xc3\xa9"}

func baseNames() []string {
	l63 := rep("a", 63)
	e63 := rep("\\097", 63)
	m63 := rep("a\\.\\255", 21)
	var out []string
	out = append(out,
		l63, e63, m63, rep("a", 62), rep("a", 64), rep("\\A", 63), rep("\\A", 64), rep("\\200", 64),
		strings.Join([]string{l63, l63, l63, rep("b", 61)}, "."), // 255
		strings.Join([]string{rep("b", 61), l63, l63, l63}, "."),
		strings.Join([]string{rep("b", 62), l63, l63, l63}, "."), // 256
		strings.Join([]string{e63, l63, m63, rep("b", 61)}, "."),
		strings.Join([]string{rep("b", 60), l63, l63, l63}, "."), // 254
		strings.Join([]string{l63, l63, l63, l63}, "."),
		strings.Join(labelsOf(127, "x"), "."),
		strings.Join(labelsOf(126, "x"), "."),
		strings.Join(labelsOf(128, "x"), "."),
		strings.Join(labelsOf(127, "\\120"), "."),
		strings.Join(append(labelsOf(126, "x"), "xx"), "."),
		strings.Join(append([]string{"xx"}, labelsOf(126, "x")...), "."),
		strings.Join(append(labelsOf(125, "x"), "xxx"), "."),
		strings.Join(append(labelsOf(125, "x"), "xxxx"), "."),
		"www.example.com", "a.b", "a", "",
	)
	return out
}

var textSets = []textSet{
	{"words of 8 symbols", 8, func(t core.Tier, s, n int, f func(string)) {
		words(small8, pick(t, 7, 9), s, n, f)
	}},
	{"words of all bytes", 8, func(t core.Tier, s, n int, f func(string)) {
		words(allBytes(), pick(t, 2, 3), s, n, f)
	}},
	{"numeric escapes", 1, func(t core.Tier, s, n int, f func(string)) {
		for _, pre := range []string{"", "a", "a.", "\\.", rep("x", 62), rep("x", 63), strings.Join(labelsOf(126, "a"), ".") + "."} {
			for _, post := range []string{"", ".", "0", "b", ".b", "\\", "\\1", ".."} {
				for i := 0; i < 1000; i++ {
					f(fmt.Sprintf("%s\\%03d%s", pre, i, post))
				}
				for i := 0; i < 100; i++ {
					f(fmt.Sprintf("%s\\%02d%s", pre, i, post))
					f(fmt.Sprintf("%s\\%d%s", pre, i%10, post))
				}
				// digits mixed with other characters
				for _, x := range []byte("09:/25 a.") {
					for _, y := range []byte("09:/25 a.") {
						for _, z := range []byte("09:/25 a.") {
							f(pre + "\\" + string([]byte{x, y, z}) + post)
						}
					}
				}
			}
		}
	}},
	{"lengths", 8, func(t core.Tier, s, n int, f func(string)) {
		i := 0
		g := func(x string) {
			i++
			if i%n == s {
				f(x)
			}
		}
		// one label of every length by every unit
		for _, u := range units {
			for l := 0; l <= 260; l++ {
				for _, tail := range []string{"", ".", ".b", "..", "\\", "\\4", "A"} {
					g(rep(u, l) + tail)
					g("b." + rep(u, l) + tail)
				}
			}
		}
		// four and five labels near the limit of 255
		ls := []int{1, 2, 61, 62, 63, 64}
		for _, u := range []string{"a", "\\097", "\\A"} {
			for _, a := range ls {
				for _, b := range ls {
					for _, c := range ls {
						for _, d := range ls {
							x := rep(u, a) + "." + rep("b", b) + "." + rep(u, c) + "." + rep("D", d)
							g(x)
							g(x + ".")
							for _, e := range []int{1, 2, 61, 62} {
								g(x + "." + rep("e", e))
							}
						}
					}
				}
			}
		}
		// total lengths around 255 made of equal labels with a rest
		for size := 1; size <= 63; size++ {
			for total := 248; total <= 262; total++ {
				var l []string
				left := total
				for left >= size+1 {
					l = append(l, rep("a", size))
					left -= size + 1
				}
				if left > 1 {
					l = append(l, rep("z", left-1))
				}
				x := strings.Join(l, ".")
				g(x)
				g(x + ".")
				for a, b := 0, len(l)-1; a < b; a, b = a+1, b-1 {
					l[a], l[b] = l[b], l[a]
				}
				g(strings.Join(l, "."))
			}
		}
		// numbers of labels
		for k := 120; k <= 132; k++ {
			for _, w := range []string{"a", "\\065", "ab"} {
				x := strings.Join(labelsOf(k, w), ".")
				for _, y := range []string{x, x + ".", x + "..", "." + x, x + ".bb", "bb." + x, x + "\\", x + "\\."} {
					g(y)
				}
			}
		}
		// long garbage
		for _, u := range []string{".", "\\", "a.", "..", "\\.", "\\\\", "a", "\\0", "\xff"} {
			for _, l := range []int{64, 65, 126, 127, 128, 129, 254, 255, 256, 257, 1000, 70000} {
				g(rep(u, l))
			}
		}
	}},
	{"edits of limit names", 8, func(t core.Tier, s, n int, f func(string)) {
		i := 0
		subst := []string{".", "\\", "..", "\\.", "\\0", "\\255", "\\256", "\\a", "", "aa", "\\046", "9", "\x00"}
		for _, b := range baseNames() {
			for p := 0; p <= len(b); p++ {
				i++
				if i%n != s {
					continue
				}
				for _, x := range subst {
					f(b[:p] + x + b[p:])
					if p < len(b) {
						f(b[:p] + x + b[p+1:])
					}
				}
				if p < len(b) {
					for c := 0; c < 256; c++ {
						f(b[:p] + string([]byte{byte(c)}) + b[p+1:])
					}
				}
				if t == core.Thorough && len(b) < 300 {
					for q := p; q < len(b); q++ {
						for _, x := range subst[:8] {
							for _, y := range subst[:8] {
								f(b[:p] + x + b[p:q] + y + b[q:])
							}
						}
					}
				}
			}
		}
	}},
}

func textJobs(check func(c *core.Ctx, s string)) func(t core.Tier) []core.Job {
	return func(t core.Tier) []core.Job {
		var js []core.Job
		for _, ts := range textSets {
			for sh := 0; sh < ts.jobs; sh++ {
				ts, sh := ts, sh
				js = append(js, core.Job{Name: fmt.Sprintf("%s/%d", ts.name, sh), Run: func(c *core.Ctx) {
					cur := ""
					c.At(func() []string { return []string{fmt.Sprintf("%q", cur)} })
					n := 0
					ts.gen(c.Tier, sh, ts.jobs, func(s string) {
						if c.Stop() {
							return
						}
						cur = s
						if c.R.Trans&255 == 0 || len(s) < 8 {
							c.Mark()
						}
						c.R.Trans++
						c.R.States++
						c.R.Traces++
						check(c, s)
						n++
						if n == 50 || n == 5000 {
							c.Sample(fmt.Sprintf("%q", cur))
						}
					})
				}})
			}
		}
		return js
	}
}

func textOf(labels []string) string { return fmt.Sprintf("%q", labels) }

func checkParse(c *core.Ctx, s string) {
	n, err := domain.MakeNameFromString(s)
	labels, f := eng.ParseName(s)
	c.R.Evals++
	if f.Any() {
		if err == nil {
			c.Fail("accept", "%q is accepted, it has: %s", s, f)
			return
		}
		if !f.Match(err) {
			c.Fail("error", "%q is rejected as %q, it has: %s", s, err, f)
		}
		c.Outcome("rejected: " + f.String())
		return
	}
	if err != nil {
		c.Fail("reject", "%q is rejected as %q, it has labels %s", s, err, textOf(labels))
		return
	}
	if n.String() != s {
		c.Fail("string", "String() = %q", n.String())
	}
	i := len(labels) - 1
	n.GetLabels(func(l string) error {
		if i < 0 || l != labels[i] {
			c.Fail("labels", "label %d of %q is %q, expected labels %s", i, s, l, textOf(labels))
		}
		i--
		return nil
	})
	if i >= 0 {
		c.Fail("labels", "%q has no labels %s", s, textOf(labels[:i+1]))
	}
	c.Outcome("accepted")
}

func checkMakeLabel(c *core.Ctx, s string) {
	l, f, inner := eng.ParseLabel(s)
	if inner {
		return
	}
	g, err := domain.MakeLabel(s)
	c.R.Evals++
	if f.Any() {
		if err == nil {
			c.Fail("accept", "MakeLabel(%q) = %q, it has: %s", s, g, f)
			return
		}
		if !f.Match(err) {
			c.Fail("error", "MakeLabel(%q) fails with %q, it has: %s", s, err, f)
		}
		c.Outcome("rejected: " + f.String())
		return
	}
	if err != nil || g != l {
		c.Fail("label", "MakeLabel(%q) = %q, %v; expected %q", s, g, err, l)
	}
	c.Outcome("accepted")
}

func upper(s string) string {
	b := []byte(s)
	for i, c := range b {
		if c >= 'a' && c <= 'z' {
			b[i] = c - 32
		}
	}
	return string(b)
}

// checkRender checks rendering of any byte string.
func checkRender(c *core.Ctx, l string) {
	h := domain.MakeHumanReadableLabel(l)
	c.R.Evals++
	want := ""
	n := 0
	for i := 0; i < len(l); i++ {
		u := eng.HumanLabel(l[i : i+1])
		if len(want)+len(u) > 252 {
			break
		}
		want += u
		n++
	}
	if len(l) > 63 {
		if h != want {
			c.Fail("render", "MakeHumanReadableLabel(%q) = %q, expected %q (the longest prefix that fits)", l, h, want)
		}
		c.Outcome("long input")
		return
	}
	for i := 0; i < len(h); i++ {
		if h[i] < '!' || h[i] > '~' || h[i] >= 'A' && h[i] <= 'Z' {
			c.Fail("render", "MakeHumanReadableLabel(%q) = %q", l, h)
			return
		}
	}
	g, f, inner := eng.ParseLabel(h)
	if f.Any() || inner || g != upper(l) || strings.HasSuffix(h, ".") && !strings.HasSuffix(h, "\\.") {
		c.Fail("render", "MakeHumanReadableLabel(%q) = %q which reads as %q (%s)", l, h, g, f)
	}
	back, err := domain.MakeLabel(h)
	if err != nil || back != upper(l) {
		c.Fail("roundtrip", "MakeLabel(MakeHumanReadableLabel(%q)) = %q, %v; expected %q", l, back, err, upper(l))
	}
	c.Outcome("label")
}

var renderSets = []textSet{
	{"labels of all bytes", 8, func(t core.Tier, s, n int, f func(string)) { words(allBytes(), pick(t, 2, 3), s, n, f) }},
	{"labels of 6 symbols", 4, func(t core.Tier, s, n int, f func(string)) {
		words([]byte("aZ.\\\x009"), pick(t, 6, 9), s, n, f)
	}},
	{"long labels", 8, func(t core.Tier, s, n int, f func(string)) {
		i := 0
		g := func(x string) {
			i++
			if i%n == s {
				f(x)
			}
		}
		for b := 0; b < 256; b++ {
			for l := 0; l <= 300; l++ {
				g(rep(string([]byte{byte(b)}), l))
			}
		}
		bases := []string{rep("a", 63), rep("\xff", 63), rep(".", 63), rep("Q", 62), rep("\x00.", 31)}
		for _, b := range bases {
			for p := 0; p < len(b); p++ {
				for c := 0; c < 256; c++ {
					g(b[:p] + string([]byte{byte(c)}) + b[p+1:])
				}
			}
		}
		// around the limit of the rendering
		for pre := 236; pre <= 253; pre++ {
			words([]byte("aZ.\x01"), pick(t, 6, 9), 0, 1, func(x string) { g(rep("x", pre) + x) })
		}
		for pre := 58; pre <= 64; pre++ {
			words([]byte("aZ.\x01"), pick(t, 6, 9), 0, 1, func(x string) { g(rep("\xfe", pre) + x) })
		}
		for pre := 120; pre <= 127; pre++ {
			words([]byte("aZ.\x01"), pick(t, 6, 9), 0, 1, func(x string) { g(rep("\\", pre) + x) })
		}
		for _, l := range []int{1000, 4096, 65536, 1 << 20} {
			for _, u := range []string{"a", ".", "\x00", "A"} {
				g(rep(u, l))
			}
		}
	}},
}

var errStop = errors.New("stop")

type myString string
type myName domain.Name

func checkWalk(c *core.Ctx, s string) {
	labels, f := eng.ParseName(s)
	n, err := domain.MakeNameFromString(s)
	if f.Any() {
		// reflection panics
		if err != nil && len(s) < 300 {
			if !panics(func() { domain.MakeNameFromReflection(reflect.ValueOf(s)) }) {
				c.Fail("reflection", "MakeNameFromReflection accepts invalid name %q", s)
			}
		}
		return
	}
	if err != nil {
		// C13 reports it
		return
	}
	c.R.Evals++
	k := len(labels)
	for stop := 0; stop <= k; stop++ {
		if k > 6 && stop > 2 && stop < k-1 {
			continue
		}
		i := 0
		err := n.GetLabels(func(l string) error {
			if i >= k || l != labels[k-1-i] {
				c.Fail("labels", "label %d of %q passed by GetLabels is %q, labels are %s", i, s, l, textOf(labels))
			}
			i++
			if i == stop+1 {
				return errStop
			}
			if i > stop+1 {
				c.Fail("labels", "GetLabels calls again after an error")
			}
			return nil
		})
		if stop < k && (err != errStop || i != stop+1) || stop == k && (err != nil || i != k) {
			c.Fail("labels", "GetLabels of %q returns %v after %d calls, the callback fails at %d of %d", s, err, i, stop, k)
		}
	}
	off := 0
	for i := 0; i < k; i++ {
		l, next := n.GetLabel(off)
		if l != labels[k-1-i] {
			c.Fail("labels", "GetLabel(%d) of %q is %q, expected %q", off, s, l, labels[k-1-i])
		}
		if i == k-1 {
			if next != 0 {
				c.Fail("labels", "GetLabel(%d) of the last label of %q returns offset %d", off, s, next)
			}
		} else if next <= off {
			c.Fail("labels", "GetLabel(%d) of %q returns offset %d", off, s, next)
		}
		off = next
	}
	if k == 0 {
		if l, next := n.GetLabel(0); l != "" || next != 0 {
			c.Fail("labels", "GetLabel(0) of the root is %q, %d", l, next)
		}
	}
	total := 0
	for _, l := range labels {
		total += len(l) + 1
	}
	bad := []int{-1, -2, -64, math.MinInt64, math.MinInt32, total, total + 1, total + 63, 255, 256, math.MaxInt64, math.MaxInt32}
	for _, o := range bad {
		if o >= 0 && (o < total || o == 0) {
			continue
		}
		if l, next := n.GetLabel(o); next != -1 || l != "" {
			c.Fail("offset", "GetLabel(%d) of %q is %q, %d", o, s, l, next)
		}
	}
	for o := 0; o < total && (total < 40 || c.R.Trans&15 == 0); o++ {
		n.GetLabel(o) // must not panic
	}
	if c.R.Trans&7 == 0 || len(s) < 5 || len(s) > 20 {
		iface := interface{}(n)
		for i, v := range []reflect.Value{reflect.ValueOf(n), reflect.ValueOf(&n), reflect.ValueOf(s), reflect.ValueOf(struct{ n domain.Name }{n}).Field(0), reflect.ValueOf(&n).Elem(), reflect.ValueOf(&iface).Elem().Elem(), reflect.ValueOf([]domain.Name{n}).Index(0)} {
			if m := domain.MakeNameFromReflection(v); m != n {
				c.Fail("reflection", "MakeNameFromReflection (source %d) of %q gives %q", i, s, m)
			}
		}
	}
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func reflectionJob(c *core.Ctx) {
	cur := ""
	c.At(func() []string { return []string{cur} })
	n, _ := domain.MakeNameFromString("a.b")
	pn := &n
	var nilName *domain.Name
	var any interface{} = n
	for _, x := range []struct {
		name string
		v    func() reflect.Value
	}{
		{"int", func() reflect.Value { return reflect.ValueOf(1) }},
		{"bytes", func() reflect.Value { return reflect.ValueOf([]byte("a")) }},
		{"nil *Name", func() reflect.Value { return reflect.ValueOf(nilName) }},
		{"**Name", func() reflect.Value { return reflect.ValueOf(&pn) }},
		{"zero Value", func() reflect.Value { return reflect.Value{} }},
		{"string type", func() reflect.Value { return reflect.ValueOf(myString("a")) }},
		{"Name type", func() reflect.Value { return reflect.ValueOf(myName(n)) }},
		{"similar struct", func() reflect.Value { return reflect.ValueOf(struct{ h, c string }{"a", "\x01A"}) }},
		{"slice of names", func() reflect.Value { return reflect.ValueOf([]domain.Name{n}) }},
		{"func", func() reflect.Value { return reflect.ValueOf(func() {}) }},
		{"map", func() reflect.Value { return reflect.ValueOf(map[string]string{}) }},
		{"*int", func() reflect.Value { return reflect.ValueOf(new(int)) }},
		{"error", func() reflect.Value { return reflect.ValueOf(errStop) }},
		{"bool", func() reflect.Value { return reflect.ValueOf(true) }},
		{"pointer to interface", func() reflect.Value { return reflect.ValueOf(&any) }},
	} {
		cur = x.name
		v := x.v()
		if !panics(func() { domain.MakeNameFromReflection(v) }) {
			c.Fail("reflection", "MakeNameFromReflection accepts %s", x.name)
		}
		c.R.Evals++
		c.R.Trans++
	}
	c.R.States++
	c.R.Traces++
	c.Outcome("other types panic")
}

func init() {
	rule := "exhaustive enumeration of texts: all words of up to 7 (9) symbols over {a Z . \\ 0 2 5 6}, all byte strings of up to 2 (3) bytes, all numeric escapes 000-999 in contexts, all label lengths up to 260 in several spellings, label length combinations and label counts around the limits 63, 127 and 255, every single edit of 24 names at the limits (thorough: also pairs of edits); "
	register(&core.Check{
		ID: "C13", Level: "model_checking",
		Rule:        rule + "each text is parsed by the code and by an independent parser written from the documented rules",
		Assumptions: commonAssumptions,
		Jobs:        textJobs(checkParse),
	})
	register(&core.Check{
		ID: "C14", Level: "model_checking",
		Rule:        rule + "MakeLabel against an independent parser; all labels of up to 2 (3) bytes, words over 6 symbols, 256 single edits at every position of 63-byte labels, inputs around the 252 byte limit of the rendering: rendered, read back, compared with the longest fitting prefix",
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			js := textJobs(checkMakeLabel)(t)
			for _, ts := range renderSets {
				for sh := 0; sh < ts.jobs; sh++ {
					ts, sh := ts, sh
					js = append(js, core.Job{Name: fmt.Sprintf("render %s/%d", ts.name, sh), Run: func(c *core.Ctx) {
						cur := ""
						c.At(func() []string { return []string{fmt.Sprintf("%q", cur)} })
						ts.gen(c.Tier, sh, ts.jobs, func(s string) {
							if c.Stop() {
								return
							}
							cur = s
							c.Mark()
							c.R.Trans++
							c.R.States++
							c.R.Traces++
							checkRender(c, s)
						})
					}})
				}
			}
			return js
		},
	})
	register(&core.Check{
		ID: "C15", Level: "model_checking",
		Rule:        rule + "for each valid name GetLabels with callbacks failing at every label, the GetLabel chain, offsets outside, and all ways of construction by reflection are compared with the reference labels; invalid texts and other types must panic in reflection",
		Assumptions: commonAssumptions,
		Jobs: func(t core.Tier) []core.Job {
			return append(textJobs(checkWalk)(t), core.Job{Name: "reflection of other types", Run: reflectionJob})
		},
	})
}

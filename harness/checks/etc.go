package checks

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"syscall"
	"text/template"
	"time"

	"vh/core"
)

// entry is a file or a directory of a catalogue.
type entry struct {
	name    string
	dir     bool
	content string
	sub     []entry
}

func (e entry) String() string {
	if !e.dir {
		return fmt.Sprintf("%q:%q", e.name, e.content)
	}
	var l []string
	for _, s := range e.sub {
		l = append(l, s.String())
	}
	return fmt.Sprintf("%q{%s}", e.name, strings.Join(l, ", "))
}

type ymap = map[interface{}]interface{}

// etcDoc is a data file with what it means.
type etcDoc struct {
	name string
	text string
	doc  ymap
}

var etcDocs = []etcDoc{
	{"block", "a: 1x\nb: two\nnum: 42\nt: true\nl:\n- p\n- q\nm:\n  k: deep\n  o:\n    a: lower\n    b: under\n    num: 7\n    t: false\n    l: []\n    m: {k: kk}\nz: ~\n",
		ymap{"a": "1x", "b": "two", "num": 42, "t": true, "l": []interface{}{"p", "q"}, "z": nil, "m": ymap{"k": "deep", "o": ymap{"a": "lower", "b": "under", "num": 7, "t": false, "l": []interface{}{}, "m": ymap{"k": "kk"}}}}},
	{"flow", `{a: A, b: "b b", num: 0, t: false, l: [1, 2, 3], m: {k: "{{.a}}", o: {a: other, b: "{{.b}}", num: -1, t: true, l: [x], m: {k: v}}}, z: zz}` + "\n",
		ymap{"a": "A", "b": "b b", "num": 0, "t": false, "l": []interface{}{1, 2, 3}, "z": "zz", "m": ymap{"k": "{{.a}}", "o": ymap{"a": "other", "b": "{{.b}}", "num": -1, "t": true, "l": []interface{}{"x"}, "m": ymap{"k": "v"}}}}},
	{"sparse", "# nothing but two\na: only\nm:\n  o:\n    b: x\n",
		ymap{"a": "only", "m": ymap{"o": ymap{"b": "x"}}}},
	{"escaped", "a: \"q\\\"uo<te&\"\nb: '{{'\nnum: 1.5\nt: \"yes\"\nl: [{k: 1}, {k: 2}]\nm: {k: \"\", o: {a: é, b: \"-\", num: 10, t: x, l: [~], m: {k: 0}}}\nz: 0\n",
		ymap{"a": "q\"uo<te&", "b": "{{", "num": 1.5, "t": "yes", "l": []interface{}{ymap{"k": 1}, ymap{"k": 2}}, "z": 0, "m": ymap{"k": "", "o": ymap{"a": "é", "b": "-", "num": 10, "t": "x", "l": []interface{}{nil}, "m": ymap{"k": 0}}}}},
}

var etcSelectors = []string{"", "m.o", "m.o.m", "m", "a", "l", "num"}

func pickData(d ymap, sel string) (interface{}, bool) {
	if sel == "" {
		return d, true
	}
	var cur interface{} = d
	for _, p := range strings.Split(sel, ".") {
		m, ok := cur.(ymap)
		if !ok {
			return nil, false
		}
		if cur, ok = m[p]; !ok {
			return nil, false
		}
	}
	return cur, true
}

func expand(s string, data interface{}) (string, error) {
	t, err := template.New("x").Parse(s)
	if err != nil {
		return "", err
	}
	var b bytes.Buffer
	err = t.Execute(&b, data)
	return b.String(), err
}

var errSkip = errors.New("not a case")

// expected adds what must be created for the entry at dir (as it is in the instance) to
// the files. It refuses cases in which the outcome isn't defined.
func expected(files map[string]string, dir string, e entry, data interface{}, root bool) error {
	n, err := expand(e.name, data)
	if err != nil || n == "" || n == "." || n == ".." || strings.ContainsAny(n, "/\x00") {
		return errSkip
	}
	if root && n == e.name {
		return errSkip
	}
	p := dir + "/" + n
	if _, ok := files["new:"+p]; ok {
		return errSkip
	}
	files["new:"+p] = ""
	if old, ok := files[p]; ok && (old == dirMark) != e.dir {
		return errSkip
	}
	if e.dir {
		files[p] = dirMark
		for _, s := range e.sub {
			if err := expected(files, p, s, data, false); err != nil {
				return err
			}
		}
		return nil
	}
	c, err := expand(e.content, data)
	if err != nil {
		return errSkip
	}
	files[p] = c
	return nil
}

const dirMark = "\x00directory"

func snapshot(root string) (map[string]string, error) {
	m := map[string]string{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel := strings.TrimPrefix(p, root)
		switch {
		case fi.IsDir():
			m[rel] = dirMark
		case fi.Mode().IsRegular():
			b, err := os.ReadFile(p)
			if err != nil {
				return err
			}
			m[rel] = string(b)
		default:
			m[rel] = "\x00" + fi.Mode().String()
		}
		return nil
	})
	return m, err
}

func diffFiles(got, want map[string]string) string {
	var l []string
	for p, w := range want {
		if strings.HasPrefix(p, "new:") {
			continue
		}
		g, ok := got[p]
		switch {
		case !ok:
			l = append(l, fmt.Sprintf("%q is missing", p))
		case g != w:
			l = append(l, fmt.Sprintf("%q is %q instead of %q", p, g, w))
		}
	}
	for p, g := range got {
		if _, ok := want[p]; !ok {
			l = append(l, fmt.Sprintf("%q (%q) is not expected", p, g))
		}
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

// etcRun is a place where etc is run by a user that owns nothing else.
type etcRun struct {
	c    *core.Ctx
	exe  string
	root string
	uid  int
	n    int
}

func newEtcRun(c *core.Ctx) *etcRun {
	base := os.Getenv("VC_ETC_DIR")
	exe := os.Getenv("VC_ETC")
	if base == "" || exe == "" {
		panic("VC_ETC and VC_ETC_DIR must be set")
	}
	root, err := os.MkdirTemp(base, "run")
	if err != nil {
		panic(err)
	}
	e := &etcRun{c: c, exe: exe, root: root}
	os.Chmod(root, 0755)
	if os.Getuid() == 0 {
		e.uid = 65534
	}
	return e
}

func (e *etcRun) chown(p string) {
	if e.uid != 0 {
		os.Lchown(p, e.uid, e.uid)
	}
}

func (e *etcRun) write(dir string, x entry) {
	p := filepath.Join(dir, x.name)
	if !x.dir {
		if err := os.WriteFile(p, []byte(x.content), 0644); err != nil {
			panic(err)
		}
		e.chown(p)
		return
	}
	if err := os.MkdirAll(p, 0755); err != nil {
		panic(err)
	}
	e.chown(p)
	for _, s := range x.sub {
		e.write(p, s)
	}
}

// exec runs etc in dir.
func (e *etcRun) exec(dir string, args ...string) (ok bool, out string) {
	ctx, cancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, e.exe, args...)
	cmd.Dir = dir
	cmd.Env = []string{"PATH=/nonexistent", "HOME=" + dir, "TMPDIR=" + dir, "GOMAXPROCS=1"}
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if e.uid != 0 {
		cmd.SysProcAttr.Credential = &syscall.Credential{Uid: uint32(e.uid), Gid: uint32(e.uid)}
	}
	var b bytes.Buffer
	cmd.Stdout, cmd.Stderr = &b, &b
	err := cmd.Run()
	if _, isExit := err.(*exec.ExitError); err != nil && !isExit && ctx.Err() == nil {
		panic(fmt.Sprintf("can't run etc: %s", err))
	}
	if ctx.Err() != nil {
		return false, "timed out"
	}
	return err == nil, b.String()
}

// etcCase is one run of etc.
type etcCase struct {
	tmpl  entry
	pre   []entry // what is in the directory before
	data  string  // text of the data file
	doc   ymap
	noFil bool // there is no data file
	dirFi bool // the data file is a directory
	sel   string
	how   int  // way of writing the command
	fail  bool // must fail and change nothing
	noT   bool // without the template argument
}

const etcHows = 4

func (e *etcRun) run(k etcCase) {
	c := e.c
	e.n++
	work := filepath.Join(e.root, fmt.Sprintf("w%d", e.n))
	if err := os.Mkdir(work, 0755); err != nil {
		panic(err)
	}
	e.chown(work)
	defer os.RemoveAll(work)
	for _, x := range k.pre {
		e.write(work, x)
	}
	e.write(work, entry{name: "bystander", content: "{{.a}} stays\n"})
	e.write(work, entry{name: "by{{.a}}stander", dir: true, sub: []entry{{name: "x{{.b}}", content: "{{.a}}"}}})
	e.write(work, k.tmpl)
	if k.dirFi {
		e.write(work, entry{name: "data.yaml", dir: true})
	} else if !k.noFil {
		e.write(work, entry{name: "data.yaml", content: k.data})
	}
	before, err := snapshot(work)
	if err != nil {
		panic(err)
	}
	cwd := work
	t, d := k.tmpl.name, "data.yaml"
	var args []string
	switch k.how {
	case 0:
		args = []string{"-t", "./" + t, "-d", d, "-s", k.sel}
		if k.sel == "" {
			args = args[:4]
		}
	case 1:
		args = []string{"-s=" + k.sel, "-d=" + filepath.Join(work, d), "-t=" + filepath.Join(work, t)}
	case 2:
		cwd = filepath.Join(work, "elsewhere")
		os.Mkdir(cwd, 0755)
		e.chown(cwd)
		before["/elsewhere"] = dirMark
		args = []string{"--d", "../" + d, "--s", k.sel, "--t", "../" + t}
	case 3:
		args = []string{"-s", k.sel, "-t", "elsewhere/..//" + t, "-d", "./" + d}
		os.Mkdir(filepath.Join(work, "elsewhere"), 0755)
		before["/elsewhere"] = dirMark
		if k.tmpl.dir {
			args[3] = "./" + t + "/"
		}
	}
	if k.noT {
		args = []string{"-d", d, "-s", k.sel}
	}
	want := map[string]string{}
	for p, x := range before {
		want[p] = x
	}
	if !k.fail {
		data, ok := pickData(k.doc, k.sel)
		if !ok || expected(want, "", k.tmpl, data, true) != nil {
			return
		}
	}
	c.At(func() []string {
		return []string{"template " + k.tmpl.String(), fmt.Sprintf("data %q", k.data), "etc " + strings.Join(args, " ")}
	})
	c.Mark()
	ok, out := e.exec(cwd, args...)
	after, err := snapshot(work)
	if err != nil {
		panic(err)
	}
	if ok == k.fail {
		c.Fail("exit", "success is %v, output:\n%s", ok, out)
	}
	if df := diffFiles(after, want); df != "" {
		c.Fail("files", "%s; output:\n%s", df, out)
	}
	c.R.Evals++
	c.R.Traces++
	c.R.Trans++
	c.R.States++
	if c.NSamples() < 2 && e.n > 5 {
		c.Sample(fmt.Sprintf("etc %s with template %s", strings.Join(args, " "), k.tmpl))
	}
}

var etcContents = []string{
	"", "plain text, no newline", "{{.a}}\n", "x{{.b}}y{{.num}}", "{{range .l}}<{{.}}>{{end}}", "{{if .t}}yes{{else}}no{{end}}\n",
	"{{.m.k}}", "{{/* nothing */}}", "{{\"{{\"}}.a}}", "a  {{- .a -}}  b\n\n", "{{with .m}}{{.k}}{{end}}{{$x := .num}}{{$x}}", "{{.}}",
	"{{define \"d\"}}[{{.}}]{{end}}{{template \"d\" .a}}", "\xff\x00\r\n{{.missing}}", "{{len .l}} {{printf \"%q\" .a}} {{eq .a \"A\"}}",
}

var etcRoots = []string{"x{{.a}}", "{{.a}}", "{{.a}}-{{.b}}.t", "s p{{.num}}", "{{if .t}}T{{else}}F{{end}}", "c{{print 1}} d", "{{.m.k}}!", "r{{.}}", "{{len .l}}", "{{range .l}}{{.}}{{end}}_", "n{{.z}}"}

var etcNames = []string{"plain", "f{{.b}}", "{{.num}}.{{.a}}", ".h"}

// trees lists catalogues below a directory with exactly n entries, as lists of entries in
// strictly ascending order of (name, kind) numbers.
func etcForests(n, depth, minName int, content *int) [][]entry {
	if n == 0 {
		return [][]entry{nil}
	}
	var r [][]entry
	for ni := minName; ni < len(etcNames); ni++ {
		// a file
		for _, rest := range etcForests(n-1, depth, ni+1, content) {
			*content++
			r = append(r, append([]entry{{name: etcNames[ni], content: etcContents[*content%len(etcContents)]}}, rest...))
		}
		if depth > 0 {
			for k := 0; k < n; k++ {
				for _, sub := range etcForests(k, depth-1, 0, content) {
					for _, rest := range etcForests(n-1-k, depth, ni+1, content) {
						r = append(r, append([]entry{{name: etcNames[ni], dir: true, sub: sub}}, rest...))
					}
				}
			}
		}
	}
	return r
}

func etcJobs(t core.Tier) []core.Job {
	var js []core.Job
	// Single files: every name, content, document, selector.
	for di := range etcDocs {
		d := etcDocs[di]
		js = append(js, core.Job{Name: "files/" + d.name, Run: func(c *core.Ctx) {
			e := newEtcRun(c)
			i := 0
			for _, sel := range etcSelectors {
				for _, rn := range etcRoots {
					for _, ct := range etcContents {
						i++
						e.run(etcCase{tmpl: entry{name: rn, content: ct}, data: d.text, doc: d.doc, sel: sel, how: i % etcHows})
						if c.Stop() {
							return
						}
					}
				}
			}
			c.Outcome(fmt.Sprintf("%s: %d cases", c.Job, i))
		}})
	}
	// Directories: every shape up to a size.
	size := pick(t, 3, 4)
	for n := 0; n <= size; n++ {
		parts := 1
		if n >= 3 {
			parts = 8
		}
		for part := 0; part < parts; part++ {
			js = append(js, core.Job{Name: fmt.Sprintf("directories/%d entries/%d", n, part), Run: func(c *core.Ctx) {
				e := newEtcRun(c)
				ct := 0
				cases := 0
				for i, f := range etcForests(n, 3, 0, &ct) {
					if i%parts != part {
						continue
					}
					for di, d := range etcDocs {
						if n >= 3 && di != i%len(etcDocs) && di != 0 {
							continue
						}
						for si, sel := range etcSelectors[:3] {
							if n >= 3 && si != i/len(etcDocs)%3 && si != 0 {
								continue
							}
							cases++
							e.run(etcCase{tmpl: entry{name: etcRoots[(i+si)%4], dir: true, sub: f}, data: d.text, doc: d.doc, sel: sel, how: cases % etcHows})
							if c.Stop() {
								return
							}
						}
					}
				}
				c.Outcome(fmt.Sprintf("%s: %d cases", c.Job, cases))
			}})
		}
	}
	// Deep, wide and big templates.
	js = append(js, core.Job{Name: "deep", Run: func(c *core.Ctx) {
		e := newEtcRun(c)
		d := etcDocs[0]
		for depth := 1; depth <= pick(c.Tier, 12, 24); depth++ {
			x := entry{name: "leaf{{.a}}", content: "{{.a}}{{.b}}"}
			for i := 0; i < depth; i++ {
				x = entry{name: fmt.Sprintf("d%d{{.num}}", i), dir: true, sub: []entry{x, {name: fmt.Sprintf("f%d", i), content: "{{.a}}"}}}
			}
			for how := 0; how < etcHows; how++ {
				e.run(etcCase{tmpl: x, data: d.text, doc: d.doc, how: how})
			}
		}
		wide := entry{name: "w{{.a}}", dir: true}
		for i := 0; i < pick(c.Tier, 60, 300); i++ {
			wide.sub = append(wide.sub, entry{name: fmt.Sprintf("%d.{{.b}}", i), content: fmt.Sprintf("%d {{.a}}", i)})
		}
		e.run(etcCase{tmpl: wide, data: d.text, doc: d.doc})
		big := entry{name: "big{{.a}}", content: strings.Repeat("line {{.num}} {{.a}}\n", 5000)}
		e.run(etcCase{tmpl: big, data: d.text, doc: d.doc})
		c.Outcome("deep")
	}})
	// What is there already: instances are replaced, everything else stays.
	js = append(js, core.Job{Name: "existing", Run: func(c *core.Ctx) {
		e := newEtcRun(c)
		long := strings.Repeat("old content ", 100)
		for _, d := range etcDocs {
			for _, sel := range etcSelectors[:2] {
				data, _ := pickData(d.doc, sel)
				for _, rn := range etcRoots[:4] {
					for ci, ct := range etcContents {
						for _, old := range []string{"", "old", long} {
							n, err := expand(rn, data)
							if err != nil || n == "" || strings.Contains(n, "/") {
								continue
							}
							e.run(etcCase{tmpl: entry{name: rn, content: ct}, pre: []entry{{name: n, content: old}}, data: d.text, doc: d.doc, sel: sel, how: ci % etcHows})
							fn, err := expand("f{{.b}}", data)
							if err != nil || strings.Contains(fn, "/") {
								continue
							}
							tm := entry{name: rn, dir: true, sub: []entry{{name: "f{{.b}}", content: ct}, {name: "sub", dir: true, sub: []entry{{name: "g", content: ct}}}}}
							e.run(etcCase{tmpl: tm, pre: []entry{{name: n, dir: true, sub: []entry{{name: fn, content: old}, {name: "other", content: old}, {name: "sub", dir: true, sub: []entry{{name: "g", content: old}, {name: "h", content: old}}}}}},
								data: d.text, doc: d.doc, sel: sel, how: ci % etcHows})
							if c.Stop() {
								return
							}
						}
					}
				}
			}
		}
		c.Outcome("existing")
	}})
	// Faults.
	js = append(js, core.Job{Name: "faults", Run: func(c *core.Ctx) {
		e := newEtcRun(c)
		d := etcDocs[0]
		shapes := []entry{
			{name: "x{{.a}}", content: "{{.a}}"},
			{name: "x{{.a}}", dir: true, sub: []entry{{name: "f{{.b}}", content: "{{.a}}"}, {name: "d", dir: true}}},
			{name: "{{.a}}", dir: true},
		}
		inst := []entry{{name: "x1x", content: "kept"}, {name: "1x", content: "kept"}, {name: "x<no value>", content: "kept"}, {name: "x", content: "kept"}}
		n := 0
		do := func(k etcCase) {
			k.fail = true
			for how := 0; how < etcHows; how++ {
				k.how = how
				k.pre = nil
				e.run(k)
				k.pre = inst
				e.run(k)
				n++
			}
		}
		for _, s := range shapes {
			do(etcCase{tmpl: s, data: d.text, noT: true})
			do(etcCase{tmpl: s, noFil: true})
			do(etcCase{tmpl: s, dirFi: true})
			for _, bad := range []string{"a: [", "a: b: c\n", "a: {b\n", "\ta: 1\n", "a: 1\n b: 2\n", "{{.a}}: x", "a: \"open\n", "a: 'x\nb: 2\n", "}{", "a: *none\n", "a: 1\nb: [1, 2\nc: 3\n"} {
				do(etcCase{tmpl: s, data: bad})
				do(etcCase{tmpl: s, data: bad, sel: "a"})
			}
			for _, sel := range []string{"none", "m.none", "m.o.none", "a.b", "num.x", "l.0", "z.x", "m.k.x", "m.o.m.k.x", "A", "t.a.b", "none.a", "m.none.a"} {
				do(etcCase{tmpl: s, data: d.text, sel: sel})
			}
			for _, data := range []string{"a: 1x\na: [", d.text + "m: ["} {
				do(etcCase{tmpl: s, data: data})
			}
		}
		for _, name := range []string{"plain", "plain.go", ".hidden", "with space", "{a}", "}}", "{.a}"} {
			for _, x := range []entry{{name: name, content: "{{.a}}"}, {name: name, content: "static"}, {name: name, dir: true, sub: []entry{{name: "f{{.b}}", content: "{{.a}}"}}}, {name: name, dir: true}} {
				for _, sel := range etcSelectors[:3] {
					do(etcCase{tmpl: x, data: d.text, doc: d.doc, sel: sel})
				}
			}
		}
		c.Outcome(fmt.Sprintf("faults: %d", n))
	}})
	return js
}

// buildEtc builds etc of the repository at repo.
func buildEtc(repo, out string) error {
	cmd := exec.Command("go", "build", "-o", out, "./etc")
	cmd.Dir = repo
	b, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("can't build etc: %s\n%s", err, b)
	}
	return nil
}

func etcExec(p *core.Parent) (*core.Exec, error) {
	dir, err := os.MkdirTemp("", "vcetc")
	if err != nil {
		return nil, err
	}
	p.Cleanup(func() { os.RemoveAll(dir) })
	if err := os.Chmod(dir, 0755); err != nil {
		return nil, err
	}
	if strings.Contains(dir, "{{") {
		return nil, errors.New("the temporary directory looks like a template")
	}
	exe := filepath.Join(dir, "etc")
	if err := buildEtc(p.Repo, exe); err != nil {
		return nil, err
	}
	return &core.Exec{Exe: p.Exe, Env: []string{"VC_ETC=" + exe, "VC_ETC_DIR=" + dir}}, nil
}

func init() {
	register(&core.Check{
		ID: "C23", Level: "model_checking",
		Rule: "etc built from the working tree is run on all single-file templates over alphabets of names and contents, all directory templates up to a number of entries and depth, with all documents and selectors, " +
			"on all combinations with what exists before, and on all faults; the whole directory is compared before and after with a reference expansion",
		Assumptions: append([]string{"text/template defines what a template means", "names that expand to something with a path separator, to nothing or to the same name twice are not covered"}, commonAssumptions...),
		Jobs:        etcJobs,
		Select:      func(string) bool { return false },
		ExecFor:     func(p *core.Parent, job string) (*core.Exec, error) { return etcExec(p) },
		Custom: func(p *core.Parent) error {
			ex, err := etcExec(p)
			if err != nil {
				return err
			}
			p.RunJobs(namesOf(etcJobs(p.Tier), ""), *ex)
			return nil
		},
	})
}

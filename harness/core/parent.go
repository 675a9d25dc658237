package core

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Parent runs a whole check.
type Parent struct {
	Check   *Check
	Tier    Tier
	Seed    int64
	Verif   string // /verif
	Repo    string // /repo
	Scratch string // removed by the caller
	Exe     string

	budget time.Duration
	start  time.Time
	known  map[string]string // signature -> text

	mu    sync.Mutex
	sum   Summary
	clean []func()
}

// Cleanup registers what has to be done at the end.
func (p *Parent) Cleanup(f func()) { p.clean = append(p.clean, f) }

// Close does what was registered by Cleanup.
func (p *Parent) Close() {
	for _, f := range p.clean {
		f()
	}
	p.clean = nil
}

// Summary of a run.
type Summary struct {
	R          Result
	Jobs       int
	JobsDone   int
	Violations []Violation
	ViolJob    []string
	KnownHit   map[string]int64
	HarnessErr []string
	Extra      map[string]interface{}
	PerJob     []string
}

const (
	stallLimit = 60 * time.Second
	rssLimit   = 3300 << 20
)

// NewParent creates a runner.
func NewParent(ck *Check, tier Tier, verif, repo, scratch, exe string) *Parent {
	seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	p := &Parent{Check: ck, Tier: tier, Seed: seed, Verif: verif, Repo: repo, Scratch: scratch, Exe: exe, start: time.Now()}
	p.budget = 420 * time.Second
	if tier == Thorough {
		p.budget = 50 * time.Minute
	}
	if s := os.Getenv("VC_BUDGET"); s != "" {
		if d, err := time.ParseDuration(s); err == nil {
			p.budget = d
		}
	}
	p.known = map[string]string{}
	p.sum.KnownHit = map[string]int64{}
	p.sum.R.Outcomes = map[string]int64{}
	p.sum.Extra = map[string]interface{}{}
	p.loadKnown()
	return p
}

func (p *Parent) loadKnown() {
	f, err := os.Open(filepath.Join(p.Verif, "known_findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	s := bufio.NewScanner(f)
	for s.Scan() {
		l := s.Text()
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		fs := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(fs) == 3 && fs[0] == "property="+p.Check.ID && strings.HasPrefix(fs[1], "sig=") {
			p.known[strings.TrimPrefix(fs[1], "sig=")] = fs[2]
		}
	}
}

// Remaining time of the budget.
func (p *Parent) Remaining() time.Duration { return p.budget - time.Since(p.start) }

type childOut struct {
	res     *Result
	exit    string
	stderr  string
	hung    bool
	mem     bool
	journal string
}

func (p *Parent) child(exe, job string, eager bool, idx int, limit time.Duration, extraEnv []string) childOut {
	base := filepath.Join(p.Scratch, fmt.Sprintf("job%d-%d", idx, time.Now().UnixNano()))
	out, jr := base+".json", base+".jr"
	f, err := os.Create(jr)
	if err != nil {
		return childOut{exit: err.Error()}
	}
	f.Truncate(journalSize)
	defer os.Remove(jr)
	defer os.Remove(out)
	defer f.Close()
	known := make([]string, 0, len(p.known))
	for k := range p.known {
		known = append(known, k)
	}
	sort.Strings(known)
	args := []string{"job", p.Check.ID, p.Tier.String(), job, out, jr, strconv.FormatBool(eager), limit.String()}
	args = append(args, known...)
	cmd := exec.Command(exe, args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all")
	cmd.Env = append(cmd.Env, extraEnv...)
	var eb limitedBuf
	cmd.Stderr = &eb
	cmd.Stdout = &eb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	if err := cmd.Start(); err != nil {
		return childOut{exit: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var last uint64
	lastT := time.Now()
	var co childOut
	t := time.NewTicker(250 * time.Millisecond)
	defer t.Stop()
	var werr error
loop:
	for {
		select {
		case werr = <-done:
			break loop
		case <-t.C:
			var b [8]byte
			f.ReadAt(b[:], 0)
			v := binary.LittleEndian.Uint64(b[:])
			if v != last {
				last, lastT = v, time.Now()
			} else if time.Since(lastT) > stallLimit {
				co.hung = true
				cmd.Process.Signal(syscall.SIGQUIT)
				select {
				case werr = <-done:
				case <-time.After(5 * time.Second):
					cmd.Process.Kill()
					werr = <-done
				}
				break loop
			}
			if rss(cmd.Process.Pid) > rssLimit {
				co.mem = true
				cmd.Process.Kill()
				werr = <-done
				break loop
			}
		}
	}
	if werr != nil {
		co.exit = werr.Error()
	}
	co.stderr = eb.String()
	if b, err := os.ReadFile(out); err == nil {
		r := new(Result)
		if json.Unmarshal(b, r) == nil && r.Done {
			co.res = r
		}
	}
	if b, err := os.ReadFile(jr); err == nil && len(b) >= 16 {
		n := binary.LittleEndian.Uint64(b[8:])
		if n > 0 && int(n) <= len(b)-16 {
			co.journal = string(b[16 : 16+n])
		}
	}
	return co
}

func rss(pid int) int64 {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/statm", pid))
	if err != nil {
		return 0
	}
	fs := strings.Fields(string(b))
	if len(fs) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(fs[1], 10, 64)
	return n * int64(os.Getpagesize())
}

type limitedBuf struct {
	mu sync.Mutex
	b  []byte
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.b) < 1<<16 {
		l.b = append(l.b, p...)
	}
	return len(p), nil
}

func (l *limitedBuf) String() string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return string(l.b)
}

// Exec describes where jobs run.
type Exec struct {
	Exe    string
	Env    []string
	Prefix string
}

// RunJobs runs all given jobs in child processes.
func (p *Parent) RunJobs(names []string, ex Exec) {
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	failed := false
	for i, n := range names {
		sem <- struct{}{}
		p.mu.Lock()
		stop := failed
		p.mu.Unlock()
		if stop {
			<-sem
			break
		}
		wg.Add(1)
		go func(i int, n string) {
			defer wg.Done()
			defer func() { <-sem }()
			if p.runOne(n, i, ex) {
				p.mu.Lock()
				failed = true
				p.mu.Unlock()
			}
		}(i, n)
	}
	wg.Wait()
	p.mu.Lock()
	p.sum.Jobs += len(names)
	p.mu.Unlock()
}

func (p *Parent) runOne(name string, idx int, ex Exec) bool {
	rem := p.Remaining()
	if rem < 2*time.Second {
		p.mu.Lock()
		p.sum.R.Caps = append(p.sum.R.Caps, "job "+name+" not started: time budget of the check used up")
		p.mu.Unlock()
		return false
	}
	co := p.child(ex.Exe, name, false, idx, rem, ex.Env)
	if co.res != nil {
		return p.merge(ex.Prefix+name, co.res)
	}
	// Crash, hang or memory explosion: classify by running again with a journal.
	kind := "crash"
	if co.hung {
		kind = "hang"
	} else if co.mem {
		kind = "memory"
	}
	first := co
	for try := 0; try < 3; try++ {
		co = p.child(ex.Exe, name, try == 0 || co.journal != "", idx, 10*time.Minute, ex.Env)
		if co.res != nil {
			continue
		}
		break
	}
	if co.res != nil {
		p.mu.Lock()
		p.sum.R.Notes = append(p.sum.R.Notes, fmt.Sprintf("job %s: %s was not reproducible", name, kind))
		p.mu.Unlock()
		return p.merge(ex.Prefix+name, co.res)
	}
	if co.hung {
		kind = "hang"
	} else if co.mem {
		kind = "memory"
	}
	se := co.stderr
	if !strings.Contains(se, repoPkg) && !strings.Contains(first.stderr, repoPkg) &&
		!strings.Contains(se, "all goroutines are asleep") && kind == "crash" {
		p.mu.Lock()
		p.sum.HarnessErr = append(p.sum.HarnessErr, fmt.Sprintf("job %s: child failed (%s): %s", name, co.exit, head(se, 2000)))
		p.mu.Unlock()
		return true
	}
	v := Violation{Sig: kind, Kind: kind, Msg: fmt.Sprintf("%s of the code under test (%s)", kind, firstLine(se))}
	if co.journal != "" {
		v.Trace = strings.Split(co.journal, "\n")
	}
	for _, l := range strings.Split(head(se, 6000), "\n") {
		v.Trace = append(v.Trace, "stderr: "+l)
	}
	r := &Result{Job: name, Violations: []Violation{v}}
	return p.merge(ex.Prefix+name, r)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

// Merge adds a result computed in the parent.
func (p *Parent) Merge(r *Result) bool { return p.merge(r.Job, r) }

func (p *Parent) merge(name string, r *Result) bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	s := &p.sum.R
	s.States += r.States
	s.Trans += r.Trans
	s.Traces += r.Traces
	s.Evals += r.Evals
	s.Distinct += r.Distinct
	if r.MaxDepth > s.MaxDepth {
		s.MaxDepth = r.MaxDepth
	}
	for k, v := range r.Outcomes {
		s.Outcomes[k] += v
	}
	for _, x := range r.Samples {
		if len(s.Samples) < 12 {
			s.Samples = append(s.Samples, name+": "+x)
		}
	}
	for _, x := range r.Caps {
		s.Caps = append(s.Caps, name+": "+x)
	}
	for _, x := range r.Notes {
		if strings.HasPrefix(x, "known:") {
			fs := strings.Split(x, ":")
			n, _ := strconv.ParseInt(fs[len(fs)-1], 10, 64)
			p.sum.KnownHit[strings.Join(fs[1:len(fs)-1], ":")] += n
			continue
		}
		s.Notes = append(s.Notes, name+": "+x)
	}
	p.sum.PerJob = append(p.sum.PerJob, fmt.Sprintf("%s: %.1fs states=%d transitions=%d traces=%d evals=%d", name, r.WallS, r.States, r.Trans, r.Traces, r.Evals))
	p.sum.JobsDone++
	bad := false
	if r.HarnessErr != "" {
		p.sum.HarnessErr = append(p.sum.HarnessErr, "job "+name+": "+r.HarnessErr)
		bad = true
	}
	for _, v := range r.Violations {
		p.sum.Violations = append(p.sum.Violations, v)
		p.sum.ViolJob = append(p.sum.ViolJob, name)
		bad = true
	}
	return bad
}

// Extra adds a field to the coverage of the evidence.
func (p *Parent) Extra(k string, v interface{}) {
	p.mu.Lock()
	p.sum.Extra[k] = v
	p.mu.Unlock()
}

// Capped registers a cut of exploration.
func (p *Parent) Capped(s string) {
	p.mu.Lock()
	p.sum.R.Caps = append(p.sum.R.Caps, s)
	p.mu.Unlock()
}

// Violate registers a violation found in the parent.
func (p *Parent) Violate(job string, v Violation) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if _, ok := p.known[v.Sig]; ok {
		p.sum.KnownHit[v.Sig]++
		return
	}
	p.sum.Violations = append(p.sum.Violations, v)
	p.sum.ViolJob = append(p.sum.ViolJob, job)
}

// Err registers an error of the check itself.
func (p *Parent) Err(format string, args ...interface{}) {
	p.mu.Lock()
	defer p.mu.Unlock()
	p.sum.HarnessErr = append(p.sum.HarnessErr, fmt.Sprintf(format, args...))
}

// Failed tells if something was found already.
func (p *Parent) Failed() bool {
	p.mu.Lock()
	defer p.mu.Unlock()
	return len(p.sum.Violations) > 0 || len(p.sum.HarnessErr) > 0
}

// Run executes the check and returns the exit code.
func (p *Parent) Run() int {
	defer p.Close()
	ck := p.Check
	if ck.Jobs != nil {
		var names []string
		for _, j := range ck.Jobs(p.Tier) {
			if ck.Select == nil || ck.Select(j.Name) {
				names = append(names, j.Name)
			}
		}
		p.RunJobs(names, Exec{Exe: p.Exe})
	}
	if ck.Custom != nil && !p.Failed() {
		if err := ck.Custom(p); err != nil {
			p.Err("%s", err)
		}
	}
	return p.finish()
}

func (p *Parent) finish() int {
	s := &p.sum
	wall := time.Since(p.start).Seconds()
	cov := map[string]interface{}{}
	if p.Check.Level == "exploration" {
		cov["evaluations"] = s.R.Evals
		cov["distinct_nontrivial"] = s.R.Distinct
	} else {
		cov["states"] = s.R.States
		cov["transitions"] = s.R.Trans
		cov["traces_validated_against_impl"] = s.R.Traces
		if s.R.Evals > 0 {
			cov["evaluations"] = s.R.Evals
		}
		if s.R.Distinct > 0 {
			cov["distinct_nontrivial"] = s.R.Distinct
		}
	}
	cov["rule"] = p.Check.Rule
	sort.Strings(s.R.Samples)
	if len(s.R.Samples) == 0 {
		s.R.Samples = []string{}
	}
	cov["samples"] = s.R.Samples
	sort.Strings(s.R.Caps)
	cov["exhaustive"] = len(s.R.Caps) == 0 && len(s.HarnessErr) == 0
	if len(s.R.Caps) > 0 {
		cov["caps"] = s.R.Caps
	}
	cov["distinct_outcomes"] = len(s.R.Outcomes)
	cov["outcomes"] = s.R.Outcomes
	if s.R.MaxDepth > 0 {
		cov["max_depth"] = s.R.MaxDepth
	}
	sort.Strings(s.PerJob)
	cov["jobs"] = s.PerJob
	cov["jobs_total"] = s.Jobs
	if len(s.R.Notes) > 0 {
		cov["notes"] = s.R.Notes
	}
	for k, v := range s.Extra {
		cov[k] = v
	}
	ev := map[string]interface{}{
		"property":    p.Check.ID,
		"tier":        p.Tier.String(),
		"seed":        p.Seed,
		"level":       p.Check.Level,
		"coverage":    cov,
		"assumptions": p.Check.Assumptions,
		"wall_s":      wall,
		"violations":  len(s.Violations),
	}
	dir := filepath.Join(p.Verif, "evidence")
	os.MkdirAll(dir, 0755)
	b, err := json.MarshalIndent(ev, "", " ")
	if err == nil {
		err = os.WriteFile(filepath.Join(dir, p.Check.ID+".json"), append(b, '\n'), 0644)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, "can't write evidence:", err)
		return 2
	}
	fmt.Printf("%s %s: states=%d transitions=%d traces=%d evaluations=%d jobs=%d/%d outcomes=%d exhaustive=%v wall=%.1fs\n",
		p.Check.ID, p.Tier, s.R.States, s.R.Trans, s.R.Traces, s.R.Evals, s.JobsDone, s.Jobs, len(s.R.Outcomes), len(s.R.Caps) == 0, wall)
	for _, c := range s.R.Caps {
		fmt.Println("cap:", c)
	}
	var sigs []string
	for k := range s.KnownHit {
		sigs = append(sigs, k)
	}
	sort.Strings(sigs)
	for _, k := range sigs {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.Check.ID, p.known[k])
	}
	if len(s.Violations) > 0 {
		rd := filepath.Join(p.Verif, "replay")
		os.MkdirAll(rd, 0755)
		for i, v := range s.Violations {
			if i >= 3 {
				break
			}
			path := filepath.Join(rd, fmt.Sprintf("%s-%d.json", p.Check.ID, i+1))
			b, _ := json.MarshalIndent(map[string]interface{}{
				"property": p.Check.ID, "tier": p.Tier.String(), "job": s.ViolJob[i],
				"kind": v.Kind, "sig": v.Sig, "message": v.Msg, "trace": v.Trace,
				"how_to_replay": "/verif/run.sh replay " + path}, "", " ")
			os.WriteFile(path, b, 0644)
			fmt.Printf("job %s: %s\n", s.ViolJob[i], v.Msg)
			for k, l := range v.Trace {
				if k > 60 {
					fmt.Println("    ...")
					break
				}
				fmt.Println("    " + l)
			}
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.Check.ID, path)
		}
		return 1
	}
	if len(s.HarnessErr) > 0 {
		for _, e := range s.HarnessErr {
			fmt.Fprintln(os.Stderr, "ERROR:", e)
		}
		return 3
	}
	return 0
}

// Package core runs checks: a check is a list of deterministic jobs, each one
// executed in its own single-threaded child process, so that a crash, a hang or
// a memory explosion of the code under test is contained and attributed.
package core

import (
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Tier of a run.
type Tier int

// Tiers.
const (
	Quick Tier = iota
	Thorough
)

func (t Tier) String() string {
	if t == Thorough {
		return "thorough"
	}
	return "quick"
}

// Job is a deterministic piece of exploration.
type Job struct {
	Name string
	Run  func(c *Ctx)
}

// Check decides one property.
type Check struct {
	ID          string
	Level       string
	Rule        string   // how cases are made
	Assumptions []string // what the check trusts
	Jobs        func(t Tier) []Job
	// Select, if set, tells which jobs run in the normal build of the harness.
	Select func(name string) bool
	// ExecFor, if set, makes the executable a job runs in (to replay it); a nil one
	// means the normal build.
	ExecFor func(p *Parent, job string) (*Exec, error)
	// Custom, if set, runs in the parent after Jobs.
	Custom func(p *Parent) error
}

// Violation found by a job.
type Violation struct {
	Sig   string   `json:"sig"`
	Msg   string   `json:"msg"`
	Trace []string `json:"trace,omitempty"`
	Kind  string   `json:"kind"` // oracle, panic, crash, hang
}

// Result of a job.
type Result struct {
	Job        string           `json:"job"`
	States     int64            `json:"states"`
	Trans      int64            `json:"transitions"`
	Traces     int64            `json:"traces"`
	Evals      int64            `json:"evals"`
	Distinct   int64            `json:"distinct"`
	Outcomes   map[string]int64 `json:"outcomes,omitempty"`
	Samples    []string         `json:"samples,omitempty"`
	Caps       []string         `json:"caps,omitempty"`
	Notes      []string         `json:"notes,omitempty"`
	Violations []Violation      `json:"violations,omitempty"`
	HarnessErr string           `json:"harness_err,omitempty"`
	Done       bool             `json:"done"`
	WallS      float64          `json:"wall_s"`
	MaxDepth   int64            `json:"max_depth"`
}

// Ctx is given to jobs.
type Ctx struct {
	Tier Tier
	Job  string
	R    Result

	deadline time.Time
	at       func() []string
	journal  []byte
	eager    bool
	tick     *uint64
	stopped  bool
	n        int
	memAt    time.Time
	known    map[string]bool
	skipped  map[string]int64
}

// Memory limits of a job: the garbage collector works harder above the first one,
// exploration is cut at the second one.
const (
	memSoft = 1600 << 20
	memCap  = 2200 << 20
)

const journalSize = 1 << 18

type failure struct{ v Violation }

// Fail reports a violation and ends the job. It returns if the violation is a
// known finding.
func (c *Ctx) Fail(sig, format string, args ...interface{}) {
	if c.known[sig] {
		c.skipped[sig]++
		return
	}
	v := Violation{Sig: sig, Msg: fmt.Sprintf(format, args...), Kind: "oracle"}
	if c.at != nil {
		v.Trace = c.at()
	}
	panic(failure{v})
}

// At sets a description of what is going to be executed.
func (c *Ctx) At(f func() []string) {
	c.at = f
	c.Beat()
	if c.eager {
		c.writeJournal()
	}
}

// Mark refreshes the journal in the eager mode.
func (c *Ctx) Mark() {
	if c.tick != nil {
		atomic.AddUint64(c.tick, 1)
	}
	if c.eager {
		c.writeJournal()
	}
}

func (c *Ctx) writeJournal() {
	if c.at == nil || c.journal == nil {
		return
	}
	s := strings.Join(c.at(), "\n")
	if len(s) > journalSize-64 {
		s = s[len(s)-(journalSize-64):]
	}
	copy(c.journal[16:], s)
	binary.LittleEndian.PutUint64(c.journal[8:], uint64(len(s)))
}

// Beat tells the parent that there is progress.
func (c *Ctx) Beat() {
	if c.tick != nil {
		atomic.AddUint64(c.tick, 1)
	}
}

// Stop tells if the time cap of the job is over.
func (c *Ctx) Stop() bool {
	if c.stopped {
		return true
	}
	c.n++
	if c.n&63 == 0 {
		c.Beat()
		if time.Now().After(c.deadline) {
			c.stopped = true
			c.Cap("time limit of the job reached")
		} else if time.Since(c.memAt) > 200*time.Millisecond {
			c.memAt = time.Now()
			if rss(os.Getpid()) > memCap {
				c.stopped = true
				c.Cap("memory limit of the job reached")
			}
		}
	}
	return c.stopped
}

// Cap registers that exploration was cut.
func (c *Ctx) Cap(s string) {
	for _, x := range c.R.Caps {
		if x == s {
			return
		}
	}
	c.R.Caps = append(c.R.Caps, s)
}

// Outcome counts distinct observed outcomes.
func (c *Ctx) Outcome(s string) {
	if c.R.Outcomes == nil {
		c.R.Outcomes = map[string]int64{}
	}
	c.R.Outcomes[s]++
}

// Sample keeps a few cases written out.
func (c *Ctx) Sample(s string) {
	if len(c.R.Samples) < 3 {
		if len(s) > 600 {
			s = s[:600] + "..."
		}
		c.R.Samples = append(c.R.Samples, s)
	}
}

// NSamples returns number of samples collected.
func (c *Ctx) NSamples() int { return len(c.R.Samples) }

const repoPkg = "github.com/infobloxopen/go-trees/"

// panicInRepo tells if the panic being recovered was raised under code of the repository.
func panicInRepo(stack string) bool {
	// The first frames after panic(...) are the panicking ones.
	lines := strings.Split(stack, "\n")
	seen := false
	for _, l := range lines {
		if strings.HasPrefix(l, "\t") {
			continue
		}
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen {
			continue
		}
		if strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "internal/") {
			continue
		}
		if strings.HasPrefix(l, repoPkg) {
			return true
		}
		if strings.HasPrefix(l, "vh/") || strings.HasPrefix(l, "main.") {
			return false
		}
		// standard library called by either side: keep looking
	}
	return false
}

// RunJob runs a job in this process and writes its result.
func RunJob(ck *Check, tier Tier, name, out, journal string, eager bool, limit time.Duration, known []string) int {
	debug.SetMaxStack(512 << 20)
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(memSoft)
	c := &Ctx{Tier: tier, Job: name, deadline: time.Now().Add(limit), eager: eager, known: map[string]bool{}, skipped: map[string]int64{}}
	for _, k := range known {
		c.known[k] = true
	}
	if journal != "" {
		f, err := os.OpenFile(journal, os.O_RDWR, 0)
		if err == nil {
			m, err := syscall.Mmap(int(f.Fd()), 0, journalSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
			if err == nil {
				c.journal = m
				c.tick = (*uint64)(unsafe.Pointer(&m[0]))
			}
			f.Close()
		}
	}
	c.R.Job = name
	var job *Job
	for _, j := range ck.Jobs(tier) {
		if j.Name == name {
			j := j
			job = &j
			break
		}
	}
	if job == nil {
		fmt.Fprintf(os.Stderr, "no job %q\n", name)
		return 2
	}
	start := time.Now()
	func() {
		defer func() {
			r := recover()
			if r == nil {
				return
			}
			if f, ok := r.(failure); ok {
				c.R.Violations = append(c.R.Violations, f.v)
				return
			}
			st := string(debug.Stack())
			var tr []string
			if c.at != nil {
				func() {
					defer func() { recover() }()
					tr = c.at()
				}()
			}
			if panicInRepo(st) {
				tr = append(tr, "panic: "+fmt.Sprint(r))
				for _, l := range strings.Split(st, "\n") {
					if strings.Contains(l, "go-trees") {
						tr = append(tr, "  "+strings.TrimSpace(l))
					}
				}
				if !c.known["panic"] {
					c.R.Violations = append(c.R.Violations, Violation{Sig: "panic", Kind: "panic", Msg: fmt.Sprintf("panic: %v", r), Trace: tr})
				}
				return
			}
			c.R.HarnessErr = fmt.Sprintf("panic in harness: %v\n%s\n%s", r, strings.Join(tr, "\n"), st)
		}()
		job.Run(c)
	}()
	for s, n := range c.skipped {
		c.R.Notes = append(c.R.Notes, fmt.Sprintf("known:%s:%d", s, n))
	}
	sort.Strings(c.R.Notes)
	c.R.Done = true
	c.R.WallS = time.Since(start).Seconds()
	b, err := json.Marshal(&c.R)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	if err := os.WriteFile(out, b, 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	runtime.KeepAlive(c)
	return 0
}

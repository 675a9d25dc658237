// Package vsched is a controlled scheduler: when active, exactly one of the
// registered threads runs at any time and every scheduling decision is made by the
// explorer, which enumerates all schedules within a bound on the number of deviations
// from the default (non-preemptive, round-robin) schedule. When inactive all
// operations are the real ones.
package vsched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
)

type killed struct{}

type thread struct {
	id    int
	wake  chan struct{}
	done  bool
	ready func() bool // nil if the thread can run
	what  string
	gone  chan struct{} // closed when the goroutine ends
	// lets others go first
	yields bool
}

type vchan struct {
	keep   interface{} // the real channel is kept alive so that its address is not reused
	cap    int
	buf    []interface{}
	closed bool
	sendq  []*sender
	recvq  []*receiver
}

type sender struct {
	t    *thread
	v    interface{}
	done bool
	arm  *arm // of a select
}

type receiver struct {
	t    *thread
	v    interface{}
	ok   bool
	done bool
	arm  *arm // of a select
}

// token is shared by all arms of a waiting select.
type token struct {
	done bool
	i    int
}

type arm struct {
	tok *token
	i   int
}

func (a *arm) fire() {
	if a != nil {
		a.tok.done, a.tok.i = true, a.i
	}
}

func (a *arm) stale() bool { return a != nil && a.tok.done }

// receiver takes the first waiting receiver.
func (c *vchan) receiver() *receiver {
	for len(c.recvq) > 0 {
		r := c.recvq[0]
		c.recvq = c.recvq[1:]
		if !r.arm.stale() {
			r.arm.fire()
			return r
		}
	}
	return nil
}

// sender takes the first waiting sender.
func (c *vchan) sender() *sender {
	for len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		if !w.arm.stale() {
			w.arm.fire()
			return w
		}
	}
	return nil
}

func (c *vchan) canSend() bool {
	for _, r := range c.recvq {
		if !r.arm.stale() {
			return true
		}
	}
	return c.closed || len(c.buf) < c.cap
}

func (c *vchan) canRecv() bool {
	for _, w := range c.sendq {
		if !w.arm.stale() {
			return true
		}
	}
	return c.closed || len(c.buf) > 0
}

type choice struct {
	n, pick int
}

type sched struct {
	threads []*thread
	cur     *thread
	chans   map[uintptr]*vchan
	stack   []choice // choices of the current execution
	prefix  []choice // choices to replay
	spent   int
	bound   int
	steps   int
	limit   int
	dead    bool // execution is being cut
	res     *Outcome
	main    chan struct{}
	diverge bool
	trace   []int
}

// Outcome of an execution.
type Outcome struct {
	Panic    string // panic of a thread
	Stack    string
	Deadlock string // description of threads that can't go on
	Limit    bool   // too many steps
	Threads  int
	Steps    int
	Devs     int
	Trace    []int // sequence of running threads (run lengths are omitted)
}

// Bad tells if the execution didn't end normally.
func (o *Outcome) Bad() string {
	switch {
	case o.Panic != "":
		return "panic: " + o.Panic
	case o.Deadlock != "":
		return "blocked for ever: " + o.Deadlock
	case o.Limit:
		return fmt.Sprintf("no end after %d steps", o.Steps)
	}
	return ""
}

var s *sched

// Active tells if a controlled execution is in progress.
func Active() bool { return s != nil }

// Point is a place where another thread may be scheduled.
func Point() {
	if s != nil {
		s.point()
	}
}

func (x *sched) check() {
	if x.dead {
		panic(killed{})
	}
}

func (x *sched) point() { x.pass(false) }

// pass is a scheduling point; if the thread yields others go first.
func (x *sched) pass(yield bool) {
	x.check()
	x.steps++
	if x.steps > x.limit {
		x.res.Limit = true
		x.abort()
		panic(killed{})
	}
	t := x.cur
	t.yields = yield
	x.schedule(t)
	x.check()
}

// enabled lists threads that can run, t first if it can, the others in round-robin order.
func (x *sched) enabled(t *thread) []*thread {
	n := len(x.threads)
	var r []*thread
	first := 0
	if t.yields {
		t.yields = false
		first = 1
	}
	for i := first; i < n+first; i++ {
		o := x.threads[(t.id+i)%n]
		if !o.done && (o.ready == nil || o.ready()) {
			r = append(r, o)
		}
	}
	return r
}

// schedule chooses the next thread and switches to it. The current thread t may be
// finished, blocked or able to continue.
func (x *sched) schedule(t *thread) {
	if len(x.threads) == 1 && !t.done && t.ready == nil {
		return
	}
	en := x.enabled(t)
	if len(en) == 0 {
		all := true
		desc := ""
		for _, o := range x.threads {
			if !o.done {
				all = false
				desc += fmt.Sprintf(" thread %d (%s)", o.id, o.what)
			}
		}
		if !all {
			x.res.Deadlock = desc
		}
		x.abort()
		return
	}
	k := 0
	if len(en) > 1 {
		k = x.choose(len(en))
		if x.dead {
			return
		}
	}
	nx := en[k]
	if nx == t {
		return
	}
	nx.ready = nil
	nx.what = ""
	x.cur = nx
	x.trace = append(x.trace, nx.id)
	nx.wake <- struct{}{}
	if !t.done {
		<-t.wake
	}
}

func (x *sched) choose(n int) int {
	i := len(x.stack)
	if i < len(x.prefix) {
		c := x.prefix[i]
		if c.n != n {
			x.diverge = true
			x.abort()
			return 0
		}
		x.stack = append(x.stack, c)
		if c.pick > 0 {
			x.spent++
		}
		return c.pick
	}
	x.stack = append(x.stack, choice{n: n})
	return 0
}

// abort ends the execution: control goes back to the explorer which kills all threads.
func (x *sched) abort() {
	if x.dead {
		return
	}
	x.dead = true
	x.main <- struct{}{}
}

func (x *sched) spawn(f func()) {
	t := &thread{id: len(x.threads), wake: make(chan struct{}), gone: make(chan struct{})}
	x.threads = append(x.threads, t)
	go func() {
		defer close(t.gone)
		<-t.wake
		if x.dead {
			return
		}
		defer func() {
			r := recover()
			t.done = true
			if x.dead {
				return
			}
			if r != nil {
				x.res.Panic = fmt.Sprintf("thread %d: %v", t.id, r)
				x.res.Stack = string(debug.Stack())
				x.abort()
				return
			}
			x.schedule(t)
		}()
		f()
	}()
}

// Go starts a thread.
func Go(f func()) {
	if s == nil {
		go f()
		return
	}
	if s.dead {
		return
	}
	s.spawn(f)
	s.point()
}

// block waits until ready says that the current thread can go on.
func (x *sched) block(what string, ready func() bool) {
	t := x.cur
	if ready() {
		return
	}
	t.ready, t.what = ready, what
	x.steps++
	if x.steps > x.limit {
		x.res.Limit = true
		x.abort()
		panic(killed{})
	}
	x.schedule(t)
	t.ready = nil
	x.check()
}

// Block waits for a condition; it is used by replacements of sync.
func Block(what string, ready func() bool) {
	if s.dead {
		panic(killed{})
	}
	s.block(what, ready)
}

// Dead tells if the execution is being cut.
func Dead() bool { return s != nil && s.dead }

func (x *sched) channel(ch interface{}) *vchan {
	v := reflect.ValueOf(ch)
	p := v.Pointer()
	if p == 0 {
		return nil
	}
	c := x.chans[p]
	if c == nil {
		c = &vchan{keep: ch, cap: v.Cap()}
		x.chans[p] = c
	}
	return c
}

// SendTo sends to the channel.
func SendTo[T any](ch chan<- T) func(T) {
	if s == nil {
		return func(v T) { ch <- v }
	}
	return func(v T) { s.send(ch, v) }
}

func (x *sched) send(ch interface{}, v interface{}) {
	x.check()
	x.point()
	c := x.channel(ch)
	if c == nil {
		x.block("send to a nil channel", func() bool { return false })
	}
	if c.closed {
		panic("send on closed channel")
	}
	if c.put(v) {
		return
	}
	w := &sender{t: x.cur, v: v}
	c.sendq = append(c.sendq, w)
	x.block("send", func() bool { return w.done || c.closed })
	if !w.done {
		panic("send on closed channel")
	}
}

// put sends without waiting if that is possible.
func (c *vchan) put(v interface{}) bool {
	if r := c.receiver(); r != nil {
		r.v, r.ok, r.done = v, true, true
		return true
	}
	if len(c.buf) < c.cap {
		c.buf = append(c.buf, v)
		return true
	}
	return false
}

// take receives without waiting if that is possible.
func (c *vchan) take() (v interface{}, ok, done bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		if w := c.sender(); w != nil {
			c.buf = append(c.buf, w.v)
			w.done = true
		}
		return v, true, true
	}
	if w := c.sender(); w != nil {
		w.done = true
		return w.v, true, true
	}
	return nil, false, c.closed
}

func (x *sched) recv(ch interface{}) (interface{}, bool) {
	x.check()
	x.point()
	c := x.channel(ch)
	if c == nil {
		x.block("receive from a nil channel", func() bool { return false })
	}
	if v, ok, done := c.take(); done {
		return v, ok
	}
	r := &receiver{t: x.cur}
	c.recvq = append(c.recvq, r)
	x.block("receive", func() bool { return r.done || c.closed })
	return r.v, r.ok
}

// Recv2 receives a value and tells if the channel is open.
func Recv2[T any](ch <-chan T) (T, bool) {
	if s == nil {
		v, ok := <-ch
		return v, ok
	}
	v, ok := s.recv(ch)
	if !ok || v == nil {
		var zero T
		return zero, ok
	}
	return v.(T), ok
}

// Recv receives a value.
func Recv[T any](ch <-chan T) T {
	v, _ := Recv2(ch)
	return v
}

// Close closes the channel.
func Close[T any](ch chan<- T) {
	if s == nil {
		close(ch)
		return
	}
	x := s
	if x.dead {
		return
	}
	x.point()
	c := x.channel(ch)
	if c == nil {
		panic("close of nil channel")
	}
	if c.closed {
		panic("close of closed channel")
	}
	c.closed = true
}

// Len is len of a channel.
func Len[T any](ch <-chan T) int {
	if s == nil {
		return len(ch)
	}
	if c := s.channel(ch); c != nil {
		return len(c.buf)
	}
	return 0
}

// Iter is a range over a channel.
type Iter[T any] struct{ ch <-chan T }

// Range starts a range over a channel.
func Range[T any](ch <-chan T) (Iter[T], T) {
	var zero T
	return Iter[T]{ch}, zero
}

// Range0 starts a range over a channel without variables.
func Range0[T any](ch <-chan T) Iter[T] { return Iter[T]{ch} }

// Next gets the next value.
func (i Iter[T]) Next(p *T) bool {
	v, ok := Recv2(i.ch)
	if ok {
		*p = v
	}
	return ok
}

// Next0 drops the next value.
func (i Iter[T]) Next0() bool {
	_, ok := Recv2(i.ch)
	return ok
}

// Gosched is runtime.Gosched.
func Gosched() {
	if s != nil {
		Yield()
		return
	}
	runtime.Gosched()
}

var resets []func()

// OnReset registers a function that initializes the variables of a package.
func OnReset(f func()) { resets = append(resets, f) }

// Reset initializes the variables of all instrumented packages, as in a new process. No
// values made before may be used with the packages after it.
func Reset() {
	for _, f := range resets {
		f()
	}
}

// Yield is a scheduling point where other threads go first.
func Yield() {
	if s != nil {
		s.pass(true)
	}
}

// Arm is a case of a select statement.
type Arm interface{ get() *selArm }

type selArm struct {
	send bool
	ch   interface{}
	v    interface{} // sent or received value
	ok   bool
	s    *sender
	r    *receiver
}

func (a *selArm) get() *selArm { return a }

// SendArm is a case that sends.
type SendArm struct{ selArm }

// RecvArm is a case that receives.
type RecvArm[T any] struct{ selArm }

// Get2 gives the received value and tells if the channel is open.
func (a *RecvArm[T]) Get2() (T, bool) {
	if a.v == nil {
		var zero T
		return zero, a.ok
	}
	return a.v.(T), a.ok
}

// Get gives the received value.
func (a *RecvArm[T]) Get() T {
	v, _ := a.Get2()
	return v
}

// SSend makes a case that sends.
func SSend[T any](ch chan<- T) func(T) *SendArm {
	return func(v T) *SendArm { return &SendArm{selArm{send: true, ch: ch, v: v}} }
}

// SRecv makes a case that receives.
func SRecv[T any](ch <-chan T) *RecvArm[T] { return &RecvArm[T]{selArm{ch: ch}} }

// Select is the select statement; it gives the number of the case or -1 for the default one.
func Select(def bool, arms ...Arm) int {
	if s != nil {
		return s.sel(def, arms)
	}
	var cs []reflect.SelectCase
	for _, x := range arms {
		a := x.get()
		c := reflect.SelectCase{Dir: reflect.SelectRecv, Chan: reflect.ValueOf(a.ch)}
		if a.send {
			c.Dir, c.Send = reflect.SelectSend, reflect.ValueOf(a.v)
			if a.v == nil {
				c.Send = reflect.Zero(c.Chan.Type().Elem())
			}
		}
		cs = append(cs, c)
	}
	if def {
		cs = append(cs, reflect.SelectCase{Dir: reflect.SelectDefault})
	}
	i, v, ok := reflect.Select(cs)
	if i == len(arms) {
		return -1
	}
	if a := arms[i].get(); !a.send {
		a.v, a.ok = v.Interface(), ok
	}
	return i
}

func (x *sched) sel(def bool, arms []Arm) int {
	x.check()
	x.point()
	for {
		var ready []int
		for i, y := range arms {
			a := y.get()
			c := x.channel(a.ch)
			if c != nil && (a.send && c.canSend() || !a.send && c.canRecv()) {
				ready = append(ready, i)
			}
		}
		if len(ready) > 0 {
			k := 0
			if len(ready) > 1 {
				k = x.choose(len(ready))
				x.check()
			}
			i := ready[k]
			a := arms[i].get()
			c := x.channel(a.ch)
			if a.send {
				if c.closed {
					panic("send on closed channel")
				}
				c.put(a.v)
			} else {
				a.v, a.ok, _ = c.take()
			}
			return i
		}
		if def {
			return -1
		}
		tok := &token{}
		var cs []*vchan
		for i, y := range arms {
			a := y.get()
			c := x.channel(a.ch)
			if c == nil {
				continue
			}
			cs = append(cs, c)
			if a.send {
				a.s = &sender{t: x.cur, v: a.v, arm: &arm{tok, i}}
				c.sendq = append(c.sendq, a.s)
			} else {
				a.r = &receiver{t: x.cur, arm: &arm{tok, i}}
				c.recvq = append(c.recvq, a.r)
			}
		}
		x.block("select", func() bool {
			if tok.done {
				return true
			}
			for _, c := range cs {
				if c.closed {
					return true
				}
			}
			return false
		})
		if tok.done {
			a := arms[tok.i].get()
			if !a.send {
				a.v, a.ok = a.r.v, a.r.ok
			}
			return tok.i
		}
		// A channel has been closed: all arms are taken back.
		tok.done = true
	}
}

// Limits of exploration.
type Limits struct {
	Bound int // deviations from the default schedule
	Steps int // steps of an execution
	// Stop is asked before each execution.
	Stop func() bool
}

// Stats of exploration.
type Stats struct {
	Schedules int64
	Steps     int64
	Cut       bool // Stop said so
	Diverged  int64
	MaxSteps  int
	MaxThr    int
}

// Explore runs all schedules within the limits. setup makes a fresh set of threads,
// check is called after each execution.
func Explore(l Limits, setup func() []func(), check func(o *Outcome)) Stats {
	var st Stats
	var prefix []choice
	for {
		if l.Stop != nil && l.Stop() {
			st.Cut = true
			return st
		}
		x, o := run(l, prefix, setup())
		st.Schedules++
		st.Steps += int64(o.Steps)
		if o.Steps > st.MaxSteps {
			st.MaxSteps = o.Steps
		}
		if o.Threads > st.MaxThr {
			st.MaxThr = o.Threads
		}
		if x.diverge {
			st.Diverged++
			if st.Diverged > 3 {
				st.Cut = true
				return st
			}
			// Try once more from the same prefix: the first run may have warmed something.
			continue
		}
		check(o)
		// Next schedule: the deepest choice that has an alternative within the bound.
		stk := x.stack
		spent := 0
		for _, c := range stk {
			if c.pick > 0 {
				spent++
			}
		}
		i := len(stk) - 1
		for ; i >= 0; i-- {
			c := stk[i]
			if c.pick > 0 {
				spent--
			}
			if c.pick+1 < c.n && spent < l.Bound {
				break
			}
		}
		if i < 0 {
			return st
		}
		prefix = append([]choice(nil), stk[:i+1]...)
		prefix[i].pick++
	}
}

func run(l Limits, prefix []choice, fns []func()) (*sched, *Outcome) {
	x := &sched{chans: map[uintptr]*vchan{}, prefix: prefix, bound: l.Bound, limit: l.Steps, res: &Outcome{}, main: make(chan struct{}, 1)}
	if x.limit == 0 {
		x.limit = 1 << 20
	}
	// The initial thread choice is a part of the schedule: a thread that only starts others.
	for _, f := range fns {
		x.spawn(f)
	}
	s = x
	en := x.enabled(x.threads[0])
	k := 0
	if len(en) > 1 {
		k = x.choose(len(en))
	}
	x.cur = en[k]
	x.trace = append(x.trace, en[k].id)
	x.cur.wake <- struct{}{}
	<-x.main
	// The thread that has ended the execution goes first, all others are killed one at
	// a time.
	<-x.cur.gone
	for _, t := range x.threads {
		select {
		case t.wake <- struct{}{}:
			<-t.gone
		case <-t.gone:
		}
	}
	s = nil
	o := x.res
	o.Threads = len(x.threads)
	o.Steps = x.steps
	o.Devs = x.spent
	o.Trace = x.trace
	return x, o
}

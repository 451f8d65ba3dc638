// Package sim is the deterministic simulator: every goroutine of the program
// under test is a task, exactly one task runs at a time, and a seeded
// scheduler decides at every yield point which one runs next.
//
// Instrumented code reaches the simulator only through the functions of this
// package (and simsync, simatomic); the instrumenter in verifrewrite inserts
// the calls.
package sim

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"time"
	"unsafe"
)

// Passthrough makes every operation behave natively; it is used only to run
// the repository's own tests against the instrumented tree (fidelity check).
var Passthrough = os.Getenv("VERIF_PASSTHROUGH") == "1"

// W is the running world. Package initialisation of the instrumented code
// runs in a boot world; each simulated run replaces it.
var W *World

func init() {
	if !Passthrough {
		W = NewWorld(Options{Policy: Policy{Kind: PolicyNone}, MaxSteps: 1 << 55})
	}
}

// ---------------------------------------------------------------- PRNG

// Rand is a splitmix64 generator.
type Rand struct{ s uint64 }

func NewRand(seed uint64) *Rand { return &Rand{s: seed} }

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Intn returns a number in [0, n).
func (r *Rand) Intn(n int) int {
	if n <= 1 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

// P is true with probability num/den.
func (r *Rand) P(num, den int) bool { return r.Intn(den) < num }

// Perm returns a permutation of [0, n).
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		j := r.Intn(i + 1)
		p[i] = p[j]
		p[j] = i
	}
	return p
}

// Mix derives an independent seed.
func Mix(a, b uint64) uint64 {
	r := Rand{s: a ^ (b * 0xd6e8feb86659fd93)}
	r.U64()
	return r.U64()
}

// ---------------------------------------------------------------- policy

const (
	PolicyNone   = "none"   // run to block, lowest id first
	PolicyRandom = "random" // random preemption, uniform choice
	PolicyPCT    = "pct"    // priorities with random change points
	PolicyRR     = "rr"     // round robin with a fixed quantum
	PolicyReplay = "replay" // recorded decisions
)

// Policy describes how scheduling choices are made.
type Policy struct {
	Kind string `json:"kind"`
	Seed uint64 `json:"seed,omitempty"`
	// Gap is the mean number of yield points between preemptions.
	Gap int `json:"gap,omitempty"`
	// SyncWeight is how many ordinary yield points a synchronisation
	// operation counts for.
	SyncWeight int `json:"sync_weight,omitempty"`
	// Depth is the number of priority change points (PCT).
	Depth int `json:"depth,omitempty"`
	// Horizon is the step range over which change points are spread (PCT).
	Horizon int `json:"horizon,omitempty"`
}

// Decision says: at step Step, run task Task.
type Decision struct {
	Step uint64 `json:"s"`
	Task int    `json:"t"`
}

// Options configure a world.
type Options struct {
	Policy    Policy
	Decisions []Decision // for PolicyReplay
	EnvSeed   uint64     // seed of the environment stream (clock, map order)
	MaxSteps  uint64     // without any call or request coming to its end
	Race      bool       // happens-before race detection
	ClockGran int64      // granularity of the simulated clock in ns (>= 1)
	Trace     bool       // keep a readable schedule trace
}

type status uint8

const (
	stReady status = iota
	stBlocked
	stDone
)

// Task is one simulated goroutine.
type Task struct {
	ID     int
	Name   string
	Daemon bool // started by the code under test
	Tag    any  // for the harness

	wake    chan struct{}
	st      status
	why     string
	wakeAt  int64
	poll    func() bool
	exiting bool
	prio    int64
	vc      []uint32
	site    int
	polls   int // unsuccessful non-blocking operations since it last blocked
}

// Crash describes a panic that would have ended the process.
type Crash struct {
	Task  string
	Value string
	Stack string
}

// World is one simulated execution.
type World struct {
	opt   Options
	rng   *Rand
	Env   *Rand
	tasks []*Task
	cur   *Task
	main  *Task
	ready []*Task // tasks in state ready, ordered by id
	step  uint64
	mark  uint64 // step of the last progress
	gap   int
	dead  bool
	// fair is set once the step count passes the fairness threshold.
	fair    bool
	now     int64
	skew    int64
	nowBase time.Time

	Stuck    bool // nothing can run
	Overrun  bool // step budget exhausted
	Crashed  *Crash
	Races    []Race
	joinTag  bool
	decs     []Decision
	decIdx   int
	switches int
	hash     uint64
	trace    []string
	changeAt []uint64
	minPrio  int64

	chans   map[unsafe.Pointer]*schan
	keySeq  map[any]uint64
	nextKey uint64
	shadow  map[unsafe.Pointer]*shadow
	objVC   map[unsafe.Pointer]*[]uint32

	// OS is the simulated operating system.
	OS *OS
	// Quiet suppresses preemption (set-up phases).
	Quiet bool
	// Preempts counts preemptive switches; SitePairs is the set of
	// (preempted site, task kind) seen.
	Preempts int
	killed   chan struct{}
	sitePair map[uint64]struct{}
}

const nowStart = int64(1500000000)*int64(time.Second) + 123456789

// NewWorld makes a world whose main task is the calling goroutine.
func NewWorld(opt Options) *World {
	if opt.ClockGran < 1 {
		opt.ClockGran = 1
	}
	if opt.Policy.Gap < 1 {
		opt.Policy.Gap = 10
	}
	if opt.Policy.SyncWeight < 1 {
		opt.Policy.SyncWeight = 1
	}
	w := &World{
		opt:      opt,
		rng:      NewRand(opt.Policy.Seed),
		Env:      NewRand(opt.EnvSeed),
		chans:    make(map[unsafe.Pointer]*schan),
		keySeq:   make(map[any]uint64),
		sitePair: make(map[uint64]struct{}),
		hash:     14695981039346656037,
		OS:       newOS(),
		killed:   make(chan struct{}),
	}
	if opt.Race {
		w.shadow = make(map[unsafe.Pointer]*shadow)
	}
	w.objVC = make(map[unsafe.Pointer]*[]uint32)
	if opt.Policy.Kind == PolicyPCT {
		h := opt.Policy.Horizon
		if h < 10 {
			h = 10
		}
		for i := 0; i < opt.Policy.Depth; i++ {
			w.changeAt = append(w.changeAt, uint64(1+w.rng.Intn(h)))
		}
		sort.Slice(w.changeAt, func(i, j int) bool { return w.changeAt[i] < w.changeAt[j] })
	}
	t := w.newTask("main", false)
	w.main = t
	w.cur = t
	w.newGap()
	return w
}

func (w *World) newTask(name string, daemon bool) *Task {
	t := &Task{ID: len(w.tasks), Name: name, Daemon: daemon, wake: make(chan struct{}, 1)}
	t.prio = int64(w.rng.U64()>>2) + 1<<40
	t.vc = make([]uint32, t.ID+1)
	t.vc[t.ID] = 1
	w.tasks = append(w.tasks, t)
	w.ready = append(w.ready, t)
	return t
}

func (w *World) newGap() {
	g := w.opt.Policy.Gap
	// geometric-like with mean g
	w.gap = 1 + w.rng.Intn(2*g)
}

func (w *World) mix(v uint64) {
	w.hash ^= v
	w.hash *= 1099511628211
}

// Hash is a digest of the schedule and of everything logged.
func (w *World) Hash() uint64 { return w.hash }

// Step is the global event sequence number.
func (w *World) Step() uint64 { return w.step }

// Tick advances the event sequence number and returns it, so that events can
// be stamped with distinct numbers.
// Heartbeat is called now and then while a run is making steps.
var Heartbeat func()

func (w *World) Tick() uint64 { w.step++; return w.step }

// Switches is the number of context switches so far.
func (w *World) Switches() int { return w.switches }

// SitePairs is the number of distinct (preempted site, next site) pairs.
func (w *World) SitePairs() map[uint64]struct{} { return w.sitePair }

// Decisions returns the recorded scheduling decisions.
func (w *World) Decisions() []Decision { return w.decs }

// TraceLines returns the readable schedule.
func (w *World) TraceLines() []string { return w.trace }

// Elapsed is the simulated time covered.
func (w *World) Elapsed() time.Duration { return time.Duration(w.now) }

// Log mixes an event into the digest (and the trace).
func (w *World) Log(format string, args ...any) {
	s := fmt.Sprintf(format, args...)
	h := w.hash
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	w.hash = h
	if w.opt.Trace {
		w.trace = append(w.trace, fmt.Sprintf("step %d t%d(%s): %s", w.step, w.cur.ID, w.cur.Name, s))
	}
}

// Cur is the running task.
func (w *World) Cur() *Task { return w.cur }

// ---------------------------------------------------------------- scheduling

func (w *World) removeReady(t *Task) {
	for i, x := range w.ready {
		if x == t {
			w.ready = append(w.ready[:i], w.ready[i+1:]...)
			return
		}
	}
}

func (w *World) makeReady(t *Task) {
	if t.st != stBlocked {
		return
	}
	t.st = stReady
	t.why = ""
	t.wakeAt = 0
	t.poll = nil
	i := sort.Search(len(w.ready), func(i int) bool { return w.ready[i].ID > t.ID })
	w.ready = append(w.ready, nil)
	copy(w.ready[i+1:], w.ready[i:])
	w.ready[i] = t
}

func (w *World) record(t *Task) {
	w.decs = append(w.decs, Decision{w.step, t.ID})
}

func (w *World) forced() (int, bool) {
	for w.decIdx < len(w.opt.Decisions) && w.opt.Decisions[w.decIdx].Step < w.step {
		w.decIdx++
	}
	if w.decIdx < len(w.opt.Decisions) && w.opt.Decisions[w.decIdx].Step == w.step {
		return w.opt.Decisions[w.decIdx].Task, true
	}
	return 0, false
}

func (w *World) readyByID(id int) *Task {
	for _, t := range w.ready {
		if t.ID == id {
			return t
		}
	}
	return nil
}

func (w *World) maxPrio() *Task {
	var best *Task
	for _, t := range w.ready {
		if best == nil || t.prio > best.prio {
			best = t
		}
	}
	return best
}

// Progress says that a call or request has come to its end.
func (w *World) Progress() { w.mark = w.step }

// Yield is a potential preemption point. weight is 1 for an ordinary
// statement and larger for synchronisation operations.
func (w *World) yield(site, weight int) {
	t := w.cur
	if t.exiting {
		return
	}
	if w.dead {
		w.exitTask()
	}
	w.step++
	t.site = site
	if w.step&(1<<20-1) == 0 && Heartbeat != nil && w.step-w.mark < 2*w.opt.MaxSteps && w.step < 200*w.opt.MaxSteps {
		Heartbeat()
	}
	if w.Quiet {
		return
	}
	if w.step-w.mark > w.opt.MaxSteps || w.step > 100*w.opt.MaxSteps {
		w.overrun()
		return
	}
	switch w.opt.Policy.Kind {
	case PolicyReplay:
		if id, ok := w.forced(); ok {
			if n := w.readyByID(id); n != nil && n != t {
				w.preempt(n)
			}
		}
		return
	case PolicyNone:
		return
	case PolicyPCT:
		if !w.fair {
			if len(w.changeAt) > 0 && w.step >= w.changeAt[0] {
				w.changeAt = w.changeAt[1:]
				w.minPrio--
				t.prio = w.minPrio
			} else if w.step%1024 == 0 && w.step > 200000 {
				w.fair = true
			} else if weight == 1 {
				return
			}
			if n := w.maxPrio(); n != t {
				w.preempt(n)
			}
			return
		}
	case PolicyRR:
		w.gap -= weight
		if w.gap > 0 {
			return
		}
		w.gap = w.opt.Policy.Gap
		var n *Task
		for _, x := range w.ready {
			if x.ID > t.ID {
				n = x
				break
			}
		}
		if n == nil {
			n = w.ready[0]
		}
		if n != t {
			w.preempt(n)
		}
		return
	}
	w.gap -= weight
	if w.gap > 0 {
		return
	}
	w.newGap()
	n := w.ready[w.rng.Intn(len(w.ready))]
	if n != t {
		w.preempt(n)
	}
}

func (w *World) preempt(n *Task) {
	w.Preempts++
	w.sitePair[uint64(w.cur.site)<<32|uint64(n.site)] = struct{}{}
	w.record(n)
	w.switchTo(n)
}

// switchTo hands the baton to n and waits until the caller gets it back.
func (w *World) switchTo(n *Task) {
	p := w.cur
	w.switches++
	w.mix(w.step)
	w.mix(uint64(n.ID))
	if w.opt.Trace {
		w.trace = append(w.trace, fmt.Sprintf("step %d: switch t%d(%s)@%s -> t%d(%s)@%s",
			w.step, p.ID, p.Name, SiteName(p.site), n.ID, n.Name, SiteName(n.site)))
	}
	w.cur = n
	n.wake <- struct{}{}
	<-p.wake
	if w.dead && !p.exiting && p != w.main {
		w.exitTask()
	}
}

// exitTask ends the current task while the world is being torn down.
func (w *World) exitTask() {
	if w.cur == w.main {
		return
	}
	w.cur.exiting = true
	runtime.Goexit()
}

// StuckError is what the main task panics with when it can never continue.
type StuckError struct{ Why string }

func (e StuckError) Error() string { return "stuck: " + e.Why }

func (w *World) overrun() {
	w.Overrun = true
	if w.cur == w.main {
		panic(StuckError{"step budget exhausted"})
	}
	w.wakeMain()
}

// wakeMain gives up on the run: the current task is parked for ever and the
// main task continues in Join.
func (w *World) wakeMain() {
	t := w.cur
	t.st = stBlocked
	t.why = "run abandoned"
	w.removeReady(t)
	if w.main.st == stBlocked {
		w.makeReady(w.main)
	}
	w.switchTo(w.main)
}

// pickBlocked chooses who runs when the current task cannot.
func (w *World) pickBlocked() *Task {
	for {
		if len(w.ready) == 0 {
			for _, t := range w.tasks {
				if t.st == stBlocked && t.poll != nil && t.poll() {
					w.makeReady(t)
				}
			}
		}
		if len(w.ready) == 0 {
			if !w.advance() {
				return nil
			}
		}
		switch w.opt.Policy.Kind {
		case PolicyReplay:
			if id, ok := w.forced(); ok {
				if n := w.readyByID(id); n != nil {
					w.record(n)
					return n
				}
			}
			return w.ready[0]
		case PolicyNone:
			return w.ready[0]
		case PolicyPCT:
			if !w.fair {
				n := w.maxPrio()
				if n != w.ready[0] {
					w.record(n)
				}
				return n
			}
		case PolicyRR:
			var n *Task
			for _, x := range w.ready {
				if x.ID > w.cur.ID {
					n = x
					break
				}
			}
			if n == nil {
				n = w.ready[0]
			}
			if n != w.ready[0] {
				w.record(n)
			}
			return n
		}
		n := w.ready[w.rng.Intn(len(w.ready))]
		if n != w.ready[0] {
			w.record(n)
		}
		return n
	}
}

// advance moves simulated time to the next timer and wakes its task.
func (w *World) advance() bool {
	var first *Task
	for _, t := range w.tasks {
		if t.st == stBlocked && t.wakeAt > 0 && (first == nil || t.wakeAt < first.wakeAt) {
			first = t
		}
	}
	if first == nil {
		return false
	}
	if first.wakeAt > w.now {
		w.now = first.wakeAt
	}
	w.makeReady(first)
	return true
}

const (
	pollsSpin = 256   // a task that polls this often without blocking spins
	pollsIdle = 20000 // if all do, so often, only time can help them
)

// Polled notes that the current task tried something without success and
// did not block. A task that does so again and again lets the others run,
// whatever the policy says; if all tasks that can run do so, time moves on,
// and if that is not possible either, they will do so for ever.
func (w *World) Polled() {
	t := w.cur
	t.polls++
	if t.polls < pollsSpin || t.exiting || w.dead {
		return
	}
	var next, spin *Task
	idle := true
	for i, k := 0, len(w.ready); i < 2*k; i++ {
		x := w.ready[i%k]
		if x == t || i < k && x.ID < t.ID {
			continue
		}
		if x.polls < pollsIdle {
			idle = false
		}
		if x.polls < pollsSpin {
			next = x
			break
		}
		if spin == nil {
			spin = x
		}
	}
	if next == nil && idle && t.polls >= pollsIdle {
		for _, x := range w.tasks {
			if x.st == stBlocked && x.poll != nil && x.poll() {
				w.makeReady(x)
				next = x
			}
		}
		if next == nil {
			if !w.advance() {
				w.overrun()
				return
			}
			return
		}
	}
	if next == nil {
		next = spin
	}
	if next != nil {
		w.step++
		w.switchTo(next)
	}
}

// block parks the current task until another one makes it ready (or its
// deadline or poll fires).
func (w *World) block(why string, wakeAt int64, poll func() bool) {
	t := w.cur
	if t.exiting {
		return
	}
	if w.dead {
		w.exitTask()
		return
	}
	w.step++
	if (w.step-w.mark > w.opt.MaxSteps || w.step > 100*w.opt.MaxSteps) && t != w.main {
		w.overrun()
		return
	}
	t.st = stBlocked
	t.why = why
	t.wakeAt = wakeAt
	t.poll = poll
	t.polls = 0
	w.removeReady(t)
	n := w.pickBlocked()
	if n == nil {
		// Nothing can ever run again.
		w.Stuck = true
		if t == w.main {
			w.makeReady(t)
			panic(StuckError{"main task blocked on " + why})
		}
		if w.main.st == stBlocked {
			w.main.st = stBlocked
			w.makeReady(w.main)
		}
		w.switchTo(w.main)
		return
	}
	if n == t {
		return
	}
	w.switchTo(n)
	if t == w.main && (w.Stuck || w.Overrun || w.Crashed != nil) && !w.joinTag {
		panic(StuckError{"main task blocked on " + why})
	}
}

// Go starts a daemon task (called by instrumented code).
func Go(f func()) {
	if Passthrough {
		go f()
		return
	}
	w := W
	if w.cur.exiting {
		return
	}
	w.spawn("go", true, nil, f)
	w.yield(0, w.opt.Policy.SyncWeight)
}

// Spawn starts a workload task.
func (w *World) Spawn(name string, tag any, f func()) *Task {
	return w.spawn(name, false, tag, f)
}

func (w *World) spawn(name string, daemon bool, tag any, f func()) *Task {
	t := w.newTask(name, daemon)
	t.Tag = tag
	// happens-before: spawn -> first step
	t.vc = joinVC(t.vc, w.cur.vc)
	t.vc[t.ID] = 1
	w.cur.tickVC()
	go func() {
		<-t.wake
		defer func() {
			if t.exiting || w.dead {
				t.st = stDone
				w.killed <- struct{}{}
				return
			}
			if r := recover(); r != nil {
				w.Crashed = &Crash{Task: t.Name, Value: fmt.Sprint(r), Stack: string(debug.Stack())}
				w.Log("CRASH %v", r)
			}
			w.finish(t)
		}()
		if w.dead {
			t.exiting = true
			return
		}
		f()
	}()
	return t
}

func (w *World) finish(t *Task) {
	w.step++
	t.st = stDone
	w.removeReady(t)
	var n *Task
	if w.Crashed != nil || w.Overrun {
		n = w.main
	} else if !t.Daemon && w.main.st == stBlocked && w.joinTag && w.liveWorkload() == 0 {
		w.joinVCs()
		w.makeReady(w.main)
		n = w.main
	} else {
		n = w.pickBlocked()
	}
	if n == nil {
		w.Stuck = true
		n = w.main
	}
	if n.st == stBlocked {
		w.makeReady(n)
	}
	w.switches++
	w.mix(w.step)
	w.mix(uint64(n.ID))
	w.cur = n
	n.wake <- struct{}{}
}

func (w *World) liveWorkload() int {
	c := 0
	for _, t := range w.tasks {
		if t != w.main && !t.Daemon && t.st != stDone {
			c++
		}
	}
	return c
}

func (w *World) joinVCs() {
	for _, t := range w.tasks {
		if !t.Daemon && t != w.main {
			w.main.vc = joinVC(w.main.vc, t.vc)
		}
	}
}

// Join runs the world until every workload task has finished. It reports
// false if the run got stuck, crashed or ran out of steps.
func (w *World) Join() bool {
	if w.liveWorkload() == 0 {
		return true
	}
	w.joinTag = true
	w.block("join", 0, nil)
	w.joinTag = false
	return !w.Stuck && !w.Overrun && w.Crashed == nil
}

// Blocked describes the workload tasks that have not finished.
func (w *World) Blocked() []string {
	var out []string
	for _, t := range w.tasks {
		if t != w.main && t.st != stDone && !t.Daemon {
			out = append(out, fmt.Sprintf("t%d(%s) %s at %s", t.ID, t.Name, t.why, SiteName(t.site)))
		}
	}
	return out
}

// TaskCount is the number of tasks ever started.
func (w *World) TaskCount() int { return len(w.tasks) }

// Kill tears the world down: every task is ended.
func (w *World) Kill() {
	w.dead = true
	for _, t := range w.tasks {
		if t == w.main || t.st == stDone {
			continue
		}
		w.cur = t
		t.wake <- struct{}{}
		<-w.killed
	}
	w.cur = w.main
}

// Sleep advances simulated time for the calling task.
func Sleep(d time.Duration) {
	if Passthrough {
		time.Sleep(d)
		return
	}
	w := W
	if w.cur.exiting {
		return
	}
	if d <= 0 {
		w.yield(0, w.opt.Policy.SyncWeight)
		return
	}
	w.block("sleep", w.now+int64(d), nil)
}

// Y is the statement-level yield point.
func Y(site int) {
	if W == nil {
		return
	}
	W.yield(site, 1)
}

// SY is a yield point at a synchronisation operation.
func SY(site int) {
	if W == nil {
		return
	}
	W.yield(site, W.opt.Policy.SyncWeight)
}

// Gosched replaces runtime.Gosched.
func Gosched() {
	if Passthrough {
		runtime.Gosched()
		return
	}
	SY(0)
	if W != nil {
		W.Polled()
	}
}

// Zero resets a package variable.
func Zero[T any](p *T) {
	var z T
	*p = z
}

// ---------------------------------------------------------------- sites

var sites []string

// RegisterSites is called by generated code with the table of source
// positions for one package; it returns the base index.
func RegisterSites(base int, names []string) int {
	for len(sites) < base+len(names) {
		sites = append(sites, "")
	}
	copy(sites[base:], names)
	return base
}

// SiteName is the source position of a site.
func SiteName(i int) string {
	if i > 0 && i < len(sites) {
		return sites[i]
	}
	return "harness"
}

// ---------------------------------------------------------------- maps

// NK notes a map key so that iteration order can be made deterministic.
func NK[K comparable](k K) K {
	if w := W; w != nil {
		switch reflect.TypeFor[K]().Kind() {
		case reflect.Pointer, reflect.Chan, reflect.Interface, reflect.UnsafePointer, reflect.Struct, reflect.Array:
			if _, ok := w.keySeq[any(k)]; !ok {
				w.nextKey++
				w.keySeq[any(k)] = w.nextKey
			}
		}
	}
	return k
}

// Keys returns the keys of m in an order chosen by the environment stream.
func Keys[M ~map[K]V, K comparable, V any](m M, site int) []K {
	keys := make([]K, 0, len(m))
	MR(m, site)
	for k := range m {
		keys = append(keys, k)
	}
	w := W
	if w == nil {
		return keys
	}
	for _, k := range keys {
		NK(k)
	}
	sort.Slice(keys, func(i, j int) bool { return keyLess(w, keys[i], keys[j]) })
	out := make([]K, len(keys))
	for i, j := range w.Env.Perm(len(keys)) {
		out[i] = keys[j]
	}
	return out
}

func keyLess[K comparable](w *World, a, b K) bool {
	va, vb := reflect.ValueOf(a), reflect.ValueOf(b)
	if va.IsValid() && vb.IsValid() {
		switch va.Kind() {
		case reflect.String:
			return va.String() < vb.String()
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if vb.CanInt() {
				return va.Int() < vb.Int()
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			if vb.CanUint() {
				return va.Uint() < vb.Uint()
			}
		case reflect.Float32, reflect.Float64:
			if vb.CanFloat() {
				return va.Float() < vb.Float()
			}
		case reflect.Bool:
			if vb.Kind() == reflect.Bool {
				return !va.Bool() && vb.Bool()
			}
		}
	}
	return w.keySeq[any(a)] < w.keySeq[any(b)]
}

// Entry is one key of a map being ranged over.
type Entry[M ~map[K]V, K comparable, V any] struct {
	K K
	m M
}

// Get returns the current value, and false if the key was deleted meanwhile.
func (e Entry[M, K, V]) Get() (V, bool) {
	v, ok := e.m[e.K]
	return v, ok
}

// Entries is what a range statement over a map visits.
func Entries[M ~map[K]V, K comparable, V any](m M, site int) []Entry[M, K, V] {
	keys := Keys(m, site)
	out := make([]Entry[M, K, V], len(keys))
	for i, k := range keys {
		out[i] = Entry[M, K, V]{k, m}
	}
	return out
}

// BlockForever is select {}.
func BlockForever() string {
	if W == nil {
		select {}
	}
	for !W.cur.exiting {
		W.block("select {}", 0, nil)
	}
	return "unreachable"
}

// randomness of the code under test

func nrand() *Rand {
	if W == nil {
		return NewRand(uint64(time.Now().UnixNano()))
	}
	return W.Env
}

func RandIntn(n int) int       { return nrand().Intn(n) }
func RandInt() int             { return int(nrand().U64() >> 1) }
func RandInt63() int64         { return int64(nrand().U64() >> 1) }
func RandInt63n(n int64) int64 { return int64(nrand().U64()>>1) % n }
func RandInt31n(n int32) int32 { return int32(nrand().U64()>>33) % n }
func RandFloat64() float64     { return float64(nrand().U64()>>11) / (1 << 53) }
func RandPerm(n int) []int     { return nrand().Perm(n) }
func RandSeed(int64)           {}
func RandShuffle(n int, swap func(i, j int)) {
	for i := n - 1; i > 0; i-- {
		swap(i, nrand().Intn(i+1))
	}
}

// LiveTasks is the number of background tasks that have not finished.
func (w *World) LiveTasks() int {
	n := 0
	for _, t := range w.tasks {
		if t.Daemon && t.st != stDone {
			n++
		}
	}
	return n
}

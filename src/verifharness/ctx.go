package main

import (
	"errors"
	"flag"
	"fmt"
	"net/http"
	"net/rpc"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"verifreset"
	"verifsim/sim"
)

// Ctx is one run.
type Ctx struct {
	P      *Plan
	W      *sim.World
	fam    family
	viol   []Violation
	reqs   []*Req
	calls  []*Call
	faults map[string]int // fault kinds that fired
	probes map[string]int // rare conditions that were hit
	cur    map[int][]*Req // requests being served, per task
	opSeq  int
	jumps  []clockMark
	// where the path ends in a line of a listing, -1 if unknown
	splitPath func(line string) int
	leakFrom  uint64       // the leak check of C14 began here
	boot      [2]time.Time // the process started between these
	taskN     map[int]int  // task id -> workload index
	incon     int          // inconclusive searches
	ids       map[int]string
	idOf      map[string]int
	final     bool
	killed    bool
}

type clockMark struct {
	step uint64
	t    time.Time
}

// Call is one recorded application call.
type Call struct {
	Kind       string
	Task       int
	S, E       uint64 // steps
	NS, NE     time.Duration
	CS, CE     time.Time // clock
	A, B       int
	Str, Str2  string
	F          float64
	Res        string
	Err        error
	Val        any
	Panicked   bool
	PanicValue string
}

// Fail records a violation of a rule that belongs to the given properties.
func (c *Ctx) Fail(props string, rule, format string, args ...any) {
	ps := strings.Fields(props)
	ok := len(ps) == 0
	for _, p := range ps {
		if p == c.P.Prop {
			ok = true
		}
	}
	foreign := false
	if c.P.Prop == "C20" {
		ok = rule == "data-race"
	} else if a := attribs[c.P.Prop]; a != nil {
		// whatever goes wrong counts where it goes wrong only because of
		// the calls or faults the property is about
		foreign = !ok || len(ps) == 0 && !a.owns[rule]
		ok = true
	}
	if !ok {
		c.probes["other-property:"+rule]++
		return
	}
	if len(c.viol) < 20 {
		c.viol = append(c.viol, Violation{ps, rule, fmt.Sprintf(format, args...), foreign})
	}
}

// Begin and End bracket an application call.
func (c *Ctx) Begin(kind string) *Call {
	k := &Call{Kind: kind, Task: c.W.Cur().ID}
	c.calls = append(c.calls, k)
	k.CS = c.W.ClockValue()
	k.NS = c.W.Elapsed()
	k.S = c.W.Tick()
	return k
}

func (c *Ctx) End(k *Call) {
	c.W.Progress()
	k.E = c.W.Tick()
	k.CE = c.W.ClockValue()
	k.NE = c.W.Elapsed()
	c.W.Log("%s %s %v %d %d %q", k.Kind, k.Res, k.Panicked, k.A, k.B, k.Str)
}

// Do runs f as a call and records a panic.
func (c *Ctx) Do(kind string, f func(k *Call)) *Call {
	k := c.Begin(kind)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if se, ok := r.(sim.StuckError); ok {
					panic(se)
				}
				k.Panicked = true
				k.PanicValue = fmt.Sprint(r)
			}
		}()
		f(k)
	}()
	c.End(k)
	return k
}

// injectPanic fails like a metric callback does: with an error, a string or
// a run-time error.
func (c *Ctx) injectPanic() {
	switch c.W.Env.Intn(6) {
	case 0:
		panic(errors.New("injected callback error"))
	case 1:
		var m map[string]int
		m["injected"] = 1
	case 2:
		panic("panic: injected, write on a broken pipe")
	case 3:
		var l []int
		_ = l[len(c.reqs)]
	case 4:
		panic(fmt.Errorf("injected: %w", http.ErrAbortHandler))
	}
	panic("injected callback failure")
}

// clockRange is the span of clock values shown between two steps.
func (c *Ctx) clockSpan(s, e uint64, cs, ce time.Time) (lo, hi time.Time) {
	lo, hi = cs, ce
	if hi.Before(lo) {
		lo, hi = hi, lo
	}
	for _, j := range c.jumps {
		if j.step >= s && j.step <= e {
			if j.t.Before(lo) {
				lo = j.t
			}
			if j.t.After(hi) {
				hi = j.t
			}
		}
	}
	return
}

// jump steps the system clock.
func (c *Ctx) jump(d time.Duration) {
	c.jumps = append(c.jumps, clockMark{c.W.Tick(), c.W.ClockValue()})
	c.W.Jump(d)
	c.jumps = append(c.jumps, clockMark{c.W.Tick(), c.W.ClockValue()})
	if d < 0 {
		c.faults["clock_step_back"]++
	} else {
		c.faults["clock_step_forward"]++
	}
}

// Result is what one run yields.
type Result struct {
	Viol      []Violation
	Hash      uint64
	Steps     uint64
	Switches  int
	Preempts  int
	Elapsed   time.Duration
	Decisions []sim.Decision
	Trace     []string
	Faults    map[string]int
	Probes    map[string]int
	Pairs     map[uint64]struct{}
	Reqs      int
	Calls     int
	Incon     int
	Overlap   int
	History   []string
}

var devNull *os.File

// quietStdio silences what the library logs about failed requests.
func quietStdio() {
	f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	must(err)
	devNull = f
	os.Stderr = f
}

// runPlan executes one plan and says which broken rules count against the
// property.
func runPlan(p *Plan, trace bool) *Result {
	res := runOnce(p, trace)
	disown(p, res)
	return res
}

func runOnce(p *Plan, trace bool) *Result {
	http.DefaultServeMux = http.NewServeMux()
	rpc.DefaultServer = rpc.NewServer()
	flag.CommandLine = flag.NewFlagSet("app", flag.ContinueOnError)
	os.Args = procArgs[p.Knobs["args"]%len(procArgs)]
	sim.OpenFiles = 0
	sim.Opened, sim.ReadFaultFor = 0, nil
	opt := sim.Options{Policy: p.Policy, EnvSeed: p.EnvSeed, MaxSteps: p.MaxSteps, Race: p.Race, ClockGran: p.Gran, Trace: trace}
	if p.Replay {
		opt.Policy = p.Policy
		opt.Policy.Kind = sim.PolicyReplay
		opt.Decisions = p.Decisions
	}
	old := sim.W
	w := sim.NewWorld(opt)
	sim.W = w
	if old != nil {
		old.Kill()
		sim.W = w
	}
	c := &Ctx{P: p, W: w, fam: families[p.Family](), faults: map[string]int{}, probes: map[string]int{},
		cur: map[int][]*Req{}, taskN: map[int]int{}, ids: map[int]string{}, idOf: map[string]int{}}
	w.Quiet = true
	ok := c.guard("setup", func() {
		c.boot[0] = w.ClockValue()
		verifreset.All()
		c.boot[1] = w.ClockValue()
		c.fam.setup(c)
		if p.Idle[0] > 0 {
			sim.Sleep(time.Duration(p.Idle[0]))
		}
	})
	steps0 := w.Step()
	_ = steps0
	if ok {
		w.Quiet = false
		w.Progress()
		for i := range p.Tasks {
			i := i
			ops := p.Tasks[i]
			t := w.Spawn(fmt.Sprintf("task%d", i), nil, func() {
				for j := range ops {
					op := &ops[j]
					if op.Nap > 0 {
						sim.Sleep(time.Duration(op.Nap))
					}
					c.fam.exec(c, i, op)
					for n := 1; n <= op.Rep; n++ {
						again := *op
						again.B += n * op.Inc
						c.fam.exec(c, i, &again)
					}
				}
			})
			c.taskN[t.ID] = i
		}
		joined := false
		ok = c.guard("run", func() { joined = w.Join() })
		if ok && !joined {
			ok = false
			switch {
			case w.Crashed != nil && strings.HasPrefix(w.Crashed.Value, "harness:"):
				panic(w.Crashed.Value + "\n" + w.Crashed.Stack)
			case w.Crashed != nil:
				c.Fail("", "crash", "the process would have crashed: panic in %s: %s\n%s", w.Crashed.Task, w.Crashed.Value, firstLines(w.Crashed.Stack, 24))
			case w.Overrun:
				c.Fail("", "no-progress", "no call and no request has ended for %d steps: %s", p.MaxSteps, strings.Join(w.Blocked(), "; "))
			default:
				c.Fail("", "deadlock", "nothing can run any more: %s", strings.Join(w.Blocked(), "; "))
			}
		}
	}
	if ok {
		w.Quiet = true
		c.final = true
		w.Progress()
		ok = c.guard("final", func() {
			if p.Idle[1] > 0 {
				sim.Sleep(time.Duration(p.Idle[1]))
			}
			c.fam.final(c)
		})
		if w.Crashed != nil && ok {
			ok = false
			c.Fail("", "crash", "the process would have crashed: panic in %s: %s", w.Crashed.Task, w.Crashed.Value)
		}
	}
	if ok {
		c.fam.check(c)
	}
	if p.Race {
		for _, r := range w.Races {
			c.Fail("C20", "data-race", "%s", r.String())
		}
	}
	for _, v := range c.viol {
		w.Log("VIOLATION %s %s", v.Rule, v.Msg)
	}
	res := &Result{Viol: c.viol, Hash: w.Hash(), Steps: w.Step(), Switches: w.Switches(), Preempts: w.Preempts,
		Elapsed: w.Elapsed(), Decisions: w.Decisions(), Trace: w.TraceLines(), Faults: c.faults, Probes: c.probes,
		Pairs: w.SitePairs(), Reqs: len(c.reqs), Calls: len(c.calls), Incon: c.incon}
	if trace {
		res.History = c.history()
	}
	w.Kill()
	return res
}

func firstLines(s string, n int) string {
	l := strings.Split(s, "\n")
	if len(l) > n {
		l = l[:n]
	}
	return strings.Join(l, "\n")
}

// guard runs f in the main task and turns its being stuck into a violation.
func (c *Ctx) guard(phase string, f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
			switch r := r.(type) {
			case sim.StuckError:
				if c.W.Crashed != nil {
					c.Fail("", "crash", "the process would have crashed (%s): panic in %s: %s\n%s", phase, c.W.Crashed.Task, c.W.Crashed.Value, firstLines(c.W.Crashed.Stack, 24))
				} else if c.W.Overrun {
					c.Fail("", "no-progress", "%s phase: no call and no request has ended for %d steps: %s", phase, c.P.MaxSteps, r.Why)
				} else {
					c.Fail("", "deadlock", "%s phase: %s", phase, r.Why)
				}
			default:
				msg := fmt.Sprint(r)
				if strings.HasPrefix(msg, "harness:") {
					panic(r)
				}
				c.Fail("", "crash", "%s phase: unexpected panic: %s\n%s", phase, msg, firstLines(string(debug.Stack()), 30))
			}
		}
	}()
	f()
	return true
}

// history renders the recorded requests and calls.
func (c *Ctx) history() []string {
	var out []string
	for _, r := range c.reqs {
		out = append(out, r.String())
	}
	for _, k := range c.calls {
		s := fmt.Sprintf("[%d,%d] t%d %s", k.S, k.E, k.Task, k.Kind)
		if k.Str != "" {
			s += fmt.Sprintf(" %q", k.Str)
		}
		s += fmt.Sprintf(" a=%d b=%d f=%v -> %s", k.A, k.B, k.F, k.Res)
		if k.Err != nil {
			s += " err=" + k.Err.Error()
		}
		if k.Panicked {
			s += " PANIC " + k.PanicValue
		}
		out = append(out, s)
	}
	return out
}

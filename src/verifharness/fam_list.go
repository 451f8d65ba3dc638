package main

import (
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"verifsim/sim"
)

func init() {
	families["list"] = func() family { return &listFam{} }
	props["C08"] = propInfo{"list", 200000}
}

type alist struct {
	idx    int
	l      *tricorder.List
	kind   string
	unit   string
	paths  []string
	states []listState // every sequence passed in, by number
	ops    []*listOp
	last   map[int]*lastSlice // by task
}

// lastSlice is what a task passed to Change before.
type lastSlice struct {
	s     reflect.Value
	vals  []any
	kind  string
	owned bool // the caller may still write to it
}

type listState struct {
	vals []any
	call *Call
}

type listOp struct {
	kind  string // change snap
	s, e  uint64
	state int // for changes
	obs   *Obs
	fe    string
	bad   bool
	call  *Call
}

type listFam struct {
	lists []*alist
	reqs  []*Req
	r     *sim.Rand
}

var listKinds = []string{"bool", "int", "int8", "int16", "int32", "int64", "uint", "uint8", "uint16", "uint32", "uint64",
	"float32", "float64", "string", "time", "duration"}

func (f *listFam) gen(p *Plan, r *sim.Rand) {
	k := p.Knobs
	k["lists"] = 1 + r.Intn(2)
	k["kind"] = r.Intn(len(listKinds))
	if r.P(1, 3) {
		k["kind"] = pick(r, 1, 6) // int, uint
	}
	k["unit"] = r.Intn(3)
	k["init"] = r.Intn(1 << 16)
	mix := faultMix{maxOff: 500, stallNs: 2 * ms, long: 150, chunk: 250, gz: 150, cut: 60, stall: 150}
	jumps := r.P(1, 6)
	nt := 2 + r.Intn(4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			op := Op{A: r.Intn(k["lists"]), B: r.Intn(1 << 16), C: r.Intn(4)}
			switch x := r.Intn(100); {
			case x < 40:
				op.K = "change"
			case x < 48:
				op.K = "bad"
			case jumps && x < 55:
				op.K = "jump"
			default:
				op.K = "req"
				op.Fe = allFe[r.Intn(len(allFe))]
				if r.P(1, 3) && op.Fe != feJSON1 && op.Fe != feRPC1 {
					op.P = pick(r, "/l", "/")
				}
				mix.apply(r, &op)
			}
			if r.P(1, 8) {
				op.Nap = int64(r.Intn(int(ms)))
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

// makeSlice builds a slice of the kind; the values depend on the number of
// the state, so that most states differ in every element.
func (l *alist) makeSlice(kind string, state, seed int) (reflect.Value, []any) {
	r := sim.NewRand(uint64(seed))
	n := r.Intn(6)
	switch {
	case r.P(1, 150):
		n = pick(r, 70, 130, 300, 1100)
	case r.P(1, 25):
		n = pick(r, 7, 8, 10, 12, 16, 20, 32, 64, 100, 128, 256)
	}
	t := reflect.SliceOf(goType(kind))
	s := reflect.MakeSlice(t, n, n+r.Intn(3))
	if n == 0 && r.P(1, 2) {
		s = reflect.Zero(t)
	}
	var vals []any
	for i := 0; i < n; i++ {
		v := verVal(kind, state*6+i, 1)
		s.Index(i).Set(reflect.ValueOf(v))
		vals = append(vals, v)
	}
	return s, vals
}

// scribble overwrites a slice the caller still owns.
func scribble(s reflect.Value, kind string) {
	for i := 0; i < s.Len(); i++ {
		s.Index(i).Set(reflect.ValueOf(verVal(kind, -1, 0)))
		sim.SY(0)
	}
}

// argKind is the kind of slice a caller passes: int and int64 slices may
// take turns, as may uint and uint64.
func argKind(kind string, r *sim.Rand) string {
	if r.P(1, 4) {
		switch kind {
		case "int":
			return "int64"
		case "int64":
			return "int"
		case "uint":
			return "uint64"
		case "uint64":
			return "uint"
		}
	}
	return kind
}

func (f *listFam) setup(c *Ctx) {
	k := c.P.Knobs
	f.r = sim.NewRand(uint64(k["init"]))
	for i := 0; i < k["lists"]; i++ {
		l := &alist{idx: i, kind: listKinds[(k["kind"]+i*5)%len(listKinds)], unit: uNone, last: map[int]*lastSlice{}}
		if l.kind == "duration" || l.kind == "time" {
			l.unit = []string{uSec, uMs, uNone}[k["unit"]]
		}
		s, vals := l.makeSlice(l.kind, 0, k["init"]+i)
		mutable := f.r.P(1, 2)
		call := c.Do("NewList", func(*Call) { l.l = tricorder.NewList(s.Interface(), mutable) })
		if call.Panicked {
			c.Fail("C08", "new-panic", "NewList(%v) panicked: %s", s, call.PanicValue)
			return
		}
		l.states = append(l.states, listState{vals, call})
		if mutable || l.kind == "int" || l.kind == "uint" {
			scribble(s, l.kind)
		}
		for j := 0; j <= f.r.Intn(2); j++ {
			p := fmt.Sprintf("/l/x%d_%d", i, j)
			must(tricorder.RegisterMetric(p, l.l, units.Unit(l.unit), "list "+p))
			l.paths = append(l.paths, p)
		}
		f.lists = append(f.lists, l)
	}
}

func (f *listFam) exec(c *Ctx, task int, op *Op) {
	if len(f.lists) == 0 {
		return
	}
	l := f.lists[op.A%len(f.lists)]
	r := sim.NewRand(uint64(op.B) + 17)
	switch op.K {
	case "jump":
		c.jump(time.Duration(op.B%2000-1000) * time.Second)
	case "req":
		path := op.P
		if path == "" {
			path = l.paths[op.B%len(l.paths)]
		}
		f.observe(c, c.request(op.Fe, path, op))
	case "change":
		kind := argKind(l.kind, r)
		st := len(l.states)
		s, vals := l.makeSlice(kind, st, op.B)
		if rk(kind) != rk(l.kind) {
			panic("harness: kinds")
		}
		mutable, again := op.C%2 == 0, false
		if p := l.last[task]; p != nil && r.P(1, 3) {
			kind, s, vals = p.kind, p.s, p.vals
			if p.owned {
				// the caller fills its buffer anew
				c.probes["buffer-reused"]++
				mutable = mutable || kind != "int" && kind != "uint"
				s, vals = s.Slice(0, r.Intn(s.Cap()+1)), nil
				for i := 0; i < s.Len(); i++ {
					v := verVal(kind, st*6+i, 1)
					s.Index(i).Set(reflect.ValueOf(v))
					vals = append(vals, v)
				}
			} else {
				// the same values again, or some of them
				c.probes["slice-passed-again"]++
				again = true // it must not change from now on
				if n := s.Len(); n > 0 && r.P(1, 2) {
					a := r.Intn(n)
					b := a + r.Intn(n-a+1)
					s, vals = s.Slice(a, b), vals[a:b]
				}
			}
		}
		l.states = append(l.states, listState{vals: conv(l.kind, kind, vals)})
		o := &listOp{kind: "change", state: st}
		o.call = c.Do("Change", func(k *Call) {
			k.A, k.B = l.idx, st
			l.l.Change(s.Interface(), mutable)
		})
		l.states[st].call = o.call
		o.s, o.e, o.bad = o.call.S, o.call.E, o.call.Panicked
		if o.bad {
			c.Fail("C08", "change-panic", "Change(%v) of a list of %s panicked: %s", s.Type(), l.kind, o.call.PanicValue)
			return
		}
		l.ops = append(l.ops, o)
		if !again {
			l.last[task] = &lastSlice{s, vals, kind, mutable || kind == "int" || kind == "uint"}
		}
		if !again && l.last[task].owned {
			c.probes["slice-modified-by-caller"]++
			scribble(s, kind)
		}
	case "bad":
		// another element type, or no slice at all
		var arg any
		switch op.C {
		case 0:
			arg = 42
		case 1:
			arg = []*int64{}
		default:
			other := listKinds[op.B%len(listKinds)]
			for rk(other) == rk(l.kind) {
				other = listKinds[(indexOf(listKinds, other)+1)%len(listKinds)]
			}
			s, _ := l.makeSlice(other, 1, op.B)
			arg = s.Interface()
		}
		o := &listOp{kind: "bad"}
		o.call = c.Do("Change-bad", func(k *Call) { l.l.Change(arg, op.B%2 == 0) })
		if !o.call.Panicked {
			c.Fail("C08", "bad-change-accepted", "Change to %T was accepted by a list of %s", arg, l.kind)
		}
		c.probes["rejected-change"]++
	}
}

func rk(kind string) string {
	switch kind {
	case "int":
		return "int64"
	case "uint":
		return "uint64"
	}
	return kind
}

func indexOf(xs []string, x string) int {
	for i, y := range xs {
		if x == y {
			return i
		}
	}
	return -1
}

// conv expresses values of one kind as values of an equivalent kind.
func conv(to, from string, vals []any) []any {
	if to == from {
		return vals
	}
	var out []any
	for _, v := range vals {
		out = append(out, reflect.ValueOf(v).Convert(goType(to)).Interface())
	}
	return out
}

func (f *listFam) observe(c *Ctx, r *Req) {
	f.reqs = append(f.reqs, r)
	if !r.ok() {
		return
	}
	for _, o := range r.Obs {
		for _, l := range f.lists {
			for _, p := range l.paths {
				if p == o.Path {
					l.ops = append(l.ops, &listOp{kind: "snap", s: r.S, e: r.E, obs: o, fe: r.Fe})
				}
			}
		}
	}
}

func (f *listFam) final(c *Ctx) {
	for _, fe := range listFe {
		if f.r.P(1, 2) {
			f.observe(c, c.request(fe, "/l", nil))
		}
	}
}

func (f *listFam) check(c *Ctx) {
	for _, r := range f.reqs {
		c.checkWellFormed("C08", r)
	}
	for _, l := range f.lists {
		f.checkList(c, l)
	}
}

// shows reports whether an observation shows the state.
func (l *alist) shows(c *Ctx, o *listOp, st int) bool {
	x := l.states[st]
	if !listMatches(o.fe, l.kind, l.unit, x.vals, o.obs) {
		return false
	}
	if o.obs.HasTS {
		k := x.call
		lo, hi := c.clockSpan(k.S, k.E, k.CS, k.CE)
		if o.obs.TS.Before(lo) || o.obs.TS.After(hi) {
			return false
		}
	}
	return true
}

func (f *listFam) checkList(c *Ctx, l *alist) {
	ops := make([]linOp, len(l.ops))
	key := func(n int) string { return fmt.Sprint(n) }
	for i, o := range l.ops {
		o := o
		ops[i] = linOp{s: o.s, e: o.e}
		if o.kind == "change" {
			ops[i].step = func(st, _ any) []linNext {
				return []linNext{{st: o.state, key: key(o.state), done: true}}
			}
			continue
		}
		if o.obs.Meta {
			want := rpcKind(l.kind)
			if o.fe == feJSON || o.fe == feJSON1 || o.fe == feHTML {
				want = jsonKind(l.kind)
			}
			if o.obs.Kind != "list" || o.obs.Sub != want || o.obs.Unit != l.unit {
				c.Fail("C08", "list-type", "%s reports %s of %s in %s for a list of %s in %s", o.fe, o.obs.Kind, o.obs.Sub, o.obs.Unit, l.kind, l.unit)
			}
		}
		any1 := false
		okState := make([]bool, len(l.states))
		for st := range l.states {
			if l.states[st].call != nil && l.states[st].call.E != 0 {
				okState[st] = l.shows(c, o, st)
				any1 = any1 || okState[st]
			}
		}
		if !any1 {
			c.Fail("C08", "unknown-list", "%s shows %v%v%v%v at %v, which is no list ever passed in with the time it was passed", o.fe, o.obs.Text, o.obs.Items, o.obs.Go, o.obs.JSON, o.obs.TS.UTC())
			return
		}
		ops[i].step = func(st, _ any) []linNext {
			if !okState[st.(int)] {
				return nil
			}
			return []linNext{{st: st, key: key(st.(int)), done: true, same: true}}
		}
	}
	res, stuck := linearize(ops, 0, key(0), 100000)
	switch res {
	case linUnknown:
		c.incon++
	case linBad:
		var why []string
		for _, i := range stuck {
			o := l.ops[i]
			if o.kind == "change" {
				why = append(why, fmt.Sprintf("[%d,%d] Change to state %d %v", o.s, o.e, o.state, l.states[o.state].vals))
			} else {
				why = append(why, fmt.Sprintf("[%d,%d] %s shows %v%v%v%v", o.s, o.e, o.fe, o.obs.Text, o.obs.Items, o.obs.Go, o.obs.JSON))
			}
		}
		c.Fail("C08", "not-linearizable", "no order of the Changes explains what was reported; unexplained:\n    %s", strings.Join(why, "\n    "))
	}
}

package main

import (
	"fmt"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"verifsim/sim"
)

// C20 and C14 run the workloads of the other families: C20 with every
// memory access of the library checked for happens-before order, C14 with
// many more failing clients and callbacks and a leak check at the end.

var raceSubs = []string{"group", "group", "dist", "list", "reg", "reg", "health", "render", "nan", "proc", "bytes", "live", "live", "live"}
var faultSubs = []string{"group", "group", "group", "dist", "list", "reg", "health", "render", "proc", "bytes"}

func init() {
	families["race"] = func() family { return &raceFam{} }
	families["fault"] = func() family { return &faultFam{} }
	for _, s := range append(append([]string{}, raceSubs...), faultSubs...) {
		s := s
		families["race/"+s] = func() family { return &raceFam{sub: families[s]()} }
		families["fault/"+s] = func() family { return &faultFam{sub: families[s]()} }
	}
	props["C20"] = propInfo{"race", 200000}
	props["C14"] = propInfo{"fault", 200000}
}

type raceFam struct{ sub family }

func (f *raceFam) gen(p *Plan, r *sim.Rand) {
	s := raceSubs[r.Intn(len(raceSubs))]
	p.Family = "race/" + s
	p.Race = true
	families[s]().gen(p, r)
}
func (f *raceFam) setup(c *Ctx)                  { f.sub.setup(c) }
func (f *raceFam) exec(c *Ctx, task int, op *Op) { f.sub.exec(c, task, op) }
func (f *raceFam) final(c *Ctx)                  { f.sub.final(c) }
func (f *raceFam) check(c *Ctx)                  {}

type faultFam struct{ sub family }

func (f *faultFam) gen(p *Plan, r *sim.Rand) {
	s := faultSubs[r.Intn(len(faultSubs))]
	p.Family = "fault/" + s
	families[s]().gen(p, r)
	off := map[string]int{"health": 12, "bytes": 3000, "proc": 2000, "reg": 600}[s]
	if off == 0 {
		off = 1200
	}
	mix := faultMix{maxOff: off, stallNs: 4 * ms, long: 150, chunk: 100, cut: pick(r, 300, 600), stall: pick(r, 0, 300)}
	panics := pick(r, 0, 200, 500)
	for _, t := range p.Tasks {
		for i := range t {
			op := &t[i]
			if op.Fe == "" && op.K != "req" {
				continue
			}
			enc := op.Enc
			mix.apply(r, op)
			op.Enc = enc
			if s == "group" && r.Intn(1000) < panics && op.Fe != feRPC && op.Fe != feRPC1 && op.Fe != feRead {
				op.Panic = 1 + r.Intn(3)
			}
		}
	}
	if r.P(1, 3) {
		p.Knobs["leak"] = 16 + r.Intn(1<<16)
		p.MaxSteps *= 3
	}
}

func (f *faultFam) setup(c *Ctx)                  { f.sub.setup(c) }
func (f *faultFam) exec(c *Ctx, task int, op *Op) { f.sub.exec(c, task, op) }

func (f *faultFam) final(c *Ctx) {
	f.sub.final(c)
	if c.P.Knobs["leak"] > 0 {
		f.leaks(c)
	}
}

func (f *faultFam) check(c *Ctx) { f.sub.check(c) }

// leaks repeats batches of failing requests on a tree of its own and looks
// at what they leave behind.
func (f *faultFam) leaks(c *Ctx) {
	const root = "/zz.leak"
	c.leakFrom = c.W.Tick()
	r := sim.NewRand(uint64(c.P.Knobs["leak"]))
	g := tricorder.NewGroup()
	var val int64
	upd := 0
	boom := false
	g.RegisterUpdateFunc(func() time.Time { upd++; val = int64(upd); return time.Unix(1000+int64(upd), 0) })
	must(g.RegisterMetric(root+"/a", &val, units.None, "a"))
	must(g.RegisterMetric(root+"/b", func() int64 {
		if boom {
			c.current().CBPanic = true
			c.faults["callback_panic"]++
			c.injectPanic()
		}
		return val
	}, units.None, "b"))
	must(g.RegisterMetric(root+"/c", &val, units.None, "c"))
	l := tricorder.NewList([]string{"x", "y"}, tricorder.ImmutableSlice)
	must(tricorder.RegisterMetric(root+"/l", l, units.None, "l"))
	d := tricorder.PowersOfTwo.NewCumulativeDistribution()
	must(tricorder.RegisterMetric(root+"/d", d, units.None, "d"))
	d.Add(3.0)
	type plan struct {
		fe, path string
		op       Op
		boom     bool
	}
	var batch []plan
	for i := 0; i < 6; i++ {
		x := plan{fe: pick(r, feHTML, feText, feJSON, feJSON1, feRPC, feRPC1), path: root}
		if x.fe == feJSON1 || x.fe == feRPC1 || r.P(1, 4) {
			x.path = root + pick(r, "/a", "/b", "/c", "/l", "/d")
		}
		if r.P(1, 8) && x.fe != feJSON1 && x.fe != feRPC1 {
			x.path = "/proc"
		}
		switch r.Intn(5) {
		case 0, 1:
			x.op.Cut = 1 + pickOff(r, 500)
		case 2:
			x.op.Stall, x.op.StallAt = sec, pickOff(r, 400)
		default:
			if x.fe != feRPC && x.fe != feRPC1 {
				x.boom = true
			} else {
				x.op.Cut = 1 + r.Intn(40)
			}
		}
		if r.P(1, 3) {
			x.op.Enc = "gzip"
		}
		if r.P(1, 4) {
			x.op.Chunk = 20
		}
		batch = append(batch, x)
	}
	live := 0
	rounds := 4
	if r.P(1, 12) {
		rounds = pick(r, 20, 45)
		if r.P(2, 3) {
			// always the same failure
			if r.P(1, 3) {
				x := &batch[0]
				x.fe, x.path, x.op, x.boom = pick(r, feJSON, feJSON, feJSON1, feText, feHTML), root+"/b", Op{Enc: pick(r, "", "gzip")}, true
			}
			for i := range batch {
				batch[i] = batch[0]
			}
		}
	}
	for round := 0; round < rounds; round++ {
		for i := range batch {
			x := &batch[i]
			op := x.op
			boom = x.boom
			c.request(x.fe, x.path, &op)
			boom = false
			// the group must be free again
			u0 := upd
			fe := pick(r, allFe...)
			var after Op
			if r.P(1, 3) {
				after.Enc = "gzip"
			}
			q := c.request(fe, root+"/a", &after)
			if upd != u0+1 {
				c.Fail("C14", "group-held", "after %s %s (cut %d, panic %v) a new request %s ran the group's update function %d times, not once", x.fe, x.path, x.op.Cut, x.boom, fe, upd-u0)
				return
			}
			if len(q.Obs) != 1 || !matches(fe, "int64", uNone, int64(upd), q.Obs[0]) {
				c.Fail("C14", "bad-after-fault", "after %s %s (cut %d, panic %v) a new request got %s, want %d", x.fe, x.path, x.op.Cut, x.boom, q, upd)
				return
			}
		}
		// let everything that was started in the background finish
		sim.Sleep(2 * time.Hour)
		if sim.OpenFiles != 0 {
			c.Fail("C14", "open-files", "%d files are still open after all requests have ended", sim.OpenFiles)
			return
		}
		n := c.W.LiveTasks()
		if round == rounds-1 && n > live {
			c.Fail("C14", "task-leak", "the same batch of failing requests left %d background tasks, then %d", live, n)
		}
		live = n
	}
	tricorder.UnregisterPath(root)
}

// attrib describes how a property takes responsibility for rules of its
// family that are not its own: a broken rule counts if it is kept when the
// property's calls or faults take place and not when they are left out.
type attrib struct {
	owns  map[string]bool // general rules that always count
	strip func(p *Plan) bool
}

var attribs = map[string]*attrib{
	"C14": {map[string]bool{"crash": true}, func(p *Plan) bool {
		for _, t := range p.Tasks {
			for j := range t {
				t[j].Cut, t[j].Stall, t[j].StallAt, t[j].Panic = 0, 0, 0, 0
			}
		}
		return true
	}},
	"C04": {map[string]bool{"crash": true, "deadlock": true, "no-progress": true}, func(p *Plan) bool {
		return stripOps(p, "setfn")
	}},
	"C07": {map[string]bool{"crash": true, "deadlock": true, "no-progress": true}, func(p *Plan) bool {
		return stripOps(p, "badadd", "badupdate", "badremove", "emptyremove", "emptyupdate", "mixupdate", "reg", "tempreg")
	}},
}

// stripOps leaves out calls of the given kinds; it says if there were any.
func stripOps(p *Plan, kinds ...string) bool {
	any := false
	for i, t := range p.Tasks {
		var keep []Op
	next:
		for _, o := range t {
			for _, k := range kinds {
				if o.K == k {
					any = true
					continue next
				}
			}
			keep = append(keep, o)
		}
		p.Tasks[i] = keep
	}
	return any
}

// disown drops violations that also happen without what the property is
// about: they belong to another property.
func disown(p *Plan, res *Result) {
	var foreign bool
	for _, v := range res.Viol {
		foreign = foreign || v.Foreign
	}
	if !foreign {
		return
	}
	a := attribs[p.Prop]
	rules := map[string]bool{}
	all := false
	for i := 0; i < 25; i++ {
		q := p.clone()
		if !a.strip(q) {
			all = true
			break
		}
		if i > 0 || q.Replay {
			q.Replay, q.Decisions = false, nil
			q.Policy = genPolicy(sim.NewRand(sim.Mix(p.Seed, uint64(i)+77)))
		}
		for _, v := range runOnce(q, false).Viol {
			rules[v.Rule] = true
		}
	}
	var keep []Violation
	for _, v := range res.Viol {
		if !v.Foreign || !all && !rules[v.Rule] {
			keep = append(keep, v)
		} else {
			res.Probes[fmt.Sprintf("not-attributed:%s", v.Rule)]++
		}
	}
	res.Viol = keep
}

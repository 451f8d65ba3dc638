package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/healthserver"
	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"verifsim/sim"
)

func init() {
	families["live"] = func() family { return &liveFam{} }
	props["C16"] = propInfo{"live", 200000}
}

// liveFam mixes every public operation with clients that stop reading for an
// hour, update functions and callbacks that take an hour, and callbacks that
// use the library themselves. Simulated time only moves when nothing can
// run, so an operation that takes longer than a minute was made to wait for
// one of them.
type liveFam struct {
	r       *sim.Rand
	groups  []*tricorder.Group // two fast ones, then the slow one
	vals    []*int64
	dist    *tricorder.CumulativeDistribution
	ndist   *tricorder.NonCumulativeDistribution
	list    *tricorder.List
	slow    []string // paths of metrics that take an hour to read
	seq     int
	depth   map[int]int
	nestReq int
}

const livePatience = time.Minute

var livePaths = []string{"/fast", "/fast/a", "/fast/b", "/fast/d", "/fast/l", "/fast/n", "/mix", "/mix/f", "/mix/d", "/mix/n", "/dyn", "/dyn/p", "/", "/slow", "/slow/u", "/mix/s", "/proc", "/proc/cpu"}
var liveMetrics = []string{"/fast/a/x", "/fast/a/y", "/fast/b/x", "/fast/d/c", "/fast/d/n", "/fast/l", "/fast/n/x", "/fast/n/y", "/mix/f", "/mix/d", "/mix/n", "/mix/s", "/slow/c", "/slow/u/x", "/dyn/p/m0", "/dyn/m1", "/fast/e", "/fast/e", "/proc/name", "/proc/cpu/sys"}

func (f *liveFam) gen(p *Plan, r *sim.Rand) {
	k := p.Knobs
	k["init"] = r.Intn(1 << 16)
	k["slowfn"] = r.Intn(2)
	k["slowcb"] = r.Intn(2)
	k["nest"] = r.Intn(4)
	k["updops"] = r.Intn(3)
	if r.P(1, 60) {
		k["bulk"] = pick(r, 70, 300, 1100)
	}
	mix := faultMix{maxOff: 900, stallNs: 1, chunk: 150, gz: 150}
	if r.P(1, 2) {
		mix.cut = 100
	}
	mix.stall = pick(r, 0, 200, 400)
	hot := ""
	if r.P(1, 2) {
		hot = livePaths[r.Intn(12)]
	}
	hot2 := r.P(1, 12)
	nt := 3 + r.Intn(4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			op := Op{A: r.Intn(1 << 10), B: r.Intn(1 << 16)}
			switch x := r.Intn(100); {
			case x < 50:
				op.K = "req"
				op.Fe = allFe[r.Intn(len(allFe))]
				if op.Fe == feJSON1 || op.Fe == feRPC1 || r.P(1, 4) {
					op.P = liveMetrics[r.Intn(len(liveMetrics))]
				} else {
					op.P = livePaths[r.Intn(len(livePaths))]
					if hot != "" && r.P(1, 2) {
						op.P = hot
					}
				}
				mix.apply(r, &op)
				if op.Stall > 0 {
					op.Stall = hour
				}
			case hot2:
				op.K = pick(r, "health", "raw")
				op.Stall, op.StallAt = pick(r, 0, hour), 0
			default:
				op.K = pick(r, "reg", "reg", "unreg", "unregdir", "regdir", "dist", "dist", "dist", "list", "setfn", "group", "health", "raw", "setslow")
				if op.K == "raw" {
					mix.apply(r, &op)
					if op.Stall > 0 {
						op.Stall, op.StallAt = hour, pick(r, 0, 0, 1, op.StallAt)
					}
				}
			}
			if r.P(1, 5) {
				op.Nap = int64(r.Intn(int(ms)))
			}
			if r.P(1, 40) {
				op.Nap = hour / 2
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(1, 80) {
		// many clients that stop reading at once; the others come later
		for _, t := range p.Tasks {
			t[0].Nap = 5 * ms
		}
		p.MaxSteps *= 3
		fe := allFe[r.Intn(6)]
		enc := pick(r, "", "gzip")
		for n := pick(r, 9, 20, 40, 75, 140); n > 0; n-- {
			op := Op{K: "req", Fe: fe, P: livePaths[r.Intn(6)], Stall: hour, Enc: enc}
			if op.Fe == feJSON1 || op.Fe == feRPC1 {
				op.P = "/fast/a/x"
			}
			p.Tasks = append(p.Tasks, []Op{op})
		}
	}
}

func (f *liveFam) setup(c *Ctx) {
	k := c.P.Knobs
	f.r = sim.NewRand(uint64(k["init"]))
	f.depth = map[int]int{}
	for i := 0; i < 3; i++ {
		f.groups = append(f.groups, tricorder.NewGroup())
		f.setfn(c, i)
	}
	reg := func(p string, g int, m any) {
		gr := tricorder.DefaultGroup
		if g >= 0 {
			gr = f.groups[g]
		}
		must(gr.RegisterMetric(p, m, units.None, "live "+p))
	}
	val := func() *int64 { v := new(int64); f.vals = append(f.vals, v); return v }
	reg("/fast/a/x", 0, val())
	reg("/fast/a/y", 0, func() int64 { return 3 })
	reg("/fast/b/x", 1, val())
	nan := math.NaN()
	reg("/fast/e", 1, &nan) // asked for alone in JSON, it yields an error page
	f.dist = tricorder.PowersOfTwo.NewCumulativeDistribution()
	f.ndist = tricorder.PowersOfTen.NewNonCumulativeDistribution()
	must(tricorder.RegisterMetric("/fast/d/c", f.dist, units.None, "c"))
	must(tricorder.RegisterMetric("/fast/d/n", f.ndist, units.None, "n"))
	must(tricorder.RegisterMetric("/mix/d", f.dist, units.None, "c"))
	f.list = tricorder.NewList([]int32{1, 2}, tricorder.ImmutableSlice)
	must(tricorder.RegisterMetric("/fast/l", f.list, units.None, "l"))
	must(tricorder.RegisterMetric("/mix/l", f.list, units.None, "l"))
	reg("/mix/f", 0, val())
	reg("/mix/g", 1, val())
	reg("/fast/n/x", 0, func() int64 { return f.nested(c, "/fast/n/x", k["nest"]) })
	reg("/fast/n/y", -1, func() int64 { return f.nested(c, "/fast/n/y", k["nest"]+1) })
	reg("/mix/n", 1, func() int64 { return f.nested(c, "/mix/n", k["nest"]+2) })
	f.slow = append(f.slow, "/slow/u/x", "/mix/s")
	reg("/slow/u/x", 2, val())
	reg("/mix/s", 2, val())
	if k["slowcb"] > 0 {
		f.slow = append(f.slow, "/slow/c")
		g := f.r.Intn(3) - 1
		if k["slowcb"] == 1 {
			reg("/slow/c", g, func() int64 {
				c.faults["slow_callback"]++
				sim.Sleep(time.Hour)
				return 9
			})
		}
	}
	must(tricorder.RegisterMetric("/dyn/p/m0", new(int), units.None, "m0"))
}

// setfn installs an update function; that of group 2 takes an hour.
func (f *liveFam) setfn(c *Ctx, g int) {
	f.seq++
	n := f.seq
	f.groups[g].RegisterUpdateFunc(func() time.Time {
		if g == 2 && c.P.Knobs["slowfn"] > 0 && !c.final {
			c.faults["slow_update"]++
			sim.Sleep(time.Hour)
		}
		sim.SY(0)
		// what applications do in update functions
		switch (n + c.P.Knobs["updops"]) % 4 {
		case 1:
			f.dist.Add(float64(n))
		case 2:
			f.list.Change([]int32{int32(n)}, tricorder.ImmutableSlice)
			f.seq++
			tricorder.RegisterMetric(fmt.Sprintf("/dyn/u%d", f.seq%5), new(int64), units.None, "by update")
			tricorder.UnregisterPath(fmt.Sprintf("/dyn/u%d", (f.seq+2)%5))
		}
		return c.W.Clock()
	})
}

// nested is a callback that uses the library.
func (f *liveFam) nested(c *Ctx, self string, what int) int64 {
	t := c.W.Cur().ID
	if f.depth[t] > 0 || c.current() == nil {
		return 1
	}
	f.depth[t]++
	defer func() { f.depth[t]-- }()
	c.probes["nested-callback"]++
	f.seq++
	op := &Op{Chunk: 0}
	switch what % 7 {
	case 0:
		tricorder.RegisterMetric(fmt.Sprintf("/dyn/n%d", f.seq%7), new(int64), units.None, "nested")
		tricorder.UnregisterPath(fmt.Sprintf("/dyn/n%d", (f.seq+3)%7))
	case 1:
		f.sane(c, c.request(feRead, "/fast", op))
	case 2:
		f.sane(c, c.request(feJSON, "/fast/a", op))
		f.sane(c, c.request(feHTML, "/fast/a", op))
	case 3:
		f.dist.Add(1.0)
		f.ndist.Count()
		f.list.Change([]int32{7, 8}, tricorder.MutableSlice)
	case 4:
		tricorder.UnregisterPath(self)
		d, err := tricorder.RegisterDirectory("/dyn/p")
		if err == nil {
			d.RegisterMetric(fmt.Sprintf("n%d", f.seq%3), new(int64), units.None, "nested")
		}
	case 5:
		f.sane(c, c.request(feRPC, "/fast/n", op))
		f.sane(c, c.request(feText, "/mix/n", op))
	case 6:
		g := tricorder.NewGroup()
		g.RegisterUpdateFunc(func() time.Time { return c.W.Clock() })
		tricorder.RegisterMetricInGroup(fmt.Sprintf("/dyn/g%d", f.seq%5), new(int64), g, units.None, "nested")
		f.sane(c, c.request(feRPC, fmt.Sprintf("/dyn/g%d", f.seq%5), op))
	}
	return 1
}

func (f *liveFam) sane(c *Ctx, r *Req) {
	f.nestReq++
	if r.ok() && (r.BadBody != "" || r.IsErr) {
		c.Fail("C16", "nested-broken", "a request made inside a callback failed: %s", r)
	}
}

// isSlow reports whether the request reads a metric that takes an hour.
func (f *liveFam) isSlow(fe, path string) bool {
	p := cleanPath(path)
	for _, m := range f.slow {
		switch {
		case m == p:
			return true
		case fe == feJSON1 || fe == feRPC1:
		case fe == feHTML:
			if m[:strings.LastIndexByte(m, '/')] == strings.TrimSuffix(p, "/") {
				return true
			}
		case p == "/" || strings.HasPrefix(m, p+"/"):
			return true
		}
	}
	return false
}

func (f *liveFam) exec(c *Ctx, task int, op *Op) {
	t0 := c.W.Elapsed()
	what := op.K
	limit := livePatience
	any1 := func() string { return fmt.Sprintf("/dyn/%sm%d", []string{"", "p/", "q/"}[op.A%3], op.B%4) }
	switch op.K {
	case "req":
		r := c.request(op.Fe, op.P, op)
		what = r.Fe + " " + r.Path
		if f.isSlow(op.Fe, op.P) {
			return
		}
		if r.Stalled {
			limit += time.Duration(op.Stall)
		}
	case "raw":
		u := []string{"/healthz", "/readiness", "/has-tricorder-metrics", "/metricsstatic/theme.css"}[op.A%4]
		r := c.request(feRaw, u, op)
		what = u
		if r.Stalled {
			limit += time.Duration(op.Stall)
		}
	case "reg":
		c.Do("RegisterMetric", func(k *Call) {
			k.Str = any1()
			if op.A%5 == 0 {
				k.Str = fmt.Sprintf("/mix/dyn%d", op.B%3)
			}
			k.Err = f.groups[op.B%2].RegisterMetric(k.Str, new(int32), units.None, "dyn")
		})
	case "unreg":
		c.Do("UnregisterPath", func(k *Call) {
			k.Str = any1()
			switch op.A % 7 {
			case 0:
				k.Str = "/dyn/p"
			case 1:
				k.Str = fmt.Sprintf("/mix/dyn%d", op.B%3)
			case 2:
				k.Str = []string{"/slow/c", "/slow", "/mix/s", "/dyn"}[op.B%4]
			}
			tricorder.UnregisterPath(k.Str)
		})
	case "regdir", "unregdir":
		c.Do("RegisterDirectory", func(k *Call) {
			k.Str = []string{"/dyn/p", "/dyn/q", "/dyn", "/dyn/p/r"}[op.A%4]
			d, err := tricorder.RegisterDirectory(k.Str)
			if err != nil {
				return
			}
			d.RegisterMetric(fmt.Sprintf("m%d", op.B%4), new(string), units.None, "dyn")
			if op.K == "unregdir" {
				d.UnregisterDirectory()
			}
		})
	case "dist":
		c.Do("dist", func(k *Call) {
			v := float64(op.B % 1000)
			switch op.A % 6 {
			case 0, 1:
				f.dist.Add(v)
			case 2:
				f.ndist.Add(v)
			case 3:
				f.ndist.Sum()
				f.ndist.Count()
			case 4:
				f.ndist.Add(v)
				f.ndist.Update(v, v+1)
			case 5:
				f.ndist.Add(v)
				f.ndist.Remove(v)
			}
		})
	case "list":
		c.Do("Change", func(k *Call) { f.list.Change([]int32{int32(op.B), int32(op.A)}, op.A%2 == 0) })
	case "setfn":
		c.Do("RegisterUpdateFunc", func(k *Call) { k.A = op.A % 2; f.setfn(c, k.A) })
	case "setslow":
		c.Do("RegisterUpdateFunc(slow)", func(k *Call) { f.setfn(c, 2) })
		return
	case "group":
		c.Do("NewGroup", func(k *Call) {
			g := tricorder.NewGroup()
			g.RegisterMetric(any1(), new(bool), units.None, "dyn")
			g.RegisterUpdateFunc(func() time.Time { sim.SY(0); return c.W.Clock() })
			tricorder.PowersOfTwo.NewCumulativeDistribution()
			for i := 0; i < c.P.Knobs["bulk"]; i++ {
				tricorder.PowersOfTwo.NewNonCumulativeDistribution()
			}
		})
	case "health":
		c.Do("health", func(k *Call) {
			switch op.A % 4 {
			case 0:
				healthserver.SetHealthy()
			case 1:
				healthserver.SetNotHealthy("bad")
			case 2:
				healthserver.SetReady()
			case 3:
				healthserver.SetNotReady("bad")
			}
		})
	}
	if d := c.W.Elapsed() - t0; d >= limit {
		c.Fail("C16", "delayed", "%s took %v of simulated time although it depends on no slow client, update function or callback", what, d)
	}
}

func (f *liveFam) final(c *Ctx) {
	if c.P.Knobs["slowcb"] == 1 {
		tricorder.UnregisterPath("/slow/c")
	}
	for i, fe := range allFe {
		p := livePaths[(c.P.Knobs["init"]+i*5)%13]
		t0 := c.W.Elapsed()
		c.request(fe, p, nil)
		if d := c.W.Elapsed() - t0; d >= livePatience {
			c.Fail("C16", "delayed", "%s %s took %v of simulated time after all faults were over", fe, p, d)
		}
	}
}

func (f *liveFam) check(c *Ctx) {}

package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"verifsim/sim"
)

func init() {
	families["nan"] = func() family { return &nanFam{} }
	props["C17"] = propInfo{"nan", 200000}
}

// nanSet is one value a metric took, with the call that set it.
type nanSet struct {
	v    float64
	s, e uint64
}

type nanMetric struct {
	path  string
	kind  string // float32 float64 int
	fn    bool
	flip  bool // the callback changes its mind at every call
	x     *cell
	hist  []nanSet
	calls []nanSet // values returned by a flipping callback
	n     int
	salt  int
}

type nanFam struct {
	ms    []*nanMetric
	lists []*tricorder.List
	dists []func(float64)
	reqs  []*Req
	r     *sim.Rand
	rest  []string // paths of lists and distributions
	ok    map[string]bool
}

func finite(f float64) bool { return !math.IsNaN(f) && !math.IsInf(f, 0) }

func (f *nanFam) gen(p *Plan, r *sim.Rand) {
	k := p.Knobs
	k["init"] = r.Intn(1 << 20)
	k["n"] = 2 + r.Intn(5)
	k["lists"] = r.Intn(3)
	k["dists"] = r.Intn(3)
	k["flip"] = r.Intn(2)
	mix := faultMix{maxOff: 1000, stallNs: 2 * ms, long: 150, chunk: 100, gz: 150}
	if r.P(1, 4) {
		mix.cut, mix.stall = 100, 100
	}
	nt := 2 + r.Intn(4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			op := Op{A: r.Intn(8), B: r.Intn(1 << 16), K: "req"}
			switch x := r.Intn(100); {
			case x < 35:
				op.K = "set"
			case x < 42:
				op.K = "list"
			case x < 49:
				op.K = "dist"
			default:
				op.Fe = pick(r, feJSON, feJSON, feJSON, feRPC, feText, feRead, feHTML)
				op.P = pick(r, "/n", "/n", "/", "/n/d", "")
				mix.apply(r, &op)
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

// odd draws a float that is often not finite.
func (f *nanFam) odd(r *sim.Rand, kind string) float64 {
	switch r.Intn(6) {
	case 0:
		return math.NaN()
	case 1:
		return math.Inf(1)
	case 2:
		return math.Inf(-1)
	case 3:
		return pick(r, 0, math.Copysign(0, -1), math.MaxFloat32, -math.MaxFloat32)
	case 4:
		if kind == "float64" {
			return pick(r, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64)
		}
		return 3
	}
	return float64(r.Intn(2000)-1000) / 4
}

func (m *nanMetric) mk(v float64) any {
	if m.kind == "float32" {
		return float32(v)
	}
	return v
}

func (f *nanFam) setup(c *Ctx) {
	k := c.P.Knobs
	f.r = sim.NewRand(uint64(k["init"]))
	f.ok = map[string]bool{}
	r := f.r
	if r.P(3, 4) {
		tricorder.UnregisterPath("/proc")
	}
	g := tricorder.NewGroup()
	for i := 0; i < k["n"]; i++ {
		m := &nanMetric{kind: pick(r, "float32", "float64", "float64"), salt: r.Intn(1 << 20)}
		m.path = fmt.Sprintf("/n/%sm%d", pick(r, "", "d/"), i)
		m.fn = r.P(2, 3)
		m.flip = m.fn && k["flip"] == 1 && r.P(1, 2)
		v := f.odd(r, m.kind)
		m.hist = []nanSet{{v, 0, 0}}
		m.x = newCell(m.kind, m.fn, m.mk(v))
		if m.fn {
			m.x.hook = func() any {
				sim.SY(0)
				if !m.flip {
					return nil
				}
				m.n++
				v := f.odd(sim.NewRand(uint64(m.salt*1000+m.n)), m.kind)
				m.calls = append(m.calls, nanSet{v: v, s: c.W.Tick()})
				c.faults["nan_flip"]++
				return m.mk(v)
			}
		}
		if r.P(1, 2) {
			must(tricorder.RegisterMetric(m.path, m.x.spec(), units.None, "float"))
		} else {
			must(tricorder.RegisterMetricInGroup(m.path, m.x.spec(), g, units.Celsius, "float"))
		}
		f.ms = append(f.ms, m)
	}
	one := int64(1)
	must(tricorder.RegisterMetric("/n/a", &one, units.None, "int"))
	must(tricorder.RegisterMetric("/n/d/z", &one, units.None, "int"))
	for i := 0; i < k["lists"]; i++ {
		p := fmt.Sprintf("/n/l%d", i)
		l := tricorder.NewList(f.floats(r, i), true)
		must(tricorder.RegisterMetric(p, l, units.None, "list"))
		f.lists = append(f.lists, l)
		f.rest = append(f.rest, p)
	}
	for i := 0; i < k["dists"]; i++ {
		p := fmt.Sprintf("/n/d/dist%d", i)
		d := tricorder.PowersOfTwo.NewCumulativeDistribution()
		must(tricorder.RegisterMetric(p, d, units.None, "dist"))
		f.dists = append(f.dists, func(v float64) { d.Add(v) })
		f.rest = append(f.rest, p)
	}
}

func (f *nanFam) floats(r *sim.Rand, i int) any {
	n := r.Intn(5)
	if r.P(1, 6) {
		n = pick(r, 17, 40, 150, pick(r, 150, 1100))
	}
	late := r.P(1, 2) // only the last one is odd
	if i%2 == 0 {
		s := []float64{}
		for j := 0; j < n; j++ {
			if late && j < n-1 {
				s = append(s, float64(j))
				continue
			}
			s = append(s, f.odd(r, "float64"))
		}
		return s
	}
	s := []float32{}
	for j := 0; j < n; j++ {
		if late && j < n-1 {
			s = append(s, float32(j))
			continue
		}
		s = append(s, float32(f.odd(r, "float32")))
	}
	return s
}

func (f *nanFam) exec(c *Ctx, task int, op *Op) {
	r := sim.NewRand(uint64(op.B) + 3)
	switch op.K {
	case "set":
		m := f.ms[op.A%len(f.ms)]
		v := f.odd(r, m.kind)
		m.hist = append(m.hist, nanSet{v: v, s: c.W.Tick()})
		i := len(m.hist) - 1
		m.x.set(m.mk(v))
		m.hist[i].e = c.W.Tick()
		c.faults["nan_set"]++
	case "list":
		if len(f.lists) > 0 {
			i := op.A % len(f.lists)
			f.lists[i].Change(f.floats(r, i), true)
			c.faults["nan_list"]++
		}
	case "dist":
		if len(f.dists) > 0 {
			v := f.odd(r, "float64")
			c.Do("Add", func(k *Call) { k.F = v; f.dists[op.A%len(f.dists)](v) })
			c.faults["nan_dist"]++
		}
	case "req":
		p := op.P
		if p == "" {
			p = f.ms[op.A%len(f.ms)].path
		}
		f.reqs = append(f.reqs, c.request(op.Fe, p, op))
	}
}

func (f *nanFam) final(c *Ctx) {
	// every value comes back
	for _, m := range f.ms {
		m.flip = false
		m.hist = append(m.hist, nanSet{v: 42.5, s: c.W.Tick(), e: c.W.Tick()})
		m.x.set(m.mk(42.5))
	}
	f.reqs = append(f.reqs, c.request(feJSON, "/n", nil), c.request(pick(f.r, feRPC, feText, feRead), "/n", nil))
}

func (f *nanFam) check(c *Ctx) {
	for _, r := range f.reqs {
		if !r.ok() {
			continue
		}
		if r.BadBody != "" || r.IsErr {
			c.Fail("C17", "spoiled-listing", "%s %s is not a valid listing: %s %s", r.Fe, r.Path, r.BadBody, clip(string(r.Plain), 200))
			continue
		}
		f.checkReq(c, r)
	}
}

func (f *nanFam) checkReq(c *Ctx, r *Req) {
	by := map[string]*Obs{}
	for _, o := range r.Obs {
		by[o.Path] = o
	}
	for _, p := range []string{"/n/a", "/n/d/z"} {
		if touches(r, p) && by[p] == nil {
			c.Fail("C17", "metric-lost", "%s %s lacks the integer metric %s", r.Fe, r.Path, p)
		}
	}
	if r.Fe != feJSON {
		for _, p := range f.rest {
			if touches(r, p) && by[p] == nil {
				c.Fail("C17", "metric-lost", "%s %s lacks %s", r.Fe, r.Path, p)
			}
		}
	}
	for _, m := range f.ms {
		if !touches(r, m.path) {
			continue
		}
		// the values the metric had during the request
		var vals []float64
		for i, h := range m.hist {
			if h.s > r.E {
				break
			}
			if i+1 < len(m.hist) && m.hist[i+1].e != 0 && m.hist[i+1].e < r.S {
				continue
			}
			vals = append(vals, h.v)
		}
		if m.fn && len(m.calls) > 0 {
			n := 0
			for _, h := range m.calls {
				if h.s >= r.S && h.s <= r.E {
					vals = append(vals, h.v)
					n++
				}
			}
		}
		fin, inf := 0, 0
		for _, v := range vals {
			if finite(v) {
				fin++
			} else {
				inf++
			}
		}
		o := by[m.path]
		switch {
		case o == nil && inf == 0:
			c.Fail("C17", "metric-lost", "%s %s lacks %s though its value was finite all the time (%v)", r.Fe, r.Path, m.path, vals)
		case o != nil && fin == 0 && r.Fe != feHTML && !(r.Fe == feText && r.Clean == m.path):
			c.Fail("C17", "not-left-out", "%s %s shows %s though its value was not finite at any time (%v)", r.Fe, r.Path, m.path, vals)
		case o != nil:
			hit := false
			for _, v := range vals {
				if matches(r.Fe, m.kind, "None", m.mk(v), o) || !finite(v) && r.Fe != feJSON && (math.IsNaN(v) && strings.Contains(o.Text+fmt.Sprint(o.Go), "NaN") || math.IsInf(v, 0) && strings.Contains(o.Text+fmt.Sprint(o.Go), "Inf")) {
					hit = true
				}
			}
			if !hit {
				c.Fail("C17", "wrong-value", "%s %s shows %s as %v%v%s, which it never was during the request (%v)", r.Fe, r.Path, m.path, o.Go, o.JSON, o.Text, vals)
			}
		}
	}
}

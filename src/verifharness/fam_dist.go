package main

import (
	"fmt"
	"math"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"verifsim/sim"
)

func init() {
	families["dist"] = func() family { return &distFam{} }
	props["C05"] = propInfo{"dist", 200000}
	props["C06"] = propInfo{"dist", 200000}
	props["C07"] = propInfo{"dist", 200000}
}

// dist is one distribution under test.
type dist struct {
	idx    int
	cum    *tricorder.CumulativeDistribution
	non    *tricorder.NonCumulativeDistribution
	ends   []float64
	ops    []*distOp
	made   *Call
	paths  []string // paths tried
	unit0  string   // unit given at set-up, "" if registered during the run
	addsOK bool     // only additions so far
	hole   int      // the range that stays empty, or -1
	fine   bool     // values need more than the precision of a float32
}

// distOp is one call or observation of a distribution.
type distOp struct {
	kind     string // add update remove sum count reg snap
	call     *Call
	req      *Req
	s, e     uint64
	old, new dval
	path     string
	unit     string
	obs      *Obs
	fe       string
	f        float64
	n        uint64
	bad      bool // panicked or was refused
	reject   bool // must be refused whatever the state
	rep      int  // how many more times the addition was made (set-up only)
	temp     bool // unregistered again at once
}

// dval is an argument: a number or a duration, or something unsupported.
type dval struct {
	f     float64
	ns    int64
	isDur bool
	bad   bool
	f32   bool
}

func (v dval) arg() any {
	switch {
	case v.bad:
		return "not a number"
	case v.isDur:
		return time.Duration(v.ns)
	case v.f32:
		return float32(v.f)
	}
	return v.f
}

// in converts to the unit; ok is false where the call must panic.
func (v dval) in(unit string) (float64, bool) {
	if v.bad || unit == "" {
		return 0, false
	}
	if v.isDur {
		switch unit {
		case uSec:
			return float64(v.ns) / 1e9, true
		case uMs:
			return float64(v.ns) / 1e6, true
		}
		return 0, false
	}
	if v.f32 {
		return float64(float32(v.f)), true
	}
	return v.f, true
}

type distFam struct {
	last  *Req // the last request of the run
	dists []*dist
	r     *sim.Rand
	own   map[[2]int][]dval // values a task put in a distribution
	regN  int
	reqs  []*Req
	twin  map[[2]int]bool
}

var distUnits = []string{uSec, uMs, uNone, uByte, uUnk}

// uUnk stands for the unit that is the empty string.
const uUnk = "Unknown"

func distUnit(u string) units.Unit {
	if u == uUnk {
		return units.Unknown
	}
	return units.Unit(u)
}

func rndUnit(r *sim.Rand) int {
	if r.P(1, 15) {
		return 4
	}
	return r.Intn(4)
}

func (f *distFam) gen(p *Plan, r *sim.Rand) {
	k := p.Knobs
	k["dists"] = 1 + r.Intn(2)
	k["bucket"] = r.Intn(7)
	k["fine"] = r.Intn(2)
	// values put in before the tasks start, by task
	k["fill"] = pick(r, 0, 0, 1, 3)
	if r.P(1, 40) {
		k["fill"] = 12
	}
	if r.P(1, 80) {
		k["bulk"] = pick(r, 130, 300, 1100, 3000)
		p.MaxSteps *= 3
		if r.P(1, 12) {
			k["bulk"] = 66000
			p.MaxSteps *= 10
		}
	}
	regs := p.Prop == "C07" && r.P(1, 3)
	// the kind of change that prevails
	fav := pick(r, "", "", "", "add", "update", "remove", "twin")
	k["non"] = r.Intn(4) // 0: cumulative
	k["late"] = 0        // unit assigned during the run
	if p.Prop == "C07" {
		k["late"] = r.Intn(4)
	} else if r.P(1, 10) {
		k["late"] = 1
	}
	k["unit"] = rndUnit(r)
	// the range that stays empty: 1 the lowest, 2 one in the middle, 3 the
	// highest, 0 none
	k["hole"] = pick(r, 0, 1, 1, 2, 3)
	mix := faultMix{maxOff: 900, stallNs: 2 * ms, long: 150, chunk: 150, gz: 150}
	if r.P(1, 2) {
		mix.cut = 120
	}
	if r.P(1, 2) {
		mix.stall = 150
	}
	jumps := p.Prop == "C06" && r.P(1, 4)
	rejects := p.Prop == "C07" || r.P(1, 3)
	nt := 2 + r.Intn(4)
	hot := r.P(1, 2)
	for t := 0; t < nt; t++ {
		var ops []Op
		n := 1 + r.Intn(6)
		for i := 0; i < n; i++ {
			op := Op{A: r.Intn(k["dists"]), B: r.Intn(1 << 16), C: r.Intn(1 << 16)}
			if hot {
				op.A = 0
			}
			switch x := r.Intn(100); {
			case k["late"] > 0 && x < 25:
				op.K, op.S = "reg", distUnits[rndUnit(r)]
				if r.P(1, 5) {
					op.K = "tempreg"
				}
			case regs && x < 25:
				op.K, op.S = pick(r, "reg", "tempreg", "tempreg"), distUnits[rndUnit(r)]
				if r.P(1, 3) {
					op.S = distUnits[k["unit"]]
				}
			case rejects && x < 40:
				op.K = pick(r, "badadd", "badupdate", "badremove", "emptyremove", "emptyupdate", "mixupdate", "duradd")
			case jumps && x < 45:
				op.K = "jump"
			case x < 65:
				op.K = pick(r, "add", "add", "add", "update", "update", "remove", "remove", "duradd", "addf32", "twin")
				if fav != "" && r.P(3, 4) {
					op.K = fav
				}
			case x < 75:
				op.K = pick(r, "sum", "count")
				op.C = r.Intn(3) // 0: after UpdateMinMax
			default:
				op.K = "req"
				op.Fe = allFe[r.Intn(len(allFe))]
				if r.P(1, 4) && op.Fe != feJSON1 && op.Fe != feRPC1 {
					op.P = pick(r, "/d", "/")
				}
				mix.apply(r, &op)
			}
			if r.P(1, 6) {
				op.Nap = int64(r.Intn(int(ms)))
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

func bucketer(n int) (*tricorder.Bucketer, []float64) {
	switch n {
	case 0:
		return tricorder.NewArbitraryBucketer(-2, 0, 1.5, 4, 100), []float64{-2, 0, 1.5, 4, 100}
	case 1:
		return tricorder.NewLinearBucketer(5, 0, 2.5), []float64{0, 2.5, 5, 7.5}
	case 2:
		return tricorder.NewExponentialBucketer(4, 1, 4), []float64{1, 4, 16}
	case 3:
		return tricorder.NewGeometricBucketer(1, 10), []float64{1, 2, 5, 10}
	case 4:
		return tricorder.PowersOfTen, []float64{1, 10, 100, 1000, 10000, 100000}
	case 5:
		var ends []float64
		for i := 0; i < 69; i++ {
			ends = append(ends, float64(i)-3)
		}
		return tricorder.NewLinearBucketer(70, -3, 1), ends
	default:
		return tricorder.NewArbitraryBucketer(3), []float64{3}
	}
}

func (f *distFam) setup(c *Ctx) {
	k := c.P.Knobs
	f.r = sim.NewRand(c.P.EnvSeed)
	f.own = map[[2]int][]dval{}
	for i := 0; i < k["dists"]; i++ {
		b, ends := bucketer((k["bucket"] + i) % 7)
		d := &dist{idx: i, ends: ends, addsOK: true, hole: -1, fine: k["fine"] == 1}
		switch k["hole"] {
		case 1:
			d.hole = 0
		case 2:
			d.hole = len(ends) / 2
		case 3:
			d.hole = len(ends)
		}
		d.made = c.Do("NewDistribution", func(*Call) {
			if k["non"] == 0 {
				d.cum = b.NewCumulativeDistribution()
			} else {
				d.non = b.NewNonCumulativeDistribution()
			}
		})
		f.dists = append(f.dists, d)
		if k["late"] == 0 || i > 0 {
			d.unit0 = distUnits[(k["unit"]+i)%5]
			f.register(c, d, fmt.Sprintf("/d/x%d", i), d.unit0)
			if n := k["bulk"]; n > 0 {
				// many equal values
				v := d.value(f.r.Intn(1 << 16))
				o := &distOp{kind: "add", new: v, rep: n - 1}
				o.call = c.Do("add", func(call *Call) {
					call.A, call.B = d.idx, n
					for j := 0; j < n; j++ {
						if d.cum != nil {
							d.cum.Add(v.arg())
						} else {
							d.non.Add(v.arg())
						}
					}
				})
				o.s, o.e, o.bad = o.call.S, o.call.E, o.call.Panicked
				d.ops = append(d.ops, o)
			}
			for t := range c.P.Tasks {
				for j := 0; j < k["fill"]; j++ {
					f.exec(c, t, &Op{K: "add", A: i, B: f.r.Intn(1 << 16)})
				}
			}
		}
	}
}

func (d *dist) metric() any {
	if d.cum != nil {
		return d.cum
	}
	return d.non
}

func (f *distFam) register(c *Ctx, d *dist, path, unit string) *distOp {
	o := &distOp{kind: "reg", path: path, unit: unit}
	o.call = c.Do("RegisterMetric", func(k *Call) {
		k.Str = path + " " + unit
		k.Err = tricorder.RegisterMetric(path, d.metric(), distUnit(unit), "dist "+path)
		k.Res = fmt.Sprint(k.Err)
	})
	if o.call.Panicked {
		c.Fail("C07 C05", "register-panic", "RegisterMetric(%s) panicked: %s", path, o.call.PanicValue)
	}
	if o.call.Err != nil && o.call.Err != tricorder.ErrWrongUnit {
		c.Fail("C07", "register-error", "RegisterMetric(%s, %s) returned %v", path, unit, o.call.Err)
	}
	o.bad = o.call.Err != nil
	o.s, o.e = o.call.S, o.call.E
	d.paths = append(d.paths, path)
	d.ops = append(d.ops, o)
	return o
}

// value draws a value: multiples of a quarter, so that sums are exact, and
// often a range bound. One range may stay empty (see "empty" ops).
func (d *dist) value(seed int) dval {
	r := sim.NewRand(uint64(seed))
	lo := d.ends[0]
	for {
		var v float64
		switch r.Intn(4) {
		case 0:
			v = d.ends[r.Intn(len(d.ends))]
		case 1:
			e := d.ends[r.Intn(len(d.ends))]
			v = e - 0.25
		case 2:
			v = lo - float64(r.Intn(20))/4
		default:
			v = lo + float64(r.Intn(200))/4
		}
		if !d.fine && r.P(1, 12) {
			// far away; sums stay exact
			v = float64(int64(1)<<uint(10+r.Intn(31))) * float64(1+r.Intn(3)) / 4
			if r.P(1, 3) {
				v = -v
			}
		}
		if d.fine && r.P(2, 3) {
			v += float64(r.Intn(4096)-2048) / (1 << 26)
		}
		if d.index(v) != d.hole {
			return dval{f: v}
		}
	}
}

func (d *dist) durValue(seed int) dval {
	r := sim.NewRand(uint64(seed))
	// multiples of 250 ms are exact in seconds and in milliseconds
	for i := 0; ; i++ {
		n := int64(r.Intn(480)) - 80
		if i > 20 {
			n = 4000000
			if d.hole == len(d.ends) {
				n = -n
			}
		}
		v := dval{isDur: true, ns: n * 250 * ms}
		if i <= 20 && r.P(1, 2) {
			// so are multiples of 2^-9 s
			v.ns = (n*128 + int64(r.Intn(128))) * 1953125
		}
		a, _ := v.in(uSec)
		b, _ := v.in(uMs)
		if d.index(a) != d.hole && d.index(b) != d.hole {
			return v
		}
		if i > 20 {
			panic("harness: no duration outside of the hole")
		}
	}
}

// inHole yields a value of the range that stays empty.
func (d *dist) inHole() dval {
	if d.hole == 0 {
		return dval{f: d.ends[0] - 1}
	}
	return dval{f: d.ends[d.hole-1]}
}

func (f *distFam) exec(c *Ctx, task int, op *Op) {
	d := f.dists[op.A%len(f.dists)]
	own := [2]int{task, d.idx}
	o := &distOp{kind: op.K}
	switch op.K {
	case "reg":
		f.regN++
		f.register(c, d, fmt.Sprintf("/d/r%d_%d", d.idx, f.regN), op.S)
		return
	case "tempreg":
		f.regN++
		n := f.regN
		path := fmt.Sprintf("/d/t%d/r%d", n, d.idx)
		o := f.register(c, d, path, op.S)
		o.temp = true
		c.Do("Unregister", func(k *Call) {
			k.Str = path
			if n%2 == 0 {
				tricorder.UnregisterPath(path)
			} else if dir, err := tricorder.GetDirectory(fmt.Sprintf("/d/t%d", n)); err == nil {
				dir.UnregisterDirectory()
			}
		})
		return
	case "jump":
		c.jump(time.Duration(op.B%2000-1000) * time.Second)
		return
	case "req":
		path := op.P
		if path == "" {
			path = "/d/x0"
			if len(d.paths) > 0 {
				path = d.paths[op.B%len(d.paths)]
			}
		}
		f.observe(c, c.request(op.Fe, path, op))
		return
	case "sum", "count":
		if d.non == nil {
			return
		}
		if op.C == 0 {
			if k := c.Do("UpdateMinMax", func(*Call) { d.non.UpdateMinMax() }); k.Panicked {
				c.Fail("C05", "read-panic", "UpdateMinMax panicked: %s", k.PanicValue)
				return
			}
		}
		o.call = c.Do(op.K, func(k *Call) {
			if op.K == "sum" {
				o.f = d.non.Sum()
				k.F = o.f
			} else {
				o.n = d.non.Count()
				k.B = int(o.n)
			}
		})
		o.s, o.e = o.call.S, o.call.E
		if o.call.Panicked {
			c.Fail("C05", "read-panic", "%s panicked: %s", op.K, o.call.PanicValue)
			return
		}
		d.ops = append(d.ops, o)
		return
	case "add", "addf32":
		o.kind = "add"
		o.new = d.value(op.B)
		if op.K == "addf32" {
			o.new = dval{f: math.Round(o.new.f*4) / 4, f32: true}
			if d.index(o.new.f) == d.hole {
				return
			}
		}
	case "duradd":
		o.kind = "add"
		o.new = d.durValue(op.B)
	case "badadd":
		o.kind = "add"
		o.new = dval{bad: true}
	case "update", "remove", "twin":
		if d.non == nil || len(f.own[own]) == 0 {
			o.kind = "add"
			o.new = d.value(op.B)
			break
		}
		i := op.C % len(f.own[own])
		o.old = f.own[own][i]
		f.own[own] = append(append([]dval{}, f.own[own][:i]...), f.own[own][i+1:]...)
		if op.K == "update" {
			o.new = d.value(op.B)
		}
		if op.K == "twin" {
			// two of these leave the sum and the count as they were
			o.kind = "update"
			if f.twin == nil {
				f.twin = map[[2]int]bool{}
			}
			o.new = o.old
			step := 2.0
			if f.twin[own] {
				step = -2
			}
			o.new.f += step
			o.new.ns += int64(step) * sec
			a, _ := o.new.in(uSec)
			b, _ := o.new.in(uMs)
			if d.index(a) == d.hole || d.index(b) == d.hole || d.index(o.new.f) == d.hole {
				o.new = d.value(op.B)
			} else {
				f.twin[own] = !f.twin[own]
			}
		}
	case "mixupdate":
		// a valid old value with an unsupported new one, or the reverse
		if d.non == nil || len(f.own[own]) == 0 {
			return
		}
		o.kind = "update"
		o.old, o.new = f.own[own][op.C%len(f.own[own])], dval{bad: true}
		o.reject = true
	case "badupdate":
		if d.non == nil {
			return
		}
		o.kind = "update"
		o.old, o.new = dval{bad: true}, d.value(op.B)
		o.reject = true
	case "badremove":
		if d.non == nil {
			return
		}
		o.kind, o.old = "remove", dval{bad: true}
		o.reject = true
	case "emptyremove", "emptyupdate":
		// one range never holds anything, and the distribution may even be
		// empty
		if d.non == nil || d.hole < 0 {
			return
		}
		o.kind = op.K[5:]
		o.old = d.inHole()
		o.new = d.value(op.B)
		o.reject = true
	}
	o.call = c.Do(o.kind, func(k *Call) {
		k.Str = fmt.Sprintf("%v %v", o.old, o.new)
		k.A = d.idx
		switch o.kind {
		case "add":
			if d.cum != nil {
				d.cum.Add(o.new.arg())
			} else {
				d.non.Add(o.new.arg())
			}
		case "update":
			d.non.Update(o.old.arg(), o.new.arg())
		case "remove":
			d.non.Remove(o.old.arg())
		}
	})
	o.s, o.e = o.call.S, o.call.E
	o.bad = o.call.Panicked
	d.ops = append(d.ops, o)
	if o.bad {
		c.probes["rejected-"+o.kind]++
	} else {
		c.probes[o.kind]++
	}
	if !o.bad {
		if o.kind == "add" || o.kind == "update" {
			f.own[own] = append(f.own[own], o.new)
		}
	} else if o.kind != "add" && !o.reject {
		// the old value is still there
		f.own[own] = append(f.own[own], o.old)
	}
}

// observe records the snapshots a response contains.
func (f *distFam) observe(c *Ctx, r *Req) {
	f.reqs = append(f.reqs, r)
	if !r.ok() {
		return
	}
	for _, o := range r.Obs {
		if o.Dist == nil {
			continue
		}
		if o.Unit == "" {
			o.Unit = uUnk
		}
		for _, d := range f.dists {
			for _, p := range d.paths {
				if p == o.Path {
					d.ops = append(d.ops, &distOp{kind: "snap", req: r, s: r.S, e: r.E, obs: o, fe: r.Fe, path: p})
				}
			}
		}
	}
}

func (f *distFam) final(c *Ctx) {
	for _, fe := range []string{feRPC, feJSON, feText, feHTML} {
		if fe != feRPC && !f.r.P(1, 2) {
			continue
		}
		f.observe(c, c.request(fe, "/d", nil))
	}
	for _, d := range f.dists {
		// one more addition must work for everyone
		if d.unit0 == "" && !f.registered(d) {
			continue
		}
		o := &distOp{kind: "add", new: d.value(7)}
		o.call = c.Do("add", func(k *Call) {
			k.A = d.idx
			if d.cum != nil {
				d.cum.Add(o.new.arg())
			} else {
				d.non.Add(o.new.arg())
			}
		})
		o.s, o.e, o.bad = o.call.S, o.call.E, o.call.Panicked
		d.ops = append(d.ops, o)
	}
	f.last = c.request(feRPC, "/d", nil)
	f.observe(c, f.last)
}

func (f *distFam) registered(d *dist) bool {
	for _, o := range d.ops {
		if o.kind == "reg" && !o.bad {
			return true
		}
	}
	return false
}

// dstate is the reference model.
type dstate struct {
	unit     string
	counts   []uint64
	sum      float64
	n, gen   uint64
	last     int // index of the last change, -1 for none
	vals     []float64
	allMin   float64
	allMax   float64
	everAny  bool
	tsLo     time.Time // the latest change is not older than this
	addsOnly bool
}

func (s *dstate) copy() *dstate {
	t := *s
	t.counts = append([]uint64{}, s.counts...)
	t.vals = append([]float64{}, s.vals...)
	return &t
}

func (d *dist) index(v float64) int {
	for i, e := range d.ends {
		if v < e {
			return i
		}
	}
	return len(d.ends)
}

func (s *dstate) see(v float64) {
	if !s.everAny || v < s.allMin {
		s.allMin = v
	}
	if !s.everAny || v > s.allMax {
		s.allMax = v
	}
	s.everAny = true
}

func (s *dstate) drop(v float64) {
	for i, x := range s.vals {
		if x == v {
			s.vals = append(s.vals[:i], s.vals[i+1:]...)
			return
		}
	}
}

// apply runs the reference model; ok is false if the call must panic.
func (d *dist) apply(c *Ctx, s *dstate, o *distOp, i int) (*dstate, bool) {
	t, ok := d.apply1(s, o, i)
	if t != s && t.last == i && len(c.jumps) == 0 {
		if lo, _ := c.clockSpan(o.call.S, o.call.E, o.call.CS, o.call.CE); lo.After(t.tsLo) {
			t.tsLo = lo
		}
	}
	return t, ok
}

func (d *dist) apply1(s *dstate, o *distOp, i int) (*dstate, bool) {
	switch o.kind {
	case "reg":
		if s.unit == "" {
			t := s.copy()
			t.unit = o.unit
			return t, true
		}
		return s, s.unit == o.unit
	case "add":
		v, ok := o.new.in(s.unit)
		if !ok {
			return s, false
		}
		t := s.copy()
		for j := 0; j <= o.rep; j++ {
			t.counts[d.index(v)]++
			t.vals = append(t.vals, v)
			t.sum += v
			t.n++
			t.gen++
		}
		t.last = i
		t.see(v)
		return t, true
	case "update":
		a, ok1 := o.old.in(s.unit)
		b, ok2 := o.new.in(s.unit)
		if !ok1 || !ok2 || s.n == 0 || s.counts[d.index(a)] == 0 {
			return s, false
		}
		t := s.copy()
		t.counts[d.index(a)]--
		t.counts[d.index(b)]++
		t.drop(a)
		t.vals = append(t.vals, b)
		t.sum += b - a
		t.gen++
		t.last = i
		t.see(b)
		t.addsOnly = false
		return t, true
	case "remove":
		a, ok := o.old.in(s.unit)
		if !ok || s.n == 0 || s.counts[d.index(a)] == 0 {
			return s, false
		}
		t := s.copy()
		t.counts[d.index(a)]--
		t.drop(a)
		t.sum -= a
		t.n--
		t.gen++
		t.last = i
		t.addsOnly = false
		return t, true
	}
	panic("harness: " + o.kind)
}

func feq(a, b float64, f32 bool) bool {
	if f32 {
		return float32(a) == float32(b)
	}
	return a == b || math.Abs(a-b) <= 1e-9*math.Max(math.Abs(a), math.Abs(b))
}

// rounder rounds the way a front end does.
func rounder(f32 bool) func(float64) float64 {
	if f32 {
		return func(f float64) float64 { return float64(float32(f)) }
	}
	return func(f float64) float64 { return f }
}

// snapOK says why a snapshot does not show the state; "" if it does.
// withTime also compares generation and time.
func (d *dist) snapOK(c *Ctx, s *dstate, o *distOp, withTime bool) string {
	x := o.obs.Dist
	if o.obs.Meta && o.obs.Unit != s.unit {
		return fmt.Sprintf("unit %s instead of %s", o.obs.Unit, s.unit)
	}
	if !(x.NoStats && s.n == 0) && (x.NoStats || x.Count != s.n) {
		return fmt.Sprintf("count %d instead of %d", x.Count, s.n)
	}
	// ranges
	var want []RangeObs
	for i, n := range s.counts {
		if n == 0 && x.F32 {
			continue
		}
		w := RangeObs{First: i == 0, Last: i == len(s.counts)-1, N: n}
		if !w.First {
			w.Lo = d.ends[i-1]
		}
		if !w.Last {
			w.Hi = d.ends[i]
		}
		want = append(want, w)
	}
	if len(want) != len(x.Ranges) {
		return fmt.Sprintf("%d ranges instead of %d", len(x.Ranges), len(want))
	}
	for i, w := range want {
		g := x.Ranges[i]
		if g.N != w.N || g.First != w.First || g.Last != w.Last || !w.First && !feq(g.Lo, w.Lo, x.F32) || !w.Last && !feq(g.Hi, w.Hi, x.F32) {
			return fmt.Sprintf("range %+v instead of %+v", g, w)
		}
	}
	if !x.F32 && withTime {
		if x.NotCum != (d.non != nil) {
			return "wrong cumulative flag"
		}
		if x.Gen != s.gen {
			return fmt.Sprintf("generation %d instead of %d", x.Gen, s.gen)
		}
		k := d.made
		if s.last >= 0 {
			k = d.ops[s.last].call
		}
		lo, hi := c.clockSpan(k.S, k.E, k.CS, k.CE)
		if o.obs.TS.Before(lo) || o.obs.TS.After(hi) {
			return fmt.Sprintf("time %v, but the last change was made in [%v, %v]", o.obs.TS.UTC(), lo.UTC(), hi.UTC())
		}
		if o.obs.TS.Before(s.tsLo) {
			return fmt.Sprintf("time %v, but an earlier change was made no earlier than %v", o.obs.TS.UTC(), s.tsLo.UTC())
		}
	}
	if x.NoStats {
		return ""
	}
	if !feq(x.Sum, s.sum, x.F32) {
		return fmt.Sprintf("sum %v instead of %v", x.Sum, s.sum)
	}
	if s.n == 0 {
		if x.Avg != 0 || x.Min != 0 || x.Max != 0 || x.Median != 0 {
			return "an empty distribution has non-zero statistics"
		}
		return ""
	}
	if !feq(x.Avg, s.sum/float64(s.n), x.F32) {
		return fmt.Sprintf("average %v instead of %v", x.Avg, s.sum/float64(s.n))
	}
	mn, mx := math.Inf(1), math.Inf(-1)
	for _, v := range s.vals {
		mn, mx = math.Min(mn, v), math.Max(mx, v)
	}
	if s.addsOnly {
		if !feq(x.Min, mn, x.F32) || !feq(x.Max, mx, x.F32) {
			return fmt.Sprintf("min/max %v/%v instead of %v/%v", x.Min, x.Max, mn, mx)
		}
	} else if r := rounder(x.F32); r(x.Min) < r(s.allMin) || r(x.Min) > r(mn) || r(x.Max) > r(s.allMax) || r(x.Max) < r(mx) {
		return fmt.Sprintf("min/max %v/%v outside of [%v,%v]/[%v,%v]", x.Min, x.Max, s.allMin, mn, mx, s.allMax)
	}
	// median: the mean of the bounds of the ranges of the middle values
	lo1, hi1 := d.rank(s, x, (s.n-1)/2)
	lo2, hi2 := d.rank(s, x, s.n/2)
	lo, hi := (lo1+lo2)/2, (hi1+hi2)/2
	eps := 1e-6 * (1 + math.Abs(lo) + math.Abs(hi))
	if math.IsNaN(x.Median) || x.Median < lo-eps || x.Median > hi+eps {
		return fmt.Sprintf("median %v outside of [%v,%v]", x.Median, lo, hi)
	}
	return ""
}

// rank bounds the value with the given rank.
func (d *dist) rank(s *dstate, x *DistObs, rank uint64) (lo, hi float64) {
	i := 0
	for rank >= s.counts[i] {
		rank -= s.counts[i]
		i++
	}
	lo, hi = x.Min, x.Max
	if i > 0 {
		lo = math.Max(lo, d.ends[i-1])
	}
	if i < len(d.ends) {
		hi = math.Min(hi, d.ends[i])
	}
	return
}

func (f *distFam) check(c *Ctx) {
	for _, r := range f.reqs {
		c.checkWellFormed("C05 C06 C07", r)
	}
	for _, d := range f.dists {
		f.checkDist(c, d)
	}
}

func (f *distFam) checkDist(c *Ctx, d *dist) {
	// calls that must be refused in any state
	for _, o := range d.ops {
		if o.reject && !o.bad {
			c.Fail("C07", "accepted", "%s of %v -> %v was accepted although it had to panic", o.kind, o.old, o.new)
			return
		}
		if o.kind == "add" && o.new.bad && !o.bad {
			c.Fail("C07", "accepted", "add of an unsupported value was accepted")
			return
		}
	}
	// unit: one winner
	f.checkUnits(c, d)
	run := func(withTime bool) linResult {
		res, stuck := f.lin(c, d, withTime)
		if res != linBad {
			return res
		}
		why := ""
		for _, i := range stuck {
			why += "\n    " + f.opString(d, i)
			if strings.Count(why, "\n") > 12 {
				break
			}
		}
		if withTime {
			c.Fail("C06", "generation-or-time", "no order of the changes of distribution %d explains every reported generation and time; unexplained:%s", d.idx, why)
		} else {
			c.Fail("C05 C07", "not-linearizable", "no order of the calls on distribution %d explains everything observed; unexplained:%s", d.idx, why)
		}
		return res
	}
	res := linOK
	if c.P.Prop == "C06" {
		res = run(true)
	} else {
		res = run(false)
		if c.P.Prop == "C07" && res == linOK {
			// counts for C07 only where a rejected call makes the difference
			run(true)
		}
	}
	if res == linUnknown {
		c.incon++
	}
	f.checkPairs(c, d)
}

func (f *distFam) opString(d *dist, i int) string {
	o := d.ops[i]
	switch o.kind {
	case "snap":
		return fmt.Sprintf("[%d,%d] %s %s shows %+v at %v", o.s, o.e, o.fe, o.path, *o.obs.Dist, o.obs.TS.UTC())
	case "sum":
		return fmt.Sprintf("[%d,%d] Sum() = %v", o.s, o.e, o.f)
	case "count":
		return fmt.Sprintf("[%d,%d] Count() = %d", o.s, o.e, o.n)
	case "reg":
		return fmt.Sprintf("[%d,%d] register %s with %s refused=%v", o.s, o.e, o.path, o.unit, o.bad)
	}
	return fmt.Sprintf("[%d,%d] %s %v %v panicked=%v", o.s, o.e, o.kind, o.old, o.new, o.bad)
}

func (f *distFam) lin(c *Ctx, d *dist, withTime bool) (linResult, []int) {
	ops := make([]linOp, len(d.ops))
	key := func(s *dstate) string { return fmt.Sprintf("%s%d", s.unit, s.last) }
	for i := range d.ops {
		i, o := i, d.ops[i]
		ops[i] = linOp{s: o.s, e: o.e}
		switch o.kind {
		case "snap":
			ops[i].step = func(st, _ any) []linNext {
				if d.snapOK(c, st.(*dstate), o, withTime) != "" {
					return nil
				}
				return []linNext{{st: st, key: key(st.(*dstate)), done: true, same: true}}
			}
		case "sum":
			ops[i].step = func(st, _ any) []linNext {
				if !feq(o.f, st.(*dstate).sum, false) {
					return nil
				}
				return []linNext{{st: st, key: key(st.(*dstate)), done: true, same: true}}
			}
		case "count":
			ops[i].step = func(st, _ any) []linNext {
				if o.n != st.(*dstate).n {
					return nil
				}
				return []linNext{{st: st, key: key(st.(*dstate)), done: true, same: true}}
			}
		default:
			ops[i].step = func(st, _ any) []linNext {
				s := st.(*dstate)
				t, ok := d.apply(c, s, o, i)
				if ok == o.bad {
					return nil
				}
				return []linNext{{st: t, key: key(t), done: true, same: t == s}}
			}
		}
	}
	s := &dstate{counts: make([]uint64, len(d.ends)+1), last: -1, addsOnly: true}
	return linearize(ops, s, key(s), 100000)
}

// checkUnits checks that exactly one unit won.
func (f *distFam) checkUnits(c *Ctx, d *dist) {
	win := ""
	for _, o := range d.ops {
		if o.kind == "reg" && !o.bad {
			if win != "" && win != o.unit {
				c.Fail("C07", "two-units", "distribution %d was registered with both %s and %s", d.idx, win, o.unit)
			}
			win = o.unit
		}
	}
	for _, o := range d.ops {
		if o.kind == "reg" && o.bad && o.unit == win {
			c.Fail("C07", "right-unit-refused", "distribution %d refused its own unit %s", d.idx, win)
		}
		if o.kind == "snap" && o.obs.Meta && o.obs.Unit != win {
			c.Fail("C07", "wrong-unit", "%s reports distribution %d in %s, but its unit is %s", o.fe, d.idx, o.obs.Unit, win)
		}
	}
	// refused registrations publish nothing, successful ones are there
	last := f.last
	got := map[string]bool{}
	for _, o := range last.Obs {
		got[o.Path] = true
	}
	for _, o := range d.ops {
		if o.kind != "reg" {
			continue
		}
		if o.bad && got[o.path] {
			c.Fail("C07", "refused-but-published", "%s was refused with ErrWrongUnit but is reported", o.path)
		}
		if o.temp && got[o.path] {
			c.Fail("C07", "unregistered-but-published", "%s was unregistered but is reported", o.path)
		}
		if !o.bad && !o.temp && !got[o.path] {
			c.Fail("C07", "registered-but-missing", "%s was registered but is not reported", o.path)
		}
	}
}

// checkPairs compares snapshots with each other.
func (f *distFam) checkPairs(c *Ctx, d *dist) {
	var snaps []*distOp
	for _, o := range d.ops {
		if o.kind == "snap" && !o.obs.Dist.F32 {
			snaps = append(snaps, o)
		}
	}
	for _, a := range snaps {
		for _, b := range snaps {
			x, y := a.obs.Dist, b.obs.Dist
			if a != b && x.Gen == y.Gen && (x.Count != y.Count || x.Sum != y.Sum || x.Min != y.Min || x.Max != y.Max || x.Median != y.Median || !a.obs.TS.Equal(b.obs.TS)) {
				c.Fail("C06", "same-generation-differs", "two snapshots of generation %d differ: %s %+v at %v and %s %+v at %v", x.Gen, a.fe, *x, a.obs.TS.UTC(), b.fe, *y, b.obs.TS.UTC())
				return
			}
			if a.e < b.s && x.Gen > y.Gen {
				c.Fail("C06", "generation-back", "the generation went back from %d to %d", x.Gen, y.Gen)
				return
			}
			if len(c.jumps) == 0 && x.Gen < y.Gen && a.obs.TS.After(b.obs.TS) {
				c.Fail("C06", "time-back", "generation %d is of %v but generation %d is of %v", x.Gen, a.obs.TS.UTC(), y.Gen, b.obs.TS.UTC())
				return
			}
		}
	}
}

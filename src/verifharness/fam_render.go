package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"reflect"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/messages"
	"github.com/Symantec/tricorder/go/tricorder/types"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"verifsim/sim"
)

func init() {
	families["render"] = func() family { return &renderFam{} }
	props["C12"] = propInfo{"render", 200000}
}

type rset struct {
	v    any
	s, e uint64
}

// rmetric is one registered metric with everything it may show.
type rmetric struct {
	path, desc, unit, kind string
	list                   bool
	vals                   []any // of a list
	x                      *cell
	flip                   bool
	hist                   []rset // values with the time they were set
	calls                  []rset // values returned by a flipping callback
	n                      int
	salt                   int
	dist                   *tricorder.CumulativeDistribution
}

type renderFam struct {
	ms   []*rmetric
	reqs []*Req
	r    *sim.Rand
	keep []any
	flg  []*rflag
}

// rflag is an application flag.
type rflag struct {
	m    *rmetric
	name string
	gen  func(r *sim.Rand) (string, any) // text to set and resulting value
}

// custom flag values
type upperFlag struct{ s string }

func (u *upperFlag) String() string     { return u.s }
func (u *upperFlag) Set(s string) error { u.s = strings.ToUpper(s); return nil }

type sliceFlag struct{ l []string }

func (u *sliceFlag) String() string     { return strings.Join(u.l, ",") }
func (u *sliceFlag) Set(s string) error { u.l = append(u.l, s); return nil }
func (u *sliceFlag) Get() any           { return u.l }

type timeFlag struct{ t time.Time }

func (u *timeFlag) String() string { return u.t.String() }
func (u *timeFlag) Set(s string) error {
	t, err := time.Parse(time.RFC3339Nano, s)
	u.t = t
	return err
}
func (u *timeFlag) Get() any { return u.t }

func (f *renderFam) gen(p *Plan, r *sim.Rand) {
	k := p.Knobs
	k["init"] = r.Intn(1 << 30)
	k["n"] = 2 + r.Intn(8)
	k["flip"] = r.Intn(2)
	k["flags"] = r.Intn(2)
	mix := faultMix{maxOff: 1500, stallNs: 2 * ms, long: 150, chunk: 150, gz: 150}
	if r.P(1, 4) {
		mix.cut, mix.stall = 100, 150
	}
	nt := 2 + r.Intn(4)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, 1+r.Intn(5); i < n; i++ {
			op := Op{K: "req", A: r.Intn(64), B: r.Intn(1 << 16), Fe: allFe[r.Intn(len(allFe))]}
			switch x := r.Intn(100); {
			case x < 12:
				op.K, op.Fe = "set", ""
			case x < 20 && k["flags"] == 1:
				op.K, op.Fe = "flag", ""
			default:
				if op.Fe != feJSON1 && op.Fe != feRPC1 && r.P(2, 3) {
					op.P = pick(r, "/r", "/r/s", "/", "/proc/flags")
				}
				mix.apply(r, &op)
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

var descs = []string{"plain", "with (parens) and: colon", "html <b>&amp;</b> \"quoted\" 'single'", "unicode μ世界", "percent %d %s {{.}}", "backslash \\n", "",
	strings.Repeat("a long description & more; ", 5), strings.Repeat("μ<x> ", 300)}

func (f *renderFam) setup(c *Ctx) {
	k := c.P.Knobs
	f.r = sim.NewRand(uint64(k["init"]))
	r := f.r
	tricorder.UnregisterPath("/proc")
	g := tricorder.NewGroup()
	for i := 0; i < k["n"]; i++ {
		m := &rmetric{salt: r.Intn(1 << 20), desc: descs[r.Intn(len(descs))], unit: allUnits[r.Intn(len(allUnits))]}
		m.path = fmt.Sprintf("/r/%sm%d", pick(r, "", "s/"), i)
		var spec any
		switch x := r.Intn(10); {
		case x < 2:
			m.list = true
			m.kind = listKinds[r.Intn(len(listKinds))]
			s := reflect.MakeSlice(reflect.SliceOf(goType(m.kind)), 0, 0)
			for j, n := 0, r.Intn(5); j < n; j++ {
				v := randVal(r, m.kind)
				m.vals = append(m.vals, v)
				s = reflect.Append(s, reflect.ValueOf(v))
			}
			if s.Len() == 0 && r.P(1, 2) {
				s = reflect.Zero(s.Type()) // a nil slice
			}
			l := tricorder.NewList(s.Interface(), r.P(1, 2))
			f.keep = append(f.keep, l)
			spec = l
		case x < 3:
			m.kind = "distribution"
			m.dist = tricorder.PowersOfTen.NewCumulativeDistribution()
			spec = m.dist
		default:
			m.kind = scalarKinds[r.Intn(len(scalarKinds))]
			fn := r.P(1, 2)
			v := randVal(r, m.kind)
			m.x = newCell(m.kind, fn, v)
			m.hist = []rset{{v: v}}
			m.flip = fn && k["flip"] == 1 && r.P(1, 2)
			if fn {
				m.x.hook = func() any {
					sim.SY(0)
					if !m.flip {
						return nil
					}
					m.n++
					v := randVal(sim.NewRand(uint64(m.salt*1000+m.n)), m.kind)
					m.calls = append(m.calls, rset{v: v, s: c.W.Tick()})
					return v
				}
			}
			spec = m.x.spec()
		}
		var err error
		switch r.Intn(4) {
		case 0:
			err = tricorder.RegisterMetricInGroup(m.path, spec, g, units.Unit(m.unit), m.desc)
		case 1:
			err = g.RegisterMetric(m.path, spec, units.Unit(m.unit), m.desc)
		default:
			err = tricorder.RegisterMetric(m.path, spec, units.Unit(m.unit), m.desc)
		}
		if err != nil {
			c.Fail("C12", "not-accepted", "RegisterMetric of a %s fails: %v", m.kind, err)
			continue
		}
		if m.dist != nil {
			for j, n := 0, r.Intn(6); j < n; j++ {
				m.dist.Add(float64(r.Intn(1000000)) / 64)
			}
		}
		f.ms = append(f.ms, m)
	}
	if k["flags"] == 1 {
		f.flags(c, r)
	}
}

// flags defines application flags and registers them.
func (f *renderFam) flags(c *Ctx, r *sim.Rand) {
	def := func(name, kind, unit string, v any, gen func(r *sim.Rand) (string, any)) {
		m := &rmetric{path: "/proc/flags/" + name, kind: kind, unit: unit, desc: "flag " + name, hist: []rset{{v: v}}}
		f.ms = append(f.ms, m)
		f.flg = append(f.flg, &rflag{m, name, gen})
	}
	u := func(kind string) string {
		if kind == "duration" {
			return uSec
		}
		return uNone
	}
	all := []string{"bool", "int", "int64", "uint", "uint64", "float64", "string", "duration", "upper", "slice", "time", "func"}
	for i, x := range all {
		if !r.P(2, 3) {
			continue
		}
		name := fmt.Sprintf("f%d.%s", i, x)
		usage := "flag " + name
		unit := u(x)
		if r.P(1, 4) {
			unit = allUnits[r.Intn(len(allUnits))]
			tricorder.SetFlagUnit(name, units.Unit(unit))
		}
		kind := x
		var v any
		if goKind(x) {
			v = randVal(r, x)
		}
		textVal := func(kind string) func(r *sim.Rand) (string, any) {
			return func(r *sim.Rand) (string, any) { v := randVal(r, kind); return fmt.Sprint(v), v }
		}
		switch x {
		case "bool":
			flag.Bool(name, v.(bool), usage)
			def(name, kind, unit, v, textVal(kind))
		case "int":
			flag.Int(name, v.(int), usage)
			def(name, kind, unit, v, textVal(kind))
		case "int64":
			flag.Int64(name, v.(int64), usage)
			def(name, kind, unit, v, textVal(kind))
		case "uint":
			flag.Uint(name, v.(uint), usage)
			def(name, kind, unit, v, textVal(kind))
		case "uint64":
			flag.Uint64(name, v.(uint64), usage)
			def(name, kind, unit, v, textVal(kind))
		case "float64":
			flag.Float64(name, v.(float64), usage)
			def(name, kind, unit, v, textVal(kind))
		case "string":
			flag.String(name, v.(string), usage)
			def(name, kind, unit, v, textVal(kind))
		case "duration":
			flag.Duration(name, v.(time.Duration), usage)
			def(name, kind, unit, v, func(r *sim.Rand) (string, any) {
				d := time.Duration(r.U64() >> uint(2+r.Intn(40)))
				return d.String(), d
			})
		case "upper":
			flag.Var(&upperFlag{"INIT"}, name, usage)
			def(name, "string", unit, "INIT", func(r *sim.Rand) (string, any) {
				s := fmt.Sprintf("val%d", r.Intn(100))
				return s, strings.ToUpper(s)
			})
		case "slice":
			flag.Var(&sliceFlag{[]string{"a"}}, name, usage)
			cur := "a"
			def(name, "string", unit, "a", func(r *sim.Rand) (string, any) {
				s := fmt.Sprintf("el%d", r.Intn(100))
				cur += "," + s
				return s, cur
			})
		case "time":
			t := time.Unix(1400000000, 5).UTC()
			flag.Var(&timeFlag{t}, name, usage)
			def(name, "time", unit, t, func(r *sim.Rand) (string, any) {
				t := time.Unix(int64(r.Intn(2000000000)), int64(r.Intn(1000000000))).UTC()
				return t.Format(time.RFC3339Nano), t
			})
		case "func":
			flag.Func(name, usage, func(string) error { return nil })
			def(name, "string", unit, "", nil)
		}
	}
	k := c.Do("RegisterFlags", func(k *Call) { tricorder.RegisterFlags() })
	if k.Panicked {
		c.Fail("C12", "flags-panic", "RegisterFlags panicked: %s", k.PanicValue)
	}
}

func goKind(x string) bool {
	switch x {
	case "upper", "slice", "time", "func":
		return false
	}
	return true
}

func (f *renderFam) exec(c *Ctx, task int, op *Op) {
	if len(f.ms) == 0 {
		return
	}
	m := f.ms[op.A%len(f.ms)]
	r := sim.NewRand(uint64(op.B) + 31)
	switch op.K {
	case "set":
		if m.x == nil || m.flip {
			return
		}
		v := randVal(r, m.kind)
		i := len(m.hist)
		m.hist = append(m.hist, rset{v: v, s: c.W.Tick()})
		m.x.set(v)
		m.hist[i].e = c.W.Tick()
	case "flag":
		if len(f.flg) == 0 {
			return
		}
		x := f.flg[op.A%len(f.flg)]
		if x.gen == nil {
			return
		}
		s, v := x.gen(r)
		i := len(x.m.hist)
		x.m.hist = append(x.m.hist, rset{v: v, s: c.W.Tick()})
		must(flag.Set(x.name, s))
		x.m.hist[i].e = c.W.Tick()
	case "req":
		p := op.P
		if p == "" {
			p = m.path
		}
		f.reqs = append(f.reqs, c.request(op.Fe, p, op))
	}
}

func (f *renderFam) final(c *Ctx) {
	for _, m := range f.ms {
		if m.flip {
			m.flip = false
		}
	}
	// every front end, about the same state
	for _, fe := range []string{feJSON, feText, feRPC, feRead} {
		f.reqs = append(f.reqs, c.request(fe, "/", nil))
	}
	f.reqs = append(f.reqs, c.request(feHTML, "/r", nil), c.request(feHTML, "/r/s", nil), c.request(feHTML, "/proc/flags", nil))
	if len(f.ms) > 0 {
		m := f.ms[f.r.Intn(len(f.ms))]
		f.reqs = append(f.reqs, c.request(feJSON1, m.path, nil), c.request(feRPC1, m.path, nil))
	}
}

func (f *renderFam) check(c *Ctx) {
	dists := map[string]*DistObs{}
	// short renderings are compared with the first full one
	for _, r := range f.reqs {
		if r.ok() {
			for _, o := range r.Obs {
				if o.Dist != nil && !o.Dist.F32 && dists[o.Path] == nil {
					dists[o.Path] = o.Dist
				}
			}
		}
	}
	for _, r := range f.reqs {
		if !c.checkWellFormed("C12", r) {
			continue
		}
		by := map[string]*Obs{}
		for _, o := range r.Obs {
			by[o.Path] = o
		}
		for _, m := range f.ms {
			if !touches(r, m.path) {
				continue
			}
			o := by[m.path]
			delete(by, m.path)
			if o == nil {
				c.Fail("C12", "lost", "%s %s lacks %s (%s)", r.Fe, r.Path, m.path, m.kind)
				continue
			}
			f.checkObs(c, r, m, o, dists)
		}
		for p, o := range by {
			c.Fail("C12", "unknown-metric", "%s %s shows %s = %s%v%v, which is not registered", r.Fe, r.Path, p, o.Text, o.JSON, o.Go)
		}
		if len(c.viol) > 4 {
			return
		}
	}
}

func (f *renderFam) checkObs(c *Ctx, r *Req, m *rmetric, o *Obs, dists map[string]*DistObs) {
	goSide := r.Fe == feRPC || r.Fe == feRPC1 || r.Fe == feRead
	if o.Meta {
		kind, sub, bits := m.kind, "", kindBits(m.kind)
		name := jsonKind
		if goSide {
			name = rpcKind
		}
		switch {
		case m.list:
			kind, sub = "list", name(m.kind)
		case m.dist != nil:
			bits = 0
		default:
			kind = name(m.kind)
		}
		if o.Kind != kind || o.Sub != sub || o.Desc != m.desc || o.Unit != m.unit {
			c.Fail("C12", "attributes", "%s shows %s as %q of %q %q in %q, want %q of %q %q in %q", r.Fe, m.path, o.Kind, o.Sub, o.Desc, o.Unit, kind, sub, m.desc, m.unit)
			return
		}
		if r.Fe != feHTML && o.Bits != bits {
			c.Fail("C12", "bits", "%s shows %s (%s) with %d bits, want %d", r.Fe, m.path, m.kind, o.Bits, bits)
			return
		}
	}
	if m.dist != nil {
		if o.Dist == nil {
			c.Fail("C12", "dist", "%s shows %s as %q", r.Fe, m.path, o.Text)
			return
		}
		full := dists[m.path]
		if !o.Dist.F32 {
			if full == nil {
				dists[m.path] = o.Dist
				return
			}
			if !reflect.DeepEqual(full, o.Dist) {
				c.Fail("C12", "dist-differs", "%s shows %s as %+v, another front end as %+v", r.Fe, m.path, *o.Dist, *full)
			}
			return
		}
		if full != nil && !sameF32(full, o.Dist) {
			c.Fail("C12", "dist-differs", "%s shows %s as %+v, another front end as %+v", r.Fe, m.path, *o.Dist, *full)
		}
		return
	}
	if m.list {
		if !listMatches(r.Fe, m.kind, m.unit, m.vals, o) {
			c.Fail("C12", "list-value", "%s shows the list %s of %s in %s as %s%v%v%q, want %v", r.Fe, m.path, m.kind, m.unit, o.Text, o.JSON, o.Go, o.Items, m.vals)
			return
		}
		f.converted(c, r, m, m.vals, o)
		return
	}
	var vals []any
	for i, h := range m.hist {
		if h.s > r.E {
			break
		}
		if i+1 < len(m.hist) && m.hist[i+1].e != 0 && m.hist[i+1].e < r.S {
			continue
		}
		vals = append(vals, h.v)
	}
	flips := false
	for _, h := range m.calls {
		if h.s >= r.S && h.s <= r.E {
			if !flips {
				vals = nil
				flips = true
			}
			vals = append(vals, h.v)
		}
	}
	for _, v := range vals {
		if matches(r.Fe, m.kind, m.unit, v, o) {
			f.converted(c, r, m, []any{v}, o)
			return
		}
	}
	var want []string
	for _, v := range vals {
		switch r.Fe {
		case feHTML:
			want = append(want, htmlOf(m.kind, v, m.unit))
		case feText, feJSON, feJSON1:
			want = append(want, textOf(m.kind, v, m.unit))
		default:
			want = append(want, fmt.Sprintf("%T %v", rpcValue(m.kind, v), rpcValue(m.kind, v)))
		}
	}
	c.Fail("C12", "value", "%s shows %s (%s in %s) as %s%v%v (%T), want %q", r.Fe, m.path, m.kind, m.unit, o.Text, o.JSON, o.Go, o.Go, want)
}

// converted lets the client convert what it got to the other form: from
// JSON to Go and from Go to JSON.
func (f *renderFam) converted(c *Ctx, r *Req, m *rmetric, vals []any, o *Obs) {
	x := &messages.Metric{Path: o.Path, Description: o.Desc, Unit: units.Unit(o.Unit), Kind: types.Type(o.Kind),
		SubType: types.Type(o.Sub), Bits: o.Bits, GroupId: o.GroupID, TimeStamp: o.TS}
	defer func() {
		if e := recover(); e != nil {
			c.Fail("C12", "convert-panic", "converting %s (%s in %s, reported by %s) panicked: %v", m.path, m.kind, m.unit, r.Fe, e)
		}
	}()
	switch r.Fe {
	case feJSON, feJSON1:
		if m.kind != "time" && m.kind != "ptime" && m.kind != "duration" {
			return
		}
		x.TimeStamp = fmt.Sprintf("%d.%09d", o.TS.Unix(), o.TS.Nanosecond())
		switch j := o.JSON.(type) {
		case string:
			x.Value = j
		case []any:
			l := []string{}
			for _, e := range j {
				l = append(l, e.(string))
			}
			x.Value = l
		}
		err := x.ConvertToGoRPC()
		if err != nil {
			c.Fail("C12", "convert", "%s (%s in %s) as reported by %s, %v, cannot be converted for Go: %v", m.path, m.kind, m.unit, r.Fe, o.JSON, err)
			return
		}
		want := append([]any{}, vals...)
		for i, v := range want {
			if m.kind != "duration" {
				// JSON has no form for "not set" but 0
				t := asTime(m.kind, v)
				if t.IsZero() {
					t = time.Unix(0, 0)
				}
				want[i] = t
			}
		}
		kind := strings.TrimPrefix(m.kind, "p")
		got := &Obs{Go: x.Value}
		if m.list && !listMatches(feRPC, kind, m.unit, want, got) || !m.list && !matches(feRPC, kind, m.unit, want[0], got) {
			c.Fail("C12", "convert", "%s (%s in %s) as reported by %s, %v, is converted for Go to %v, want %v", m.path, m.kind, m.unit, r.Fe, o.JSON, x.Value, want)
			return
		}
		name, sub := rpcKind(m.kind), ""
		if m.list {
			name, sub = "list", name
		}
		ts, _ := x.TimeStamp.(time.Time)
		if string(x.Kind) != name || string(x.SubType) != sub || !ts.Equal(o.TS) {
			c.Fail("C12", "convert", "%s (%s in %s) as reported by %s at %v is converted for Go to %q of %q at %v", m.path, m.kind, m.unit, r.Fe, o.TS, x.Kind, x.SubType, ts)
		}
	case feRPC, feRPC1, feRead:
		x.Value = o.Go
		x.ConvertToJson()
		b, err := json.Marshal(x)
		if err != nil {
			if _, ok := err.(*json.UnsupportedValueError); ok {
				return // not a number
			}
			c.Fail("C12", "convert", "%s (%s in %s) as reported by %s is not converted to JSON: %v", m.path, m.kind, m.unit, r.Fe, err)
			return
		}
		var jm jsonMetric
		must(json.Unmarshal(b, &jm))
		j, err := obsFromJSON(&jm)
		if err != nil {
			c.Fail("C12", "convert", "%s (%s in %s) as reported by %s is converted to %s: %v", m.path, m.kind, m.unit, r.Fe, b, err)
			return
		}
		name, sub := jsonKind(m.kind), ""
		if m.list {
			name, sub = "list", name
		}
		if m.list && !listMatches(feJSON, m.kind, m.unit, vals, j) || !m.list && !matches(feJSON, m.kind, m.unit, vals[0], j) ||
			j.Kind != name || j.Sub != sub || !j.TS.Equal(o.TS) {
			c.Fail("C12", "convert", "%s (%s in %s) as reported by %s at %v is converted to %s", m.path, m.kind, m.unit, r.Fe, o.TS, b)
		}
	}
}

// sameF32 compares a short rendering with a full one.
func sameF32(full, short *DistObs) bool {
	if short.NoStats {
		return full.Count == 0 && len(short.Ranges) == 0
	}
	eq := func(a, b float64) bool { return float32(a) == float32(b) }
	if !eq(full.Min, short.Min) || !eq(full.Max, short.Max) || !eq(full.Avg, short.Avg) || !eq(full.Median, short.Median) ||
		!eq(full.Sum, short.Sum) || full.Count != short.Count {
		return false
	}
	i := 0
	for _, x := range full.Ranges {
		if x.N == 0 {
			continue
		}
		if i >= len(short.Ranges) {
			return false
		}
		y := short.Ranges[i]
		i++
		if y.N != x.N || y.First != x.First || y.Last != x.Last || !y.First && !eq(x.Lo, y.Lo) || !y.Last && !eq(x.Hi, y.Hi) {
			return false
		}
	}
	return i == len(short.Ranges)
}

package main

import (
	"fmt"
	"sort"
	"strings"
	"time"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"verifsim/sim"
)

func init() {
	families["group"] = func() family { return &groupFam{} }
	props["C01"] = propInfo{"group", 200000}
	props["C02"] = propInfo{"group", 200000}
	props["C03"] = propInfo{"group", 200000}
	props["C04"] = propInfo{"group", 200000}
}

// update is one run of a group's update function.
type update struct {
	g, fn, ver int
	s, e       uint64
	ns, ne     time.Duration
	ts         time.Time
	slept      time.Duration
}

type gvar struct {
	g    *grp
	path string
	desc string
	unit string
	salt int
	x    *cell
}

type grp struct {
	idx     int
	g       *tricorder.Group
	vars    []*gvar
	upds    []*update
	running *update
	hasFn   bool
	fnSeq   int
	regs    []*Call // RegisterUpdateFunc calls; A is the function number
	clockTS bool
	pace    int
	naps    int64
}

type cbEvent struct {
	g    *grp
	task int
	req  *Req
	step uint64
	ver  int
}

type groupFam struct {
	groups []*grp
	vars   map[string]*gvar
	cbs    []cbEvent
	gen0   []*grp  // groups without update function
	fresh  []*gvar // metrics created during the run
	r      *sim.Rand
	allreq []*Req
	cov    map[coverKey]bool
	hotOps []Op
	dyn    map[string]string // path -> object key, for group ids
}

// Paths of the metrics: every group has metrics in several directories, so
// that listings combine groups.
var groupDirs = []string{"/m", "/m/sub", "/m/sub/deep", "/z", "/a/only", "/m/t", "", "/m/sub/deep/er/and/deeper/still"}

func (f *groupFam) gen(p *Plan, r *sim.Rand) {
	k := p.Knobs
	k["groups"] = 1 + r.Intn(3)
	k["vars"] = 2 + r.Intn(4)
	k["plain"] = r.Intn(3) // groups without update function
	k["varseed"] = r.Intn(1 << 30)
	k["pace"] = r.Intn(4)
	k["clockts"] = r.Intn(2)
	k["tsmode"] = r.Intn(8)
	if r.P(1, 5) {
		k["dfltfn"] = 1
	}
	size := r.Intn(40)
	switch size {
	case 0:
		k["groups"], k["vars"] = 5+r.Intn(6), 2
	case 1:
		k["vars"] = 10 + r.Intn(20)
		if r.P(1, 6) {
			k["vars"] = pick(r, 70, 140)
			p.MaxSteps *= 4
		}
		k["groups"] = 1
	}
	mix := faultMix{maxOff: 1500, stallNs: 5 * ms, long: 200}
	swarm := r.Intn(8)
	if swarm&1 != 0 {
		mix.cut = 150
	}
	if swarm&2 != 0 {
		mix.stall = 250
	}
	if p.Prop == "C04" {
		mix.long = 600
	}
	mix.chunk = 200
	mix.gz = 200
	if r.P(1, 3) {
		k["slowupd"] = pick(r, 1, 1, 2, 3)
	}
	panics := r.P(1, 3)
	refn := p.Prop == "C04" || r.P(1, 4)
	create := p.Prop == "C03" && r.P(2, 3) || r.P(1, 10)
	jumps := p.Prop == "C03" && r.P(1, 3)
	k["cbyield"] = r.Intn(3)
	if r.P(2, 3) {
		// most requests go to a few paths
		for i := 0; i < 1+r.Intn(3); i++ {
			f.hotOps = append(f.hotOps, f.genReq(r, k))
		}
	}
	nt := 2 + r.Intn(4)
	if size == 2 {
		nt = 6 + r.Intn(6)
	}
	for t := 0; t < nt; t++ {
		var ops []Op
		n := 1 + r.Intn(5)
		if size <= 2 {
			n = 1 + r.Intn(3)
		}
		for i := 0; i < n; i++ {
			var op Op
			switch {
			case refn && r.P(1, 3):
				op = Op{K: "setfn", A: r.Intn(4)}
			case create && r.P(1, 3):
				op = Op{K: "create", A: r.Intn(3), B: r.Intn(1 << 20)}
				if r.P(1, 150) {
					op.K, op.C = "bulk", pick(r, 70, 300)
				}
			case jumps && r.P(1, 6):
				op = Op{K: "jump", A: r.Intn(7200) - 3600}
			default:
				op = f.genReq(r, k)
				if len(f.hotOps) > 0 && r.P(4, 5) {
					h := f.hotOps[r.Intn(len(f.hotOps))]
					fe := op.Fe
					op = h
					if r.P(1, 2) && (fe != feJSON1 && fe != feRPC1 || op.A > 0) {
						op.Fe = fe
					}
				}
				mix.apply(r, &op)
				if panics && r.P(1, 5) && op.Fe != feRPC && op.Fe != feRPC1 && op.Fe != feRead {
					op.Panic = 1 + r.Intn(4)
				}
			}
			if r.P(1, 5) {
				op.Nap = int64(r.Intn(int(2 * ms)))
				if k["slowupd"] > 1 && r.P(1, 3) {
					op.Nap = int64(r.Intn(int(10 * sec)))
				}
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
	if r.P(1, 250) {
		// many clients want the same at once
		p.MaxSteps *= 3
		op := f.genReq(r, k)
		op.Enc = pick(r, "", "gzip")
		if r.P(2, 3) {
			op.Stall = sec
		}
		for n := pick(r, 20, 70, 140); n > 0; n-- {
			p.Tasks = append(p.Tasks, []Op{op})
		}
	}
}

// genReq picks a request; the path is chosen by index so that it refers to
// whatever metrics the set-up creates.
func (f *groupFam) genReq(r *sim.Rand, k map[string]int) Op {
	fe := allFe[r.Intn(len(allFe))]
	op := Op{K: "req", Fe: fe}
	if fe == feJSON1 || fe == feRPC1 {
		op.A = 1 + r.Intn(40)
		if r.P(1, 10) {
			op.A, op.P = 0, pick(r, "/none", "/m", "/m/sub/none", "/proc/cpu")
		}
		return op
	}
	switch r.Intn(6) {
	case 0, 1:
		op.A = 1 + r.Intn(40) // a single metric
	case 2:
		op.P = "/"
	default:
		op.P = pick(r, "/m", "/m", "/m/sub", "/m/sub", "/m/sub/deep", "/m/sub/deep/er", "/z", "/a", "/a/only", "/m/t", "/none")
	}
	if r.P(1, 8) {
		op.P = pick(r, "/proc/cpu", "/nothing", "/proc", "/empty", "/m/hollow")
		op.A = 0
	}
	return op
}

func (f *groupFam) path(op *Op) string {
	if op.A > 0 {
		ks := sortedKeys(f.vars)
		return ks[(op.A-1)%len(ks)]
	}
	return op.P
}

func (f *groupFam) setup(c *Ctx) {
	k := c.P.Knobs
	f.r = sim.NewRand(uint64(k["varseed"]))
	f.vars = map[string]*gvar{}
	f.dyn = map[string]string{}
	f.cov = map[coverKey]bool{}
	n := k["groups"] + k["plain"]
	for i := 0; i < n; i++ {
		g := &grp{idx: i, g: tricorder.NewGroup(), pace: k["pace"], clockTS: k["clockts"] == 1}
		f.groups = append(f.groups, g)
		for j := 0; j < k["vars"]; j++ {
			kind := scalarKinds[f.r.Intn(len(scalarKinds))]
			if j == 0 {
				kind = "int64"
			}
			fn := f.r.P(1, 3)
			if j == 1 {
				fn, kind = true, "int64"
			}
			v := &gvar{g: g, salt: f.r.Intn(100), unit: uNone}
			if kind == "duration" || kind == "time" {
				v.unit = pick(f.r, uNone, uSec, uMs)
			}
			v.path = fmt.Sprintf("%s/g%dv%d", groupDirs[f.r.Intn(len(groupDirs))], i, j)
			v.desc = fmt.Sprintf("metric %d of group %d", j, i)
			v.x = newCell(kind, fn, verVal(kind, 0, v.salt))
			v.x.hook = f.hook(c, v)
			g.vars = append(g.vars, v)
			f.vars[v.path] = v
			if f.r.P(1, 2) {
				must(g.g.RegisterMetric(v.path, v.x.spec(), units.Unit(v.unit), v.desc))
			} else if f.r.P(1, 2) {
				must(tricorder.RegisterMetricInGroup(v.path, v.x.spec(), g.g, units.Unit(v.unit), v.desc))
			} else {
				d, err := tricorder.RegisterDirectory(v.path[:strings.LastIndexByte(v.path, '/')])
				must(err)
				must(tricorder.DirectoryGroup{Group: g.g, Directory: d}.RegisterMetric(v.path[strings.LastIndexByte(v.path, '/'):], v.x.spec(), units.Unit(v.unit), v.desc))
			}
		}
		if i < k["groups"] {
			g.hasFn = true
			f.setFn(c, g)
		}
	}
	// directories that hold nothing
	for _, x := range []string{"/empty", "/m/hollow"} {
		_, err := tricorder.RegisterDirectory(x)
		must(err)
	}
	// the default group
	d := &grp{idx: n, g: tricorder.DefaultGroup}
	f.groups = append(f.groups, d)
	v := &gvar{g: d, path: "/m/sub/dflt", desc: "default", unit: uNone, x: newCell("int64", false, int64(42))}
	d.vars = append(d.vars, v)
	f.vars[v.path] = v
	must(tricorder.RegisterMetric(v.path, v.x.spec(), units.None, v.desc))
	if k["dfltfn"] > 0 {
		d.hasFn, d.pace, d.clockTS = true, k["pace"], true
		f.setFn(c, d)
	}
}

// setFn installs a new update function.
func (f *groupFam) setFn(c *Ctx, g *grp) {
	g.fnSeq++
	id := g.fnSeq
	fn := f.updater(c, g, id)
	k := c.Begin("RegisterUpdateFunc")
	k.A, k.B = id, g.idx
	g.regs = append(g.regs, k)
	g.g.RegisterUpdateFunc(fn)
	c.End(k)
}

func (f *groupFam) updater(c *Ctx, g *grp, fn int) func() time.Time {
	return func() time.Time {
		w := c.W
		u := &update{g: g.idx, fn: fn, ver: len(g.upds) + 1, s: w.Tick(), ns: w.Elapsed()}
		w.Log("update g%d fn%d v%d", g.idx, fn, u.ver)
		if g.running != nil {
			c.Fail("C02", "concurrent-updates", "update %d of group %d started while update %d was running", u.ver, g.idx, g.running.ver)
		}
		g.upds = append(g.upds, u)
		g.running = u
		for _, v := range g.vars {
			v.x.set(verVal(v.x.kind, -1, v.salt))
		}
		for i := 0; i < g.pace; i++ {
			sim.SY(0)
		}
		if c.P.Knobs["slowupd"] > 0 && u.ver%2 == 0 {
			c.faults["slow_update"]++
			max := map[int]int64{1: 3 * ms, 2: 20 * sec}[c.P.Knobs["slowupd"]]
			if max == 0 {
				max = 3 * hour
			}
			d := time.Duration(1 + c.W.Env.Intn(int(max)))
			u.slept = d
			sim.Sleep(d)
		}
		for _, v := range g.vars {
			v.x.set(verVal(v.x.kind, u.ver, v.salt))
			if g.pace > 1 {
				sim.SY(0)
			}
		}
		if g.clockTS {
			u.ts = c.W.Clock()
		} else {
			u.ts = time.Unix(1000000000+int64(u.ver)*1000+int64(g.idx), int64(u.ver))
			switch c.P.Knobs["tsmode"] {
			case 0: // running backwards
				u.ts = time.Unix(1000000000-int64(u.ver)*1000-int64(g.idx), int64(u.ver))
			case 1: // the zero time, now and then
				if u.ver%3 != 0 {
					u.ts = time.Time{}
				}
			case 2: // before 1970
				u.ts = time.Unix(-1000000000+int64(u.ver)*1000+int64(g.idx), int64(u.ver))
			case 3: // another time zone
				u.ts = u.ts.In(time.FixedZone("here", 3600*(1+u.ver%5)))
			case 4: // in the future
				u.ts = c.W.ClockValue().Add(time.Duration(u.ver) * 20 * time.Hour)
			case 5: // in the far future
				u.ts = time.Unix(20000000000+int64(u.ver)*1000+int64(g.idx), int64(u.ver))
			}
		}
		if g.running == u {
			g.running = nil
		}
		u.e = w.Tick()
		u.ne = w.Elapsed()
		return u.ts
	}
}

// hook runs when a callback metric is evaluated.
func (f *groupFam) hook(c *Ctx, v *gvar) func() any {
	return func() any {
		req := c.current()
		ev := cbEvent{g: v.g, task: c.W.Cur().ID, req: req, step: c.W.Tick(), ver: len(v.g.upds)}
		if v.g.running != nil {
			ev.ver = -1
		}
		val := v.x.val
		f.cbs = append(f.cbs, ev)
		if req != nil {
			req.Callbacks++
			if req.Op.Panic > 0 && req.Callbacks == req.Op.Panic {
				req.CBPanic = true
				c.faults["callback_panic"]++
				c.injectPanic()
			}
		}
		for i := 0; i < c.P.Knobs["cbyield"]; i++ {
			sim.SY(0)
		}
		return val
	}
}

func (f *groupFam) exec(c *Ctx, task int, op *Op) {
	switch op.K {
	case "req":
		f.allreq = append(f.allreq, c.request(op.Fe, f.path(op), op))
	case "setfn":
		g := f.groups[op.A%len(f.groups)]
		if !g.hasFn {
			g = f.groups[0]
		}
		f.setFn(c, g)
	case "jump":
		c.jump(time.Duration(op.A) * time.Second)
	case "create":
		f.create(c, op)
	case "bulk":
		// many new objects, none of which may share its group id with another
		for i := 0; i < op.C; i++ {
			path := fmt.Sprintf("/new/bulk%d-%d", op.B, i)
			if f.dyn[path] != "" {
				return
			}
			f.dyn[path] = path
			var x any
			switch op.A {
			case 0:
				x = new(int64)
			case 1:
				x = tricorder.PowersOfTen.NewCumulativeDistribution()
			default:
				x = tricorder.NewList([]int64{1}, tricorder.ImmutableSlice)
			}
			g := tricorder.NewGroup()
			must(g.RegisterMetric(path, x, units.None, "bulk"))
		}
		f.allreq = append(f.allreq, c.request(pick(c.W.Env, feRPC, feJSON, feRead), "/", nil))
	}
}

// create makes a new group, distribution or list while others run.
func (f *groupFam) create(c *Ctx, op *Op) {
	path := fmt.Sprintf("/new/%s%d", "x", op.B)
	if f.dyn[path] != "" {
		return
	}
	f.dyn[path] = path
	switch op.A {
	case 0:
		g := tricorder.NewGroup()
		n := int64(op.B)
		must(g.RegisterMetric(path, &n, units.None, "new"))
		f.dyn[path+"b"] = path
		must(g.RegisterMetric(path+"b", &n, units.None, "new"))
	case 1:
		var d any = tricorder.PowersOfTen.NewCumulativeDistribution()
		if op.B&2 != 0 {
			d = tricorder.PowersOfTen.NewNonCumulativeDistribution()
		}
		must(tricorder.RegisterMetric(path, d, units.None, "new"))
		if op.B&1 != 0 {
			// the same distribution once more, after a report of it
			f.allreq = append(f.allreq, c.request(feRPC1, path, nil))
			for i := 0; i <= op.B>>2&3; i++ {
				if op.B&16 != 0 {
					d.(interface{ Add(interface{}) }).Add(float64(i))
				}
				p := path + "bcde"[i:i+1]
				f.dyn[p] = path
				must(tricorder.RegisterMetric(p, d, units.None, "new"))
				f.allreq = append(f.allreq, c.request(feRPC1, p, nil))
			}
		}
	default:
		l := tricorder.NewList(pick(c.W.Env, []int64{1, 2}, []int64{}, nil), tricorder.ImmutableSlice)
		must(tricorder.RegisterMetric(path, l, units.None, "new"))
		if op.B&1 != 0 {
			f.allreq = append(f.allreq, c.request(feRPC1, path, nil))
			for i := 0; i <= op.B>>2&3; i++ {
				if i == 0 || op.B&16 != 0 {
					l.Change(make([]int64, i), tricorder.MutableSlice)
				}
				p := path + "bcde"[i:i+1]
				f.dyn[p] = path
				must(tricorder.RegisterMetric(p, l, units.None, "new"))
				f.allreq = append(f.allreq, c.request(feJSON1, p, nil))
			}
		}
	}
	f.allreq = append(f.allreq, c.request(feRPC1, path, nil))
}

func (f *groupFam) final(c *Ctx) {
	// quiescent solo requests through every front end
	for _, g := range f.groups {
		v := g.vars[f.r.Intn(len(g.vars))]
		f.allreq = append(f.allreq, c.request(pick(f.r, allFe...), v.path, nil))
	}
	f.allreq = append(f.allreq, c.request(pick(f.r, feJSON, feText, feRead, feRPC), "/", nil))
}

// covers reports whether a request's path covers metrics of the group.
func (f *groupFam) covers(r *Req, g *grp) bool {
	k := coverKey{r.Fe, r.Clean, g}
	v, ok := f.cov[k]
	if !ok {
		v = f.covers1(r, g)
		f.cov[k] = v
	}
	return v
}

type coverKey struct {
	fe, path string
	g        *grp
}

func (f *groupFam) covers1(r *Req, g *grp) bool {
	for _, v := range g.vars {
		if coversPath(r.Fe, r.Clean, v.path) {
			return true
		}
	}
	if g.g == tricorder.DefaultGroup && (coversPath(r.Fe, r.Clean, "/proc/name") ||
		coversPath(r.Fe, r.Clean, "/proc/go/version") || coversPath(r.Fe, r.Clean, "/proc/io/num-open-file-descriptors")) {
		return true
	}
	return false
}

// coversPath reports whether a request for req would report the metric at
// path in the given front end.
func coversPath(fe, req, path string) bool {
	if req == path {
		return true
	}
	if fe == feJSON1 || fe == feRPC1 {
		return false
	}
	pre := req
	if pre != "/" {
		pre += "/"
	}
	if !strings.HasPrefix(path, pre) {
		return false
	}
	return fe != feHTML || !strings.Contains(path[len(pre):], "/")
}

func (f *groupFam) check(c *Ctx) {
	sort.Slice(f.cbs, func(i, j int) bool { return f.cbs[i].step < f.cbs[j].step })
	for _, r := range f.allreq {
		c.checkWellFormed("C01 C02 C03 C04", r)
		if r.BadBody != "" {
			continue
		}
		f.checkReq(c, r)
	}
	for _, g := range f.groups {
		f.checkUpdates(c, g)
	}
	f.checkIDs(c)
}

// versionsOf lists the versions an observation is consistent with.
func (f *groupFam) versionsOf(v *gvar, fe string, o *Obs) map[int]bool {
	out := map[int]bool{}
	for ver := -1; ver <= len(v.g.upds); ver++ {
		if matches(fe, v.x.kind, v.unit, verVal(v.x.kind, ver, v.salt), o) {
			out[ver] = true
		}
	}
	return out
}

func (f *groupFam) checkReq(c *Ctx, r *Req) {
	byGroup := map[int]map[int]bool{}
	paths := map[int][]string{}
	tss := map[int]*Obs{}
	for _, o := range r.Obs {
		v := f.vars[o.Path]
		if v == nil {
			continue
		}
		g := v.g
		if !g.hasFn {
			if o.HasTS {
				f.checkPlainTS(c, r, g, o)
			}
		} else {
			vs := f.versionsOf(v, r.Fe, o)
			if len(vs) == 0 {
				c.Fail("C01", "unknown-value", "%s shows a value of %s that no update of group %d wrote", r, o.Path, g.idx)
				continue
			}
			if byGroup[g.idx] == nil {
				byGroup[g.idx] = vs
			} else {
				for ver := range byGroup[g.idx] {
					if !vs[ver] {
						delete(byGroup[g.idx], ver)
					}
				}
				if len(byGroup[g.idx]) == 0 {
					c.Fail("C01", "mixed-states", "%s mixes two states of group %d: %s does not go with %s", r, g.idx, o.Path, strings.Join(paths[g.idx], ", "))
					byGroup[g.idx] = vs
				}
			}
			paths[g.idx] = append(paths[g.idx], o.Path)
		}
		if o.HasTS {
			if p := tss[g.idx]; p == nil {
				tss[g.idx] = o
			} else if !p.TS.Equal(o.TS) || p.GroupID != o.GroupID {
				c.Fail("C03", "group-disagrees", "%s: %s and %s are in one group but carry %v#%d and %v#%d", r, p.Path, o.Path, p.TS.UTC(), p.GroupID, o.TS.UTC(), o.GroupID)
			}
		}
	}
	for _, g := range f.groups {
		vs := byGroup[g.idx]
		if vs == nil {
			continue
		}
		// the update must have completed before the response ended
		var cand []int
		mid := vs[-1]
		for ver := 1; ver <= len(g.upds); ver++ {
			u := g.upds[ver-1]
			if vs[ver] && u.e != 0 && u.e < r.E {
				cand = append(cand, ver)
			}
		}
		if len(cand) == 0 {
			switch {
			case mid:
				c.Fail("C01", "mid-update", "%s shows the middle of an update of group %d", r, g.idx)
			case vs[0]:
				c.Fail("C01 C02", "no-update", "%s shows group %d as it was before any update", r, g.idx)
			default:
				c.Fail("C01", "future-update", "%s shows group %d as left by an update that had not completed", r, g.idx)
			}
			continue
		}
		// timestamps
		if o := tss[g.idx]; o != nil {
			ok := false
			for _, ver := range cand {
				if g.upds[ver-1].ts.Equal(o.TS) {
					ok = true
				}
			}
			if !ok {
				c.Fail("C03", "wrong-timestamp", "%s reports time %v for group %d, but the update that produced the values returned %v", r, o.TS.UTC(), g.idx, g.upds[cand[len(cand)-1]-1].ts.UTC())
			}
		}
		// freshness
		fresh := false
		var last *update
		for _, ver := range cand {
			u := g.upds[ver-1]
			last = u
			if u.s > r.S || f.chained(r, g, u.s) {
				fresh = true
			}
		}
		if !fresh {
			c.Fail("C02", "stale-data", "%s shows group %d as of update %d (step %d) although no unbroken chain of requests kept that update in use", r, g.idx, last.ver, last.s)
		} else {
			c.probes["group-read"]++
			if last.s < r.S {
				c.probes["group-shared-update"]++
			}
		}
	}
}

// chained reports whether requests covering g were in flight without a gap
// from step s until r arrived.
func (f *groupFam) chained(r *Req, g *grp, s uint64) bool {
	at := s
	for at < r.S {
		best := at
		for _, q := range f.allreq {
			if q == r || !f.covers(q, g) {
				continue
			}
			if q.S <= at && q.E > best {
				best = q.E
			}
		}
		if best == at {
			return false
		}
		at = best
	}
	return true
}

// checkPlainTS checks the timestamp of a group without update function.
func (f *groupFam) checkPlainTS(c *Ctx, r *Req, g *grp, o *Obs) {
	// earliest start of an unbroken chain of requests on g ending in r
	s, cs := r.S, r.CS
	for again := true; again; {
		again = false
		for _, q := range f.allreq {
			if q != r && f.covers(q, g) && q.S < s && q.E >= s {
				s, cs = q.S, q.CS
				again = true
			}
		}
	}
	lo, hi := c.clockSpan(s, r.E, cs, r.CE)
	if o.TS.Before(lo) || o.TS.After(hi) {
		c.Fail("C03", "plain-timestamp", "%s reports %v for %s of a group without update function, but the system time was in [%v, %v]", r, o.TS.UTC(), o.Path, lo.UTC(), hi.UTC())
	}
}

func (f *groupFam) checkUpdates(c *Ctx, g *grp) {
	if !g.hasFn {
		return
	}
	var cov []*Req
	for _, r := range f.allreq {
		if f.covers(r, g) {
			cov = append(cov, r)
		}
	}
	// every update belongs to a request of its own
	match := make([]int, len(cov)) // request -> update+1
	var try func(u int, seen []bool) bool
	try = func(u int, seen []bool) bool {
		for i, r := range cov {
			if seen[i] || g.upds[u].s < r.S || g.upds[u].s > r.E {
				continue
			}
			seen[i] = true
			if match[i] == 0 || try(match[i]-1, seen) {
				match[i] = u + 1
				return true
			}
		}
		return false
	}
	for u := range g.upds {
		if c.leakFrom > 0 && g.upds[u].s > c.leakFrom {
			break // requests of the leak check
		}
		if !try(u, make([]bool, len(cov))) {
			inflight := 0
			for _, r := range cov {
				if g.upds[u].s >= r.S && g.upds[u].s <= r.E {
					inflight++
				}
			}
			if inflight == 0 {
				c.Fail("C02 C04", "unprovoked-update", "update %d of group %d (step %d) ran although no request for the group was in progress", u+1, g.idx, g.upds[u].s)
			} else {
				c.Fail("C02", "too-many-updates", "update %d of group %d (step %d): more updates than requests", u+1, g.idx, g.upds[u].s)
			}
			break
		}
	}
	// a request on its own runs the update exactly once
	for _, r := range cov {
		if !r.ok() {
			continue
		}
		solo := true
		for _, q := range cov {
			if q != r && q.S < r.E && q.E > r.S {
				solo = false
			}
		}
		if !solo {
			c.probes["overlapping-requests"]++
			continue
		}
		n := 0
		for _, u := range g.upds {
			if u.s > r.S && u.s < r.E {
				n++
			}
		}
		if n != 1 {
			c.Fail("C02", "solo-update-count", "%s overlaps no other request on group %d but ran its update function %d times", r, g.idx, n)
		}
	}
	// no update starts between two readings of the same request
	type span struct{ lo, hi uint64 }
	spans := map[*Req]span{}
	for _, ev := range f.cbs {
		if ev.g != g || ev.req == nil {
			continue
		}
		sp, ok := spans[ev.req]
		if !ok {
			sp = span{ev.step, ev.step}
		}
		sp.hi = ev.step
		spans[ev.req] = sp
		if ev.ver == -1 {
			c.Fail("C01 C02", "read-during-update", "request %s evaluated a metric of group %d in the middle of an update", ev.req, g.idx)
		}
	}
	for _, u := range g.upds {
		for r, sp := range spans {
			if u.s > sp.lo && u.s < sp.hi {
				c.Fail("C02", "update-during-reading", "update %d of group %d started at step %d between two readings of %s", u.ver, g.idx, u.s, r)
			}
		}
	}
	// replacing the function waits for nothing but an update of the group
	for _, k := range g.regs {
		if k.E == 0 {
			continue
		}
		wait := k.NE - k.NS
		for _, u := range g.upds {
			lo, hi := max(u.ns, k.NS), u.ne
			if u.e == 0 || hi > k.NE {
				hi = k.NE
			}
			if hi > lo {
				wait -= hi - lo
			}
		}
		if wait > 100*time.Millisecond {
			c.Fail("C04", "replacement-waits", "RegisterUpdateFunc on group %d took %v of simulated time, %v of it while no update of the group was running", g.idx, k.NE-k.NS, wait)
		}
	}
	// function replacement
	for _, u := range g.upds {
		var reg *Call
		for _, k := range g.regs {
			if k.A == u.fn {
				reg = k
			}
		}
		if reg == nil || reg.S > u.s {
			c.Fail("C04", "function-from-nowhere", "update %d of group %d ran function %d before it was registered", u.ver, g.idx, u.fn)
			continue
		}
		for _, k := range g.regs {
			if k.S > reg.E && reg.E != 0 && k.E != 0 && k.E < u.s {
				c.Fail("C04", "replaced-function-ran", "update %d of group %d (step %d) ran function %d although function %d had replaced it by step %d", u.ver, g.idx, u.s, u.fn, k.A, k.E)
			}
		}
	}
}

// checkIDs checks that group ids are stable and distinct.
func (f *groupFam) checkIDs(c *Ctx) {
	keyOf := func(path string) string {
		if v := f.vars[path]; v != nil {
			return fmt.Sprintf("group %d", v.g.idx)
		}
		if k := f.dyn[path]; k != "" {
			return k
		}
		switch path {
		case "/proc/name", "/proc/args", "/proc/start-time", "/proc/go/version":
			return fmt.Sprintf("group %d", len(f.groups)-1)
		case "/proc/cpu/user", "/proc/cpu/sys", "/proc/ipc/sent", "/proc/io/input":
			return "rusage"
		case "/proc/memory/total":
			return "memory"
		}
		return ""
	}
	for _, r := range f.allreq {
		if r.Fe == feHTML || r.Fe == feText {
			continue
		}
		for _, o := range r.Obs {
			k := keyOf(o.Path)
			if k == "" {
				continue
			}
			if old, ok := c.idOf[k]; ok && old != o.GroupID {
				c.Fail("C03", "id-changed", "group id of %s (%s) changed from %d to %d", o.Path, k, old, o.GroupID)
			}
			c.idOf[k] = o.GroupID
			if other, ok := c.ids[o.GroupID]; ok && other != k {
				c.Fail("C03", "id-shared", "group id %d is used by both %s and %s", o.GroupID, other, k)
			}
			c.ids[o.GroupID] = k
		}
	}
}

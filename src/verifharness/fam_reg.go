package main

import (
	"encoding/json"
	"fmt"
	"net/url"
	"sort"
	"strconv"
	"strings"

	"github.com/Symantec/tricorder/go/tricorder"
	"github.com/Symantec/tricorder/go/tricorder/units"
	"verifsim/sim"
)

func init() {
	families["reg"] = func() family { return &regFam{} }
	props["C09"] = propInfo{"reg", 200000}
	props["C10"] = propInfo{"reg", 200000}
	props["C11"] = propInfo{"reg", 200000}
	props["C13"] = propInfo{"reg", 200000}
}

const regProps = "C09 C10 C11 C13"

// regOp is one registry call or one lookup in the history.
type regOp struct {
	id    int
	kind  string // reg bad regdir getdir unreg undir look
	base  int    // op that produced the handle, -1 for the package level
	rel   []string
	full  []string
	s, e  uint64
	err   string // "", inuse, notfound
	want  func(kind int, id int) bool
	desc  string
	val   int64
	unit  string
	descr string
	how   int
	x     *int64
	obj   string // what is registered: "" a number of its own, or a shared object
}

type regHandle struct {
	d    *tricorder.DirectorySpec
	op   int // -1: root
	path []string
	vc   sim.VC // an application passes handles between its goroutines in order
}

type wideKey struct {
	name string
	regs []*Call
	uns  []*Call
	val  []int64
}

type regFam struct {
	ownProc bool // the built-in metrics are gone and /proc is used like any other path
	names   [2]string
	univ    []string
	ops     []*regOp
	handles []*regHandle
	reqs    []*Req
	r       *sim.Rand
	wide    map[string]*wideKey
	wideN   int
	wideMix bool // upper and lower case, and others
	group   *tricorder.Group
	byVal   map[int64]*regOp
	keep    []any
	dgs     map[string]bool
	deep    []string
	sx      int64
	slist   *tricorder.List
	sdist   *tricorder.CumulativeDistribution
	wdist   *tricorder.NonCumulativeDistribution
}

// badSpecs are things that cannot be metrics; nil stands for a distribution
// whose unit is another one.
var badSpecs = []any{new(complex128), nil, func() complex64 { return 0 }, nil, &struct{ A int }{}, new([]int), new(*int), func() (int, error) { return 0, nil }, func() []int64 { return nil }, new(map[string]int)}

var nameSets = [][2]string{{"a", "b"}, {"a", "a-"}, {"a", "a!x"}, {"B", "a"}, {"x%41", "100%"}, {"q?z=1", "h#f"}, {"<b>", `"n&m"`}, {"ü", "日本"}, {"a+b", "a;b"}, {"proc2", "pr"}, {"a", "ab"}, {"a", " a"}, {"a ", "a"}, {"a b", "a"}, {"A", "a"}, {"a.b", ".a"},
	{"proc", "a"}, {"proc", "cpu"}, {strings.Repeat("long-name.", 7), "a"}, {strings.Repeat("n", 300), strings.Repeat("n", 299) + "m"},
	{"a,b", "a=b"}, {"a:b", "[c]"}, {"\\", "'"}, {"~", "{{.}}"}}

// shapes of the path universe, in terms of the two names
var regShape = []string{"0", "1", "0/0", "0/1", "1/0", "0/1/0", "0/1/1"}

func (f *regFam) gen(p *Plan, r *sim.Rand) {
	k := p.Knobs
	k["names"] = 0
	if r.P(1, 2) {
		k["names"] = r.Intn(len(nameSets))
	}
	k["init"] = r.Intn(1 << 16)
	k["pre"] = r.Intn(5)
	// the tree grows below a chain of directories
	k["deep"] = pick(r, 0, 0, 0, 0, 0, 0, 3, 6, pick(r, 6, 13, 18, 35))
	k["proc"] = r.Intn(6) // 0: the process metrics stay in the tree
	if r.P(1, 4) || p.Prop == "C11" && r.P(1, 2) {
		k["wide"] = 3 + r.Intn(30)
		if r.P(1, 60) {
			k["wide"] = pick(r, 130, 300, 700)
			p.MaxSteps *= 8
		}
	}
	w := map[string]int{"reg": 25, "regdir": 12, "getdir": 6, "unreg": 12, "undir": 8, "look": 37}
	switch p.Prop {
	case "C09":
		w["reg"] = 40
		w["unreg"], w["undir"] = 6, 4
	case "C10":
		w["unreg"], w["undir"], w["getdir"] = 22, 16, 8
	case "C13":
		w["look"] = 60
	case "C11":
		w["look"] = 50
	}
	// some runs leave whole kinds of calls out
	for _, x := range []string{"regdir", "getdir", "unreg", "undir"} {
		if r.P(1, 6) {
			w[x] = 0
		}
	}
	ks := []string{"reg", "regdir", "getdir", "unreg", "undir", "look"}
	tot := 0
	for _, x := range ks {
		tot += w[x]
	}
	mix := faultMix{maxOff: 800, stallNs: 2 * ms, long: 150, chunk: 150, gz: 100}
	if r.P(1, 4) {
		mix.cut, mix.stall = 100, 150
	}
	hot := r.Intn(len(regShape))
	if r.P(1, 10) {
		// one after the other: a directory goes and comes back, and is used
		// through whatever handles the calls yield
		k["pat"] = 1 + hot
		var ops []Op
		for i, n := 0, 4+r.Intn(6); i < n; i++ {
			op := Op{K: pick(r, "getdir", "regdir", "unreg", "undir", "reg", "reg", "look"), S: regShape[hot], B: r.Intn(1 << 16), C: r.Intn(4)}
			switch {
			case op.K == "look":
				op.Fe = allFe[r.Intn(len(allFe))]
			case op.K == "undir" || op.K == "reg" && r.P(2, 3):
				op.A = -1
				op.S = pick(r, "0", "1")
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
		if r.P(1, 2) {
			p.Tasks = append(p.Tasks, []Op{{K: pick(r, "getdir", "unreg", "regdir"), S: regShape[hot], B: r.Intn(1 << 16)}, {K: "reg", S: pick(r, "0", "1"), A: -1, B: r.Intn(1 << 16)}})
		}
		return
	}
	if r.P(1, 6) || p.Prop == "C10" && r.P(1, 4) {
		// one directory is removed through its handle while its path is
		// freed and taken again
		k["pat"] = 1 + hot
		one := func(kinds ...string) Op {
			return Op{K: kinds[r.Intn(len(kinds))], S: regShape[hot], B: r.Intn(1 << 16), C: r.Intn(4)}
		}
		undir := Op{K: "undir", S: "@1", A: 1, B: r.Intn(1 << 16)}
		look := func() Op {
			o := one("look")
			o.Fe = allFe[r.Intn(len(allFe))]
			return o
		}
		p.Tasks = append(p.Tasks, []Op{undir})
		p.Tasks = append(p.Tasks, []Op{one("unreg", "unreg", "undir"), one("reg", "regdir"), look()})
		if r.P(1, 2) {
			p.Tasks = append(p.Tasks, []Op{one("reg", "regdir", "unreg", "getdir"), look()})
		}
		if r.P(1, 3) {
			p.Tasks[0] = append(p.Tasks[0], one("reg", "regdir", "getdir"), undir)
		}
		return
	}
	nt := 2 + r.Intn(3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			x := r.Intn(tot)
			op := Op{B: r.Intn(1 << 16), C: r.Intn(4)}
			for _, y := range ks {
				if x < w[y] {
					op.K = y
					break
				}
				x -= w[y]
			}
			op.A = 0
			if r.P(1, 3) || op.K == "undir" {
				op.A = 1 + r.Intn(6)
			}
			op.S = regShape[r.Intn(len(regShape))]
			if r.P(1, 2) {
				op.S = regShape[hot]
			}
			if r.P(1, 12) {
				op.S = pick(r, "", "0/zz", "nosuch", "zz/0", "0/1/0/zz")
			}
			if op.K == "look" {
				op.Fe = allFe[r.Intn(len(allFe))]
				list := r.P(1, 2)
				if p.Prop == "C11" {
					list = r.P(4, 5)
				}
				if list {
					op.Fe = listFe[r.Intn(len(listFe))]
					op.S = pick(r, "", "", "0", "0", "1", "0/1")
				}
				mix.apply(r, &op)
				if (op.Fe == feRPC || op.Fe == feRPC1 || op.Fe == feRead) && r.P(1, 20) {
					// names like any other (a web server would resolve them)
					op.S = pick(r, "./0", "0/.", "0/..", "0/../1", "..")
				}
			} else if k["wide"] > 0 && r.P(1, 2) {
				op.K = pick(r, "wreg", "wreg", "wunreg")
			}
			if op.K == "look" && k["wide"] > 0 && r.P(1, 3) {
				op.S = pick(r, "w", "")
				op.Fe = listFe[r.Intn(len(listFe))]
			}
			if r.P(1, 10) {
				op.Nap = int64(r.Intn(int(ms)))
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

// named turns a shape into components.
func (f *regFam) named(shape string) []string {
	var out []string
	if shape != "" && shape[0] <= '1' {
		out = append(out, f.deep...)
	}
	return append(out, f.namedRel(shape)...)
}

func (f *regFam) namedRel(shape string) []string {
	var out []string
	for _, x := range strings.Split(shape, "/") {
		switch x {
		case "":
		case "0":
			out = append(out, f.names[0])
		case "1":
			out = append(out, f.names[1])
		default:
			out = append(out, x)
		}
	}
	return out
}

func joinPath(c []string) string { return "/" + strings.Join(c, "/") }

// noise writes a path in another way that means the same.
func noise(c []string, r *sim.Rand, web bool) string {
	if web {
		if r.P(3, 4) {
			return joinPath(c)
		}
		var b strings.Builder
		for _, x := range c {
			if r.P(1, 4) {
				b.WriteString(pick(r, "/ ", "/\t", "/  ", "/\u00a0", "/\v\u2003", "/\u0085"))
			}
			b.WriteString("/" + x)
		}
		if b.Len() == 0 || r.P(1, 3) {
			b.WriteString("/")
		}
		return b.String()
	}
	if r.P(1, 2) {
		return joinPath(c)
	}
	var b strings.Builder
	for i, x := range c {
		if i > 0 || r.P(1, 2) {
			b.WriteString(pick(r, "/", "/", "//", "/ /", "///", "/\t/", "/\u00a0/", "/\f/\u3000 /"))
		}
		b.WriteString(x)
	}
	b.WriteString(pick(r, "", "", "/", "//", "/ ", "/\r\n", "/\u2028"))
	return b.String()
}

func (f *regFam) setup(c *Ctx) {
	k := c.P.Knobs
	f.names = nameSets[k["names"]%len(nameSets)]
	f.r = sim.NewRand(uint64(k["init"]) + 99)
	f.byVal = map[int64]*regOp{}
	f.wide = map[string]*wideKey{}
	f.group = tricorder.NewGroup()
	for i := 0; i < k["deep"]; i++ {
		f.deep = append(f.deep, fmt.Sprintf("d%d", i))
	}
	f.sx = 424242
	f.slist = tricorder.NewList([]int64{424243}, tricorder.ImmutableSlice)
	f.sdist = tricorder.PowersOfTen.NewCumulativeDistribution()
	f.wdist = tricorder.PowersOfTen.NewNonCumulativeDistribution()
	tricorder.RegisterMetric("/wdist", f.wdist, units.Celsius, "")
	tricorder.UnregisterPath("/wdist")
	c.splitPath = f.splitPath
	f.ownProc = f.names[0] == "proc"
	f.wideMix = k["init"]&1 != 0
	if k["proc"] != 0 || f.ownProc {
		tricorder.UnregisterPath("/proc")
	}
	for _, s := range regShape {
		f.univ = append(f.univ, joinPath(f.named(s)))
	}
	sort.Strings(f.univ)
	root, err := tricorder.GetDirectory("/")
	if err != nil {
		c.Fail(regProps, "root-missing", "GetDirectory(\"/\") fails: %v", err)
		return
	}
	f.handles = append(f.handles, &regHandle{d: root, op: -1})
	r := f.r
	if k["pat"] > 0 {
		f.exec(c, -1, &Op{K: "regdir", S: regShape[(k["pat"]-1)%len(regShape)], B: r.Intn(1 << 16), C: r.Intn(4)})
	}
	for i := 0; i < k["pre"]; i++ {
		op := &Op{K: pick(r, "reg", "reg", "regdir", "getdir"), S: regShape[r.Intn(len(regShape))], B: r.Intn(1 << 16), C: r.Intn(4)}
		f.exec(c, -1, op)
	}
	for i := 0; i < k["wide"]; i++ {
		if r.P(2, 3) {
			f.wideReg(c, f.wideName(i))
		}
	}
}

func (f *regFam) wideName(i int) string {
	if f.wideMix {
		return fmt.Sprintf("%c%c%d", "aBcDeFgHiJkLm"[i*7%13], "Xy_-"[i%4], i)
	}
	return fmt.Sprintf("%ck%d", 'a'+byte(i*7%26), i)
}

func (f *regFam) wideReg(c *Ctx, name string) {
	w := f.wide[name]
	if w == nil {
		w = &wideKey{name: name}
		f.wide[name] = w
	}
	if len(w.regs) > len(w.uns) {
		return
	}
	f.wideN++
	v := int64(1000000 + f.wideN)
	x := new(int64)
	*x = v
	w.val = append(w.val, v)
	k := c.Begin("wreg")
	k.Str = name
	w.regs = append(w.regs, k)
	err := tricorder.RegisterMetric("/w/"+name, x, units.None, "wide "+name)
	c.End(k)
	if err != nil {
		c.Fail("C09 C10 C11", "wide-register", "RegisterMetric(/w/%s) fails with %v though the path is free", name, err)
	}
}

func (f *regFam) exec(c *Ctx, task int, op *Op) {
	if len(f.handles) == 0 {
		return
	}
	r := sim.NewRand(uint64(op.B) + 5)
	switch op.K {
	case "wreg", "wunreg":
		// every key belongs to one task
		if c.P.Knobs["wide"] == 0 {
			return
		}
		n := len(c.P.Tasks)
		i := task + n*r.Intn(1+c.P.Knobs["wide"]/n)
		name := f.wideName(i)
		if op.K == "wreg" {
			f.wideReg(c, name)
			return
		}
		w := f.wide[name]
		if w == nil || len(w.regs) <= len(w.uns) {
			return
		}
		k := c.Begin("wunreg")
		k.Str = name
		w.uns = append(w.uns, k)
		tricorder.UnregisterPath("/w/" + name)
		c.End(k)
		return
	case "look":
		f.look(c, op, r)
		return
	}
	o := &regOp{id: len(f.ops), kind: op.K, base: -1, rel: f.named(op.S)}
	var h *regHandle
	if op.A != 0 {
		h = f.handles[max(0, op.A*7+op.B)%len(f.handles)]
		if op.A < 0 {
			h = f.handles[len(f.handles)-1]
			o.rel = f.namedRel(op.S)
		}
		if op.S == "@1" {
			h = f.handles[1%len(f.handles)]
		}
		h.vc.Acquire()
		o.base = h.op
		if o.kind != "undir" && len(o.rel) > 1 && (r.P(1, 2) || len(f.deep) > 0) {
			o.rel = o.rel[len(o.rel)-1:]
		}
		if o.kind != "undir" && len(o.rel) > 0 && r.P(1, 2) {
			o.rel = o.rel[:1]
		}
		o.full = append(append([]string{}, h.path...), o.rel...)
	} else {
		o.full = o.rel
	}
	if len(o.full) > 4+len(f.deep) {
		return
	}
	rel := noise(o.rel, r, false)
	f.ops = append(f.ops, o)
	name := op.K
	if h != nil {
		name += "@"
	}
	switch op.K {
	case "reg":
		o.val = int64(1000 + o.id*7)
		o.unit = pick(r, uNone, uByte, uCel)
		o.descr = fmt.Sprintf("metric <%d> & co", o.id)
		x := new(int64)
		*x = o.val
		o.x = x
		o.how = r.Intn(4)
		var spec any = x
		if o.how%2 == 1 {
			spec = func() int64 { sim.SY(0); return *x }
		}
		switch r.Intn(13) {
		case 12:
			// not a metric at all, or a distribution in a wrong unit
			o.kind = "bad"
			spec = badSpecs[o.id%len(badSpecs)]
			if spec == nil {
				spec, o.unit = f.wdist, uByte
			}
		case 0:
			o.obj, spec, o.val, o.unit = "int64", &f.sx, f.sx, uNone
		case 1:
			o.obj, spec = "list", f.slist
		case 2:
			o.obj, spec, o.unit = "distribution", f.sdist, uNone
		case 3:
			if o.unit == uNone {
				o.descr = ""
			}
		case 4:
			o.descr = fmt.Sprintf(pick(r, " metric no. %d. ", "Metric no. %d.", "metric, %d\tthings;", "UPPER %d:", "%d"), o.id)
		case 5:
			o.descr = fmt.Sprintf("Métrique %d\"'", o.id)
		case 6:
			o.descr = fmt.Sprintf("%d %s", o.id, strings.Repeat("a long description ", 1+r.Intn(40))) + "."
		}
		if o.kind == "bad" {
			name = "bad" + name
		} else if o.obj != "" {
			delete(f.byVal, o.val)
		} else {
			f.byVal[o.val] = o
		}
		k := c.Do(name, func(k *Call) {
			k.A, k.B, k.Str = o.id, o.base, rel
			switch {
			case h != nil && o.how < 2:
				k.Err = h.d.RegisterMetric(rel, spec, units.Unit(o.unit), o.descr)
			case h != nil && o.id%2 == 0:
				k.Err = tricorder.DirectoryGroup{Group: f.group, Directory: h.d}.RegisterMetric(rel, spec, units.Unit(o.unit), o.descr)
			case h != nil:
				k.Err = h.d.RegisterMetricInGroup(rel, spec, f.group, units.Unit(o.unit), o.descr)
			case o.how < 2:
				k.Err = tricorder.RegisterMetric(rel, spec, units.Unit(o.unit), o.descr)
			default:
				k.Err = tricorder.RegisterMetricInGroup(rel, spec, f.group, units.Unit(o.unit), o.descr)
			}
		})
		f.done(c, o, k)
	case "regdir", "getdir":
		var d *tricorder.DirectorySpec
		k := c.Do(name, func(k *Call) {
			k.A, k.B, k.Str = o.id, o.base, rel
			switch {
			case op.K == "getdir":
				o.base = -1
				if h != nil {
					o.full = append(append([]string{}, h.path...), o.rel...)
					o.rel = o.full
					rel = noise(o.rel, r, false)
					k.Str, k.B = rel, -1
				}
				d, k.Err = tricorder.GetDirectory(rel)
			case h != nil:
				d, k.Err = h.d.RegisterDirectory(rel)
			default:
				d, k.Err = tricorder.RegisterDirectory(rel)
			}
		})
		f.done(c, o, k)
		if k.Err == nil && !k.Panicked {
			if d == nil {
				c.Fail(regProps, "nil-handle", "%s(%q) succeeds with a nil directory", name, rel)
				return
			}
			if g := d.AbsPath(); g != joinPath(o.full) {
				c.Fail("C09", "handle-path", "%s(%q) yields a directory that says its path is %q, want %q", name, rel, g, joinPath(o.full))
			}
			h := &regHandle{d: d, op: o.id, path: o.full}
			h.vc.Release()
			f.handles = append(f.handles, h)
		}
	case "unreg":
		k := c.Do(name, func(k *Call) {
			k.A, k.B, k.Str = o.id, o.base, rel
			if h != nil {
				h.d.UnregisterPath(rel)
			} else {
				tricorder.UnregisterPath(rel)
			}
		})
		f.done(c, o, k)
	case "undir":
		if h == nil {
			h = f.handles[0]
		}
		o.base, o.rel, o.full = h.op, nil, h.path
		k := c.Do(name, func(k *Call) {
			k.A, k.B, k.Str = o.id, o.base, joinPath(h.path)
			h.d.UnregisterDirectory()
		})
		f.done(c, o, k)
	}
}

func (f *regFam) done(c *Ctx, o *regOp, k *Call) {
	o.s, o.e = k.S, k.E
	if o.kind == "bad" {
		// a function with two results may panic
		if k.Panicked || k.Err != nil && k.Err != tricorder.ErrPathInUse {
			o.err = "bad"
		}
		c.probes["bad-registration"]++
		if k.Err == tricorder.ErrPathInUse {
			o.err = "inuse"
		}
		if o.err == "" {
			c.Fail("C09", "bad-accepted", "%s(%q) succeeds for something that is no metric, or a distribution of another unit", k.Kind, k.Str)
		}
		k.Res = o.err
		return
	}
	if k.Panicked {
		c.Fail(regProps, "registry-panic", "%s(%q) panicked: %s", k.Kind, k.Str, k.PanicValue)
		return
	}
	switch k.Err {
	case nil:
	case tricorder.ErrPathInUse:
		o.err = "inuse"
		c.probes["path-in-use"]++
	case tricorder.ErrNotFound:
		o.err = "notfound"
	default:
		c.Fail("C09 C13", "wrong-error", "%s(%q) returned %v", k.Kind, k.Str, k.Err)
	}
	k.Res = o.err
}

func (f *regFam) look(c *Ctx, op *Op, r *sim.Rand) {
	cs := f.named(op.S)
	web := op.Fe != feRPC && op.Fe != feRPC1 && op.Fe != feRead
	req := c.request(op.Fe, noise(cs, r, web), op)
	f.reqs = append(f.reqs, req)
	if req.Fe == feHTML && req.ok() && len(req.Links) > 0 && r.P(1, 4) {
		// a client follows a link
		l := req.Links[r.Intn(len(req.Links))]
		if u, err := url.Parse(l); err == nil && strings.HasPrefix(u.Path, "/metrics/") && !f.underProc(strings.TrimPrefix(u.Path, "/metrics")) {
			c.probes["html-link-followed"]++
			f.reqs = append(f.reqs, c.request(feHTML, strings.TrimPrefix(u.Path, "/metrics"), &Op{}))
		}
	}
}

func (f *regFam) final(c *Ctx) {
	r := f.r
	if len(f.handles) == 0 {
		return
	}
	for _, s := range append([]string{"nosuch", "0/zz"}, regShape...) {
		fe := feHTML
		if r.P(1, 3) {
			fe = allFe[r.Intn(len(allFe))]
		}
		f.look(c, &Op{Fe: fe, S: s}, r)
	}
	f.look(c, &Op{Fe: pick(r, feJSON, feRPC, feRead, feText), S: ""}, r)
	f.look(c, &Op{Fe: pick(r, feRPC, feRead), S: "0"}, r)
	f.look(c, &Op{Fe: feHTML, S: ""}, r)
	if c.P.Knobs["wide"] > 0 && c.P.Knobs["init"]&2 != 0 {
		f.dropWide(c)
	}
}

// dropWide removes the flat directory as a whole.
func (f *regFam) dropWide(c *Ctx) {
	r := f.r
	d, err := tricorder.GetDirectory("/w")
	k := c.Begin("drop")
	for _, n := range sortedKeys(f.wide) {
		if w := f.wide[n]; len(w.regs) > len(w.uns) {
			w.uns = append(w.uns, k)
		}
	}
	if err == nil && r.P(1, 2) {
		d.UnregisterDirectory()
	} else {
		tricorder.UnregisterPath("/w")
	}
	c.End(k)
	for _, fe := range []string{feHTML, pick(r, feText, feHTML)} {
		if q := c.request(fe, "/w", nil); !q.Missing {
			c.Fail("C10", "still-there", "%s after /w was unregistered", q)
		}
	}
	if _, err := tricorder.GetDirectory("/w"); err != tricorder.ErrNotFound {
		c.Fail("C10", "still-there", "GetDirectory(/w) gives %v after /w was unregistered", err)
	}
	f.reqs = append(f.reqs, c.request(pick(r, feJSON, feRPC, feText, feRead), "/", nil))
	f.wideReg(c, f.wideName(1))
	f.reqs = append(f.reqs, c.request(pick(r, feJSON, feRPC, feText, feRead, feHTML), "/w", nil))
}

// ---- the model -------------------------------------------------------------

// Outcome kinds of a walk.
const (
	wMissing = iota // nothing there
	wBlocked        // a metric is in the way
	wMetric
	wDir
)

type regEnt struct {
	dir  int // >= 0: entry of a directory; -1: handle; -2: parent link
	name string
	tgt  int // > 0: directory, < 0: metric
}

// regState is the tree: a sorted list of entries.
type regState struct{ ent []regEnt }

func (s *regState) find(dir int, name string) (int, bool) {
	i := sort.Search(len(s.ent), func(i int) bool {
		e := &s.ent[i]
		return e.dir > dir || e.dir == dir && e.name >= name
	})
	return i, i < len(s.ent) && s.ent[i].dir == dir && s.ent[i].name == name
}

func (s *regState) get(dir int, name string) int {
	if i, ok := s.find(dir, name); ok {
		return s.ent[i].tgt
	}
	return 0
}

func (s *regState) put(dir int, name string, tgt int) *regState {
	i, ok := s.find(dir, name)
	n := &regState{make([]regEnt, 0, len(s.ent)+1)}
	n.ent = append(n.ent, s.ent[:i]...)
	n.ent = append(n.ent, regEnt{dir, name, tgt})
	if ok {
		i++
	}
	n.ent = append(n.ent, s.ent[i:]...)
	return n
}

func (s *regState) del(dir int, name string) *regState {
	i, ok := s.find(dir, name)
	if !ok {
		return s
	}
	n := &regState{make([]regEnt, 0, len(s.ent))}
	n.ent = append(n.ent, s.ent[:i]...)
	n.ent = append(n.ent, s.ent[i+1:]...)
	return n
}

func (s *regState) key() string {
	b := make([]byte, 0, 16*len(s.ent))
	for _, e := range s.ent {
		b = strconv.AppendInt(b, int64(e.dir), 10)
		b = append(b, ':')
		b = append(b, e.name...)
		b = append(b, '=')
		b = strconv.AppendInt(b, int64(e.tgt), 10)
		b = append(b, ' ')
	}
	return string(b)
}

const rootDir = 0

// dir ids: root is 0, others are 1+op*64+component
func (s *regState) handle(op int) int {
	if op < 0 {
		return rootDir
	}
	return s.get(-1, strconv.Itoa(op)) - 1
}

func (s *regState) setHandle(op, dir int) *regState {
	return s.put(-1, strconv.Itoa(op), dir+1)
}

type regLoc struct{ dir, i int }

// stepOnce performs the next atomic step of an operation.
// It returns the new state and location, or done with ok telling whether
// the observed outcome fits.
func (f *regFam) stepOnce(o *regOp, s *regState, l regLoc) (ns *regState, nl regLoc, done, ok bool) {
	switch o.kind {
	case "undir":
		d := l.dir
		if d == rootDir {
			return s, l, true, true
		}
		par := s.get(-2, strconv.Itoa(d)) - 1
		oo := f.ops[(d-1)/64]
		name := oo.rel[(d-1)%64]
		if s.get(par, name) == d {
			s = s.del(par, name)
		}
		return s, l, true, true
	case "reg", "regdir":
		if o.kind == "reg" && len(o.rel) == 0 {
			return s, l, true, o.err == "inuse"
		}
		if l.i == len(o.rel) {
			return s.setHandle(o.id, l.dir), l, true, o.err == ""
		}
		name := o.rel[l.i]
		t := s.get(l.dir, name)
		last := l.i == len(o.rel)-1
		if o.kind == "reg" && last {
			if t != 0 {
				return s, l, true, o.err == "inuse"
			}
			return s.put(l.dir, name, -1-o.id), l, true, o.err == ""
		}
		if t < 0 {
			return s, l, true, o.err == "inuse"
		}
		if t == 0 {
			t = 1 + o.id*64 + l.i
			s = s.put(l.dir, name, t)
			s = s.put(-2, strconv.Itoa(t), l.dir+1)
		}
		nl = regLoc{t, l.i + 1}
		if last {
			return s.setHandle(o.id, t), nl, true, o.err == ""
		}
		return s, nl, false, false
	case "bad":
		// the directories above may come into being
		if len(o.rel) == 0 {
			return s, l, true, true
		}
		name := o.rel[l.i]
		t := s.get(l.dir, name)
		if l.i == len(o.rel)-1 {
			return s, l, true, o.err == "bad" || t != 0
		}
		if t < 0 {
			return s, l, true, true
		}
		if t == 0 {
			t = 1 + o.id*64 + l.i
			s = s.put(l.dir, name, t)
			s = s.put(-2, strconv.Itoa(t), l.dir+1)
		}
		return s, regLoc{t, l.i + 1}, false, false
	case "getdir":
		if l.i == len(o.rel) {
			return s.setHandle(o.id, l.dir), l, true, o.err == ""
		}
		t := s.get(l.dir, o.rel[l.i])
		switch {
		case t == 0:
			return s, l, true, o.err == "notfound"
		case t < 0:
			return s, l, true, o.err == "inuse"
		}
		nl = regLoc{t, l.i + 1}
		if nl.i == len(o.rel) {
			return s.setHandle(o.id, t), nl, true, o.err == ""
		}
		return s, nl, false, false
	case "unreg":
		if len(o.rel) == 0 {
			return s, l, true, true
		}
		name := o.rel[l.i]
		if l.i == len(o.rel)-1 {
			return s.del(l.dir, name), l, true, true
		}
		t := s.get(l.dir, name)
		if t <= 0 {
			return s, l, true, true
		}
		return s, regLoc{t, l.i + 1}, false, false
	case "look":
		if len(o.rel) == 0 {
			return s, l, true, o.want(wDir, rootDir)
		}
		t := s.get(l.dir, o.rel[l.i])
		last := l.i == len(o.rel)-1
		switch {
		case t == 0:
			return s, l, true, o.want(wMissing, 0)
		case t < 0 && !last:
			return s, l, true, o.want(wBlocked, 0)
		case t < 0:
			return s, l, true, o.want(wMetric, -1-t)
		case last:
			return s, l, true, o.want(wDir, t)
		}
		return s, regLoc{t, l.i + 1}, false, false
	}
	panic("harness: " + o.kind)
}

func (f *regFam) linOp(o *regOp) linOp {
	return linOp{s: o.s, e: o.e, name: o.desc, step: func(st any, loc any) []linNext {
		s := st.(*regState)
		var l regLoc
		if loc != nil {
			l = loc.(regLoc)
		} else {
			l = regLoc{s.handle(o.base), 0}
			if l.dir < 0 {
				return nil
			}
		}
		var out []linNext
		if o.kind == "bad" && o.err == "bad" && loc == nil {
			// or nothing happens at all
			out = append(out, linNext{st: s, key: s.key(), done: true})
		}
		// all remaining steps at once
		ns, nl, done, ok := s, l, false, false
		steps := 0
		for !done {
			ns, nl, done, ok = f.stepOnce(o, ns, nl)
			steps++
		}
		if ok {
			out = append(out, linNext{st: ns, key: ns.key(), done: true, same: o.kind == "look"})
		}
		if steps == 1 {
			return out
		}
		// one step only
		ns, nl, _, _ = f.stepOnce(o, s, l)
		out = append(out, linNext{st: ns, key: ns.key(), loc: nl, lkey: fmt.Sprint(nl.dir, ".", nl.i)})
		return out
	}}
}

// ---- checks ----------------------------------------------------------------

// underProc tells the built-in metrics from the ones under test.
func (f *regFam) underProc(p string) bool {
	return !f.ownProc && (p == "/proc" || strings.HasPrefix(p, "/proc/"))
}

// lessPath compares paths component by component.
func lessPath(a, b string) bool {
	x, y := comps(a), comps(b)
	for i := 0; i < len(x) && i < len(y); i++ {
		if x[i] != y[i] {
			return x[i] < y[i]
		}
	}
	return len(x) < len(y)
}

func obsInt(o *Obs) (int64, bool) {
	switch {
	case o.Go != nil:
		v, ok := o.Go.(int64)
		return v, ok
	case o.JSON != nil:
		n, ok := o.JSON.(json.Number)
		if !ok {
			return 0, false
		}
		v, err := strconv.ParseInt(string(n), 10, 64)
		return v, err == nil
	}
	v, err := strconv.ParseInt(strings.ReplaceAll(o.Text, ",", ""), 10, 64)
	return v, err == nil
}

// sharedObj tells whether an observation shows a shared object.
func sharedObj(o *Obs, fe string) string {
	v, ok := obsInt(o)
	switch {
	case o.Dist != nil:
		return "distribution"
	case o.Kind == "list" || fe == feText && ok && v == 424243:
		return "list"
	case ok && v == 424242:
		return "int64"
	}
	return ""
}

// splitPath splits a text or HTML line into path and rest where names contain
// blanks.
func (f *regFam) splitPath(l string) int {
	if !strings.Contains(f.names[0]+f.names[1], " ") {
		return -1
	}
	known := map[string]bool{f.names[0]: true, f.names[1]: true, "zz": true, "nosuch": true}
	for _, d := range f.deep {
		known[d] = true
	}
	best := -1
next:
	for j := 1; j < len(l); j++ {
		if l[j] != ' ' {
			continue
		}
		for _, n := range strings.Split(l[1:j], "/") {
			if !known[n] {
				continue next
			}
		}
		best = j // the longest path wins: no value looks like a name
	}
	return best
}

// metricOf identifies the registration behind an observation.
func (f *regFam) metricOf(c *Ctx, r *Req, o *Obs) *regOp {
	text := o.Text
	v, ok := obsInt(o)
	var m *regOp
	if ok {
		m = f.byVal[v]
	}
	if obj := sharedObj(o, r.Fe); obj != "" {
		// several registrations may publish the same object
		m = nil
		for _, x := range f.ops {
			if x.kind == "reg" && x.obj == obj && joinPath(x.full) == o.Path && (!o.Meta || x.descr == o.Desc) && (m == nil || m.err != "") {
				m = x
			}
		}
	} else if r.Fe == feHTML {
		// the page shows large byte counts in a short form
		m = nil
		for _, x := range f.ops {
			if x.kind == "reg" && x.obj == "" && joinPath(x.full) == o.Path && x.descr == o.Desc && (x.descr != "" || text == htmlOf("int64", x.val, x.unit)) {
				m = x
			}
		}
		if m != nil && text != htmlOf("int64", m.val, m.unit) {
			c.Fail("C09 C12", "wrong-value", "html %s shows %q for %d in %s", o.Path, text, m.val, m.unit)
			return nil
		}
	}
	if m == nil {
		c.Fail(regProps, "unknown-metric", "%s %s shows %s = %v%v%s, which no registration explains", r.Fe, r.Path, o.Path, o.Go, o.JSON, o.Text)
		return nil
	}
	if joinPath(m.full) != o.Path {
		c.Fail("C09 C11 C13", "wrong-path", "%s %s shows the metric registered at %s as %s", r.Fe, r.Path, joinPath(m.full), o.Path)
		return nil
	}
	if m.err != "" {
		c.Fail("C09", "loser-visible", "%s %s shows %s as registered by a call that returned ErrPathInUse", r.Fe, r.Path, o.Path)
		return nil
	}
	if o.Meta {
		k := "int64"
		if m.obj != "" {
			k = m.obj
		}
		if o.Desc != m.descr || o.Unit != m.unit || o.Kind != k {
			c.Fail("C09", "wrong-attributes", "%s %s shows %s as %s %q in %s, want %s %q in %s", r.Fe, r.Path, o.Path, o.Kind, o.Desc, o.Unit, k, m.descr, m.unit)
		}
	}
	return m
}

func (f *regFam) check(c *Ctx) {
	var hist []linOp
	all := append([]*regOp{}, f.ops...)
	for _, o := range f.ops {
		o.desc = fmt.Sprintf("#%d %s %s (handle of #%d, %s) -> %q", o.id, o.kind, joinPath(o.full), o.base, strings.Join(o.rel, "/"), o.err)
		hist = append(hist, f.linOp(o))
	}
	add := func(r *Req, path string, what string, want func(kind, id int) bool) {
		o := &regOp{id: -1, kind: "look", base: -1, rel: comps(path), s: r.S, e: r.E, want: want}
		o.desc = fmt.Sprintf("%s %s says: %s %s", r.Fe, r.Path, path, what)
		all = append(all, o)
		hist = append(hist, f.linOp(o))
	}
	isMetric := func(id int) func(int, int) bool {
		m := f.ops[id]
		return func(k, i int) bool {
			if k != wMetric {
				return false
			}
			// text shows no description
			x := f.ops[i]
			return i == id || m.obj != "" && x.obj == m.obj && joinPath(x.full) == joinPath(m.full)
		}
	}
	notMetric := func(k, _ int) bool { return k != wMetric }
	for _, r := range f.reqs {
		if !c.checkWellFormed(regProps, r) {
			continue
		}
		p := r.Clean
		if strings.HasPrefix(p, "/w") && (p == "/w" || p[2] == '/') {
			f.checkWide(c, r)
			continue
		}
		if p == "/" {
			f.checkWide(c, r)
		}
		f.checkOrder(c, r)
		switch r.Fe {
		case feJSON1, feRPC1:
			if r.Missing || r.RPCErr != "" {
				if r.RPCErr != "" && r.RPCErr != "messages: No metric found." {
					c.Fail("C13", "wrong-rpc-error", "GetMetric %s fails with %q", r.Path, r.RPCErr)
				}
				add(r, p, "is no metric", notMetric)
				continue
			}
			if len(r.Obs) != 1 {
				c.Fail(regProps, "singleton", "%s %s shows %d metrics with status %d", r.Fe, r.Path, len(r.Obs), r.Status)
				continue
			}
			if m := f.metricOf(c, r, r.Obs[0]); m != nil {
				if r.Obs[0].Path != p {
					c.Fail("C13", "other-metric", "%s %s shows %s", r.Fe, r.Path, r.Obs[0].Path)
					continue
				}
				add(r, p, "is metric #"+strconv.Itoa(m.id), isMetric(m.id))
			}
			continue
		}
		if r.RPCErr != "" || r.Status != 0 && r.Status != 200 {
			c.Fail(regProps, "list-error", "%s %s answers %d %s", r.Fe, r.Path, r.Status, r.RPCErr)
			continue
		}
		if r.Missing {
			add(r, p, "does not exist", func(k, _ int) bool { return k == wMissing || k == wBlocked })
			continue
		}
		var obs []*Obs
		for _, o := range r.Obs {
			if !f.underProc(o.Path) && !strings.HasPrefix(o.Path, "/w/") {
				obs = append(obs, o)
			}
		}
		if len(obs) == 1 && obs[0].Path == p && len(r.Links) == 0 {
			if m := f.metricOf(c, r, obs[0]); m != nil {
				add(r, p, "is metric #"+strconv.Itoa(m.id), isMetric(m.id))
			}
			continue
		}
		// a directory
		shown := map[string]*regOp{}
		bad := false
		for _, o := range obs {
			if o.Path == p {
				c.Fail(regProps, "listing-mixes", "%s %s shows the path itself among %d entries", r.Fe, r.Path, len(obs))
				bad = true
				continue
			}
			if p != "/" && !strings.HasPrefix(o.Path, p+"/") {
				c.Fail(regProps, "not-below", "%s %s shows %s", r.Fe, r.Path, o.Path)
				bad = true
				continue
			}
			if r.Fe == feHTML && len(comps(o.Path)) != len(comps(p))+1 {
				c.Fail("C11", "html-depth", "html %s shows %s", r.Path, o.Path)
			}
			m := f.metricOf(c, r, o)
			if m == nil {
				bad = true
				continue
			}
			shown[o.Path] = m
		}
		if bad {
			continue
		}
		links := map[string]bool{}
		for i, l := range r.Links {
			t := r.Link2[i]
			links[t] = true
			u, err := url.Parse(l)
			if err != nil || u.Path != "/metrics"+t || u.RawQuery != "" || u.Fragment != "" {
				c.Fail("C11 C13", "bad-link", "html %s: the link for %s leads to %s", r.Path, t, l)
			}
			if len(comps(t)) != len(comps(p))+1 || p != "/" && !strings.HasPrefix(t, p+"/") {
				c.Fail("C11", "html-depth", "html %s links %s", r.Path, t)
			}
		}
		if len(obs) == 0 && r.Fe != feHTML && r.Fe != feText {
			add(r, p, "holds nothing", func(k, _ int) bool { return k != wMetric })
		} else if len(p) > 1 {
			add(r, p, "is a directory", func(k, _ int) bool { return k == wDir })
		}
		seen := map[string]bool{}
		for _, q := range f.univ {
			seen[q] = true
			if p != "/" && !strings.HasPrefix(q, p+"/") {
				continue
			}
			if r.Fe == feHTML && len(comps(q)) != len(comps(p))+1 {
				continue
			}
			switch {
			case shown[q] != nil:
				add(r, q, "is metric #"+strconv.Itoa(shown[q].id), isMetric(shown[q].id))
			case r.Fe != feHTML:
				add(r, q, "is no metric", notMetric)
			case links[q]:
				add(r, q, "is a directory", func(k, _ int) bool { return k == wDir })
			default:
				add(r, q, "is nothing", func(k, _ int) bool { return k == wMissing || k == wBlocked })
			}
		}
		for _, q := range sortedKeys(shown) {
			if !seen[q] {
				add(r, q, "is metric #"+strconv.Itoa(shown[q].id), isMetric(shown[q].id))
			}
		}
	}
	if len(c.viol) > 0 {
		return
	}
	st := &regState{}
	res, stuck := linearize(hist, st, st.key(), 60000)
	switch res {
	case linUnknown:
		c.incon++
	case linBad:
		var why []string
		for _, i := range stuck {
			o := all[i]
			why = append(why, fmt.Sprintf("[%d,%d] %s", o.s, o.e, o.desc))
			if len(why) > 25 {
				break
			}
		}
		c.Fail(regProps, "not-linearizable", "no order of the registry calls explains all outcomes; unexplained:\n    %s", strings.Join(why, "\n    "))
	}
}

// checkOrder checks the order of a listing and that nothing shows up twice.
func (f *regFam) checkOrder(c *Ctx, r *Req) {
	var ps []string
	if r.Fe == feHTML {
		ps = r.Order
	} else {
		for _, o := range r.Obs {
			ps = append(ps, o.Path)
		}
	}
	for i := 1; i < len(ps); i++ {
		if ps[i] == ps[i-1] {
			c.Fail("C11", "duplicate", "%s %s lists %s twice", r.Fe, r.Path, ps[i])
			return
		}
		if !lessPath(ps[i-1], ps[i]) {
			c.Fail("C11", "order", "%s %s lists %s after %s", r.Fe, r.Path, ps[i], ps[i-1])
			return
		}
	}
}

// checkWide checks the flat directory whose entries come and go.
func (f *regFam) checkWide(c *Ctx, r *Req) {
	f.checkOrder(c, r)
	if c.P.Knobs["wide"] == 0 || r.Missing || r.Fe == feJSON1 || r.Fe == feRPC1 || r.Clean != "/" && r.Clean != "/w" {
		return
	}
	if r.Fe == feHTML && r.Clean == "/" {
		return
	}
	shown := map[string]*Obs{}
	for _, o := range r.Obs {
		if strings.HasPrefix(o.Path, "/w/") {
			shown[o.Path[3:]] = o
		}
	}
	for _, n := range sortedKeys(f.wide) {
		w := f.wide[n]
		o := shown[n]
		delete(shown, n)
		if o == nil {
			for i, k := range w.regs {
				if k.E != 0 && k.E < r.S && (i >= len(w.uns) || w.uns[i].S > r.E) {
					c.Fail("C11 C09", "missing-entry", "%s %s [%d,%d] lacks /w/%s, registered [%d,%d] and not unregistered before the end of the request", r.Fe, r.Path, r.S, r.E, n, k.S, k.E)
				}
			}
			continue
		}
		v, ok := obsInt(o)
		hit := -1
		for i := range w.val {
			if w.val[i] == v {
				hit = i
			}
		}
		if !ok || hit < 0 {
			c.Fail("C11 C09", "unknown-entry", "%s %s shows /w/%s = %v%v%s", r.Fe, r.Path, n, o.Go, o.JSON, o.Text)
			continue
		}
		if w.regs[hit].S > r.E || hit < len(w.uns) && w.uns[hit].E != 0 && w.uns[hit].E < r.S {
			c.Fail("C11 C10", "stale-entry", "%s %s [%d,%d] shows value %d of /w/%s, which was not registered at any moment of the request", r.Fe, r.Path, r.S, r.E, v, n)
		}
	}
	for n := range shown {
		c.Fail("C11 C09", "unknown-entry", "%s %s shows /w/%s, which was never registered", r.Fe, r.Path, n)
	}
}

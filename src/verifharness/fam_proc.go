package main

import (
	"fmt"
	"runtime"
	"strings"
	"syscall"
	"time"

	"verifsim/sim"
)

func init() {
	families["proc"] = func() family { return &procFam{} }
	props["C19"] = propInfo{"proc", 200000}
}

// reading is one answer of the simulated operating system.
type reading struct {
	n    int
	s    uint64
	fail bool
	ru   syscall.Rusage
	sys  uint64
	rel  uint64
	num  int
	at   time.Time
}

type procFam struct {
	rus   []*reading
	mems  []*reading
	fds   []*reading
	gos   []*reading
	reqs  []*Req
	r     *sim.Rand
	osr   *sim.Rand
	quiet bool // no faults
	start time.Time
}

// procMetric describes one resource-usage metric.
type procMetric struct {
	path, kind, unit string
	val              func(u *syscall.Rusage) any
}

func tvDur(t syscall.Timeval) time.Duration {
	return time.Duration(t.Sec)*time.Second + time.Duration(t.Usec)*time.Microsecond
}

var procMetrics = []procMetric{
	{"/proc/cpu/user", "duration", uSec, func(u *syscall.Rusage) any { return tvDur(u.Utime) }},
	{"/proc/cpu/sys", "duration", uSec, func(u *syscall.Rusage) any { return tvDur(u.Stime) }},
	{"/proc/memory/max-resident-set-size", "int64", uByte, func(u *syscall.Rusage) any { return u.Maxrss * 1024 }},
	{"/proc/memory/shared", "int64", uByte, func(u *syscall.Rusage) any { return u.Ixrss * 1024 }},
	{"/proc/memory/unshared-data", "int64", uByte, func(u *syscall.Rusage) any { return u.Idrss * 1024 }},
	{"/proc/memory/unshared-stack", "int64", uByte, func(u *syscall.Rusage) any { return u.Isrss * 1024 }},
	{"/proc/memory/soft-page-fault", "int64", uNone, func(u *syscall.Rusage) any { return u.Minflt }},
	{"/proc/memory/hard-page-fault", "int64", uNone, func(u *syscall.Rusage) any { return u.Majflt }},
	{"/proc/memory/swaps", "int64", uNone, func(u *syscall.Rusage) any { return u.Nswap }},
	{"/proc/io/input", "int64", uNone, func(u *syscall.Rusage) any { return u.Inblock }},
	{"/proc/io/output", "int64", uNone, func(u *syscall.Rusage) any { return u.Oublock }},
	{"/proc/ipc/sent", "int64", uNone, func(u *syscall.Rusage) any { return u.Msgsnd }},
	{"/proc/ipc/received", "int64", uNone, func(u *syscall.Rusage) any { return u.Msgrcv }},
	{"/proc/signals/received", "int64", uNone, func(u *syscall.Rusage) any { return u.Nsignals }},
	{"/proc/scheduler/involuntary-switches", "int64", uNone, func(u *syscall.Rusage) any { return u.Nivcsw }},
	{"/proc/scheduler/voluntary-switches", "int64", uNone, func(u *syscall.Rusage) any { return u.Nvcsw }},
}

var procArgs = [][]string{
	{"/usr/bin/app", "-x", "1"},
	{"app"},
	{"./my app", "-name=two words", " lead", "trail ", ""},
	{"/opt/<app>&co", "a|b", "--", "-x", "ü", "\t", "<b>"},
}

const (
	pathMem  = "/proc/memory/total"
	pathFDs  = "/proc/io/num-open-file-descriptors"
	pathGos  = "/proc/go/num-goroutines"
	pathName = "/proc/name"
	pathArgs = "/proc/args"
	pathVer  = "/proc/go/version"
	pathUp   = "/proc/start-time"
)

var procDirs = []string{"/proc", "/proc/memory", "/proc/cpu", "/proc/io", "/proc/scheduler", "/proc/ipc", "/proc/go", "/", "/proc/signals"}

func (f *procFam) gen(p *Plan, r *sim.Rand) {
	k := p.Knobs
	k["os"] = r.Intn(1 << 20)
	k["fail"] = pick(r, 0, 0, 10, 30, 60)
	k["args"] = r.Intn(len(procArgs))
	k["slow"] = r.Intn(3) / 2 // the figures hardly change from reading to reading
	k["fall"] = r.Intn(5) / 4 // the figures fall
	mix := faultMix{maxOff: 1500, stallNs: 2 * ms, long: 150, chunk: 100, gz: 100}
	if r.P(1, 3) {
		mix.cut, mix.stall = 100, 200
	}
	nt := 1 + r.Intn(4)
	hot := procDirs[r.Intn(len(procDirs))]
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, 1+r.Intn(4); i < n; i++ {
			op := Op{K: "req", Fe: allFe[r.Intn(len(allFe))]}
			switch {
			case op.Fe == feJSON1 || op.Fe == feRPC1 || r.P(1, 4):
				op.P = procMetrics[r.Intn(len(procMetrics))].path
				if r.P(1, 3) {
					op.P = pick(r, pathMem, pathFDs, pathGos, pathFDs, pathName, pathUp)
				}
			case r.P(1, 2):
				op.P = hot
			default:
				op.P = procDirs[r.Intn(len(procDirs))]
			}
			mix.apply(r, &op)
			if r.P(1, 6) {
				op.Nap = int64(r.Intn(int(2 * ms)))
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

func (f *procFam) setup(c *Ctx) {
	k := c.P.Knobs
	f.osr = sim.NewRand(uint64(k["os"]))
	f.r = sim.NewRand(uint64(k["os"]) + 1)
	fail := k["fail"]
	os := c.W.OS
	bad := func(kind string) bool {
		if f.quiet || f.osr.Intn(100) >= fail {
			return false
		}
		c.faults[kind]++
		return true
	}
	big := pick(f.osr, uint(0), 0, 20, 32)
	secs := pick(f.osr, uint(0), 0, 10, 17, 26)
	os.Rusage = func(who int, u *syscall.Rusage) error {
		x := &reading{n: len(f.rus) + 1, s: c.W.Tick(), at: c.W.ClockValue()}
		f.rus = append(f.rus, x)
		if who != syscall.RUSAGE_SELF {
			c.Fail("C19", "wrong-rusage", "resource usage of %d was read, not of the process itself", who)
		}
		if bad("getrusage_error") {
			x.fail = true
			// the kernel may have written part of the structure
			u.Utime.Sec, u.Maxrss, u.Minflt = 999999, 888888, 777777
			return pick[error](f.osr, error(syscall.EINTR), syscall.EFAULT, syscall.EINVAL)
		}
		n := int64(x.n)
		if k["fall"] == 1 && n < 100 {
			n = 100 - n
		}
		h := func(i int64) int64 {
			if k["slow"] == 1 {
				return i*1000000 + n
			}
			v := n*100 + i
			if big > 0 {
				v = v<<big + int64(f.osr.Intn(1<<big))
			}
			return v
		}
		x.ru = syscall.Rusage{
			Utime:  syscall.Timeval{Sec: n << secs, Usec: int64(f.osr.Intn(1000000))},
			Stime:  syscall.Timeval{Sec: n << secs / 2, Usec: n*1000 + int64(f.osr.Intn(1000))},
			Maxrss: h(1), Ixrss: h(2), Idrss: h(3), Isrss: h(4), Minflt: h(5), Majflt: h(6), Nswap: h(7),
			Inblock: h(8), Oublock: h(9), Msgsnd: h(10), Msgrcv: h(11), Nsignals: h(12), Nvcsw: h(13), Nivcsw: h(14),
		}
		*u = x.ru
		return nil
	}
	os.MemStats = func(m *runtime.MemStats) {
		x := &reading{n: len(f.mems) + 1, s: c.W.Tick(), at: c.W.ClockValue()}
		f.mems = append(f.mems, x)
		x.sys = uint64(x.n)*100000 + uint64(f.osr.Intn(1000)) + 50000
		x.rel = uint64(f.osr.Intn(50000))
		if big > 0 {
			x.sys, x.rel = x.sys<<big+uint64(f.osr.Intn(1<<big)), x.rel<<big
		}
		if f.osr.P(1, 20) {
			x.rel = x.sys
		}
		if bad("implausible_memstats") {
			x.rel = x.sys + 1 + uint64(f.osr.Intn(1000))
			x.fail = true
		}
		m.Sys, m.HeapReleased = x.sys, x.rel
		// related figures a reader could confuse them with
		m.HeapSys, m.HeapAlloc, m.HeapIdle, m.TotalAlloc, m.Alloc, m.HeapInuse = x.sys-9, 17, 23, x.sys*3, 17, 11
	}
	os.Goroutines = func() int {
		x := &reading{n: len(f.gos) + 1, s: c.W.Tick()}
		f.gos = append(f.gos, x)
		x.num = 3 + x.n*2
		return x.num
	}
	var cur *reading
	os.OpenDir = func(name string) ([]string, error) {
		if name != "/proc/self/fd" {
			c.Fail("C19", "wrong-directory", "descriptors were counted in %s", name)
		}
		x := &reading{n: len(f.fds) + 1, s: c.W.Tick()}
		f.fds = append(f.fds, x)
		cur = x
		if bad("fd_dir_open_error") {
			x.fail = true
			x.num = -1
			return nil, pick[error](f.osr, error(syscall.EMFILE), syscall.ENFILE, syscall.EACCES)
		}
		x.num = pick(f.osr, f.osr.Intn(40), f.osr.Intn(40), f.osr.Intn(40), 90+f.osr.Intn(50), 1030)
		var names []string
		for i := 0; i < x.num; i++ {
			names = append(names, fmt.Sprint(i))
		}
		if bad("fd_dir_read_error") {
			x.fail = true
			x.num = -1
		}
		return names, nil
	}
	_ = cur
	os.ReadFault = func() error { return nil }
	sim.ReadFaultFor = func(n int) error {
		// the n-th directory opened under this world
		if n >= 1 && n <= len(f.fds) && f.fds[n-1].fail {
			return syscall.EIO
		}
		return nil
	}
	sim.Opened = 0
}

func (f *procFam) exec(c *Ctx, task int, op *Op) {
	f.reqs = append(f.reqs, c.request(op.Fe, op.P, op))
}

func (f *procFam) final(c *Ctx) {
	f.quiet = true
	f.reqs = append(f.reqs, c.request(pick(f.r, listFe...), "/proc/memory", nil))
	f.reqs = append(f.reqs, c.request(feRead, "/proc", nil))
	if sim.OpenFiles != 0 {
		c.Fail("C19 C14", "descriptor-leak", "%d files are still open after all requests are over", sim.OpenFiles)
	}
}

// touches reports whether a request reads the given path.
func touches(r *Req, path string) bool {
	p := r.Clean
	if p == path {
		return true
	}
	if r.Fe == feJSON1 || r.Fe == feRPC1 {
		return false
	}
	if p == "/" {
		return r.Fe != feHTML
	}
	if !strings.HasPrefix(path, p+"/") {
		return false
	}
	return r.Fe != feHTML || len(comps(path)) == len(comps(p))+1
}

func touchesAny(r *Req, paths ...string) bool {
	for _, p := range paths {
		if touches(r, p) {
			return true
		}
	}
	return false
}

var ruPaths = func() []string {
	var ps []string
	for _, m := range procMetrics {
		ps = append(ps, m.path)
	}
	return append(ps, pathGos)
}()

func (f *procFam) alone(r *Req, paths ...string) bool {
	for _, q := range f.reqs {
		if q != r && q.S < r.E && q.E > r.S && touchesAny(q, paths...) {
			return false
		}
	}
	return true
}

// candidates are the readings a request may show: the last good one before
// the request, any good one made while it ran, or none yet (0).
func candidates(rs []*reading, r *Req, alone bool) []*reading {
	var out []*reading
	var last *reading
	tried := false
	for _, x := range rs {
		if x.s > r.E {
			break
		}
		if x.s >= r.S {
			tried = true
		}
		if x.fail {
			continue
		}
		if x.s < r.S {
			last = x
			continue
		}
		out = append(out, x)
	}
	if alone && tried && len(out) > 0 {
		return out
	}
	if alone && !tried {
		return nil
	}
	return append(out, last) // nil: no good reading yet
}

func (f *procFam) check(c *Ctx) {
	for _, r := range f.reqs {
		for _, o := range r.Obs {
			if t, ok := o.Go.(time.Time); ok && o.Path == pathUp && f.start.IsZero() {
				f.start = t
				if t.Before(c.boot[0]) || t.After(c.boot[1]) {
					c.Fail("C19", "process-identity", "%s shows start time %v, but the process started between %v and %v", r.Fe, t, c.boot[0], c.boot[1])
				}
			}
		}
	}
	for _, r := range f.reqs {
		if !c.checkWellFormed("C19", r) {
			continue
		}
		f.checkReq(c, r)
	}
}

// stamp checks that a metric bears the time of the reading: one made for the
// request, or the latest before it that overlapping requests share.
func (f *procFam) stamp(c *Ctx, r *Req, o *Obs, rs []*reading, paths ...string) {
	if !o.HasTS {
		return
	}
	lo := r.CS
	if !f.alone(r, paths...) {
		lo = c.boot[0]
		for _, x := range rs {
			if x.s < r.S {
				lo = x.at
			}
		}
	}
	if o.TS.Before(lo) || o.TS.After(r.CE) {
		c.Fail("C19", "timestamp", "%s %s shows %s as of %v, but the reading was made between %v and %v", r.Fe, r.Path, o.Path, o.TS, lo, r.CE)
	}
}

func (f *procFam) checkReq(c *Ctx, r *Req) {
	byPath := map[string]*Obs{}
	for _, o := range r.Obs {
		byPath[o.Path] = o
	}
	if touchesAny(r, append(ruPaths, pathMem, pathFDs, pathName)...) && len(r.Obs) == 0 {
		c.Fail("C19", "metrics-missing", "%s %s shows nothing", r.Fe, r.Path)
		return
	}
	meta := func(o *Obs, kind, unit string) {
		if !o.Meta {
			return
		}
		k := rpcKind(kind)
		if r.Fe == feJSON || r.Fe == feJSON1 || r.Fe == feHTML {
			k = jsonKind(kind)
		}
		if o.Kind != k || o.Unit != unit {
			c.Fail("C19", "unit", "%s shows %s as %s in %s, want %s in %s", r.Fe, o.Path, o.Kind, o.Unit, k, unit)
		}
	}
	// resource usage
	cand := candidates(f.rus, r, f.alone(r, ruPaths...))
	var left []*reading
	left = append(left, cand...)
	n := 0
	var shown []string
	for i := range procMetrics {
		m := &procMetrics[i]
		o := byPath[m.path]
		if o == nil {
			if touches(r, m.path) {
				c.Fail("C19", "metrics-missing", "%s %s lacks %s", r.Fe, r.Path, m.path)
			}
			continue
		}
		meta(o, m.kind, m.unit)
		f.stamp(c, r, o, f.rus, ruPaths...)
		n++
		shown = append(shown, fmt.Sprintf("%s=%s%v%v", m.path, o.Text, o.JSON, o.Go))
		var keep []*reading
		for _, x := range left {
			u := &syscall.Rusage{}
			if x != nil {
				u = &x.ru
			}
			if matches(r.Fe, m.kind, m.unit, m.val(u), o) {
				keep = append(keep, x)
			}
		}
		left = keep
	}
	if n > 0 && len(left) == 0 {
		var cs []string
		for _, x := range cand {
			if x == nil {
				cs = append(cs, "(none yet)")
			} else {
				cs = append(cs, fmt.Sprintf("reading %d at step %d %+v", x.n, x.s, x.ru))
			}
		}
		c.Fail("C19", "rusage", "%s %s [%d,%d] shows resource usage that is no single successful reading made for it or shared with an overlapping request:\n    %s\n  candidates:\n    %s",
			r.Fe, r.Path, r.S, r.E, strings.Join(shown, " "), strings.Join(cs, "\n    "))
	}
	// memory
	if o := byPath[pathMem]; o != nil {
		meta(o, "uint64", uByte)
		f.stamp(c, r, o, f.mems, pathMem)
		ok := false
		for _, x := range candidates(f.mems, r, f.alone(r, pathMem)) {
			v := uint64(0)
			if x != nil {
				v = x.sys - x.rel
			}
			ok = ok || matches(r.Fe, "uint64", uByte, v, o)
		}
		if !ok {
			c.Fail("C19", "memory", "%s %s [%d,%d] shows %s%v%v bytes in total, which is no reading made for it", r.Fe, r.Path, r.S, r.E, o.Text, o.JSON, o.Go)
		}
	} else if touches(r, pathMem) {
		c.Fail("C19", "metrics-missing", "%s %s lacks %s", r.Fe, r.Path, pathMem)
	}
	if o := byPath[pathGos]; o != nil {
		meta(o, "int", uNone)
		ok := false
		for _, x := range candidates(f.gos, r, f.alone(r, ruPaths...)) {
			v := 0
			if x != nil {
				v = x.num
			}
			ok = ok || matches(r.Fe, "int", uNone, v, o)
		}
		if !ok {
			c.Fail("C19", "goroutines", "%s %s shows %s%v%v goroutines, which is no reading made for it", r.Fe, r.Path, o.Text, o.JSON, o.Go)
		}
	}
	if o := byPath[pathFDs]; o != nil {
		meta(o, "int", uNone)
		ok := false
		for _, x := range f.fds {
			if x.s >= r.S && x.s <= r.E {
				ok = ok || matches(r.Fe, "int", uNone, x.num, o)
			}
		}
		if !ok {
			c.Fail("C19", "descriptors", "%s %s shows %s%v%v descriptors, which is no reading made during the request", r.Fe, r.Path, o.Text, o.JSON, o.Go)
		}
	} else if touches(r, pathFDs) {
		c.Fail("C19", "metrics-missing", "%s %s lacks %s", r.Fe, r.Path, pathFDs)
	}
	if o := byPath[pathUp]; o != nil && !matches(r.Fe, "time", uNone, f.start, o) {
		c.Fail("C19", "process-identity", "%s shows start time %s%v%v, want %v", r.Fe, o.Text, o.JSON, o.Go, f.start)
	}
	args := procArgs[c.P.Knobs["args"]%len(procArgs)]
	for p, v := range map[string]string{pathName: args[0], pathArgs: strings.Join(args[1:], "|"), pathVer: runtime.Version()} {
		if o := byPath[p]; o != nil && !matches(r.Fe, "string", uNone, v, o) {
			c.Fail("C19", "process-identity", "%s shows %s as %s%v%v, want %q", r.Fe, p, o.Text, o.JSON, o.Go, v)
		}
	}
}

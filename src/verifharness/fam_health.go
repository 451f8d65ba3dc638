package main

import (
	"fmt"
	"strings"

	"github.com/Symantec/tricorder/go/healthserver"
	"verifsim/sim"
)

func init() {
	families["health"] = func() family { return &healthFam{} }
	props["C18"] = propInfo{"health", 200000}
}

type healthOp struct {
	which  int // 0 health, 1 readiness
	set    bool
	s, e   uint64
	status string // "" is good
	desc   string
}

type healthFam struct {
	ops []*healthOp
	seq int
	r   *sim.Rand
}

func (f *healthFam) gen(p *Plan, r *sim.Rand) {
	p.Knobs["init"] = r.Intn(1 << 16)
	mix := faultMix{maxOff: 40, stallNs: 2 * ms, long: 150, chunk: 200, gz: 150}
	if r.P(1, 2) {
		mix.cut, mix.stall = 100, 200
	}
	nt := 2 + r.Intn(4)
	bias := r.Intn(3)
	for t := 0; t < nt; t++ {
		var ops []Op
		for i, n := 0, 1+r.Intn(7); i < n; i++ {
			op := Op{A: r.Intn(2), B: r.Intn(1 << 16)}
			if bias < 2 {
				op.A = bias
				if r.P(1, 5) {
					op.A = 1 - bias
				}
			}
			switch x := r.Intn(100); {
			case x < 22:
				op.K = "bad"
			case x < 40:
				op.K = "good"
			case x < 46:
				op.K = "refused"
			default:
				op.K = "req"
				mix.apply(r, &op)
			}
			ops = append(ops, op)
		}
		p.Tasks = append(p.Tasks, ops)
	}
}

func (f *healthFam) setup(c *Ctx) {
	f.r = sim.NewRand(uint64(c.P.Knobs["init"]))
	if f.r.P(1, 2) {
		f.exec(c, 0, &Op{K: "req", A: 0})
		f.exec(c, 0, &Op{K: "req", A: 1})
	}
}

var healthURL = []string{"/healthz", "/readiness"}

func (f *healthFam) status(op *Op) string {
	f.seq++
	base := []string{"down", "OK ", "ok", "not ready", "OKAY", "db: connection <lost> & retrying", "μ世界", "a\nb", "  spaced  ", "100% full %d %s"}[op.B%10]
	switch op.B / 10 % 3 {
	case 0:
		return base // the same text again and again
	case 1:
		return fmt.Sprintf("%s #%d", base, f.seq)
	}
	n := op.B / 30 % 200
	if n%20 == 7 {
		n *= 37
	}
	return fmt.Sprintf("%s #%d %s", base, f.seq, strings.Repeat("x", n))
}

func (f *healthFam) exec(c *Ctx, task int, op *Op) {
	o := &healthOp{which: op.A % 2, set: true}
	switch op.K {
	case "bad":
		o.status = f.status(op)
		o.desc = fmt.Sprintf("set %s to %q", healthURL[o.which], o.status)
		k := c.Do("SetNot"+healthURL[o.which], func(k *Call) {
			k.Str = o.status
			if o.which == 0 {
				healthserver.SetNotHealthy(o.status)
			} else {
				healthserver.SetNotReady(o.status)
			}
		})
		o.s, o.e = k.S, k.E
		if k.Panicked {
			c.Fail("C18", "set-panic", "setting status %q panicked: %s", o.status, k.PanicValue)
			return
		}
		f.ops = append(f.ops, o)
	case "good":
		o.desc = "set " + healthURL[o.which] + " to OK"
		k := c.Do("Set"+healthURL[o.which], func(k *Call) {
			if o.which == 0 {
				healthserver.SetHealthy()
			} else {
				healthserver.SetReady()
			}
		})
		o.s, o.e = k.S, k.E
		if k.Panicked {
			c.Fail("C18", "set-panic", "setting the good state panicked: %s", k.PanicValue)
			return
		}
		f.ops = append(f.ops, o)
	case "refused":
		st := []string{"", "OK"}[op.B%2]
		k := c.Do("refused", func(k *Call) {
			if o.which == 0 {
				healthserver.SetNotHealthy(st)
			} else {
				healthserver.SetNotReady(st)
			}
		})
		if !k.Panicked {
			c.Fail("C18", "refused-accepted", "status %q was accepted", st)
		}
		c.probes["refused-status"]++
	case "req":
		r := c.request(feRaw, healthURL[o.which], op)
		if !r.ok() {
			return
		}
		o.set = false
		o.s, o.e = r.S, r.E
		switch r.Status {
		case 200:
			if string(r.Body) != "OK" {
				c.Fail("C18", "bad-answer", "%s answers 200 with %q", r.Path, r.Body)
				return
			}
		case 503:
			o.status = strings.TrimSuffix(string(r.Body), "\n")
			if o.status == "" {
				c.Fail("C18", "bad-answer", "%s answers 503 with an empty status", r.Path)
				return
			}
		default:
			c.Fail("C18", "bad-answer", "%s answers %d", r.Path, r.Status)
			return
		}
		o.desc = fmt.Sprintf("%s answers %d %q", r.Path, r.Status, r.Body)
		f.ops = append(f.ops, o)
	}
}

func (f *healthFam) final(c *Ctx) {
	f.exec(c, 0, &Op{K: "req", A: 0})
	f.exec(c, 0, &Op{K: "req", A: 1})
}

func (f *healthFam) check(c *Ctx) {
	for which := 0; which < 2; which++ {
		var ops []linOp
		var src []*healthOp
		for _, o := range f.ops {
			if o.which != which {
				continue
			}
			o := o
			src = append(src, o)
			ops = append(ops, linOp{s: o.s, e: o.e, step: func(st, _ any) []linNext {
				if o.set {
					return []linNext{{st: o.status, key: o.status, done: true}}
				}
				if st.(string) != o.status {
					return nil
				}
				return []linNext{{st: st, key: o.status, done: true, same: true}}
			}})
		}
		init := []string{"", "not ready"}[which]
		res, stuck := linearize(ops, init, init, 100000)
		switch res {
		case linUnknown:
			c.incon++
		case linBad:
			var why []string
			for _, i := range stuck {
				why = append(why, fmt.Sprintf("[%d,%d] %s", src[i].s, src[i].e, src[i].desc))
			}
			c.Fail("C18", "not-linearizable", "no order of the setters explains the answers; unexplained:\n    %s", strings.Join(why, "\n    "))
		}
	}
}

package main

import (
	"encoding/json"
	"fmt"
	"sort"
	"time"

	"verifsim/sim"
)

// Op is one step of one workload task. Every op is meaningful on its own, so
// that a plan stays valid when any subset of its ops is dropped.
type Op struct {
	K  string    `json:"k"`            // kind
	P  string    `json:"p,omitempty"`  // path
	Fe string    `json:"fe,omitempty"` // front end
	A  int       `json:"a,omitempty"`
	B  int       `json:"b,omitempty"`
	C  int       `json:"c,omitempty"`
	S  string    `json:"s,omitempty"`
	F  []float64 `json:"f,omitempty"`
	// client behaviour
	Cut     int    `json:"cut,omitempty"`      // the connection fails after Cut-1 bytes
	Stall   int64  `json:"stall,omitempty"`    // ns of simulated time the client stops reading
	StallAt int    `json:"stall_at,omitempty"` // byte offset of the stall
	Chunk   int    `json:"chunk,omitempty"`    // bytes taken per write step
	Enc     string `json:"enc,omitempty"`      // Accept-Encoding
	V10     bool   `json:"v10,omitempty"`      // HTTP/1.0
	// callback behaviour during this op
	Panic int `json:"panic,omitempty"` // the Panic-th callback of this request panics
	// Nap is simulated time slept before the op
	Nap int64 `json:"nap,omitempty"`
	// Rep is how many more times the op is repeated, with B growing by Inc
	Rep int `json:"rep,omitempty"`
	Inc int `json:"inc,omitempty"`
}

// Plan is everything that determines a run.
type Plan struct {
	Prop      string         `json:"prop"`
	Seed      uint64         `json:"seed"`
	Family    string         `json:"family"`
	EnvSeed   uint64         `json:"env_seed"`
	Gran      int64          `json:"clock_gran"`
	Race      bool           `json:"race,omitempty"`
	Policy    sim.Policy     `json:"policy"`
	Replay    bool           `json:"replay,omitempty"` // follow Decisions instead of Policy
	Decisions []sim.Decision `json:"decisions,omitempty"`
	MaxSteps  uint64         `json:"max_steps"`
	Idle      [2]int64       `json:"idle"` // quiet time before the tasks start and after they ended, in ns
	Knobs     map[string]int `json:"knobs,omitempty"`
	Setup     []Op           `json:"setup,omitempty"`
	Tasks     [][]Op         `json:"tasks"`
}

func (p *Plan) clone() *Plan {
	b, err := json.Marshal(p)
	if err != nil {
		panic(err)
	}
	var q Plan
	if err := json.Unmarshal(b, &q); err != nil {
		panic(err)
	}
	return &q
}

func (p *Plan) ops() int {
	n := len(p.Setup)
	for _, t := range p.Tasks {
		n += len(t)
	}
	return n
}

// Violation is one broken rule.
type Violation struct {
	Props []string `json:"props"`
	Rule  string   `json:"rule"`
	Msg   string   `json:"msg"`
	// a rule of another property, see attrib
	Foreign bool `json:"-"`
}

// family is a workload with its oracles.
type family interface {
	gen(p *Plan, r *sim.Rand)
	setup(c *Ctx)
	exec(c *Ctx, task int, op *Op)
	final(c *Ctx)
	check(c *Ctx)
}

var families = map[string]func() family{}

// propInfo says how a property is decided.
type propInfo struct {
	family string
	runs   int // simulated runs of the quick tier
}

var props = map[string]propInfo{}

// newPlan derives a plan from a property and a seed.
func newPlan(prop string, seed uint64) *Plan {
	info, ok := props[prop]
	if !ok {
		panic("unknown property " + prop)
	}
	r := sim.NewRand(sim.Mix(seed, hashStr(prop)))
	p := &Plan{Prop: prop, Seed: seed, Family: info.family, Knobs: map[string]int{}, MaxSteps: 4000000}
	p.EnvSeed = r.U64()
	p.Gran = []int64{1, 1, 1, 1000, 1000000, 50000000}[r.Intn(6)]
	p.Policy = genPolicy(r)
	fam := families[info.family]()
	fam.gen(p, r)
	// long quiet times
	x := sim.NewRand(p.EnvSeed ^ 0x9e3779b97f4a7c15)
	for i := range p.Idle {
		if x.P(1, 12) {
			p.Idle[i] = pick(x, 2*hour, 30*hour, 100*24*hour, 15*365*24*hour)
		}
	}
	if len(p.Tasks) > 0 && x.P(1, 12) {
		if t := p.Tasks[x.Intn(len(p.Tasks))]; len(t) > 0 {
			t[x.Intn(len(t))].Nap = pick(x, 2*hour, 30*hour, 100*24*hour)
		}
	}
	// the same again and again
	if len(p.Tasks) > 0 && x.P(1, 100) {
		if t := p.Tasks[x.Intn(len(p.Tasks))]; len(t) > 0 {
			op := &t[x.Intn(len(t))]
			op.Rep = pick(x, 20, 70, 140, 300)
			if info.family == "health" || info.family == "list" {
				op.Rep = pick(x, 20, 140, 300, 1100)
			}
			if p.Knobs["vars"] > 60 || p.Knobs["wide"] > 60 {
				op.Rep = 20 // every one is long
			}
			if op.K == "bulk" {
				op.Rep = 2
			}
			op.Inc = pick(x, 0, 1, 7)
			if op.Chunk > 0 && op.Chunk < 40 {
				op.Chunk = 40
			}
		}
	}
	return p
}

func genPolicy(r *sim.Rand) sim.Policy {
	pol := sim.Policy{Seed: r.U64()}
	switch r.Intn(10) {
	case 0, 1, 2, 3, 4:
		pol.Kind = sim.PolicyRandom
		pol.Gap = []int{2, 4, 8, 15, 30, 60, 120}[r.Intn(7)]
		pol.SyncWeight = []int{1, 1, 3, 8, 20}[r.Intn(5)]
	case 5, 6, 7:
		pol.Kind = sim.PolicyPCT
		pol.Depth = 1 + r.Intn(6)
		pol.Horizon = []int{200, 600, 2000, 6000}[r.Intn(4)]
		pol.SyncWeight = 2 + r.Intn(5)
	case 8:
		pol.Kind = sim.PolicyRR
		pol.Gap = 1 + r.Intn(25)
		pol.SyncWeight = 1 + r.Intn(6)
	default:
		pol.Kind = sim.PolicyRandom
		pol.Gap = 400
		pol.SyncWeight = 60
	}
	return pol
}

func hashStr(s string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(s); i++ {
		h ^= uint64(s[i])
		h *= 1099511628211
	}
	return h
}

// clientFaults decorates a request op with client behaviour.
type faultMix struct {
	cut, stall, chunk, gz int // per mille
	stallNs               int64
	long                  int // per mille of the stalls: up to an hour
	maxOff                int
}

func (m faultMix) apply(r *sim.Rand, op *Op) {
	if r.Intn(1000) < m.cut {
		op.Cut = 1 + pickOff(r, m.maxOff)
	}
	if r.Intn(1000) < m.stall {
		op.Stall = 1 + int64(r.U64()%uint64(m.stallNs))
		if r.Intn(1000) < m.long {
			op.Stall = 1 + int64(r.U64()%uint64(pick(r, 10*sec, hour)))
		}
		op.StallAt = pickOff(r, m.maxOff)
	}
	if r.Intn(1000) < m.chunk {
		op.Chunk = []int{1, 7, 40, 200}[r.Intn(4)]
		if op.Chunk == 1 && r.Intn(3) > 0 {
			op.Chunk = 25
		}
	}
	if r.Intn(1000) < m.gz {
		op.Enc = []string{"gzip", "gzip", "gzip, deflate", "deflate, gzip;q=0.5", "br;q=1.0, gzip;q=0.8, *;q=0.1"}[r.Intn(5)]
	}
}

// pickOff picks a byte offset, biased towards small ones.
func pickOff(r *sim.Rand, max int) int {
	if max < 1 {
		return 0
	}
	switch r.Intn(4) {
	case 0:
		return r.Intn(1 + max/16)
	case 1:
		return r.Intn(1 + max/4)
	default:
		return r.Intn(max)
	}
}

func pick[T any](r *sim.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func must(err error) {
	if err != nil {
		panic(fmt.Sprintf("harness: %v", err))
	}
}

const (
	us   = int64(time.Microsecond)
	ms   = int64(time.Millisecond)
	sec  = int64(time.Second)
	hour = int64(time.Hour)
)

package main

import (
	"bufio"
	"bytes"
	"context"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifsim/sim"
)

// stats is what a worker measured.
type stats struct {
	Runs       int            `json:"runs"`
	Nontrivial int            `json:"nontrivial"`
	Steps      uint64         `json:"steps"`
	Switches   int            `json:"switches"`
	Preempts   int            `json:"preempts"`
	Reqs       int            `json:"reqs"`
	Calls      int            `json:"calls"`
	Incon      int            `json:"incon"`
	SimNs      float64        `json:"sim_ns"`
	Faults     map[string]int `json:"faults"`
	Probes     map[string]int `json:"probes"`
	Known      map[string]int `json:"known"`
	Policies   map[string]int `json:"policies"`
	Hashes     []uint64       `json:"hashes"`
	Pairs      []uint64       `json:"pairs"`
	Twice      int            `json:"twice"`
	Mismatch   int            `json:"mismatch"`
	Sample     []sampleRun    `json:"sample"`
	Last       int            `json:"last"`
}

type sampleRun struct {
	N    int    `json:"n"`
	Seed uint64 `json:"seed"`
	Hash uint64 `json:"hash"`
}

// found is a violation as reported by a worker.
type found struct {
	N    int       `json:"n"`
	Seed uint64    `json:"seed"`
	V    Violation `json:"v"`
}

func runSeed(base uint64, n int) uint64 { return base<<32 | uint64(n) }

// knownFinding is a recorded defect that is not repaired.
type knownFinding struct {
	prop, rule string
	re         *regexp.Regexp
	text       string
}

// loadKnown reads lines of the form
//
//	known: property=C01 rule=RULE match=/REGEXP/ text
//
// Lines that begin "fixed:" suppress nothing.
func loadKnown(file string) []knownFinding {
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	re := regexp.MustCompile(`^known: property=(\S+) rule=(\S+) match=/(.*)/ (.*)$`)
	var out []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known:") {
			continue
		}
		m := re.FindStringSubmatch(l)
		if m == nil {
			panic("harness: bad line in " + file + ": " + l)
		}
		out = append(out, knownFinding{m[1], m[2], regexp.MustCompile(m[3]), m[4]})
	}
	return out
}

// unlisted returns the first violation no finding covers, and counts others.
func unlisted(known []knownFinding, prop string, vs []Violation, count map[string]int) *Violation {
	for i := range vs {
		hit := false
		for _, k := range known {
			if k.prop == prop && k.rule == vs[i].Rule && k.re.MatchString(vs[i].Msg) {
				hit = true
				if count != nil {
					count[k.text]++
				}
				break
			}
		}
		if !hit {
			return &vs[i]
		}
	}
	return nil
}

// ------------------------------------------------------------- worker

func cmdWorker(args []string) {
	fs := flag.NewFlagSet("worker", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	base := fs.Uint64("base", 1, "")
	shard := fs.Int("shard", 0, "")
	shards := fs.Int("shards", 1, "")
	runs := fs.Int("runs", 1, "")
	from := fs.Int("from", 0, "")
	wall := fs.Float64("wall", 60, "")
	knownF := fs.String("known", "", "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	known := loadKnown(*knownF)
	out := bufio.NewWriter(os.Stdout)
	var limit int64 = int64(*runs)
	go func() {
		// the driver lowers the limit when another worker found something
		sc := bufio.NewScanner(os.Stdin)
		for sc.Scan() {
			if n, err := strconv.ParseInt(sc.Text(), 10, 64); err == nil && n < atomic.LoadInt64(&limit) {
				atomic.StoreInt64(&limit, n)
			}
		}
	}()
	st := stats{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}, Policies: map[string]int{}}
	pairs := map[uint64]struct{}{}
	start := time.Now()
	for n := *from + *shard; n < int(atomic.LoadInt64(&limit)); n += *shards {
		if time.Since(start).Seconds() > *wall {
			break
		}
		if st.Runs%16 == 0 {
			runtime.Gosched()
		}
		fmt.Fprintf(out, "@%d\n", n)
		out.Flush()
		sim.Heartbeat = func() {
			fmt.Fprintf(out, "@%d\n", n)
			out.Flush()
		}
		seed := runSeed(*base, n)
		p := newPlan(*prop, seed)
		res := runPlan(p, false)
		st.Last = n
		st.Runs++
		st.Steps += res.Steps
		st.Switches += res.Switches
		st.Preempts += res.Preempts
		st.Reqs += res.Reqs
		st.Calls += res.Calls
		st.Incon += res.Incon
		st.SimNs += float64(res.Elapsed)
		st.Policies[p.Policy.Kind]++
		nf := 0
		for k, v := range res.Faults {
			st.Faults[k] += v
			nf += v
		}
		for k, v := range res.Probes {
			st.Probes[k] += v
		}
		if res.Preempts > 0 || nf > 0 {
			st.Nontrivial++
			st.Hashes = append(st.Hashes, res.Hash)
		}
		for k := range res.Pairs {
			pairs[k] = struct{}{}
		}
		if len(st.Sample) < 3 {
			st.Sample = append(st.Sample, sampleRun{n, seed, res.Hash})
		}
		if v := unlisted(known, *prop, res.Viol, st.Known); v != nil {
			b, err := json.Marshal(found{n, seed, *v})
			must(err)
			fmt.Fprintf(out, "V%s\n", b)
			out.Flush()
			break
		}
		if st.Runs%64 == 1 {
			st.Twice++
			if r2 := runPlan(newPlan(*prop, seed), false); r2.Hash != res.Hash {
				st.Mismatch++
			}
		}
	}
	for k := range pairs {
		st.Pairs = append(st.Pairs, k)
	}
	b, err := json.Marshal(st)
	must(err)
	fmt.Fprintf(out, "S%s\n", b)
	out.Flush()
}

// ------------------------------------------------------------- replay file

type replayFile struct {
	Property  string   `json:"property"`
	Rule      string   `json:"rule"`
	Message   string   `json:"message"`
	FoundSeed uint64   `json:"found_with_seed"`
	Hash      string   `json:"event_log_hash"`
	Minimised string   `json:"minimised"`
	Plan      *Plan    `json:"plan"`
	History   []string `json:"history"`
	Schedule  []string `json:"schedule_trace"`
}

func hasRule(vs []Violation, rule string) *Violation {
	for i := range vs {
		if vs[i].Rule == rule {
			return &vs[i]
		}
	}
	return nil
}

// cmdRunOne runs one plan from a file and reports rule and hash; it is how
// the driver runs things in a fresh process.
func cmdRunOne(args []string) {
	fs := flag.NewFlagSet("runone", flag.ExitOnError)
	file := fs.String("plan", "", "")
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 0, "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	var p *Plan
	if *file != "" {
		b, err := os.ReadFile(*file)
		must(err)
		p = &Plan{}
		must(json.Unmarshal(b, p))
	} else {
		p = newPlan(*prop, *seed)
	}
	res := runPlan(p, false)
	rules := []string{}
	for _, v := range res.Viol {
		rules = append(rules, v.Rule)
	}
	fmt.Printf("%016x %s\n", res.Hash, strings.Join(rules, ","))
}

func cmdReplay(args []string) {
	if len(args) != 1 {
		fmt.Println("usage: replay FILE")
		os.Exit(2)
	}
	b, err := os.ReadFile(args[0])
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	var rf replayFile
	must(json.Unmarshal(b, &rf))
	if rf.Rule == "process-died" {
		// the run ends the process or never ends: run it in another one
		exe, err := os.Executable()
		must(err)
		ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
		defer cancel()
		out, err := exec.CommandContext(ctx, exe, "runone", "-prop", rf.Property, "-seed", fmt.Sprint(rf.FoundSeed)).CombinedOutput()
		if err == nil {
			fmt.Println("NOT REPRODUCED: the run ended normally")
			os.Exit(3)
		}
		fmt.Printf("%s\nreproduced exactly: the run of seed %d ends with: %v\nVIOLATION property=%s replay=%s\n", clip(string(out), 3000), rf.FoundSeed, err, rf.Property, args[0])
		os.Exit(1)
	}
	runtime.GOMAXPROCS(1)
	res := runPlan(rf.Plan.clone(), true)
	for _, l := range res.Trace {
		fmt.Println("  ", l)
	}
	for _, l := range res.History {
		fmt.Println("  ", l)
	}
	for _, v := range res.Viol {
		fmt.Printf("%s: %s\n", v.Rule, v.Msg)
	}
	h := fmt.Sprintf("%016x", res.Hash)
	v := hasRule(res.Viol, rf.Rule)
	switch {
	case v == nil:
		fmt.Printf("NOT REPRODUCED: rule %s of property %s held in this replay (the tree may differ from the one the file was recorded on)\n", rf.Rule, rf.Property)
		os.Exit(3)
	case h != rf.Hash:
		fmt.Printf("reproduced rule %s of property %s, but with event log %s instead of %s\n", rf.Rule, rf.Property, h, rf.Hash)
	default:
		fmt.Printf("reproduced exactly: rule %s of property %s, event log %s\n", rf.Rule, rf.Property, h)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", rf.Property, args[0])
	os.Exit(1)
}

// ------------------------------------------------------------- minimiser

type minimiser struct {
	rule     string
	deadline time.Time
	tries    int
	known    []knownFinding
}

// fails runs the plan and returns the schedule when it breaks the same rule.
func (m *minimiser) fails(p *Plan) *Result {
	m.tries++
	res := runPlan(p.clone(), false)
	if v := hasRule(res.Viol, m.rule); v != nil && unlisted(m.known, p.Prop, []Violation{*v}, nil) != nil {
		return res
	}
	return nil
}

func (m *minimiser) late() bool { return time.Now().After(m.deadline) }

// search tries the plan under its own schedule and some others.
func (m *minimiser) search(p *Plan, n int) bool {
	if m.fails(p) != nil {
		return true
	}
	r := sim.NewRand(sim.Mix(p.Policy.Seed, 99))
	old := p.Policy
	for i := 0; i < n && !m.late(); i++ {
		p.Policy = genPolicy(r)
		if m.fails(p) != nil {
			return true
		}
	}
	p.Policy = old
	return false
}

func (m *minimiser) run(p *Plan) (*Plan, string) {
	ops0 := p.ops()
	best := p.clone()
	for changed := true; changed && !m.late(); {
		changed = false
		// whole tasks
		for i := len(best.Tasks) - 1; i >= 0 && !m.late(); i-- {
			if len(best.Tasks) == 1 {
				break
			}
			q := best.clone()
			q.Tasks = append(q.Tasks[:i:i], q.Tasks[i+1:]...)
			if m.search(q, 30) {
				best, changed = q, true
			}
		}
		// single ops
		for i := len(best.Tasks) - 1; i >= 0; i-- {
			for j := len(best.Tasks[i]) - 1; j >= 0 && !m.late(); j-- {
				q := best.clone()
				q.Tasks[i] = append(q.Tasks[i][:j:j], q.Tasks[i][j+1:]...)
				if len(q.Tasks[i]) == 0 && len(q.Tasks) > 1 {
					q.Tasks = append(q.Tasks[:i:i], q.Tasks[i+1:]...)
				}
				if m.search(q, 12) {
					best, changed = q, true
					if i >= len(best.Tasks) {
						break
					}
				}
			}
		}
		for j := len(best.Setup) - 1; j >= 0 && !m.late(); j-- {
			q := best.clone()
			q.Setup = append(q.Setup[:j:j], q.Setup[j+1:]...)
			if m.search(q, 6) {
				best, changed = q, true
			}
		}
	}
	// faults
	for i := range best.Tasks {
		for j := range best.Tasks[i] {
			for _, f := range []func(o *Op) bool{
				func(o *Op) bool { x := o.Rep != 0; o.Rep = 0; return x },
				func(o *Op) bool { x := o.Rep > 1; o.Rep /= 2; return x },
				func(o *Op) bool { x := o.Rep > 1; o.Rep -= o.Rep / 4; return x },
				func(o *Op) bool { x := o.Nap != 0; o.Nap = 0; return x },
				func(o *Op) bool { x := o.Chunk != 0; o.Chunk = 0; return x },
				func(o *Op) bool { x := o.Stall != 0; o.Stall, o.StallAt = 0, 0; return x },
				func(o *Op) bool { x := o.Cut != 0; o.Cut = 0; return x },
				func(o *Op) bool { x := o.Panic != 0; o.Panic = 0; return x },
				func(o *Op) bool { x := o.Enc != ""; o.Enc = ""; return x },
			} {
				if m.late() {
					break
				}
				q := best.clone()
				if f(&q.Tasks[i][j]) && m.search(q, 6) {
					best = q
				}
			}
		}
	}
	// knobs
	for _, k := range sortedKeys(best.Knobs) {
		for best.Knobs[k] > 0 && best.Knobs[k] < 16 && !m.late() {
			q := best.clone()
			q.Knobs[k]--
			if !m.search(q, 4) {
				break
			}
			best = q
		}
	}
	// schedule: record it, then drop decisions
	res := m.fails(best)
	if res == nil {
		return best, "nothing"
	}
	n0 := len(res.Decisions)
	q := best.clone()
	q.Decisions = append([]sim.Decision{}, res.Decisions...)
	q.Replay = true
	if m.fails(q) == nil {
		return best, fmt.Sprintf("operations %d -> %d; schedule kept as seed", ops0, best.ops())
	}
	best = q
	for size := (len(best.Decisions) + 1) / 2; size >= 1 && len(best.Decisions) > 0; {
		removed := false
		for at := 0; at < len(best.Decisions) && !m.late(); {
			end := min(at+size, len(best.Decisions))
			q := best.clone()
			q.Decisions = append(append([]sim.Decision{}, best.Decisions[:at]...), best.Decisions[end:]...)
			if m.fails(q) != nil {
				best = q
				removed = true
			} else {
				at = end
			}
		}
		if m.late() {
			break
		}
		if size == 1 && !removed {
			break
		}
		if size > 1 {
			size = (size + 1) / 2
		}
	}
	return best, fmt.Sprintf("operations %d -> %d, scheduling decisions %d -> %d, %d trial runs", ops0, best.ops(), n0, len(best.Decisions), m.tries)
}

func cmdMinimise(args []string) {
	fs := flag.NewFlagSet("minimise", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	seed := fs.Uint64("seed", 0, "")
	rule := fs.String("rule", "", "")
	out := fs.String("out", "", "")
	wall := fs.Float64("wall", 30, "")
	knownF := fs.String("known", "", "")
	fs.Parse(args)
	runtime.GOMAXPROCS(1)
	m := &minimiser{rule: *rule, deadline: time.Now().Add(time.Duration(*wall * float64(time.Second))), known: loadKnown(*knownF)}
	p := newPlan(*prop, *seed)
	if m.fails(p) == nil {
		fmt.Println("the violation did not come back")
		os.Exit(3)
	}
	best, how := m.run(p)
	res := runPlan(best.clone(), true)
	v := hasRule(res.Viol, *rule)
	if v == nil {
		fmt.Println("the minimised plan does not fail")
		os.Exit(3)
	}
	rf := replayFile{Property: *prop, Rule: *rule, Message: v.Msg, FoundSeed: *seed, Minimised: how, Plan: best,
		Hash: fmt.Sprintf("%016x", res.Hash), History: res.History, Schedule: res.Trace}
	b, err := json.MarshalIndent(rf, "", " ")
	must(err)
	must(os.WriteFile(*out, b, 0o644))
}

// ------------------------------------------------------------- driver

func fatalf(format string, args ...any) {
	fmt.Printf("ERROR: "+format+"\n", args...)
	os.Exit(2)
}

type workerResult struct {
	st    *stats
	v     *found
	last  int
	err   error
	fatal string
}

func cmdCheck(args []string) {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	evid := fs.String("evidence", "", "")
	replays := fs.String("replays", "", "")
	knownF := fs.String("known", "", "")
	workers := fs.Int("workers", 0, "")
	wall := fs.Float64("wall", 0, "")
	runsF := fs.Int("runs", 0, "")
	buildS := fs.Float64("build_s", 0, "")
	fs.Parse(args)
	info, ok := props[*prop]
	if !ok {
		fatalf("no such property: %s", *prop)
	}
	if *workers == 0 {
		*workers = min(runtime.NumCPU(), 16)
	}
	runs := info.runs
	w := 30.0
	if *tier == "thorough" {
		runs *= 60
		w = 900
	}
	if *wall > 0 {
		w = *wall
	}
	if *runsF > 0 {
		runs = *runsF
	}
	start := time.Now()
	fmt.Printf("property=%s tier=%s VERIF_SEED=%d workers=%d runs<=%d wall<=%.0fs\n", *prop, *tier, *seed, *workers, runs, w)
	exe, err := os.Executable()
	must(err)
	var mu sync.Mutex
	var stdins []io.WriteCloser
	results := make([]workerResult, *workers)
	var wg sync.WaitGroup
	lower := func(n int) {
		mu.Lock()
		defer mu.Unlock()
		for _, s := range stdins {
			fmt.Fprintf(s, "%d\n", n)
		}
	}
	for i := 0; i < *workers; i++ {
		cmd := exec.Command(exe, "worker", "-prop", *prop, "-base", fmt.Sprint(*seed), "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(*workers),
			"-runs", fmt.Sprint(runs), "-wall", fmt.Sprint(w), "-known", *knownF)
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=single")
		in, err := cmd.StdinPipe()
		must(err)
		out, err := cmd.StdoutPipe()
		must(err)
		var errb bytes.Buffer
		cmd.Stderr = &errb
		must(cmd.Start())
		mu.Lock()
		stdins = append(stdins, in)
		mu.Unlock()
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			r := &results[i]
			var beat atomic.Int64
			beat.Store(time.Now().UnixNano())
			stop := make(chan struct{})
			go func() {
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Second):
						if time.Since(time.Unix(0, beat.Load())) > 60*time.Second {
							r.fatal = "watchdog: a run made no step for a minute (runs take milliseconds)"
							cmd.Process.Kill()
							return
						}
					}
				}
			}()
			rd := bufio.NewReaderSize(out, 1<<20)
			for {
				l, err := rd.ReadString('\n')
				if err != nil {
					break
				}
				beat.Store(time.Now().UnixNano())
				l = strings.TrimSuffix(l, "\n")
				switch l[0] {
				case '@':
					r.last, _ = strconv.Atoi(l[1:])
				case 'V':
					r.v = &found{}
					must(json.Unmarshal([]byte(l[1:]), r.v))
					lower(r.v.N)
				case 'S':
					r.st = &stats{}
					must(json.Unmarshal([]byte(l[1:]), r.st))
				}
			}
			r.err = cmd.Wait()
			close(stop)
			if r.err != nil && r.fatal == "" {
				r.fatal = clip(errb.String(), 3000)
				if strings.HasPrefix(r.fatal, "watchdog") || strings.Contains(r.fatal, "stack overflow") || strings.Contains(r.fatal, "fatal error:") {
					lower(r.last)
				}
			}
		}(i)
	}
	wg.Wait()
	for _, s := range stdins {
		s.Close()
	}
	var best *found
	dead := -1
	deadMsg := ""
	tot := stats{Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}, Policies: map[string]int{}}
	hashes := map[uint64]struct{}{}
	pairs := map[uint64]struct{}{}
	trouble := ""
	for i := range results {
		r := &results[i]
		if r.v != nil && (best == nil || r.v.N < best.N) {
			best = r.v
		}
		if r.st == nil {
			if strings.Contains(r.fatal, "stack overflow") || strings.Contains(r.fatal, "fatal error:") && !strings.Contains(r.fatal, "out of memory") {
				if dead < 0 || r.last < dead {
					dead, deadMsg = r.last, r.fatal
				}
			} else {
				trouble = fmt.Sprintf("worker %d: %v %s", i, r.err, r.fatal)
			}
			continue
		}
		s := r.st
		tot.Runs += s.Runs
		tot.Nontrivial += s.Nontrivial
		tot.Steps += s.Steps
		tot.Switches += s.Switches
		tot.Preempts += s.Preempts
		tot.Reqs += s.Reqs
		tot.Calls += s.Calls
		tot.Incon += s.Incon
		tot.SimNs += s.SimNs
		tot.Twice += s.Twice
		tot.Mismatch += s.Mismatch
		for k, v := range s.Faults {
			tot.Faults[k] += v
		}
		for k, v := range s.Probes {
			tot.Probes[k] += v
		}
		for k, v := range s.Known {
			tot.Known[k] += v
		}
		for k, v := range s.Policies {
			tot.Policies[k] += v
		}
		for _, h := range s.Hashes {
			hashes[h] = struct{}{}
		}
		for _, h := range s.Pairs {
			pairs[h] = struct{}{}
		}
		tot.Sample = append(tot.Sample, s.Sample...)
	}
	searchS := time.Since(start).Seconds()
	if trouble != "" && best == nil {
		fatalf("%s", trouble)
	}
	// cross-process determinism sample
	cross, crossBad := 0, 0
	if best == nil && dead < 0 {
		sort.Slice(tot.Sample, func(i, j int) bool { return tot.Sample[i].N < tot.Sample[j].N })
		for i := 0; i < len(tot.Sample) && i < 6; i++ {
			s := tot.Sample[i]
			out, err := exec.Command(exe, "runone", "-prop", *prop, "-seed", fmt.Sprint(s.Seed)).Output()
			if err != nil {
				fatalf("re-run of seed %d: %v", s.Seed, err)
			}
			cross++
			if !strings.HasPrefix(string(out), fmt.Sprintf("%016x ", s.Hash)) {
				crossBad++
			}
		}
	}
	if tot.Mismatch+crossBad > 0 {
		fmt.Printf("WARNING: %d of %d re-runs gave a different event log\n", tot.Mismatch+crossBad, tot.Twice+cross)
		if *tier == "thorough" {
			fatalf("the simulation is not deterministic on this tree")
		}
	}
	ev := buildEvidence(*prop, *tier, *seed, &tot, len(hashes), len(pairs), *workers, searchS, *buildS, cross, crossBad, runs)
	violations := 0
	exit := 0
	if dead >= 0 && (best == nil || dead < best.N) {
		// the process died outright: confirm in a fresh process
		s := runSeed(uint64(*seed), dead)
		n := 0
		for i := 0; i < 2; i++ {
			ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
			if err := exec.CommandContext(ctx, exe, "runone", "-prop", *prop, "-seed", fmt.Sprint(s)).Run(); err != nil {
				n++
			}
			cancel()
		}
		if n < 2 {
			fatalf("a worker died or hung and that did not come back: %s", deadMsg)
		}
		must(os.MkdirAll(*replays, 0o755))
		file := filepath.Join(*replays, fmt.Sprintf("%s-died-%d.json", *prop, s))
		rf := replayFile{Property: *prop, Rule: "process-died", Message: deadMsg, FoundSeed: s, Plan: newPlan(*prop, s), Minimised: "not minimised: the process dies or hangs"}
		b, _ := json.MarshalIndent(rf, "", " ")
		must(os.WriteFile(file, b, 0o644))
		fmt.Printf("rule process-died: %s\n", firstLines(deadMsg, 20))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, file)
		violations, exit = 1, 1
	} else if best != nil {
		violations, exit = 1, 1
		must(os.MkdirAll(*replays, 0o755))
		file := filepath.Join(*replays, fmt.Sprintf("%s-%s-%d.json", *prop, best.V.Rule, best.Seed))
		fmt.Printf("found: seed %d rule %s: %s\n", best.Seed, best.V.Rule, firstLines(best.V.Msg, 12))
		cmd := exec.Command(exe, "minimise", "-prop", *prop, "-seed", fmt.Sprint(best.Seed), "-rule", best.V.Rule, "-out", file, "-wall", "25", "-known", *knownF)
		if out, err := cmd.CombinedOutput(); err != nil {
			fatalf("seed %d broke rule %s once, but minimisation failed: %v %s", best.Seed, best.V.Rule, err, out)
		}
		var rf replayFile
		b, err := os.ReadFile(file)
		must(err)
		must(json.Unmarshal(b, &rf))
		for i := 0; i < 2; i++ {
			out, _ := exec.Command(exe, "replay", file).Output()
			if !bytes.Contains(out, []byte("reproduced exactly")) {
				fatalf("the replay file %s does not reproduce the violation exactly:\n%s", file, clip(string(out), 2000))
			}
		}
		fmt.Printf("minimised: %s\nrule %s: %s\n", rf.Minimised, rf.Rule, firstLines(rf.Message, 12))
		fmt.Printf("VIOLATION property=%s replay=%s\n", *prop, file)
		ev["violation"] = map[string]any{"rule": rf.Rule, "message": firstLines(rf.Message, 12), "replay": file, "minimised": rf.Minimised}
	}
	for _, k := range loadKnown(*knownF) {
		if k.prop == *prop {
			fmt.Printf("KNOWN-FINDING: property=%s %s (hit %d times)\n", *prop, k.text, tot.Known[k.text])
		}
	}
	ev["violations"] = violations
	ev["wall_s"] = time.Since(start).Seconds() + *buildS
	b, err := json.MarshalIndent(ev, "", " ")
	must(err)
	must(os.MkdirAll(filepath.Dir(*evid), 0o755))
	must(os.WriteFile(*evid, b, 0o644))
	if exit == 0 {
		fmt.Printf("OK: property=%s held in %d runs (%d distinct non-trivial, %d switch-site pairs), %.0f s simulated time, %.1f s\n", *prop, tot.Runs, len(hashes), len(pairs), tot.SimNs/1e9, time.Since(start).Seconds())
	}
	os.Exit(exit)
}

func buildEvidence(prop, tier string, seed int64, t *stats, hashes, pairs, workers int, searchS, buildS float64, cross, crossBad, limit int) map[string]any {
	info := props[prop]
	var samples []any
	for i, s := range t.Sample {
		if i >= 3 {
			break
		}
		p := newPlan(prop, s.Seed)
		samples = append(samples, map[string]any{"run": s.N, "seed": s.Seed, "event_log_hash": fmt.Sprintf("%016x", s.Hash), "plan": p})
	}
	perHour := 0.0
	if searchS > 0 {
		perHour = float64(t.Runs) / searchS * 3600
	}
	cov := map[string]any{
		"evaluations":         t.Runs,
		"distinct_nontrivial": hashes,
		"rule": "one evaluation is one simulated run: workload, client behaviour, faults, clock and schedule are all drawn from one seed (VERIF_SEED<<32|n); " +
			"it is non-trivial if the scheduler preempted a running task at least once or a fault fired, and two runs are distinct if their event logs (every task switch with its site, every request, call, update and response hash) differ",
		"samples":              samples,
		"runs_per_hour":        int(perHour),
		"seeds_per_hour":       int(perHour),
		"run_limit":            limit,
		"simulated_seconds":    t.SimNs / 1e9,
		"scheduling_steps":     t.Steps,
		"task_switches":        t.Switches,
		"preemptions":          t.Preempts,
		"requests":             t.Reqs,
		"application_calls":    t.Calls,
		"faults_injected":      t.Faults,
		"probes":               t.Probes,
		"schedule_policies":    t.Policies,
		"switch_site_pairs":    pairs,
		"switch_site_rule":     "distinct (source location switched away from, source location resumed at) pairs",
		"inconclusive":         t.Incon,
		"determinism_reruns":   map[string]int{"same_process": t.Twice, "same_process_mismatch": t.Mismatch, "fresh_process": cross, "fresh_process_mismatch": crossBad},
		"workers":              workers,
		"search_seconds":       searchS,
		"build_seconds":        buildS,
		"workload_family":      info.family,
		"components_real":      realComponents,
		"components_simulated": stubComponents,
	}
	return map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
		"assumptions": []string{
			"memory is sequentially consistent between the yield points the instrumenter inserts (every access to shared memory is a yield point; C20 checks that accesses are ordered)",
			"standard library code (net/http mux, encoding/json, html/template, gzip, net/rpc) runs unmodified and is atomic between the points where it calls back into the library or writes to the client",
			"a clean batch of seeds is evidence, not proof",
		},
	}
}

var realComponents = []string{
	"go/tricorder (registry, groups, regions, distributions, lists, HTTP/text/JSON/RPC handlers, /proc metrics)",
	"go/tricorder/duration, go/tricorder/types, go/tricorder/units, go/tricorder/messages", "go/healthserver", "go/tricorder/wrapper (system call stubbed)",
	"net/http ServeMux, net/rpc server, encoding/gob, encoding/json, html/template, compress/gzip (unmodified)",
}

var stubComponents = []string{
	"goroutine scheduler, channels, sync, sync/atomic (simulated)", "time.Now, Sleep, timers (simulated clock)", "getrusage, runtime.ReadMemStats, os.Open/Readdirnames of the descriptor directory (simulated OS)",
	"client connections (simulated http.ResponseWriter / rpc.ServerCodec)", "map iteration order (seeded)", "math/rand (seeded)",
}

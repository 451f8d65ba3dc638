package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"strings"
	"time"
)

// cmdTry runs a range of seeds in this process and prints what happened; it
// is a development aid.
func cmdTry(args []string) {
	fs := flag.NewFlagSet("try", flag.ExitOnError)
	prop := fs.String("prop", "C01", "")
	from := fs.Uint64("from", 0, "")
	n := fs.Uint64("n", 100, "")
	trace := fs.Bool("trace", false, "")
	stop := fs.Int("stop", 5, "")
	twice := fs.Bool("twice", false, "")
	prof := fs.String("prof", "", "")
	fs.Parse(args)
	if *prof != "" {
		f, err := os.Create(*prof)
		must(err)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	start := time.Now()
	bad := 0
	var steps, most, mostSeed uint64
	faults, probes := map[string]int{}, map[string]int{}
	var sw, reqs, incon int
	hashes := map[uint64]bool{}
	for s := *from; s < *from+*n; s++ {
		p := newPlan(*prop, s)
		res := runPlan(p, *trace)
		if *twice {
			r2 := runPlan(newPlan(*prop, s), *trace)
			if r2.Hash != res.Hash {
				fmt.Printf("seed %d: NOT DETERMINISTIC\n", s)
				bad++
			}
		}
		hashes[res.Hash] = true
		steps += res.Steps
		if res.Steps > most {
			most, mostSeed = res.Steps, s
		}
		sw += res.Switches
		reqs += res.Reqs
		incon += res.Incon
		for k, v := range res.Faults {
			faults[k] += v
		}
		for k, v := range res.Probes {
			probes[k] += v
		}
		if *trace {
			fmt.Println(strings.Join(res.Trace, "\n"))
			fmt.Println(strings.Join(res.History, "\n"))
		}
		if len(res.Viol) > 0 {
			bad++
			fmt.Printf("seed %d:\n", s)
			for i, v := range res.Viol {
				if i > 2 {
					break
				}
				fmt.Printf("   %s: %s\n", v.Rule, v.Msg)
			}
			if bad >= *stop {
				break
			}
		}
	}
	d := time.Since(start)
	fmt.Printf("%s: %d runs, %d bad, %d distinct, %.1f runs/s, steps/run %d, switches/run %d, reqs/run %.1f incon %d\n", *prop, *n, bad, len(hashes), float64(*n)/d.Seconds(), steps / *n, sw/int(*n), float64(reqs)/float64(*n), incon)
	fmt.Printf("most steps %d (seed %d)\n", most, mostSeed)
	fmt.Println("faults", faults)
	fmt.Println("probes", probes)
	if bad > 0 {
		os.Exit(1)
	}
}

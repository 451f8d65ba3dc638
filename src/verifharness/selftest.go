package main

import (
	"flag"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
)

// cmdSelftest runs many seeds of every property in several fresh processes,
// at different worker counts, and compares event logs.
func cmdSelftest(args []string) {
	fs := flag.NewFlagSet("selftest", flag.ExitOnError)
	n := fs.Int("n", 60, "seeds per property")
	only := fs.String("prop", "", "")
	rounds := fs.Int("rounds", 3, "")
	list := fs.String("list", "", "internal: print hashes of the seeds of one property")
	fs.Parse(args)
	if *list != "" {
		runtime.GOMAXPROCS(1)
		for i := 0; i < *n; i++ {
			p := newPlan(*list, runSeed(77, i))
			fmt.Printf("%d %016x\n", i, runPlan(p, false).Hash)
		}
		return
	}
	exe, err := os.Executable()
	must(err)
	bad := 0
	for _, id := range sortedKeys(props) {
		if *only != "" && id != *only {
			continue
		}
		var outs []string
		for round := 0; round < *rounds; round++ {
			par := []int{1, 4, 8}[round%3]
			res := make([]string, par)
			var wg sync.WaitGroup
			for i := 0; i < par; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					b, err := exec.Command(exe, "selftest", "-list", id, "-n", fmt.Sprint(*n)).Output()
					if err != nil {
						b = append(b, []byte(err.Error())...)
					}
					res[i] = string(b)
				}()
			}
			wg.Wait()
			outs = append(outs, res...)
		}
		diff := 0
		for _, o := range outs {
			if o != outs[0] {
				diff++
				a, b := strings.Split(outs[0], "\n"), strings.Split(o, "\n")
				for i := range a {
					if i < len(b) && a[i] != b[i] {
						fmt.Printf("%s: %s vs %s\n", id, a[i], b[i])
						break
					}
				}
			}
		}
		fmt.Printf("%s: %d seeds x %d processes, %d processes differ\n", id, *n, len(outs), diff)
		bad += diff
	}
	if bad > 0 {
		os.Exit(2)
	}
}

// Command verifharness runs simulated worlds against the instrumented
// library and judges what happened.
package main

import (
	"fmt"
	"os"
	"runtime/debug"
)

func main() {
	quietStdio()
	debug.SetGCPercent(400)
	warmGob()
	if len(os.Args) < 2 {
		fmt.Println("usage: verifharness check|replay|worker|minimise|runone|selftest|try ...")
		os.Exit(2)
	}
	args := os.Args[2:]
	switch os.Args[1] {
	case "check":
		cmdCheck(args)
	case "replay":
		cmdReplay(args)
	case "worker":
		cmdWorker(args)
	case "minimise":
		cmdMinimise(args)
	case "runone":
		cmdRunOne(args)
	case "selftest":
		cmdSelftest(args)
	case "try":
		cmdTry(args)
	default:
		fmt.Println("unknown command", os.Args[1])
		os.Exit(2)
	}
}

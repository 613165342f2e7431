// pbt runs the property checks. See /verif/DESIGN.md.
package main

import (
	"fmt"
	"os"

	"verif/harness/eng"
	_ "verif/harness/props"
)

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "run":
		if len(os.Args) != 4 {
			usage()
		}
		os.Exit(eng.Parent(os.Args[2], os.Args[3]))
	case "worker":
		os.Exit(eng.Worker(os.Args[2:]))
	case "replay":
		if len(os.Args) != 3 {
			usage()
		}
		os.Exit(eng.Replay(os.Args[2]))
	case "list":
		for _, id := range eng.IDs() {
			p := eng.Get(id)
			for _, s := range p.Suites {
				fmt.Println(id, s.Name, s.Quick, s.Thorough)
			}
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: pbt run ID quick|thorough | replay FILE | list")
	os.Exit(3)
}

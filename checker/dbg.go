package main

import (
	"fmt"
	"os"
	"sort"
)

// stepProf counts instruction steps per function when VPROF is set.
var stepProf map[string]int

func init() {
	if os.Getenv("VPROF") != "" {
		stepProf = map[string]int{}
	}
}

func dumpProf() {
	var ks []string
	for k := range stepProf {
		ks = append(ks, k)
	}

	sort.Slice(ks, func(i, j int) bool { return stepProf[ks[i]] > stepProf[ks[j]] })

	for i, k := range ks {
		if i < 25 {
			fmt.Fprintln(os.Stderr, "STEPS", stepProf[k], k)
		}
	}
}

func dbgTerm(label string, t *Term) {
	if os.Getenv("VDBG") != "" {
		fmt.Fprintln(os.Stderr, "DBG", label, t.Op, t)
	}
}

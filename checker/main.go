package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	if f := os.Getenv("CPUPROF"); f != "" {
		w, _ := os.Create(f)
		_ = pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}

	if len(os.Args) > 2 && os.Args[1] == "dump" {
		fmt.Sscan(os.Getenv("DEPTH"), &maxDepthStr)
		dump(os.Args[2], os.Args[3:])
		return
	}

	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}

	if len(os.Args) < 3 || os.Args[1] != "check" {
		fmt.Fprintln(os.Stderr, "usage: vcv check ID... | all")
		os.Exit(2)
	}

	ids := os.Args[2:]
	P, err := Load(repoDir())
	rc := 0

	for _, pr := range properties {
		for _, id := range ids {
			if id == pr.id || id == "all" {
				if runProperty(P, err, pr, tier) != 0 {
					rc = 1
				}
			}
		}
	}

	dumpProf()
	pprof.StopCPUProfile()
	os.Exit(rc)
}

func dump(name string, opaque []string) {
	p, err := Load(repoDir())
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}

	fn := p.Fn(name)
	if fn == nil {
		fmt.Println("no function", name)
		os.Exit(1)
	}

	t := time.Now()
	e := NewExec(p, &Config{Opaque: func(f *ssa.Function) bool {
		for _, o := range opaque {
			if nameMatch(f.String(), o) {
				return true
			}
		}

		return false
	}})

	for i, x := range e.Run(fn) {
		ok := e.succeeded(fn, x)
		fmt.Printf("--- exit %d at %s success=%v\n", i, p.pos(x.pos), ok)

		if !ok {
			continue
		}

		for _, r := range x.res {
			fmt.Println("   result", r)
		}

		var fs []string

		for f, v := range x.st.facts {
			if f.Op == "has" && v && isFresh(f.Args[0]) {
				continue
			}

			fs = append(fs, fmt.Sprintf("   %v %s", v, f))
		}

		sort.Strings(fs)
		fmt.Println(strings.Join(fs, "\n"))
	}

	fmt.Println(e.Err, "steps", e.steps, "funcs", len(e.Stats.Funcs), "calls", e.Stats.Calls, "paths", e.Stats.Paths, time.Since(t))
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}

	return "/repo"
}

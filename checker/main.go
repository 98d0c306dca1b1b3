package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	prop := flag.String("prop", "", "property id, a comma-separated list, or all")
	tier := flag.String("tier", os.Getenv("VERIF_TIER"), "quick or thorough")
	list := flag.Bool("list", false, "list the checks")
	prof := flag.String("cpuprofile", "", "write a CPU profile")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = "quick"
	}
	sort.Slice(checks, func(i, j int) bool { return checks[i].id < checks[j].id })
	if *list {
		for _, c := range checks {
			fmt.Println(c.id, c.title)
		}
		return
	}
	t := time.Now()
	P, err := Load()
	loadTime = time.Since(t)
	rc := 0
	n := 0
	for _, c := range checks {
		if *prop != "all" && !strings.Contains(","+*prop+",", ","+c.id+",") {
			continue
		}
		n++
		if runCheck(P, err, c, *tier) != 0 {
			rc = 1
		}
	}
	if n == 0 {
		fmt.Println("no such property:", *prop)
		os.Exit(2)
	}
	pprof.StopCPUProfile()
	os.Exit(rc)
}

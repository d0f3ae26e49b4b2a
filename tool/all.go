package main

import (
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

// checkAll runs the parts of every check once and lists what each property
// would report; for development only.
func checkAll(tier, repo, dir string) int {
	t0 := time.Now()
	limit()
	known, err := knowns(dir)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	ld, err := load(repo, true)
	if err != nil {
		fmt.Println("the source cannot be analysed:", err)
		return 2
	}
	var jobs []job
	names := map[string]bool{}
	for _, p := range strings.Split(allProps, ",") {
		for _, j := range jobsFor(p, tier) {
			if !names[j.name] {
				names[j.name] = true
				jobs = append(jobs, j)
			}
		}
	}
	if os.Getenv("XW_FIRST") != "" {
		firstFinding = func(f finding) {
			for _, p := range f.props {
				if _, ok := known[p+" "+f.key()]; !ok && f.rule != "undecided" {
					fmt.Println("  ", f)
					fmt.Printf("REPORTED BY: %s (the first, %.1f s)\n", p, time.Since(t0).Seconds())
					os.Exit(0)
				}
			}
		}
	}
	undec := map[string]bool{}
	hit := map[string]int{}
	seen := map[string]int{}
	all := map[string]finding{}
	for _, r := range runJobs(ld, jobs) {
		for k, n := range r.seen {
			seen[k] += n
		}
		if os.Getenv("XW_TIMES") != "" {
			fmt.Printf("%6.1f s %s\n", r.wall, r.name)
		}
		for _, f := range r.finds {
			if f.rule == "undecided" {
				undec[f.String()] = true
				continue
			}
			for _, p := range f.props {
				if _, ok := known[p+" "+f.key()]; !ok {
					hit[p]++
					all[strings.Join(f.props, ",")+f.key()] = f
				}
			}
		}
	}
	var ks []string
	for k := range all {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for i, k := range ks {
		if i < 12 {
			fmt.Println("  ", all[k])
		}
	}
	n := 0
	for u := range undec {
		if n++; n < 4 {
			fmt.Println("  ", u)
		}
	}
	if len(all) == 0 && len(undec) == 0 {
		for _, p := range strings.Split(allProps, ",") {
			for _, rule := range mustSee(p) {
				if seen[rule] == 0 {
					fmt.Println("   vacuous:", p, rule)
					hit[p]++
				}
			}
		}
	}
	var ps []string
	for p := range hit {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	fmt.Printf("REPORTED BY: %s (%d findings, %d undecided, %.1f s)\n", strings.Join(ps, " "), len(all), len(undec), time.Since(t0).Seconds())
	return 0
}

package main

import (
	"fmt"
	"os"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	if len(os.Args) >= 2 && !strings.HasPrefix(os.Args[1], "-") {
		repo := os.Getenv("XW_REPO")
		if repo == "" {
			repo = "/repo"
		}
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 2 {
			tier = os.Args[2]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		dir := os.Getenv("XW_DIR")
		if dir == "" {
			dir = "/verif"
		}
		if os.Args[1] == "ALL" {
			os.Exit(checkAll(tier, repo, dir))
		}
		os.Exit(check(os.Args[1], tier, repo, dir))
	}
	repo := os.Getenv("XW_REPO")
	if repo == "" {
		repo = "/repo"
	}
	t0 := time.Now()
	ld, err := load(repo, true)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	fmt.Println("loaded", time.Since(t0))
	e := newEngine(ld)
	if err := e.try(func() { e.initPackages(modPath) }); err != nil {
		fmt.Println("init:", err)
		os.Exit(1)
	}
	fmt.Println("init", time.Since(t0))
	e.debug = os.Getenv("XW_DEBUG") != ""
	fns := []string{"CheckName", "CheckEncoding", "CheckChars", "CheckPubID", "printer.EscapeString", "printer.EscapeAttrString"}
	if f := os.Getenv("XW_FNS"); f != "" {
		fns = strings.Split(f, ",")
	}
	for _, n := range fns {
		f := e.fn(n)
		if i := strings.IndexByte(n, '.'); i >= 0 {
			f = e.method(n[:i], n[i+1:], false)
		}
		st := e.base.clone()
		var args []value
		for _, p := range f.Params {
			args = append(args, e.fresh(st, p.Type(), p.Name(), 0))
		}
		if strings.HasPrefix(n, "printer") {
			args[0] = &structV{f: []value{termV{id: e.id(), what: "bufio"}}}
		}
		for i, a := range args {
			if b, ok := a.(boolV); ok && b.k == 2 {
				args[i] = bconst(true)
			}
		}
		err := e.try(func() {
			rs, os, ok := e.summarised(st, f, args, nil, 0)
			fmt.Println(n, ok, len(rs), len(os))
			for k, s := range e.sums {
				if strings.Contains(k, n[strings.IndexByte(n, '.')+1:]) {
					fmt.Println(k, s)
				}
			}
		})
		if err != nil {
			fmt.Println(n, "undecided", err)
		}
	}
	fmt.Println(time.Since(t0))
	for _, f := range e.finds.list() {
		fmt.Println(f)
	}
}

func init() {
	if os.Getenv("XW_CLOSURE") == "" {
		return
	}
	repo := os.Getenv("XW_REPO")
	if repo == "" {
		repo = "/repo"
	}
	ld, err := load(repo, true)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	if p := os.Getenv("XW_CPU"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	for _, c := range []conf{{true, false}, {true, true}, {false, false}, {false, true}} {
		if k := os.Getenv("XW_CONF"); k != "" && k != c.String() {
			continue
		}
		r, root, err := newRunner(ld, c, false)
		if err != nil {
			fmt.Println("runner", err)
			continue
		}
		pl := plan{max: 600, heavy: os.Getenv("XW_HEAVY") != "", only: os.Getenv("XW_OPS")}
		if os.Getenv("XW_SCRIPTS") != "" {
			pl.scripts = 4
		}
		cl, err := r.analyse(root, pl)
		fmt.Println(c, err, "states", len(cl.order), cl.summary(), "ops", r.e.stats.ops, "paths", r.e.stats.paths, "clean", r.clean, time.Since(t0))
		if os.Getenv("XW_PROF") != "" {
			var ns []string
			for k := range r.opTime {
				ns = append(ns, k)
			}
			sort.Slice(ns, func(i, j int) bool { return r.opTime[ns[i]] > r.opTime[ns[j]] })
			for _, k := range ns {
				fmt.Println("   prof", k, r.opPaths[k], r.opTime[k])
			}
		}
		n := 0
		for _, f := range r.e.finds.list() {
			if n++; n > 25 {
				fmt.Println("...", len(r.e.finds.list()))
				break
			}
			fmt.Println(" ", f)
		}
		if os.Getenv("XW_STATES") != "" {
			for i, w := range cl.order {
				k := w.key
				if len(k) > 1500 {
					k = k[:1500]
				}
				fmt.Println(i, w.desc, k)
			}
		}
	}
	pprof.StopCPUProfile()
	os.Exit(0)
}

package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"slices"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// result is what one part of an analysis found and covered.
type result struct {
	name    string
	finds   []finding
	seen    map[string]int // obligations decided, by rule
	fns     map[string]bool
	ops     map[string]int // API calls analysed
	states  int
	paths   int
	calls   int
	loops   int
	instrs  int
	indexes int
	notes   []string
	samples []string
	wall    float64
}

func newResult() *result {
	return &result{seen: map[string]int{}, fns: map[string]bool{}, ops: map[string]int{}}
}

// collect takes over what an engine has gathered.
func (res *result) collect(e *engine) {
	res.finds = append(res.finds, e.finds.list()...)
	for f := range e.stats.fnsSeen {
		res.fns[e.shortName(f)] = true
	}
	res.states += e.stats.states
	res.paths += e.stats.paths
	res.calls += e.stats.calls
	res.loops += e.stats.loops
	res.seen["C27 loops"] += e.stats.loops
	res.instrs += e.stats.instrs
	res.indexes += len(e.stats.indexes)
}

// fail records that a part could not be analysed.
func (res *result) fail(props, what string) {
	res.finds = append(res.finds, finding{props: uniq(props), rule: "undecided", where: "-", fn: "-", msg: what, ctx: res.name})
}

// job is a part of an analysis.
type job struct {
	name  string
	props string
	run   func(ld *loaded, res *result)
}

var allProps = "C01,C02,C03,C04,C05,C06,C07,C08,C09,C10,C11,C12,C13,C14,C15,C16,C17,C18,C19,C20,C21,C22,C23,C27,C28"

// closureProps are decided by the exploration of the writer's states.
var closureProps = map[string]bool{"C01": true, "C02": true, "C04": true, "C05": true, "C06": true, "C07": true, "C08": true, "C09": true, "C10": true, "C11": true,
	"C12": true, "C13": true, "C14": true, "C15": true, "C16": true, "C17": true, "C20": true, "C21": true, "C27": true, "C28": true}

func closureJob(c conf, p plan, utf8 bool) job {
	name := fmt.Sprintf("API calls, %v, part %d of %d", c, p.shard+1, max(p.of, 1))
	if utf8 {
		name = "documents of a writer made by Open, " + c.String()
	}
	return job{name: name, props: keys(closureProps), run: func(ld *loaded, res *result) {
		r, root, err := newRunner(ld, c, utf8)
		if err != nil {
			res.collect(r.e)
			res.fail(keys(closureProps), err.Error())
			return
		}
		cl, err := r.analyse(root, p)
		if err != nil {
			res.fail(keys(closureProps), err.Error())
		}
		if cl != nil {
			cl.attribute()
		}
		res.collect(r.e)
		for k, n := range r.seen {
			res.seen[k] += n
		}
		for k, n := range r.opPaths {
			res.ops[k] += n
		}
		if cl != nil {
			res.notes = append(res.notes, fmt.Sprintf("%s: %d abstract states (%s)", name, len(cl.order), cl.summary()))
			for i, w := range cl.order {
				if i%29 == 3 {
					res.samples = append(res.samples, "state: "+w.desc+", "+c.String())
				}
			}
		}
	}}
}

func keys(m map[string]bool) string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return strings.Join(out, ",")
}

// jobsFor lists what decides a property.
func jobsFor(prop, tier string) []job {
	var jobs []job
	if closureProps[prop] {
		et, ei := conf{true, false}, conf{true, true}
		ft, fi := conf{false, false}, conf{false, true}
		if tier == "thorough" {
			confs := []conf{ei, et, fi, ft}
			if prop == "C28" {
				confs = []conf{fi, ft}
			}
			for i := 0; i < 4; i++ {
				s, fl := 0, 0
				if i == 0 {
					s = 4
				}
				if i == 1 {
					fl = 4
				}
				for _, c := range confs {
					jobs = append(jobs, closureJob(c, plan{max: 2000, heavy: true, everywhere: true, shard: i, of: 4, scripts: s, fails: fl}, false))
				}
			}
		} else if prop == "C28" {
			for i := 0; i < 3; i++ {
				jobs = append(jobs, closureJob(fi, plan{max: 600, heavy: true, scripts: 3 * b2i(i == 0), shard: i, of: 3}, false), closureJob(ft, plan{max: 600, heavy: true, scripts: 3 * b2i(i == 1), shard: i, of: 3}, false))
			}
			return jobs
		} else {
			jobs = append(jobs,
				closureJob(ei, plan{max: 600, heavy: true, shard: 0, of: 2, fails: 2}, false),
				closureJob(ei, plan{max: 600, heavy: true, shard: 1, of: 2}, false),
				closureJob(et, plan{max: 600, heavy: true, shard: 0, of: 2, scripts: 3}, false),
				closureJob(et, plan{max: 600, heavy: true, shard: 1, of: 2, fails: 2}, false),
				closureJob(fi, plan{max: 600, heavy: true, scripts: 3}, false),
				closureJob(ft, plan{max: 600, heavy: true}, false),
			)
		}
		jobs = append(jobs, closureJob(et, plan{max: 600, only: "StartDoc(Doc)", exact: true}, true))
	}
	jobs = append(jobs, extraJobs(prop, tier)...)
	return jobs
}

// runJobs runs jobs at the same time.
func runJobs(ld *loaded, jobs []job) []*result {
	out := make([]*result, len(jobs))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for i, j := range jobs {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			res := newResult()
			res.name = j.name
			out[i] = res
			t0 := time.Now()
			defer func() {
				res.wall = time.Since(t0).Seconds()
				if x := recover(); x != nil {
					if os.Getenv("XW_DEBUG") != "" {
						fmt.Println(string(debug.Stack()))
					}
					what := fmt.Sprint(x)
					if u, ok := x.(undecided); ok {
						what = u.what
					}
					res.fail(j.props, "the analysis failed: "+what)
				}
			}()
			j.run(ld, res)
		}()
	}
	wg.Wait()
	return out
}

// knowns reads the findings that are recorded and not repaired.
func knowns(dir string) (map[string]string, error) {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.txt"))
	if err != nil {
		return nil, err
	}
	m := map[string]string{}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: property=") {
			continue
		}
		l = strings.TrimPrefix(l, "known: property=")
		p, rest, ok := strings.Cut(l, " key=")
		if !ok {
			return nil, fmt.Errorf("malformed line in known_findings.txt: %s", l)
		}
		k, what, ok := strings.Cut(rest, " :: ")
		if !ok {
			return nil, fmt.Errorf("malformed line in known_findings.txt: %s", l)
		}
		m[p+" "+k] = what
	}
	return m, nil
}

func check(prop, tier, repo, dir string) int {
	t0 := time.Now()
	limit()
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	evdir := filepath.Join(dir, "evidence")
	os.MkdirAll(evdir, 0o755)
	replay := filepath.Join(evdir, prop+".violations.txt")
	os.Remove(replay)
	var results []*result
	var setup *finding
	known, err := knowns(dir)
	if err != nil {
		setup = &finding{props: []string{prop}, rule: "undecided", where: "-", fn: "-", msg: err.Error()}
	}
	jobs := jobsFor(prop, tier)
	if only := os.Getenv("XW_ONLY"); only != "" {
		// for development
		jobs = slices.DeleteFunc(jobs, func(j job) bool { return !strings.Contains(j.name, only) })
	}
	if len(jobs) == 0 {
		fmt.Printf("no analysis decides %s\n", prop)
		return 2
	}
	ld, err := load(repo, true)
	if err != nil {
		setup = &finding{props: []string{prop}, rule: "undecided", where: repo, fn: "-", msg: "the source cannot be analysed: " + err.Error()}
	} else {
		results = runJobs(ld, jobs)
	}
	tot := newResult()
	all := map[string]finding{}
	if setup != nil {
		all[setup.key()] = *setup
	}
	others := 0
	var jobInfo []map[string]any
	for _, r := range results {
		for _, f := range r.finds {
			if f.has(prop) {
				if _, ok := all[f.key()]; !ok {
					all[f.key()] = f
				}
			} else {
				others++
				if os.Getenv("XW_DEBUG") != "" {
					fmt.Println("other:", f)
				}
			}
		}
		for k, n := range r.seen {
			tot.seen[k] += n
		}
		for k := range r.fns {
			tot.fns[k] = true
		}
		for k, n := range r.ops {
			tot.ops[k] += n
		}
		tot.states += r.states
		tot.paths += r.paths
		tot.calls += r.calls
		tot.loops += r.loops
		tot.instrs += r.instrs
		tot.indexes = max(tot.indexes, r.indexes)
		tot.notes = append(tot.notes, r.notes...)
		tot.samples = append(tot.samples, r.samples...)
		jobInfo = append(jobInfo, map[string]any{"part": r.name, "seconds": round(r.wall), "paths": r.paths, "abstract_states": r.states})
	}
	// what the analysis could not follow is reported, but is no violation
	var undec []string
	for k, f := range all {
		if f.rule == "undecided" && setup == nil {
			undec = append(undec, f.String())
			delete(all, k)
		}
	}
	sort.Strings(undec)
	if len(all) == 0 && len(undec) == 0 && setup == nil {
		// the rules have to have been applied to something
		for _, rule := range mustSee(prop) {
			if tot.seen[rule] == 0 {
				f := finding{props: []string{prop}, rule: "vacuous", where: "-", fn: "-", msg: "nothing was found to apply the rule to: " + rule}
				all[f.key()] = f
			}
		}
	}
	var bad, old []finding
	var ks []string
	for k := range all {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if what, ok := known[prop+" "+k]; ok {
			f := all[k]
			old = append(old, f)
			fmt.Printf("KNOWN-FINDING: property=%s %s at %s (%s): %s\n", prop, f.fn, f.where, f.rule, what)
			continue
		}
		bad = append(bad, all[k])
	}
	for i, u := range undec {
		if i < 8 {
			fmt.Printf("UNDECIDED: property=%s %s\n", prop, u)
		}
	}
	var fnl, opl, findl, knownl []string
	for k := range tot.fns {
		fnl = append(fnl, k)
	}
	sort.Strings(fnl)
	for k := range tot.ops {
		opl = append(opl, k)
	}
	sort.Strings(opl)
	for _, f := range bad {
		findl = append(findl, f.String())
	}
	for _, f := range old {
		knownl = append(knownl, f.String())
	}
	rules := map[string]int{}
	for k, n := range tot.seen {
		if len(k) > 4 && k[0] == 'C' && k[3] == ' ' && !strings.HasPrefix(k, prop) {
			continue
		}
		rules[k] = n
	}
	samples := tot.samples
	for i, o := range opl {
		if i%max(len(opl)/12, 1) == 0 {
			samples = append(samples, fmt.Sprintf("API call %s: %d paths", o, tot.ops[o]))
		}
	}
	if len(samples) > 60 {
		samples = samples[:60]
	}
	cov := map[string]any{
		"explanation":                  explain(prop),
		"abstract_states":              tot.states,
		"paths_judged":                 tot.seen["paths"],
		"paths_explored":               tot.paths,
		"functions_analysed":           fnl,
		"function_activations":         tot.calls,
		"loops_summarised":             tot.loops,
		"instructions_evaluated":       tot.instrs,
		"index_sites":                  tot.indexes,
		"api_calls_analysed":           len(opl),
		"obligations_by_rule":          rules,
		"parts":                        jobInfo,
		"notes":                        tot.notes,
		"samples":                      samples,
		"violations":                   findl,
		"known_findings":               knownl,
		"undecided":                    undec,
		"findings_of_other_properties": others,
	}
	ev := map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "other", "coverage": cov, "wall_s": round(time.Since(t0).Seconds())}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evdir, prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
	}
	if setup != nil {
		fmt.Println(setup)
		return 2
	}
	if len(bad) == 0 {
		if len(undec) > 0 {
			fmt.Printf("no violation of %s found, but %d obligations are undecided: the analysis cannot follow this source\n", prop, len(undec))
		}
		fmt.Printf("OK property=%s: %d paths of %d API calls over %d abstract states, %d functions, %.1f s\n", prop, tot.paths, len(opl), tot.states, len(fnl), time.Since(t0).Seconds())
		return 0
	}
	var txt strings.Builder
	for i, f := range bad {
		fmt.Fprintln(&txt, f)
		if i < 8 {
			fmt.Println(" ", f)
		}
	}
	if err := os.WriteFile(replay, []byte(txt.String()), 0o644); err != nil {
		fmt.Println("report:", err)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, replay)
	return 1
}

func round(x float64) float64 { return float64(int(x*100)) / 100 }

var _ = ssa.NaiveForm

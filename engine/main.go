package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

var runDeadline time.Time

type Output struct {
	Dropped []string
	Reports []*Report
	WallMS  int64
}

func main() {
	dir := flag.String("dir", "/repo", "package directory")
	cdir := flag.String("contracts", "/verif/contracts", "contract files")
	prop := flag.String("prop", "", "verify the cone of one property")
	only := flag.String("func", "", "verify these jobs only (comma separated substrings)")
	out := flag.String("json", "", "write the report here")
	par := flag.Int("j", 8, "parallel jobs")
	limit := flag.Duration("limit", 300*time.Second, "time limit per job")
	total := flag.Duration("deadline", time.Hour, "time limit for the run")
	verbose := flag.Bool("v", false, "print every obligation")
	list := flag.Bool("list", false, "list jobs")
	flag.Parse()
	t0 := time.Now()
	runDeadline = t0.Add(*total)
	p, err := LoadProgram(*dir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "engine:", err)
		os.Exit(2)
	}
	p.C, err = LoadContracts(*cdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "engine:", err)
		os.Exit(2)
	}
	jobs := p.jobs()
	if *list {
		for _, j := range jobs {
			fmt.Println(j.name, sortedSet(j.tags))
		}
		return
	}
	res := run(p, jobs, *prop, *only, *par, *limit, *verbose)
	res.WallMS = time.Since(t0).Milliseconds()
	if *out != "" {
		b, _ := json.MarshalIndent(res, "", " ")
		if err := os.WriteFile(*out, b, 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	}
	bad := 0
	for _, r := range res.Reports {
		if r.Status != "proved" {
			bad++
		}
	}
	fmt.Printf("%d jobs, %d not proved, %d ms\n", len(res.Reports), bad, res.WallMS)
}

func run(p *Program, jobs []*job, prop, only string, par int, limit time.Duration, verbose bool) *Output {
	act := &Active{dropped: map[string]bool{}}
	done := map[string]*Report{}
	byKey := map[string][]*job{}
	for _, j := range jobs {
		byKey[j.key] = append(byKey[j.key], j)
	}
	want := map[string]*job{}
	for _, j := range jobs {
		switch {
		case only != "":
			for _, o := range strings.Split(only, ",") {
				if strings.HasSuffix(o, "*") && strings.HasPrefix(j.name, strings.TrimSuffix(o, "*")) || j.name == o {
					want[j.name] = j
				}
			}
		case prop == "" || prop == p.C.SafetyTag || j.tags[prop]:
			want[j.name] = j
		}
	}
	for {
		// the cone: contracts used by the jobs
		if only == "" {
			for again := true; again; {
				again = false
				for _, r := range done {
					if want[r.Job] == nil {
						continue
					}
					for _, k := range append(append([]string{}, r.Called...), r.Trusted...) {
						for _, j := range byKey[k] {
							if want[j.name] == nil {
								want[j.name] = j
								again = true
							}
						}
					}
				}
			}
		}
		var todo []*job
		for n, j := range want {
			if done[n] == nil {
				todo = append(todo, j)
			}
		}
		if len(todo) == 0 {
			// drop internal contracts that do not hold, and redo their users
			drop := map[string]bool{}
			for n, r := range done {
				if want[n] != nil && want[n].internal && r.Status != "proved" && !act.dropped[r.Key] {
					drop[r.Key] = true
				}
				// a use of an internal contract outside its precondition
				if want[n] != nil && r.Status == "failed" {
					for _, o := range r.Obls {
						if o.Failed == 0 || !strings.HasPrefix(o.Name, "pre:") {
							continue
						}
						k := strings.TrimPrefix(o.Name, "pre:")
						if i := strings.IndexByte(k, '#'); i >= 0 {
							k = k[:i]
						}
						if c := p.C.Funcs[k]; c != nil && !c.Surface && !c.Iface && !c.Trusted && !act.dropped[k] {
							drop[k] = true
						}
					}
				}
			}
			if len(drop) == 0 {
				break
			}
			na := &Active{dropped: map[string]bool{}}
			for k := range act.dropped {
				na.dropped[k] = true
			}
			for k := range drop {
				na.dropped[k] = true
			}
			act = na
			for n, r := range done {
				for _, c := range r.Called {
					if drop[c] {
						delete(done, n)
						break
					}
				}
			}
			continue
		}
		sort.Slice(todo, func(i, j int) bool { return todo[i].name < todo[j].name })
		// A job that applies a contract has that contract verified as well; the
		// work is queued when the contract is first applied.
		var mu sync.Mutex
		var wg sync.WaitGroup
		queued := map[string]bool{}
		for n := range done {
			queued[n] = true
		}
		sem := make(chan bool, par)
		var start func(j *job)
		hook := func(key string) {
			if only != "" {
				return
			}
			for _, x := range byKey[key] {
				mu.Lock()
				fresh := !queued[x.name]
				queued[x.name] = true
				mu.Unlock()
				if fresh {
					start(x)
				}
			}
		}
		start = func(j *job) {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- true
				defer func() { <-sem }()
				r := p.runJob(j, act, limit, hook)
				mu.Lock()
				defer mu.Unlock()
				done[j.name] = r
				show(r, verbose)
			}()
		}
		for _, j := range todo {
			mu.Lock()
			queued[j.name] = true
			mu.Unlock()
		}
		for _, j := range todo {
			start(j)
		}
		wg.Wait()
	}
	// a function that fails may do so because an internal contract says too
	// little about a callee: try once more with the callees' bodies
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan bool, par)
	for n, r := range done {
		j := want[n]
		if j == nil || j.internal || r.Status == "proved" || r.Status == "missing" || r.Status == "invalid" {
			continue
		}
		wg.Add(1)
		go func(j *job, r *Report) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			na := &Active{dropped: map[string]bool{}}
			for k := range act.dropped {
				na.dropped[k] = true
			}
			for round := 0; round < 3; round++ {
				more := false
				for _, k := range r.Called {
					if c := p.C.Funcs[k]; c != nil && !c.Surface && !c.Iface && !c.Trusted && !na.dropped[k] {
						na.dropped[k] = true
						more = true
					}
				}
				if !more || time.Now().After(runDeadline) {
					return
				}
				r = p.runJob(j, na, limit, nil)
				if r.Status == "proved" {
					// contracts that only this proof uses must hold as well
					mu.Lock()
					for _, k := range r.Called {
						for _, x := range byKey[k] {
							if done[x.name] == nil || done[x.name].Status != "proved" {
								mu.Unlock()
								return
							}
						}
					}
					done[j.name] = r
					show(r, verbose)
					mu.Unlock()
					return
				}
			}
		}(j, r)
	}
	wg.Wait()
	o := &Output{Dropped: sortedSet(act.dropped)}
	var ns []string
	for n := range want {
		ns = append(ns, n)
	}
	sort.Strings(ns)
	for _, n := range ns {
		o.Reports = append(o.Reports, done[n])
	}
	return o
}

func show(r *Report, verbose bool) {
	fmt.Printf("%-11s %s (%d obligations, %d returns, %d queries, %d unknown, %d ms, solver %d ms) %s\n", r.Status, r.Job, len(r.Obls), r.Returns, r.Queries, r.Unknown, r.WallMS, r.SolverMS, r.Reason)
	for _, o := range r.Obls {
		if o.Failed > 0 || verbose {
			fmt.Printf("    %-7s %s [%d vcs, %d failed] %v\n", o.Status, o.Name, o.VCs, o.Failed, o.Tags)
			if o.Failed > 0 {
				d := o.Detail
				if len(d) > 1500 {
					d = d[:1500]
				}
				fmt.Printf("            %s\n", d)
				if len(o.Model) > 0 {
					var ks []string
					for k := range o.Model {
						ks = append(ks, k)
					}
					sort.Strings(ks)
					for _, k := range ks {
						fmt.Printf("            %s = %s\n", k, o.Model[k])
					}
				}
			}
		}
	}
	if verbose {
		for _, i := range r.Invs {
			fmt.Printf("    inv %s\n", i)
		}
	}
}

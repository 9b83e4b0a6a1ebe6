package main

// govc: contracts of a Go package discharged by SMT solvers.
//
//	govc -repo /repo -contracts DIR -prop C05 -out report.json

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"time"
)

type jsonObl struct {
	Fn, Kind, Name, Pos, Status, Solver string
	Seconds                             float64
	Trace                               []string `json:",omitempty"`
	Goal                                string   `json:",omitempty"`
	Output                              string   `json:",omitempty"`
}

type jsonFn struct {
	Name        string
	Err         string `json:",omitempty"`
	Seconds     float64
	Paths       int
	Feasibility int
	Obligations int
	Discharged  int
	Inlined     []string `json:",omitempty"`
	ByContract  []string `json:",omitempty"`
}

type jsonReport struct {
	Property    string
	Functions   []jsonFn
	Obligations int
	Discharged  int
	ByKind      map[string]int
	BySolver    map[string]int
	SolverTime  float64
	WallTime    float64
	Failed      []jsonObl
	Sample      []jsonObl
	Trust       []string
	Specs       []string
	Error       string `json:",omitempty"`
}

func hasTag(tags []string, p string) bool {
	for _, t := range tags {
		if t == p || p == "" {
			return true
		}
	}
	return false
}

func (c *Contract) wants(p string) bool {
	if c.Inline || c.Trusted != "" {
		return false
	}
	if p == "" {
		return true
	}
	if p == "C01" && len(c.SafetyTags) == 0 {
		return true
	}
	return hasTag(c.allTags(), p)
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dir := flag.String("contracts", "", "directory of the contract files")
	prop := flag.String("prop", "", "property")
	only := flag.String("fn", "", "only this function (substring)")
	out := flag.String("out", "", "report file")
	dump := flag.String("dump", "", "directory for failing queries")
	to := flag.Duration("timeout", 10*time.Second, "solver time per obligation and solver")
	limit := flag.Duration("limit", 200*time.Second, "time for the symbolic execution of one function")
	budget := flag.Duration("budget", 450*time.Second, "time for everything")
	verbose := flag.Bool("v", false, "print every obligation")
	flag.Parse()
	if f := os.Getenv("GOVC_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	t0 := time.Now()
	deadline = t0.Add(*budget)
	rep := &jsonReport{Property: *prop, ByKind: map[string]int{}, BySolver: map[string]int{}}
	write := func() {
		rep.WallTime = time.Since(t0).Seconds()
		b, _ := json.MarshalIndent(rep, "", " ")
		if *out != "" {
			if err := os.WriteFile(*out, append(b, '\n'), 0o644); err != nil {
				fmt.Fprintln(os.Stderr, err)
			}
		}
	}
	specs, err := loadSpecs(*dir)
	var p *Prog
	if err == nil {
		p, err = loadProg(*repo, specs)
	}
	if err != nil {
		rep.Error = err.Error()
		fmt.Println("ERROR", err)
		write()
		os.Exit(2)
	}
	var names []string
	for n, ct := range specs.contracts {
		if ct.wants(*prop) && (*only == "" || strings.Contains(n, *only)) {
			names = append(names, n)
		}
	}
	sort.Strings(names)
	var reps []*FuncReport
	var mu sync.Mutex
	var wg sync.WaitGroup
	sem := make(chan struct{}, 8)
	run := func(f func(fast bool) *FuncReport) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r := f(true)
			r.discharge(*prop, *to)
			if r.e != nil && r.e.fastDrops > 0 && r.failed(*prop) && time.Since(t0) < *budget*2/3 {
				r = f(false)
				r.discharge(*prop, *to)
			}
			mu.Lock()
			reps = append(reps, r)
			mu.Unlock()
		}()
	}
	for _, n := range names {
		n := n
		run(func(fast bool) *FuncReport { return p.verifyFunc(n, *limit, fast) })
	}
	for _, l := range specs.lemmas {
		l := l
		if hasTag(l.Tags, *prop) && (*only == "" || strings.Contains(l.Name, *only)) {
			run(func(bool) *FuncReport { return p.verifyLemma(l, *limit) })
		}
	}
	wg.Wait()
	sort.Slice(reps, func(i, j int) bool { return reps[i].Name < reps[j].Name })
	trust, spc := map[string]bool{}, map[string]bool{}
	for _, r := range reps {
		jf := jsonFn{Name: r.Name, Err: r.Err, Seconds: r.Time.Seconds(), Paths: r.Paths, Feasibility: r.Feas, Inlined: r.Inlined, ByContract: r.Contracts}
		for _, t := range r.Trust {
			trust[t] = true
		}
		for _, t := range r.Specs {
			spc[t] = true
		}
		if r.Err != "" {
			rep.Failed = append(rep.Failed, jsonObl{Fn: r.Name, Kind: "reach", Name: r.Err, Status: "not verified"})
			rep.Obligations++
			jf.Obligations++
		}
		for _, o := range r.Obl {
			if !hasTag(o.Tags, *prop) {
				continue
			}
			jf.Obligations++
			rep.Obligations++
			rep.SolverTime += o.Res.Time.Seconds()
			jo := jsonObl{Fn: o.Fn, Kind: o.Kind, Name: o.Name, Pos: o.Pos, Status: o.Status, Solver: o.Res.Solver, Seconds: o.Res.Time.Seconds()}
			good := o.Status == "simplifier" || o.Status == "houdini" || o.Status == "unsat"
			if good {
				jf.Discharged++
				rep.Discharged++
				rep.ByKind[o.Kind]++
				s := o.Res.Solver
				if o.Status == "houdini" {
					s = "smt (invariant inference)"
				} else if s == "" {
					s = "simplifier"
				}
				rep.BySolver[s]++
				if len(rep.Sample) < 40 {
					rep.Sample = append(rep.Sample, jo)
				}
			} else {
				jo.Goal = o.Goal.String()
				if len(jo.Goal) > 3000 {
					jo.Goal = jo.Goal[:3000] + "..."
				}
				jo.Output = o.Res.Output
				if len(jo.Output) > 2000 {
					jo.Output = jo.Output[:2000]
				}
				for _, h := range o.PC {
					s := h.String()
					if len(s) > 300 {
						s = s[:300] + "..."
					}
					jo.Trace = append(jo.Trace, s)
				}
				rep.Failed = append(rep.Failed, jo)
				if *dump != "" {
					os.MkdirAll(*dump, 0o755)
					os.WriteFile(filepath.Join(*dump, fmt.Sprintf("%d.smt2", len(rep.Failed))), []byte(o.Query), 0o644)
				}
			}
			if *verbose {
				fmt.Printf("  %-10s %-9s %s: %s (%s, %.2fs)\n", o.Status, o.Kind, o.Fn, o.Name, o.Res.Solver, o.Res.Time.Seconds())
			}
		}
		rep.Functions = append(rep.Functions, jf)
		fmt.Printf("%-45s %3d/%3d obligations, %d paths, %.1fs %s\n", r.Name, jf.Discharged, jf.Obligations, r.Paths, r.Time.Seconds(), r.Err)
	}
	rep.Trust, rep.Specs = keysOf(trust), keysOf(spc)
	for _, f := range rep.Failed {
		g := f.Goal
		if len(g) > 400 {
			g = g[:400] + "..."
		}
		fmt.Printf("FAILED %s [%s] %s (%s) %s %s\n", f.Fn, f.Kind, f.Name, f.Pos, f.Status, g)
	}
	if len(names) == 0 {
		rep.Error = "no contract for this property"
	}
	write()
	fmt.Printf("%d/%d obligations discharged, %d functions, %.1fs\n", rep.Discharged, rep.Obligations, len(reps), time.Since(t0).Seconds())
	if len(rep.Failed) > 0 || rep.Error != "" {
		os.Exit(1)
	}
}

// discharge solves the obligations of a function that belong to prop.
func (r *FuncReport) discharge(prop string, to time.Duration) {
	e := r.e
	if e == nil {
		return
	}
	t0 := time.Now()
	var wg sync.WaitGroup
	failures := 0
	var mu sync.Mutex
	for _, o := range r.Obl {
		if o.Status != "" || !hasTag(o.Tags, prop) {
			continue
		}
		mu.Lock()
		f := failures
		mu.Unlock()
		if f >= 6 {
			o.Status = "not tried"
			continue
		}
		g := e.simplest(o.PC, o.Goal)
		if g.isTrue() {
			o.Status = "simplifier"
			continue
		}
		if os.Getenv("GOVC_GOAL") != "" {
			fmt.Println("PC", o.PC)
			fmt.Println("REDUCED", g)
			if len(g.Args) == 2 {
				firstDiff(g.Args[0], g.Args[1], 0)
			}
		}
		text := func() (s string) {
			defer func() {
				if x := recover(); x != nil {
					if debug {
						panic(x)
					}
					s = ""
					o.Res.Output = fmt.Sprint(x)
				}
			}()
			return e.queryFor(o.PC, g, recDepth)
		}()
		if text == "" {
			o.Status = "engine"
			continue
		}
		o.Query = text
		// the goal as written, when the simplified one is not proved
		alt := ""
		if g != o.Goal {
			func() {
				defer func() { recover() }()
				alt = e.queryFor(o.PC, o.Goal, recDepth)
			}()
		}
		o := o
		wg.Add(1)
		go func() {
			defer wg.Done()
			oblSlots <- struct{}{}
			defer func() { <-oblSlots }()
			mu.Lock()
			f := failures
			mu.Unlock()
			if f >= 3 || time.Now().After(deadline) {
				o.Status = "not tried"
				return
			}
			if alt != "" {
				o.Res = solve(text, 2*time.Second)
				if o.Res.Status != "unsat" {
					r := solve(alt, to)
					r.Time += o.Res.Time
					o.Res = r
				}
			}
			if o.Res.Status != "unsat" {
				t := o.Res.Time
				o.Res = solve(text, to)
				o.Res.Time += t
			}
			o.Status = o.Res.Status
			if o.Status != "unsat" {
				mu.Lock()
				failures++
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	r.Time += time.Since(t0)
}

// obligations under way at the same time; each may use several solvers
var oblSlots = make(chan struct{}, 8)

// deadline ends the attempts; what is left counts as not discharged
var deadline = time.Now().Add(24 * time.Hour)

func (r *FuncReport) failed(prop string) bool {
	if r.Err != "" {
		return true
	}
	for _, o := range r.Obl {
		if hasTag(o.Tags, prop) && o.Status != "simplifier" && o.Status != "houdini" && o.Status != "unsat" {
			return true
		}
	}
	return false
}

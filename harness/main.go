// The concrete side of the checks: generated inputs run through the real code
// and compared with what the properties say. It looks for a failing input when
// a proof obligation fails, and is the labelled bounded check of the functions
// that are outside the reach of the verifier.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"log"
	"math/rand"
	"os"
	"runtime/debug"
	"strings"
	"time"

	"github.com/lafriks/go-svg"
)

type failure struct {
	Property string `json:"property"`
	Input    string `json:"input"`
	Call     string `json:"call"`
	Detail   string `json:"detail"`
	Case     int    `json:"case"`
	Seed     int64  `json:"seed"`
}

type R struct {
	prop  string
	n     int
	seed  int64
	limit time.Time
	bad   *failure
	count map[string]int
	cur   string
}

type stop struct{}

func (r *R) fail(call, input, f string, a ...interface{}) {
	r.bad = &failure{Property: r.prop, Call: call, Input: input, Detail: fmt.Sprintf(f, a...), Case: r.n, Seed: r.seed}
	panic(stop{})
}

// parse runs Parse; a panic or a run without end is a failure of the current
// property.
func (r *R) parse(doc string, mode svg.ErrorMode) (*svg.Svg, error) {
	type res struct {
		s   *svg.Svg
		err error
		pan string
	}
	r.count["Parse"]++
	ch := make(chan res, 1)
	go func() {
		defer func() {
			if x := recover(); x != nil {
				ch <- res{pan: fmt.Sprintf("%v\n%s", x, debug.Stack())}
			}
		}()
		s, err := svg.Parse(strings.NewReader(doc), mode)
		ch <- res{s: s, err: err}
	}()
	select {
	case x := <-ch:
		if x.pan != "" {
			r.fail(fmt.Sprintf("svg.Parse(input, %d)", mode), doc, "panic: %s", x.pan)
		}
		return x.s, x.err
	case <-time.After(20 * time.Second):
		r.fail(fmt.Sprintf("svg.Parse(input, %d)", mode), doc, "no result after 20 seconds")
	}
	return nil, nil
}

func main() {
	prop := flag.String("prop", "", "property")
	n := flag.Int("n", 2000, "cases")
	budget := flag.Duration("budget", 60*time.Second, "time")
	first := flag.Int("case", 0, "first case")
	out := flag.String("out", "", "report")
	flag.Parse()
	log.SetOutput(io.Discard)
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		fmt.Sscan(s, &seed)
	}
	f, ok := props[*prop]
	if !ok {
		fmt.Println("no such property")
		os.Exit(2)
	}
	for _, w := range strings.Fields(os.Getenv("VERIF_DICT")) {
		var v float64
		if _, err := fmt.Sscan(w, &v); err == nil {
			dict = append(dict, v)
		}
	}
	debug.SetMaxStack(1 << 28)
	r := &R{prop: *prop, seed: seed, limit: time.Now().Add(*budget), count: map[string]int{}}
	var samples []string
	t0 := time.Now()
	func() {
		defer func() {
			if x := recover(); x != nil {
				if _, ok := x.(stop); ok {
					return
				}
				r.bad = &failure{Property: r.prop, Input: r.cur, Call: "see detail", Detail: fmt.Sprintf("panic: %v\n%s", x, debug.Stack()), Case: r.n, Seed: seed}
			}
		}()
		for r.n = *first; r.n < *first+*n && time.Now().Before(r.limit); r.n++ {
			g := &G{Rand: rand.New(rand.NewSource(seed*1000003 + int64(r.n)))}
			g.big = g.p(.05)
			r.cur = ""
			f(r, g)
			if len(samples) < 2 && r.n%97 == 3 {
				samples = append(samples, r.cur)
			}
		}
	}()
	rep := map[string]interface{}{"property": *prop, "cases": r.n - *first, "samples": samples, "calls": r.count, "seconds": time.Since(t0).Seconds(), "seed": seed}
	if r.bad != nil {
		rep["failure"] = r.bad
	}
	b, _ := json.MarshalIndent(rep, "", " ")
	if *out != "" {
		os.WriteFile(*out, append(b, '\n'), 0o644)
	} else {
		fmt.Println(string(b))
	}
	if r.bad != nil {
		os.Exit(1)
	}
}

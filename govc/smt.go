package main

// SMT-LIB output and solver processes.

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"sort"
	"strings"
	"time"
)

func smtSort(s Sort) string {
	str := string(s)
	if strings.HasPrefix(str, "(Array") {
		// (Array K V)
		inner := strings.TrimSuffix(strings.TrimPrefix(str, "(Array "), ")")
		i := strings.Index(inner, " ")
		return "(Array " + smtSort(Sort(inner[:i])) + " " + smtSort(Sort(inner[i+1:])) + ")"
	}
	if s == SBool || s == SInt || s == SReal {
		return str
	}
	return "|" + str + "|"
}

func smtName(s string) string { return "|" + s + "|" }

// Query builds the SMT-LIB text of one satisfiability query.
type Query struct {
	c      *Ctx
	assert []*Term
}

var builtinOps = map[string]string{
	"and": "and", "or": "or", "not": "not", "ite": "ite", "=": "=", "<": "<", "<=": "<=",
	"+": "+", "*": "*", "to_real": "to_real", "div": "div", "mod": "mod", "select": "select", "store": "store",
}

func (q *Query) Text(model bool) string {
	c := q.c
	var sorts = map[Sort]bool{}
	funs := map[string]string{} // name -> declaration
	refs := map[*Term]int{}
	var order []*Term
	lits := map[string]*Term{}
	boxesUsed := false
	seqOps := map[Sort]map[string]bool{}
	var noteSort func(s Sort)
	noteSort = func(s Sort) {
		if sorts[s] {
			return
		}
		sorts[s] = true
		if isSeq(s) {
			noteSort(elemSort(s))
			return
		}
		if strings.HasPrefix(string(s), "(Array ") {
			inner := strings.TrimSuffix(strings.TrimPrefix(string(s), "(Array "), ")")
			i := strings.Index(inner, " ")
			noteSort(Sort(inner[:i]))
			noteSort(Sort(inner[i+1:]))
			return
		}
		if s == SAny {
			boxesUsed = true
			for _, b := range c.ts.sortedBoxes() {
				if b.payload != "" {
					noteSort(b.payload)
				}
			}
		}
		if d, ok := c.ts.dts[s]; ok {
			for _, f := range d.fields {
				noteSort(f)
			}
		}
	}
	declare := func(name string, res Sort, args []*Term) {
		if _, ok := funs[name]; ok {
			return
		}
		var as []string
		for _, a := range args {
			as = append(as, smtSort(a.Sort))
		}
		funs[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", smtName(name), strings.Join(as, " "), smtSort(res))
	}
	noteSeq := func(s Sort, op string) {
		if seqOps[s] == nil {
			seqOps[s] = map[string]bool{}
		}
		seqOps[s][op] = true
	}
	var visit func(t *Term)
	visit = func(t *Term) {
		refs[t]++
		if refs[t] > 1 {
			return
		}
		noteSort(t.Sort)
		switch t.Op {
		case "comp":
			noteSeq(t.Sort, "comp")
			funs[binderName(t)] = fmt.Sprintf("(declare-fun %s () %s)", smtName(binderName(t)), smtSort(t.Sort))
			return
		case "fieldsfunc":
			noteSeq(t.Sort, "comp")
			visit(t.Args[0])
			order = append(order, t)
			funs[binderName(t)] = fmt.Sprintf("(declare-fun %s (%s) %s)", smtName(binderName(t)), smtSort(t.Args[0].Sort), smtSort(t.Sort))
			return
		}
		for _, a := range t.Args {
			visit(a)
		}
		order = append(order, t)
		switch t.Op {
		case "var":
			declare(t.Str, t.Sort, nil)
			return
		case "lit":
			lits[t.Str] = t
			return
		case "num", "true", "false", "bvar", "forall", "nil_any", "paren", "constarr":
			return
		case "len", "at":
			noteSeq(t.Args[0].Sort, t.Op)
			return
		case "empty", "snoc", "upd", "sub", "cat", "rep":
			noteSeq(t.Sort, t.Op)
			return
		case "inv":
			declare("inv", SReal, t.Args)
			return
		case "trunc":
			declare("trunc", SInt, t.Args)
			return
		}
		if _, ok := builtinOps[t.Op]; ok {
			return
		}
		if strings.HasPrefix(t.Op, "mk_") || strings.HasPrefix(t.Op, "box_") {
			return
		}
		if len(t.Args) == 1 {
			if _, ok := c.ts.selIndex(t.Op, t.Args[0].Sort); ok {
				return
			}
			if strings.HasPrefix(t.Op, "unbox_") || strings.HasPrefix(t.Op, "is_") {
				return
			}
		}
		name := t.Op + sigSuffix(t)
		declare(name, t.Sort, t.Args)
	}
	for _, a := range q.assert {
		visit(a)
	}
	var sb strings.Builder
	if model {
		sb.WriteString("(set-option :produce-models true)\n")
	}
	// sorts
	var us []string
	for s := range sorts {
		if s == SStr || isSeq(s) {
			us = append(us, string(s))
		}
	}
	sort.Strings(us)
	for _, s := range us {
		fmt.Fprintf(&sb, "(declare-sort |%s| 0)\n", s)
	}
	// datatypes
	var ds []string
	for s := range sorts {
		if _, ok := c.ts.dts[s]; ok {
			ds = append(ds, string(s))
		}
	}
	sort.Strings(ds)
	if boxesUsed {
		ds = append(ds, "Any")
	}
	if len(ds) > 0 {
		sb.WriteString("(declare-datatypes (")
		for _, d := range ds {
			fmt.Fprintf(&sb, "(|%s| 0) ", d)
		}
		sb.WriteString(") (\n")
		for _, d := range ds {
			if d == "Any" && boxesUsed {
				sb.WriteString("((nil_any) (|box_other| (|unbox_other| Int))")
				for _, b := range c.ts.sortedBoxes() {
					if b.payload == "" {
						fmt.Fprintf(&sb, " (|box_%s|)", b.tag)
					} else {
						fmt.Fprintf(&sb, " (|box_%s| (|unbox_%s| %s))", b.tag, b.tag, smtSort(b.payload))
					}
				}
				sb.WriteString(")\n")
				continue
			}
			dt := c.ts.dts[Sort(d)]
			fmt.Fprintf(&sb, "((|mk_%s|", d)
			for i := range dt.sels {
				fmt.Fprintf(&sb, " (|%s| %s)", dt.sels[i], smtSort(dt.fields[i]))
			}
			sb.WriteString("))\n")
		}
		sb.WriteString("))\n")
	}
	// literals
	var ls []string
	for l := range lits {
		ls = append(ls, l)
	}
	sort.Strings(ls)
	litName := map[string]string{}
	for i, l := range ls {
		litName[l] = fmt.Sprintf("|lit%d:%s|", i, sanitize(l))
		fmt.Fprintf(&sb, "(declare-const %s |Str|)\n", litName[l])
	}
	if len(ls) > 1 {
		sb.WriteString("(assert (distinct")
		for _, l := range ls {
			sb.WriteString(" " + litName[l])
		}
		sb.WriteString("))\n")
	}
	// functions
	var fs []string
	for f := range funs {
		fs = append(fs, f)
	}
	sort.Strings(fs)
	for _, f := range fs {
		sb.WriteString(funs[f] + "\n")
	}
	// sequences
	var ss []string
	for s := range seqOps {
		ss = append(ss, string(s))
	}
	sort.Strings(ss)
	for _, s := range ss {
		seqAxioms(&sb, Sort(s), seqOps[Sort(s)])
	}
	// shared subterms
	names := map[*Term]string{}
	var pr func(t *Term) string
	pr = func(t *Term) string {
		if n, ok := names[t]; ok {
			return n
		}
		switch t.Op {
		case "num":
			return smtNum(t)
		case "lit":
			return litName[t.Str]
		case "var", "bvar":
			return smtName(t.Str)
		case "true", "false", "nil_any":
			return t.Op
		case "paren":
			return pr(t.Args[0])
		case "comp":
			return smtName(binderName(t))
		case "fieldsfunc":
			return "(" + smtName(binderName(t)) + " " + pr(t.Args[0]) + ")"
		case "constarr":
			return "((as const " + smtSort(t.Sort) + ") " + pr(t.Args[0]) + ")"
		case "forall":
			return fmt.Sprintf("(forall ((%s %s)) %s)", smtName(t.Args[0].Str), smtSort(t.Args[0].Sort), pr(t.Args[1]))
		}
		var as []string
		for _, a := range t.Args {
			as = append(as, pr(a))
		}
		op := ""
		if b, ok := builtinOps[t.Op]; ok {
			op = b
		} else if strings.HasPrefix(t.Op, "is_") && len(t.Args) == 1 && t.Args[0].Sort == SAny {
			op = "(_ is |box_" + strings.TrimPrefix(t.Op, "is_") + "|)"
		} else {
			switch t.Op {
			case "empty", "snoc", "upd", "sub", "cat", "rep":
				op = smtName(t.Op + "_" + string(t.Sort))
			case "len", "at":
				op = smtName(t.Op + "_" + string(t.Args[0].Sort))
			case "inv", "trunc":
				op = smtName(t.Op)
			default:
				if strings.HasPrefix(t.Op, "mk_") || strings.HasPrefix(t.Op, "box_") || strings.HasPrefix(t.Op, "unbox_") {
					op = smtName(t.Op)
				} else if _, ok := c.ts.selIndex(t.Op, argSort(t)); ok && len(t.Args) == 1 {
					op = smtName(t.Op)
				} else {
					op = smtName(t.Op + sigSuffix(t))
				}
			}
		}
		if len(as) == 0 {
			return op
		}
		return "(" + op + " " + strings.Join(as, " ") + ")"
	}
	for _, t := range order {
		if refs[t] > 1 && len(t.Args) > 0 && !t.bound {
			s := pr(t)
			n := fmt.Sprintf("t%d", t.id)
			fmt.Fprintf(&sb, "(define-fun %s () %s %s)\n", n, smtSort(t.Sort), s)
			names[t] = n
		}
	}
	for _, a := range q.assert {
		fmt.Fprintf(&sb, "(assert %s)\n", pr(a))
	}
	sb.WriteString("(check-sat)\n")
	if model {
		sb.WriteString("(get-model)\n")
	}
	return sb.String()
}

func binderName(t *Term) string {
	if t.Op == "fieldsfunc" {
		return fmt.Sprintf("fieldsfunc!%d", t.Args[1].id)
	}
	return fmt.Sprintf("%s!%d", t.Op, t.id)
}

func argSort(t *Term) Sort {
	if len(t.Args) == 0 {
		return ""
	}
	return t.Args[0].Sort
}

// sigSuffix makes overloaded uninterpreted functions distinct.
func sigSuffix(t *Term) string {
	var sb strings.Builder
	for _, a := range t.Args {
		sb.WriteByte('/')
		sb.WriteString(mangle(a.Sort))
	}
	sb.WriteByte('>')
	sb.WriteString(mangle(t.Sort))
	return sb.String()
}

func smtNum(t *Term) string {
	r := t.Num
	neg := r.Sign() < 0
	n := r.Num().String()
	if neg {
		n = n[1:]
	}
	s := n
	if t.Sort == SReal {
		s = n + ".0"
		if !r.IsInt() {
			s = "(/ " + n + ".0 " + r.Denom().String() + ".0)"
		}
	}
	if neg {
		s = "(- " + s + ")"
	}
	return s
}

func seqAxioms(sb *strings.Builder, s Sort, ops map[string]bool) {
	S := smtSort(s)
	E := smtSort(elemSort(s))
	n := func(op string) string { return smtName(op + "_" + string(s)) }
	fmt.Fprintf(sb, "(declare-fun %s (%s) Int)\n", n("len"), S)
	fmt.Fprintf(sb, "(declare-fun %s (%s Int) %s)\n", n("at"), S, E)
	fmt.Fprintf(sb, "(assert (forall ((s %s)) (! (>= (%s s) 0) :pattern ((%s s)))))\n", S, n("len"), n("len"))
	fmt.Fprintf(sb, "(declare-fun %s () %s)\n", n("empty"), S)
	fmt.Fprintf(sb, "(assert (= (%s %s) 0))\n", n("len"), n("empty"))
	fmt.Fprintf(sb, "(assert (forall ((s %s)) (! (=> (= (%s s) 0) (= s %s)) :pattern ((%s s)))))\n", S, n("len"), n("empty"), n("len"))
	if ops["snoc"] {
		fmt.Fprintf(sb, "(declare-fun %s (%s %s) %s)\n", n("snoc"), S, E, S)
		fmt.Fprintf(sb, "(assert (forall ((s %s) (x %s)) (! (= (%s (%s s x)) (+ 1 (%s s))) :pattern ((%s s x)))))\n", S, E, n("len"), n("snoc"), n("len"), n("snoc"))
		fmt.Fprintf(sb, "(assert (forall ((s %s) (x %s) (i Int)) (! (= (%s (%s s x) i) (ite (= i (%s s)) x (%s s i))) :pattern ((%s (%s s x) i)))))\n", S, E, n("at"), n("snoc"), n("len"), n("at"), n("at"), n("snoc"))
		fmt.Fprintf(sb, "(assert (forall ((s %s) (x %s)) (! (= (%s (%s s x) (%s s)) x) :pattern ((%s s x)))))\n", S, E, n("at"), n("snoc"), n("len"), n("snoc"))
	}
	if ops["upd"] {
		fmt.Fprintf(sb, "(declare-fun %s (%s Int %s) %s)\n", n("upd"), S, E, S)
		fmt.Fprintf(sb, "(assert (forall ((s %s) (j Int) (x %s)) (! (= (%s (%s s j x)) (%s s)) :pattern ((%s s j x)))))\n", S, E, n("len"), n("upd"), n("len"), n("upd"))
		fmt.Fprintf(sb, "(assert (forall ((s %s) (j Int) (x %s) (i Int)) (! (= (%s (%s s j x) i) (ite (= i j) x (%s s i))) :pattern ((%s (%s s j x) i)))))\n", S, E, n("at"), n("upd"), n("at"), n("at"), n("upd"))
	}
	if ops["sub"] {
		fmt.Fprintf(sb, "(declare-fun %s (%s Int Int) %s)\n", n("sub"), S, S)
		fmt.Fprintf(sb, "(assert (forall ((s %s) (a Int) (b Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (%s s))) (= (%s (%s s a b)) (- b a))) :pattern ((%s s a b)))))\n", S, n("len"), n("len"), n("sub"), n("sub"))
		fmt.Fprintf(sb, "(assert (forall ((s %s) (a Int) (b Int) (i Int)) (! (=> (and (<= 0 a) (<= a b) (<= b (%s s)) (<= 0 i) (< i (- b a))) (= (%s (%s s a b) i) (%s s (+ a i)))) :pattern ((%s (%s s a b) i)))))\n", S, n("len"), n("at"), n("sub"), n("at"), n("at"), n("sub"))
		fmt.Fprintf(sb, "(assert (forall ((s %s)) (! (= (%s s 0 (%s s)) s) :pattern ((%s s 0 (%s s))))))\n", S, n("sub"), n("len"), n("sub"), n("len"))
	}
	if ops["cat"] {
		fmt.Fprintf(sb, "(declare-fun %s (%s %s) %s)\n", n("cat"), S, S, S)
		fmt.Fprintf(sb, "(assert (forall ((s %s) (t %s)) (! (= (%s (%s s t)) (+ (%s s) (%s t))) :pattern ((%s s t)))))\n", S, S, n("len"), n("cat"), n("len"), n("len"), n("cat"))
		fmt.Fprintf(sb, "(assert (forall ((s %s) (t %s) (i Int)) (! (= (%s (%s s t) i) (ite (< i (%s s)) (%s s i) (%s t (- i (%s s))))) :pattern ((%s (%s s t) i)))))\n", S, S, n("at"), n("cat"), n("len"), n("at"), n("at"), n("len"), n("at"), n("cat"))
		fmt.Fprintf(sb, "(assert (forall ((s %s) (t %s)) (! (=> (= (%s t) 0) (= (%s s t) s)) :pattern ((%s s t)))))\n", S, S, n("len"), n("cat"), n("cat"))
		fmt.Fprintf(sb, "(assert (forall ((s %s) (t %s)) (! (=> (= (%s s) 0) (= (%s s t) t)) :pattern ((%s s t)))))\n", S, S, n("len"), n("cat"), n("cat"))
	}
	if ops["rep"] {
		fmt.Fprintf(sb, "(declare-fun %s (Int %s) %s)\n", n("rep"), E, S)
		fmt.Fprintf(sb, "(assert (forall ((k Int) (x %s)) (! (=> (>= k 0) (= (%s (%s k x)) k)) :pattern ((%s k x)))))\n", E, n("len"), n("rep"), n("rep"))
		fmt.Fprintf(sb, "(assert (forall ((k Int) (x %s) (i Int)) (! (=> (and (<= 0 i) (< i k)) (= (%s (%s k x) i) x)) :pattern ((%s (%s k x) i)))))\n", E, n("at"), n("rep"), n("at"), n("rep"))
	}
}

// ---- solvers ----

type solverSpec struct {
	name string
	args []string
}

var solvers = []solverSpec{
	{"z3-new", []string{"z3-new", "-in"}},
	{"cvc5", []string{"cvc5", "--lang=smt2", "-"}},
	{"z3", []string{"z3", "-in"}},
}

var solverSlots = make(chan struct{}, 8)

type SolveResult struct {
	Status string // unsat, sat, unknown
	Solver string
	Time   time.Duration
	Output string
}

func runSolver(sp solverSpec, text string, timeout time.Duration) SolveResult {
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), timeout+500*time.Millisecond)
	defer cancel()
	args := append([]string{}, sp.args[1:]...)
	switch sp.name {
	case "z3", "z3-new":
		args = append(args, fmt.Sprintf("-t:%d", timeout.Milliseconds()))
	case "cvc5":
		args = append([]string{fmt.Sprintf("--tlimit=%d", timeout.Milliseconds())}, args...)
		text = "(set-logic ALL)\n" + text
	}
	cmd := exec.CommandContext(ctx, sp.args[0], args...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	_ = cmd.Run()
	o := out.String()
	res := "unknown"
	for _, l := range strings.Split(o, "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			res = "error"
			break
		}
	}
	return SolveResult{res, sp.name, time.Since(t0), o}
}

// solve tries the solvers in turn.
func solve(text string, timeout time.Duration) SolveResult {
	solverSlots <- struct{}{}
	defer func() { <-solverSlots }()
	var total time.Duration
	var last SolveResult
	for i, sp := range solvers {
		to := timeout
		if i == 0 {
			to = timeout / 2
		}
		r := runSolver(sp, text, to)
		total += r.Time
		r.Time = total
		if r.Status == "unsat" {
			return r
		}
		if r.Status == "sat" {
			return r
		}
		last = r
	}
	return last
}

func quickCheck(text string) string {
	solverSlots <- struct{}{}
	defer func() { <-solverSlots }()
	r := runSolver(solvers[0], text, 400*time.Millisecond)
	return r.Status
}

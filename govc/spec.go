package main

// The specification language: contract files and the evaluation of their
// expressions (Go syntax) over symbolic states.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

type Clause struct {
	Local bool
	Tags  []string
	Label string
	Expr  ast.Expr
	Src   string
	Line  string
}

type Contract struct {
	Name       string
	Params     []string
	Results    []string
	Requires   []*Clause
	Assumes    []*Clause
	Ensures    []*Clause
	Modifies   []ast.Expr
	Invs       []*Clause
	Decreases  []*Clause
	Inline     bool
	Appends    map[string]bool
	SafetyTags []string
	Trusted    string
	NewResult  bool // the pointers returned are to new objects
	Opaque     bool
	NoOld      bool
	Where      string
	extraTags  []string
	Reveal     []string
	Unroll     int
}

func (c *Contract) allTags() []string {
	m := map[string]bool{}
	for _, cl := range c.Ensures {
		for _, t := range cl.Tags {
			m[t] = true
		}
	}
	for _, t := range c.SafetyTags {
		m[t] = true
	}
	for _, t := range c.extraTags {
		m[t] = true
	}
	var out []string
	for t := range m {
		out = append(out, t)
	}
	sort.Strings(out)
	return out
}

type SpecFn struct {
	Name   string
	Params []string
	PTypes []ast.Expr
	RType  ast.Expr
	Body   ast.Expr
	Rec    bool
	Def    bool // not unfolded unless the contract reveals it
	Where  string
}

type Lemma struct {
	Name     string
	Tags     []string
	Params   []string
	PTypes   []ast.Expr
	Induct   string // name of the induction parameter, "" for a direct proof
	Requires []*Clause
	Ensures  []*Clause
	Hints    []ast.Expr
	Reveal   []string
	Where    string
}

type Specs struct {
	contracts  map[string]*Contract
	fns        map[string]*SpecFn
	lemmas     []*Lemma
	ghostT     map[string]types.Type
	ghosts     map[string]ast.Expr
	typeDecls  []*ast.TypeSpec
	owned      map[string]bool
	moved      map[string]bool // types whose values are moved, never shared
	appendOnly map[string]bool
	errs       []string
}

func newSpecs() *Specs {
	return &Specs{contracts: map[string]*Contract{}, fns: map[string]*SpecFn{}, ghostT: map[string]types.Type{}, ghosts: map[string]ast.Expr{}, owned: map[string]bool{}, moved: map[string]bool{}, appendOnly: map[string]bool{}}
}

var keywords = map[string]bool{"spec": true, "rec": true, "type": true, "func": true, "requires": true, "assume": true, "modifies": true, "ensures": true, "invariant": true, "decreases": true, "inline": true, "appends": true, "safety": true, "ghost": true, "owned": true, "moved": true, "appendonly": true, "lemma": true, "induction": true, "trusted": true, "newresult": true, "opaque": true, "tags": true, "hint": true, "shows": true, "def": true, "reveal": true, "unroll": true}

func loadSpecs(dir string) (*Specs, error) {
	sp := newSpecs()
	files, err := filepath.Glob(filepath.Join(dir, "*.spec"))
	if err != nil {
		return nil, err
	}
	sort.Strings(files)
	for _, f := range files {
		if err := sp.parseFile(f); err != nil {
			return nil, err
		}
	}
	return sp, nil
}

func (sp *Specs) parseFile(file string) error {
	data, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	base := filepath.Base(file)
	// logical lines
	type ll struct {
		text string
		n    int
	}
	var ls []ll
	for i, l := range strings.Split(string(data), "\n") {
		if j := strings.Index(l, "//"); j >= 0 {
			l = l[:j]
		}
		t := strings.TrimSpace(l)
		if t == "" {
			continue
		}
		w := t
		if j := strings.IndexAny(t, " \t("); j >= 0 {
			w = t[:j]
		}
		if keywords[w] && (len(t) == len(w) || t[len(w)] == ' ' || t[len(w)] == '\t') {
			ls = append(ls, ll{t, i + 1})
		} else {
			if len(ls) == 0 {
				return fmt.Errorf("%s:%d: text before the first clause", base, i+1)
			}
			ls[len(ls)-1].text += " " + t
		}
	}
	var cur *Contract
	var lem *Lemma
	for _, l := range ls {
		where := fmt.Sprintf("%s:%d", base, l.n)
		fail := func(err error) error { return fmt.Errorf("%s: %v: %s", where, err, l.text) }
		w, rest := l.text, ""
		if j := strings.IndexAny(l.text, " \t"); j >= 0 {
			w, rest = l.text[:j], strings.TrimSpace(l.text[j:])
		}
		switch w {
		case "spec", "rec", "def":
			i := strings.Index(rest, " = ")
			if i < 0 {
				return fail(fmt.Errorf("no body"))
			}
			fn, err := parseSig(rest[:i])
			if err != nil {
				return fail(err)
			}
			body, err := parser.ParseExpr(rest[i+3:])
			if err != nil {
				return fail(err)
			}
			fn.Body, fn.Rec, fn.Def, fn.Where = body, w == "rec", w == "def", where
			if sp.fns[fn.Name] != nil {
				return fail(fmt.Errorf("%s is already declared", fn.Name))
			}
			sp.fns[fn.Name] = fn
		case "type":
			f, err := parser.ParseFile(token.NewFileSet(), "", "package p\ntype "+strings.ReplaceAll(rest, ";", "\n"), 0)
			if err != nil {
				return fail(err)
			}
			sp.typeDecls = append(sp.typeDecls, f.Decls[0].(*ast.GenDecl).Specs[0].(*ast.TypeSpec))
		case "ghost":
			p := strings.SplitN(rest, " ", 2)
			t, err := parser.ParseExpr(p[1])
			if err != nil {
				return fail(err)
			}
			sp.ghosts[p[0]] = t
		case "owned":
			for _, f := range strings.Fields(rest) {
				sp.owned[f] = true
			}
		case "moved":
			for _, f := range strings.Fields(rest) {
				sp.moved[f] = true
			}
		case "appendonly":
			for _, f := range strings.Fields(rest) {
				sp.appendOnly[f] = true
			}
		case "func":
			// func NAME(params) (results)
			lem = nil
			name, ps, rs, err := parseFuncHead(rest)
			if err != nil {
				return fail(err)
			}
			cur = &Contract{Name: name, Params: ps, Results: rs, Appends: map[string]bool{}, Where: where}
			if sp.contracts[name] != nil {
				return fail(fmt.Errorf("second contract"))
			}
			sp.contracts[name] = cur
		case "lemma":
			cur = nil
			var tags []string
			rest, tags, _ = cutTags(rest)
			fn, err := parseSig(rest + " bool")
			if err != nil {
				return fail(err)
			}
			lem = &Lemma{Name: fn.Name, Tags: tags, Params: fn.Params, PTypes: fn.PTypes, Where: where}
			sp.lemmas = append(sp.lemmas, lem)
		case "induction":
			lem.Induct = rest
		case "hint":
			x, err := parser.ParseExpr(rest)
			if err != nil {
				return fail(err)
			}
			lem.Hints = append(lem.Hints, x)
		case "reveal":
			if cur != nil {
				cur.Reveal = append(cur.Reveal, strings.Fields(rest)...)
			} else {
				lem.Reveal = append(lem.Reveal, strings.Fields(rest)...)
			}
		case "unroll":
			n, err := strconv.Atoi(strings.TrimSpace(rest))
			if err != nil {
				return fail(err)
			}
			cur.Unroll = n
		case "inline":
			cur.Inline = true
		case "opaque":
			cur.Opaque = true
		case "trusted":
			cur.Trusted = rest
		case "newresult":
			cur.NewResult = true
		case "safety":
			cur.SafetyTags = strings.Fields(rest)
		case "tags":
			cur.extraTags = strings.Fields(rest)
		case "appends":
			for _, f := range strings.Fields(rest) {
				cur.Appends[f] = true
			}
		case "modifies":
			for _, p := range splitTop(rest) {
				x, err := parser.ParseExpr(p)
				if err != nil {
					return fail(err)
				}
				cur.Modifies = append(cur.Modifies, x)
			}
		case "requires", "assume", "ensures", "shows", "invariant", "decreases":
			r, tags, label := cutTags(rest)
			x, err := parser.ParseExpr(r)
			if err != nil {
				return fail(err)
			}
			cl := &Clause{Tags: tags, Label: label, Expr: x, Src: r, Line: where}
			if lem != nil {
				if w == "requires" {
					lem.Requires = append(lem.Requires, cl)
				} else {
					lem.Ensures = append(lem.Ensures, cl)
				}
				continue
			}
			if cur == nil {
				return fail(fmt.Errorf("clause outside a contract"))
			}
			switch w {
			case "requires":
				cur.Requires = append(cur.Requires, cl)
			case "assume": // taken at the entry, not checked anywhere
				cur.Assumes = append(cur.Assumes, cl)
			case "ensures":
				cur.Ensures = append(cur.Ensures, cl)
			case "shows": // checked, not told to the callers
				cl.Local = true
				cur.Ensures = append(cur.Ensures, cl)
			case "invariant":
				cur.Invs = append(cur.Invs, cl)
			case "decreases":
				cur.Decreases = append(cur.Decreases, cl)
			}
		}
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d, last := 0, 0
	for i, r := range s {
		switch r {
		case '(', '[', '{':
			d++
		case ')', ']', '}':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[last:]))
}

func cutTags(s string) (rest string, tags []string, label string) {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "[C") {
		return s, nil, ""
	}
	i := strings.Index(s, "]")
	for _, f := range strings.Fields(s[1:i]) {
		if len(f) == 3 && f[0] == 'C' && f[1] >= '0' && f[1] <= '9' && label == "" {
			tags = append(tags, f)
		} else {
			label = strings.TrimSpace(label + " " + f)
		}
	}
	return strings.TrimSpace(s[i+1:]), tags, label
}

func parseSig(s string) (*SpecFn, error) {
	i := strings.Index(s, "(")
	if i < 0 {
		return nil, fmt.Errorf("no parameters")
	}
	x, err := parser.ParseExpr("func" + s[i:])
	if err != nil {
		return nil, err
	}
	ft, ok := x.(*ast.FuncType)
	if !ok {
		return nil, fmt.Errorf("signature")
	}
	fn := &SpecFn{Name: strings.TrimSpace(s[:i])}
	for _, f := range ft.Params.List {
		for _, n := range f.Names {
			fn.Params = append(fn.Params, n.Name)
			fn.PTypes = append(fn.PTypes, f.Type)
		}
	}
	if ft.Results == nil || len(ft.Results.List) != 1 {
		return nil, fmt.Errorf("one result needed")
	}
	fn.RType = ft.Results.List[0].Type
	return fn, nil
}

// parseFuncHead splits "svg.(*T).M(a, b) (r, err)".
func parseFuncHead(s string) (name string, ps, rs []string, err error) {
	names := func(t string) []string {
		var out []string
		for _, f := range strings.Split(t, ",") {
			if f = strings.TrimSpace(f); f != "" {
				out = append(out, f)
			}
		}
		return out
	}
	// the parameter list is the first parenthesis not part of the receiver
	i := 0
	if j := strings.Index(s, "(*"); j >= 0 && j < strings.Index(s, ")") {
		k := strings.Index(s, ")")
		i = k + 1
	}
	j := strings.Index(s[i:], "(")
	if j < 0 {
		return "", nil, nil, fmt.Errorf("no parameter list")
	}
	name = strings.TrimSpace(s[:i+j])
	rest := s[i+j+1:]
	k := strings.Index(rest, ")")
	if k < 0 {
		return "", nil, nil, fmt.Errorf("no parameter list")
	}
	ps = names(rest[:k])
	rest = strings.TrimSpace(rest[k+1:])
	rest = strings.TrimSuffix(strings.TrimPrefix(rest, "("), ")")
	rs = names(rest)
	return
}

// ---- types ----

type specErr struct{ msg string }

func serr(f string, a ...interface{}) { panic(specErr{fmt.Sprintf(f, a...)}) }

func (p *Prog) declareGhostTypes() {
	pkg := types.NewPackage("ghost", "ghost")
	for _, ts := range p.specs.typeDecls {
		tn := types.NewTypeName(token.NoPos, pkg, ts.Name.Name, nil)
		named := types.NewNamed(tn, types.NewStruct(nil, nil), nil)
		p.specs.ghostT[ts.Name.Name] = named
	}
	for _, ts := range p.specs.typeDecls {
		named := p.specs.ghostT[ts.Name.Name].(*types.Named)
		named.SetUnderlying(p.typeOf(ts.Type).Underlying())
	}
}

func (p *Prog) typeOf(x ast.Expr) types.Type {
	switch x := x.(type) {
	case *ast.Ident:
		if t, ok := p.specs.ghostT[x.Name]; ok {
			return t
		}
		if o := types.Universe.Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		if o := p.svgPkg.Scope().Lookup(x.Name); o != nil {
			if tn, ok := o.(*types.TypeName); ok {
				return tn.Type()
			}
		}
		serr("unknown type %s", x.Name)
	case *ast.SelectorExpr:
		pn, ok := x.X.(*ast.Ident)
		if !ok {
			serr("type expression")
		}
		for _, pk := range p.pkgsNamed(pn.Name) {
			if o := pk.Scope().Lookup(x.Sel.Name); o != nil {
				if tn, ok := o.(*types.TypeName); ok {
					return tn.Type()
				}
			}
		}
		serr("unknown type %s.%s", pn.Name, x.Sel.Name)
	case *ast.ArrayType:
		if x.Len == nil {
			return types.NewSlice(p.typeOf(x.Elt))
		}
		bl, ok := x.Len.(*ast.BasicLit)
		if !ok {
			serr("array length")
		}
		n, _ := strconv.ParseInt(bl.Value, 10, 64)
		return types.NewArray(p.typeOf(x.Elt), n)
	case *ast.StarExpr:
		return types.NewPointer(p.typeOf(x.X))
	case *ast.MapType:
		return types.NewMap(p.typeOf(x.Key), p.typeOf(x.Value))
	case *ast.ChanType:
		if x.Dir == ast.RECV {
			return types.NewChan(types.RecvOnly, p.typeOf(x.Value))
		}
		return types.NewChan(types.SendRecv, p.typeOf(x.Value))
	case *ast.InterfaceType:
		return types.NewInterfaceType(nil, nil)
	case *ast.ParenExpr:
		return p.typeOf(x.X)
	case *ast.StructType:
		var fs []*types.Var
		for _, f := range x.Fields.List {
			for _, n := range f.Names {
				fs = append(fs, types.NewField(token.NoPos, nil, n.Name, p.typeOf(f.Type), false))
			}
		}
		return types.NewStruct(fs, nil)
	}
	serr("type expression %T", x)
	return nil
}

// tryType reports whether x denotes a type.
func (p *Prog) tryType(x ast.Expr) (t types.Type) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(specErr); ok {
				t = nil
				return
			}
			panic(r)
		}
	}()
	return p.typeOf(x)
}

// ---- environments ----

type typedVal struct {
	v Val
	t types.Type
}

type specEnv struct {
	e    *Exec
	st   *State
	old  *State
	vars map[string]typedVal
	loop *loopEnv
	init func() *specEnv // the state in which the loop was entered
}

func (env *specEnv) with(name string, v typedVal) *specEnv {
	n := *env
	n.vars = make(map[string]typedVal, len(env.vars)+1)
	for k, x := range env.vars {
		n.vars[k] = x
	}
	n.vars[name] = v
	return &n
}

// rootEnv: the parameters of the function under verification in state st.
func (e *Exec) rootEnv(st *State) *specEnv {
	env := &specEnv{e: e, st: st, old: e.entry, vars: map[string]typedVal{}}
	if e.ct != nil {
		for i, n := range e.ct.Params {
			if i < len(e.params) {
				env.vars[n] = e.specVal(st, e.params[i], e.ptypes[i])
			}
		}
	}
	return env
}

func (e *Exec) frameEnv(ct *Contract, fn interface{ String() string }, args []Val, in, st *State) *specEnv {
	env := &specEnv{e: e, st: st, old: in, vars: map[string]typedVal{}}
	pts := e.p.paramTypes(ct.Name)
	for i, n := range ct.Params {
		if i < len(args) && i < len(pts) {
			env.vars[n] = e.specVal(st, args[i], pts[i])
		}
	}
	return env
}

// isMeta: V_x stands for any variable of the loop, VI_x for one that holds an
// integer, VF_x for a float, VS_x for a string computed before the loop, VP_x
// for a pointer to an object made by the function.
func isMeta(n string) bool {
	return strings.HasPrefix(n, "V_") || strings.HasPrefix(n, "VI_") || strings.HasPrefix(n, "VF_") || strings.HasPrefix(n, "VS_") || strings.HasPrefix(n, "VP_")
}

func metaFits(n string, s Sort) bool {
	return strings.HasPrefix(n, "V_") || strings.HasPrefix(n, "VI_") && s == SInt || strings.HasPrefix(n, "VF_") && s == SReal
}

func metaVars(x ast.Expr) []string {
	m := map[string]bool{}
	var out []string
	ast.Inspect(x, func(n ast.Node) bool {
		if id, ok := n.(*ast.Ident); ok && isMeta(id.Name) && !m[id.Name] {
			m[id.Name] = true
			out = append(out, id.Name)
		}
		return true
	})
	return out
}

var untypedNum = types.Typ[types.UntypedInt]
var untypedNil = types.Typ[types.UntypedNil]
var tBool = types.Typ[types.Bool]
var tInt = types.Typ[types.Int]
var tStr = types.Typ[types.String]
var tReal = types.Typ[types.Float64]

func isUntyped(t types.Type) bool {
	b, ok := t.(*types.Basic)
	return ok && b.Info()&types.IsUntyped != 0
}

func (env *specEnv) bool(x ast.Expr) *Term {
	v := env.eval(x)
	t, ok := v.v.(*Term)
	if !ok || t.Sort != SBool {
		serr("not a boolean: %s", exprStr(x))
	}
	return t
}

func exprStr(x ast.Expr) string { return types.ExprString(x) }

// coerce gives v as a value of type t.
func (env *specEnv) coerce(v typedVal, t types.Type) typedVal {
	e := env.e
	c := e.c
	if v.t == untypedNil || v.t == nil {
		return typedVal{e.zero(t), t}
	}
	if isUntyped(v.t) {
		tm, ok := v.v.(*Term)
		if !ok {
			return typedVal{v.v, t}
		}
		if tm.isNum() {
			if _, isIf := t.Underlying().(*types.Interface); isIf {
				serr("untyped number as interface")
			}
			return typedVal{c.Rat(tm.Num, e.ts.SortOf(t)), t}
		}
		if tm.Sort == SInt && e.ts.SortOf(t) == SReal {
			return typedVal{c.ToReal(tm), t}
		}
		return typedVal{tm, t}
	}
	if _, ok := t.Underlying().(*types.Interface); ok {
		if _, ok := v.t.Underlying().(*types.Interface); !ok {
			return typedVal{e.box(env.st, v.v, v.t), t}
		}
	}
	if p, ok := v.v.(*PtrV); ok && p.Kind == 'o' {
		a, ok := v.t.Underlying().(*types.Pointer)
		b, ok2 := t.Underlying().(*types.Pointer)
		if ok && ok2 && typeName(a.Elem()) != typeName(b.Elem()) {
			serr("a value of type %s for %s", v.t, t)
		}
	}
	return typedVal{v.v, t}
}

func (env *specEnv) num(x ast.Expr) *Term {
	v := env.eval(x)
	t, ok := v.v.(*Term)
	if !ok {
		serr("not a number: %s", exprStr(x))
	}
	return t
}

func (env *specEnv) str(x ast.Expr) *Term {
	t := env.num(x)
	if t.Sort != SStr {
		serr("not a string: %s", exprStr(x))
	}
	return t
}

func (env *specEnv) reify(v typedVal) *Term {
	return env.e.reify(env.st, v.v, v.t, false)
}

func (env *specEnv) eval(x ast.Expr) typedVal {
	e := env.e
	c := e.c
	switch x := x.(type) {
	case *ast.ParenExpr:
		return env.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT, token.CHAR, token.FLOAT:
			cv := constant.MakeFromLiteral(x.Value, x.Kind, 0)
			r, ok := new(big.Rat).SetString(cv.ExactString())
			if !ok {
				serr("number %s", x.Value)
			}
			if x.Kind == token.FLOAT || !r.IsInt() {
				// a float literal denotes the nearest double, as in the code
				f, _ := constant.Float64Val(cv)
				r = new(big.Rat)
				r.SetFloat64(f)
				return typedVal{c.Rat(r, SReal), tReal}
			}
			return typedVal{c.Rat(r, SInt), untypedNum}
		case token.STRING:
			s, _ := strconv.Unquote(x.Value)
			return typedVal{c.Lit(s), tStr}
		}
	case *ast.Ident:
		return env.ident(x)
	case *ast.SelectorExpr:
		return env.selector(x)
	case *ast.StarExpr:
		v := env.eval(x.X)
		pt, ok := v.t.Underlying().(*types.Pointer)
		if !ok {
			serr("* of %s", v.t)
		}
		return typedVal{env.load(v), pt.Elem()}
	case *ast.IndexExpr:
		return env.index(x)
	case *ast.SliceExpr:
		v := env.eval(x.X)
		if sortOfVal(v) == SStr {
			s := v.v.(*Term)
			lo, hi := c.Int(0), e.slen(s)
			if x.Low != nil {
				lo = env.num(x.Low)
			}
			if x.High != nil {
				hi = env.num(x.High)
			}
			return typedVal{e.ssub(s, lo, hi), v.t}
		}
		s := e.sliceSeq(env.st, v.v)
		lo, hi := c.Int(0), c.SeqLen(s)
		if x.Low != nil {
			lo = env.num(x.Low)
		}
		if x.High != nil {
			hi = env.num(x.High)
		}
		return typedVal{c.SeqSub(s, lo, hi), v.t}
	case *ast.CompositeLit:
		return env.composite(x)
	case *ast.UnaryExpr:
		v := env.eval(x.X)
		switch x.Op {
		case token.NOT:
			return typedVal{c.Not(v.v.(*Term)), tBool}
		case token.SUB:
			return typedVal{c.Neg(v.v.(*Term)), v.t}
		case token.ADD:
			return v
		}
	case *ast.BinaryExpr:
		return env.binary(x)
	case *ast.CallExpr:
		return env.call(x)
	}
	serr("expression %T (%s)", x, exprStr(x))
	return typedVal{}
}

func sortOfVal(v typedVal) Sort {
	if t, ok := v.v.(*Term); ok {
		return t.Sort
	}
	return ""
}

func (env *specEnv) load(v typedVal) Val {
	e := env.e
	switch p := v.v.(type) {
	case *PtrV:
		return e.load(env.st, p)
	case *Term:
		pt := v.t.Underlying().(*types.Pointer)
		if !heapTyped(pt.Elem()) {
			serr("load through %s", v.t)
		}
		return e.reflect(e.tcell(env.st, p, pt.Elem()), pt.Elem())
	}
	serr("load through %T", v.v)
	return nil
}

func (env *specEnv) ident(x *ast.Ident) typedVal {
	e := env.e
	c := e.c
	if v, ok := env.vars[x.Name]; ok {
		return v
	}
	switch x.Name {
	case "true":
		return typedVal{c.True(), tBool}
	case "false":
		return typedVal{c.False(), tBool}
	case "nil":
		return typedVal{nil, untypedNil}
	case "K":
		if env.loop != nil {
			return typedVal{env.loop.k, tInt}
		}
	}
	if x.Name == "ALLOC" { // the next reference
		return typedVal{e.allocCtr(env.st), tInt}
	}
	if gt, ok := e.p.specs.ghosts[x.Name]; ok {
		t := e.p.typeOf(gt)
		return typedVal{e.ghostOf(env.st, x.Name), t}
	}
	if f := e.p.specs.fns[x.Name]; f != nil && len(f.Params) == 0 {
		return env.applySpec(f, nil)
	}
	if o := e.p.svgPkg.Scope().Lookup(x.Name); o != nil {
		return env.object(o)
	}
	serr("unknown name %s", x.Name)
	return typedVal{}
}

func (e *Exec) ghostOf(st *State, name string) *Term {
	if t, ok := st.ghost[name]; ok {
		return t
	}
	gt := e.p.typeOf(e.p.specs.ghosts[name])
	t := e.c.Var("ghost0."+name, e.ts.SortOf(gt))
	st.ghost[name] = t
	return t
}

func (env *specEnv) object(o types.Object) typedVal {
	e := env.e
	switch o := o.(type) {
	case *types.Const:
		s := e.ts.SortOf(o.Type())
		if isUntyped(o.Type()) {
			if o.Val().Kind() == constant.Float {
				return typedVal{e.constTerm(o.Val(), SReal, e.c), tReal}
			} else if o.Val().Kind() == constant.Int {
				return typedVal{e.constTerm(o.Val(), SInt, e.c), untypedNum}
			}
		}
		return typedVal{e.constTerm(o.Val(), s, e.c), o.Type()}
	case *types.Var:
		g := e.p.globalOf(o)
		if g == nil {
			serr("global %s", o.Name())
		}
		p := e.globalPtr(g).(*PtrV)
		v, ok := env.st.heap[p.Obj]
		if !ok {
			v = e.globalInit[p.Obj]
		}
		return typedVal{v, o.Type()}
	case *types.Func:
		return typedVal{e.reify(env.st, &FuncV{Fn: e.p.prog.FuncValue(o)}, o.Type(), false), o.Type()}
	}
	serr("object %s", o.Name())
	return typedVal{}
}

func (env *specEnv) selector(x *ast.SelectorExpr) typedVal {
	e := env.e
	if id, ok := x.X.(*ast.Ident); ok {
		if _, bound := env.vars[id.Name]; !bound && e.p.specs.ghosts[id.Name] == nil {
			for _, pk := range e.p.pkgsNamed(id.Name) {
				if o := pk.Scope().Lookup(x.Sel.Name); o != nil {
					return env.object(o)
				}
			}
		}
	}
	v := env.eval(x.X)
	return env.field(v, x.Sel.Name)
}

func (env *specEnv) field(v typedVal, name string) typedVal {
	e := env.e
	if v.t == nil {
		serr("field %s of nothing", name)
	}
	t := v.t
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		t = pt.Elem()
	}
	o, idx, _ := types.LookupFieldOrMethod(t, true, e.p.svgPkg, name)
	if o == nil {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
			o, idx, _ = types.LookupFieldOrMethod(t, true, n.Obj().Pkg(), name)
		}
	}
	if o == nil { // ghost structs have fields without package
		if s, ok := t.Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == name {
					o, idx = s.Field(i), []int{i}
				}
			}
		}
	}
	if _, ok := o.(*types.Var); !ok {
		serr("no field %s in %s", name, v.t)
	}
	for _, i := range idx {
		if pt, ok := v.t.Underlying().(*types.Pointer); ok {
			v = typedVal{env.load(v), pt.Elem()}
		}
		st, ok := v.t.Underlying().(*types.Struct)
		if !ok {
			serr("field %s of %s", name, v.t)
		}
		ft := st.Field(i).Type()
		switch s := v.v.(type) {
		case *StructV:
			v = typedVal{s.F[i], ft}
		case *Term:
			e.ts.SortOf(v.t)
			v = typedVal{e.reflect(e.c.Sel(s, i), ft), ft}
		default:
			serr("field %s of %T", name, v.v)
		}
	}
	return v
}

func (env *specEnv) index(x *ast.IndexExpr) typedVal {
	e := env.e
	c := e.c
	v := env.eval(x.X)
	if v.t == nil {
		serr("index of nothing")
	}
	ut := v.t.Underlying()
	if pt, ok := ut.(*types.Pointer); ok {
		v = typedVal{env.load(v), pt.Elem()}
		ut = v.t.Underlying()
	}
	switch u := ut.(type) {
	case *types.Slice:
		s := e.sliceSeq(env.st, v.v)
		return typedVal{e.reflect(c.SeqAt(s, env.num(x.Index)), u.Elem()), u.Elem()}
	case *types.Array:
		i := env.num(x.Index)
		if t, ok := v.v.(*Term); ok {
			v.v = e.reflect(t, v.t)
		}
		return typedVal{e.getPath(v.v, []pathEl{{idx: i}}), u.Elem()}
	case *types.Map:
		if t, ok := v.v.(*Term); ok { // a map of another package
			k := env.reify(env.coerce(env.eval(x.Index), u.Key()))
			return typedVal{e.reflect(c.App("mapval:"+t.String(), e.ts.SortOf(u.Elem()), k), u.Elem()), u.Elem()}
		}
		m, ok := v.v.(*MapV)
		if !ok {
			serr("index of a map value %T", v.v)
		}
		mo := env.st.heap[m.Obj].(*MapObj)
		k := env.reify(env.coerce(env.eval(x.Index), mo.KT))
		if mo.Conc {
			for _, en := range mo.Ent {
				if en.k == k {
					return typedVal{en.v, mo.VT}
				}
			}
			serr("function table")
		}
		return typedVal{e.reflect(c.Select(mo.Vals, k, e.ts.SortOf(mo.VT)), mo.VT), mo.VT}
	case *types.Chan:
		return typedVal{e.reflect(c.Select(v.v.(*Term), env.reify(env.eval(x.Index)), e.ts.SortOf(u.Elem())), u.Elem()), u.Elem()}
	case *types.Basic:
		return typedVal{e.sbyte(v.v.(*Term), env.num(x.Index)), types.Typ[types.Uint8]}
	}
	serr("index of %s", v.t)
	return typedVal{}
}

func (env *specEnv) composite(x *ast.CompositeLit) typedVal {
	e := env.e
	t := e.p.typeOf(x.Type)
	switch u := t.Underlying().(type) {
	case *types.Struct:
		v := e.zero(t).(*StructV)
		for i, el := range x.Elts {
			if kv, ok := el.(*ast.KeyValueExpr); ok {
				name := kv.Key.(*ast.Ident).Name
				found := false
				for j := 0; j < u.NumFields(); j++ {
					if u.Field(j).Name() == name {
						v.F[j] = env.coerce(env.eval(kv.Value), u.Field(j).Type()).v
						found = true
					}
				}
				if !found {
					serr("no field %s in %s", name, t)
				}
				continue
			}
			if i >= u.NumFields() {
				serr("too many values")
			}
			v.F[i] = env.coerce(env.eval(el), u.Field(i).Type()).v
		}
		return typedVal{v, t}
	case *types.Array:
		v := e.zero(t).(*StructV)
		for i, el := range x.Elts {
			v.F[i] = env.coerce(env.eval(el), u.Elem()).v
		}
		return typedVal{v, t}
	case *types.Slice:
		s := e.c.Empty(e.ts.SortOf(t))
		for _, el := range x.Elts {
			s = e.c.Snoc(s, env.reify(env.coerce(env.eval(el), u.Elem())))
		}
		return typedVal{s, t}
	}
	serr("composite %s", t)
	return typedVal{}
}

// constExpr evaluates an expression of number literals, exactly.
func constExpr(x ast.Expr) (v constant.Value, float bool) {
	switch x := x.(type) {
	case *ast.ParenExpr:
		return constExpr(x.X)
	case *ast.BasicLit:
		if x.Kind == token.INT || x.Kind == token.FLOAT {
			return constant.MakeFromLiteral(x.Value, x.Kind, 0), x.Kind == token.FLOAT
		}
	case *ast.UnaryExpr:
		if v, f := constExpr(x.X); v != nil && x.Op == token.SUB {
			return constant.UnaryOp(x.Op, v, 0), f
		}
	case *ast.BinaryExpr:
		switch x.Op {
		case token.ADD, token.SUB, token.MUL, token.QUO:
			a, f := constExpr(x.X)
			b, g := constExpr(x.Y)
			if a != nil && b != nil && (f || g || x.Op != token.QUO) {
				return constant.BinaryOp(constant.ToFloat(a), x.Op, constant.ToFloat(b)), f || g
			}
		}
	}
	return nil, false
}

func (env *specEnv) binary(x *ast.BinaryExpr) typedVal {
	e := env.e
	c := e.c
	if v, float := constExpr(x); v != nil && float {
		// as in Go: exact, then rounded once
		return typedVal{e.constTerm(v, SReal, c), tReal}
	}
	switch x.Op {
	case token.LAND:
		a := env.bool(x.X)
		if a.isFalse() {
			return typedVal{a, tBool}
		}
		return typedVal{c.And(a, env.bool(x.Y)), tBool}
	case token.LOR:
		a := env.bool(x.X)
		if a.isTrue() {
			return typedVal{a, tBool}
		}
		return typedVal{c.Or(a, env.bool(x.Y)), tBool}
	}
	a, b := env.eval(x.X), env.eval(x.Y)
	a, b = env.unify(a, b)
	switch x.Op {
	case token.EQL, token.NEQ:
		if a.t == nil {
			serr("comparison without type")
		}
		var r *Term
		if _, ok := a.t.Underlying().(*types.Slice); ok {
			r = c.Eq(e.sliceSeq(env.st, a.v), e.sliceSeq(env.st, b.v))
		} else {
			r = e.eqVals(env.st, a.v, b.v, a.t)
		}
		if x.Op == token.NEQ {
			r = c.Not(r)
		}
		return typedVal{r, tBool}
	}
	p, ok1 := a.v.(*Term)
	q, ok2 := b.v.(*Term)
	if !ok1 || !ok2 {
		serr("operands of %s", x.Op)
	}
	switch x.Op {
	case token.LSS, token.GTR, token.LEQ, token.GEQ:
		if p.Sort == SStr {
			serr("string order")
		}
		switch x.Op {
		case token.LSS:
			return typedVal{c.Lt(p, q), tBool}
		case token.GTR:
			return typedVal{c.Lt(q, p), tBool}
		case token.LEQ:
			return typedVal{c.Le(p, q), tBool}
		}
		return typedVal{c.Le(q, p), tBool}
	case token.ADD:
		if p.Sort == SStr {
			return typedVal{e.scat(p, q), a.t}
		}
		return typedVal{c.Add(p, q), a.t}
	case token.SUB:
		return typedVal{c.Sub(p, q), a.t}
	case token.MUL:
		return typedVal{c.Mul(p, q), a.t}
	case token.QUO:
		if p.Sort == SReal {
			return typedVal{c.RDiv(p, q), a.t}
		}
		return typedVal{c.IDiv(p, q), a.t}
	case token.REM:
		return typedVal{c.IMod(p, q), a.t}
	case token.SHR:
		if n, ok := q.isInt64(); ok && n < 62 {
			return typedVal{c.EDiv(p, int64(1)<<uint(n)), a.t}
		}
	}
	serr("operator %s", x.Op)
	return typedVal{}
}

func (env *specEnv) unify(a, b typedVal) (typedVal, typedVal) {
	if a.t != nil && !isUntyped(a.t) && (b.t == nil || isUntyped(b.t)) {
		return a, env.coerce(b, a.t)
	}
	if b.t != nil && !isUntyped(b.t) && (a.t == nil || isUntyped(a.t)) {
		return env.coerce(a, b.t), b
	}
	if a.t != nil && b.t != nil && !isUntyped(a.t) {
		_, ai := a.t.Underlying().(*types.Interface)
		_, bi := b.t.Underlying().(*types.Interface)
		if ai && !bi {
			return a, env.coerce(b, a.t)
		}
		if bi && !ai {
			return env.coerce(a, b.t), b
		}
		// mixed int/real
		p, ok1 := a.v.(*Term)
		q, ok2 := b.v.(*Term)
		if ok1 && ok2 && p.Sort != q.Sort {
			serr("operands of sorts %s and %s: %.200s, %.200s", p.Sort, q.Sort, p, q)
		}
	}
	return a, b
}

func (env *specEnv) applySpec(f *SpecFn, args []typedVal) typedVal {
	e := env.e
	if len(args) != len(f.Params) {
		serr("%s takes %d arguments", f.Name, len(f.Params))
	}
	e.specDepth++
	defer func() { e.specDepth-- }()
	if e.specDepth > 60 {
		serr("specification %s too deep", f.Name)
	}
	rt := e.p.typeOf(f.RType)
	vars := map[string]typedVal{}
	for i, n := range f.Params {
		pt := e.p.typeOf(f.PTypes[i])
		vars[n] = env.coerce(args[i], pt)
		if tm, ok := vars[n].v.(*Term); ok && tm.Sort != e.ts.SortOf(pt) {
			serr("argument %s of %s has sort %s", n, f.Name, tm.Sort)
		}
	}
	if f.Rec || f.Def && !e.reveal[f.Name] {
		op := "rec:"
		if f.Def {
			op = "def:"
		}
		var ts []*Term
		for _, n := range f.Params {
			tm := env.reify(vars[n])
			if tm.Sort != e.ts.SortOf(vars[n].t) {
				serr("argument %s of %s has sort %s", n, f.Name, tm.Sort)
			}
			ts = append(ts, tm)
		}
		e.specUsed[f.Name] = true
		app := e.c.App(op+f.Name, e.ts.SortOf(rt), ts...)
		return typedVal{e.reflect(app, rt), rt}
	}
	n := &specEnv{e: e, st: env.st, old: env.old, vars: vars, loop: env.loop, init: env.init}
	r := n.eval(f.Body)
	return env.coerce(r, rt)
}

// unfold gives the body of a recursive specification applied to terms.
func (e *Exec) unfold(app *Term) *Term {
	f := e.p.specs.fns[strings.TrimPrefix(app.Op, "rec:")]
	if f == nil {
		return nil
	}
	st := e.entry
	if st == nil {
		st = newState()
	}
	env := &specEnv{e: e, st: st, old: st, vars: map[string]typedVal{}}
	for i, n := range f.Params {
		t := e.p.typeOf(f.PTypes[i])
		env.vars[n] = typedVal{e.reflect(app.Args[i], t), t}
	}
	rt := e.p.typeOf(f.RType)
	r := env.coerce(env.eval(f.Body), rt)
	return e.reify(st, r.v, rt, false)
}

// simp uses what the path has decided, in invariants.
func (env *specEnv) simp(t *Term) *Term {
	if env.loop == nil || env.st == nil {
		return t
	}
	c := env.e.c
	switch t.Op {
	case "and", "or":
		as := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			as[i] = env.simp(a)
		}
		if t.Op == "and" {
			return c.And(as...)
		}
		return c.Or(as...)
	case "not":
		return c.Not(env.simp(t.Args[0]))
	}
	return env.st.decided(c, t)
}

func (env *specEnv) seqArg(x ast.Expr) (*Term, types.Type) {
	v := env.eval(x)
	if v.t == nil {
		serr("sequence needed")
	}
	if _, ok := v.t.Underlying().(*types.Slice); !ok {
		serr("sequence needed: %s", exprStr(x))
	}
	return env.e.sliceSeq(env.st, v.v), v.t
}

func (env *specEnv) call(x *ast.CallExpr) typedVal {
	e := env.e
	c := e.c
	if id, ok := x.Fun.(*ast.Ident); ok {
		switch id.Name {
		case "imp":
			a := env.simp(env.bool(x.Args[0]))
			if a.isFalse() {
				return typedVal{c.True(), tBool}
			}
			return typedVal{c.Imp(a, env.bool(x.Args[1])), tBool}
		case "iff":
			return typedVal{c.Eq(env.bool(x.Args[0]), env.bool(x.Args[1])), tBool}
		case "ite":
			cond := env.simp(env.bool(x.Args[0]))
			if cond.isTrue() {
				return env.eval(x.Args[1])
			}
			if cond.isFalse() {
				return env.eval(x.Args[2])
			}
			a, b := env.unify(env.eval(x.Args[1]), env.eval(x.Args[2]))
			if isUntyped(a.t) {
				a, b = env.coerce(a, tInt), env.coerce(b, tInt)
			}
			if _, ok := a.t.Underlying().(*types.Slice); ok {
				return typedVal{c.Ite(cond, e.sliceSeq(env.st, a.v), e.sliceSeq(env.st, b.v)), a.t}
			}
			return typedVal{e.reflect(c.Ite(cond, env.reify(a), env.reify(b)), a.t), a.t}
		case "and":
			var ts []*Term
			for _, a := range x.Args {
				ts = append(ts, env.bool(a))
			}
			return typedVal{c.And(ts...), tBool}
		case "forall":
			// forall(i, lo, hi, body)
			v := x.Args[0].(*ast.Ident).Name
			e.nbv++
			bv := c.BVar(fmt.Sprintf("%s!b%d", v, e.nbv), SInt)
			lo, hi := env.num(x.Args[1]), env.num(x.Args[2])
			if l, ok := lo.isInt64(); ok {
				if h, ok := hi.isInt64(); ok && h-l <= 16 {
					var ts []*Term
					for i := l; i < h; i++ {
						ts = append(ts, env.with(v, typedVal{c.Int(i), tInt}).bool(x.Args[3]))
					}
					return typedVal{c.And(ts...), tBool}
				}
			}
			body := env.with(v, typedVal{bv, tInt}).bool(x.Args[3])
			return typedVal{c.Forall(bv, c.Imp(c.And(c.Le(lo, bv), c.Lt(bv, hi)), body)), tBool}
		case "seqof":
			// seqof(i, n, body)
			v := x.Args[0].(*ast.Ident).Name
			bv := c.BVar("seq!i", SInt)
			n := env.num(x.Args[1])
			b := env.with(v, typedVal{bv, tInt}).eval(x.Args[2])
			if isUntyped(b.t) {
				serr("type of seqof")
			}
			bt := env.reify(b)
			ss := seqSort(bt.Sort)
			return typedVal{c.mk("comp", ss, n, bt), types.NewSlice(b.t)}
		case "fields": // fields(s, r, separator): the parts of s between the runes r that are separators
			bv := c.BVar("rune!p", SInt)
			b := env.with(x.Args[1].(*ast.Ident).Name, typedVal{bv, tInt}).bool(x.Args[2])
			return typedVal{c.mk("fieldsfunc", seqSort(SStr), env.str(x.Args[0]), c.canonPred(b)), tStrs}
		case "old":
			if env.old == nil {
				serr("old outside a postcondition")
			}
			n := *env
			n.st = env.old
			v := n.eval(x.Args[0])
			v.v = e.settle(env.old, v.v)
			return v
		case "init":
			if env.init == nil {
				serr("init outside an invariant")
			}
			n := env.init()
			v := n.eval(x.Args[0])
			v.v = e.settle(n.st, v.v)
			return v
		case "let":
			v := env.eval(x.Args[1])
			return env.with(x.Args[0].(*ast.Ident).Name, v).eval(x.Args[2])
		case "len":
			v := env.eval(x.Args[0])
			if v.t == nil {
				serr("len")
			}
			switch u := v.t.Underlying().(type) {
			case *types.Slice:
				return typedVal{e.sliceLen(env.st, v.v), tInt}
			case *types.Array:
				return typedVal{c.Int(u.Len()), tInt}
			case *types.Basic:
				return typedVal{e.slen(v.v.(*Term)), tInt}
			}
			serr("len of %s", v.t)
		case "snoc":
			s, t := env.seqArg(x.Args[0])
			for _, a := range x.Args[1:] {
				v := env.coerce(env.eval(a), t.Underlying().(*types.Slice).Elem())
				s = c.Snoc(s, env.reify(v))
			}
			return typedVal{s, t}
		case "cat":
			s, t := env.seqArg(x.Args[0])
			for _, a := range x.Args[1:] {
				s2, _ := env.seqArg(a)
				s = c.SeqCat(s, s2)
			}
			return typedVal{s, t}
		case "upd":
			s, t := env.seqArg(x.Args[0])
			v := env.coerce(env.eval(x.Args[2]), t.Underlying().(*types.Slice).Elem())
			return typedVal{c.SeqUpd(s, env.num(x.Args[1]), env.reify(v)), t}
		case "last":
			s, t := env.seqArg(x.Args[0])
			et := t.Underlying().(*types.Slice).Elem()
			return typedVal{e.reflect(c.SeqAt(s, c.Sub(c.SeqLen(s), c.Int(1))), et), et}
		case "butlast":
			s, t := env.seqArg(x.Args[0])
			if s.Op == "snoc" {
				return typedVal{s.Args[0], t}
			}
			return typedVal{c.SeqSub(s, c.Int(0), c.Sub(c.SeqLen(s), c.Int(1))), t}
		case "is":
			v := env.eval(x.Args[0])
			t := e.p.typeOf(x.Args[1])
			tag, _ := e.ts.BoxTag(t)
			return typedVal{c.IsBox(v.v.(*Term), tag), tBool}
		case "as":
			v := env.eval(x.Args[0])
			t := e.p.typeOf(x.Args[1])
			tag, ps := e.ts.BoxTag(t)
			if ps == "" {
				return typedVal{e.zero(t), t}
			}
			return typedVal{e.reflect(c.Unbox(v.v.(*Term), tag, ps), t), t}
		case "has":
			// has(map, key)
			v := env.eval(x.Args[0])
			if t, ok := v.v.(*Term); ok { // a map of another package
				return typedVal{c.App("mappres:"+t.String(), SBool, env.reify(env.coerce(env.eval(x.Args[1]), v.t.Underlying().(*types.Map).Key()))), tBool}
			}
			m, ok := v.v.(*MapV)
			if !ok {
				serr("has of %T", v.v)
			}
			mo := env.st.heap[m.Obj].(*MapObj)
			k := env.reify(env.coerce(env.eval(x.Args[1]), mo.KT))
			if mo.Conc {
				var ts []*Term
				for _, en := range mo.Ent {
					ts = append(ts, c.Eq(k, en.k))
				}
				return typedVal{c.Or(ts...), tBool}
			}
			return typedVal{c.Select(mo.Pres, k, SBool), tBool}
		case "mapkeys": // the keys of a map, as a specification map
			return typedVal{env.mapOf(x.Args[0]).Pres, types.NewChan(types.SendRecv, tBool)}
		case "mapvals":
			m := env.mapOf(x.Args[0])
			return typedVal{m.Vals, types.NewChan(types.SendRecv, m.VT)}
		case "cells": // cells(T): the cells of type T
			t := e.p.typeOf(x.Args[0])
			return typedVal{e.theapOf(env.st, t), types.NewChan(types.RecvOnly, t)}
		case "nomap": // nomap(T): the map from strings to T without entries
			t := e.p.typeOf(x.Args[0])
			m := e.emptyMap(types.NewMap(tStr, t))
			return typedVal{m.Vals, types.NewChan(types.SendRecv, t)}
		case "set": // set(m, key, value)
			m := env.eval(x.Args[0])
			el := m.t.Underlying().(*types.Chan).Elem()
			return typedVal{c.Store(m.v.(*Term), env.reify(env.eval(x.Args[1])), env.reify(env.coerce(env.eval(x.Args[2]), el))), m.t}
		case "put": // put(struct, Field.Path, value)
			v := env.eval(x.Args[0])
			if t, ok := v.v.(*Term); ok {
				v.v = e.reflect(t, v.t)
			}
			var names []string
			f := x.Args[1]
			for {
				se, ok := f.(*ast.SelectorExpr)
				if !ok {
					break
				}
				names = append([]string{se.Sel.Name}, names...)
				f = se.X
			}
			names = append([]string{f.(*ast.Ident).Name}, names...)
			var path []pathEl
			t := v.t
			for _, n := range names {
				o, idx, _ := types.LookupFieldOrMethod(t, true, e.p.svgPkg, n)
				if o == nil {
					if nm, ok := types.Unalias(t).(*types.Named); ok && nm.Obj().Pkg() != nil {
						o, idx, _ = types.LookupFieldOrMethod(t, true, nm.Obj().Pkg(), n)
					}
				}
				if o == nil {
					if s, ok := t.Underlying().(*types.Struct); ok {
						for i := 0; i < s.NumFields(); i++ {
							if s.Field(i).Name() == n {
								o, idx = s.Field(i), []int{i}
							}
						}
					}
				}
				if o == nil {
					serr("no field %s in %s", n, t)
				}
				for _, i := range idx {
					path = append(path, pathEl{f: i})
				}
				t = o.Type()
			}
			return typedVal{e.setPath(v.v, path, env.coerce(env.eval(x.Args[2]), t).v), v.t}
		case "samemap":
			// samemap(a, old b, key...) : equal except at the keys
			a, b := env.mapOf(x.Args[0]), env.mapOf(x.Args[1])
			p, v := b.Pres, b.Vals
			if len(x.Args) > 2 {
				k := env.reify(env.coerce(env.eval(x.Args[2]), a.KT))
				p = c.Store(p, k, c.True())
				v = c.Store(v, k, env.reify(env.coerce(env.eval(x.Args[3]), a.VT)))
			}
			return typedVal{c.And(c.Eq(a.Pres, p), c.Eq(a.Vals, v)), tBool}
		case "float64", "int", "string", "uint8", "float32":
			t := e.p.typeOf(id)
			return env.convert(env.eval(x.Args[0]), t)
		case "upto", "fresh":
		case "app":
			// app("name", result type, args...): an uninterpreted function of the models
			name, _ := strconv.Unquote(x.Args[0].(*ast.BasicLit).Value)
			rt := e.p.typeOf(x.Args[1])
			var ts []*Term
			for _, a := range x.Args[2:] {
				v := env.eval(a)
				if v.t != nil && isUntyped(v.t) {
					v = env.coerce(v, tInt)
				}
				ts = append(ts, env.reify(v))
			}
			if f, ok := foldExtern(c, name, ts); ok {
				return typedVal{e.reflect(f, rt), rt}
			}
			return typedVal{e.reflect(c.App(name, e.ts.SortOf(rt), ts...), rt), rt}
		}
		if f := e.p.specs.fns[id.Name]; f != nil {
			var as []typedVal
			for i, a := range x.Args {
				v := env.eval(a)
				if i < len(f.PTypes) {
					v = env.coerce(v, e.p.typeOf(f.PTypes[i]))
				}
				as = append(as, v)
			}
			return env.applySpec(f, as)
		}
	}
	if t := e.p.tryType(x.Fun); t != nil {
		return env.convert(env.eval(x.Args[0]), t)
	}
	if se, ok := x.Fun.(*ast.SelectorExpr); ok {
		if id, ok := se.X.(*ast.Ident); ok {
			name := id.Name + "." + se.Sel.Name
			if f, ok := pureFns[name]; ok {
				var ts []*Term
				for _, a := range x.Args {
					v := env.eval(a)
					if v.t != nil && isUntyped(v.t) && f.real {
						v = env.coerce(v, tReal)
					}
					ts = append(ts, env.reify(v))
				}
				r := f.app(e, ts)
				return typedVal{r, f.typ(e)}
			}
		}
	}
	serr("call %s", exprStr(x))
	return typedVal{}
}

func (env *specEnv) mapOf(x ast.Expr) *MapObj {
	st := env.st
	if ce, ok := x.(*ast.CallExpr); ok {
		if id, ok := ce.Fun.(*ast.Ident); ok && id.Name == "old" {
			st = env.old
			x = ce.Args[0]
		}
	}
	n := *env
	n.st = st
	v := n.eval(x)
	m, ok := v.v.(*MapV)
	if !ok {
		serr("map needed")
	}
	return st.heap[m.Obj].(*MapObj)
}

func (env *specEnv) convert(v typedVal, t types.Type) typedVal {
	e := env.e
	c := e.c
	tm, ok := v.v.(*Term)
	if !ok {
		return env.coerce(typedVal{v.v, v.t}, t)
	}
	switch e.ts.SortOf(t) {
	case SStr:
		if isSeq(tm.Sort) {
			return typedVal{c.App("bytestr", SStr, tm), t}
		}
		if tm.Sort == SInt {
			return typedVal{c.App("runestr", SStr, tm), t}
		}
	case SReal:
		if tm.Sort == SInt {
			return typedVal{c.ToReal(tm), t}
		}
		return typedVal{tm, t}
	case SInt:
		if tm.Sort == SReal {
			tm = c.Trunc(tm)
		}
		if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			if vb, ok := v.t.Underlying().(*types.Basic); !ok || vb.Kind() != types.Uint8 {
				tm = c.EMod(tm, 256)
			}
		}
		return typedVal{tm, t}
	}
	return env.coerce(v, t)
}

// settle replaces slices by their elements in the given state.
func (e *Exec) settle(st *State, v Val) Val {
	switch v := v.(type) {
	case *SliceV:
		return e.sliceSeq(st, v)
	case *StructV:
		n := &StructV{}
		for _, f := range v.F {
			n.F = append(n.F, e.settle(st, f))
		}
		return n
	}
	return v
}

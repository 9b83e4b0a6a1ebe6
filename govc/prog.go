package main

// Loading of the repository and lookup of functions, globals and contracts.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	dir         string
	fset        *token.FileSet
	prog        *ssa.Program
	svgPkg      *types.Package
	byName      map[string][]*types.Package
	repo        map[*ssa.Package]bool
	repoP       []*ssa.Package
	funcs       map[string]*ssa.Function // repo functions by name
	specs       *Specs
	shadow      map[string]types.Type // type name -> ghost struct
	appendOnly  map[string]bool
	resolveErrs []string
}

func loadProg(dir string, specs *Specs) (*Prog, error) {
	fset := token.NewFileSet()
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: dir, Fset: fset, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, ".", "./renderer", "./renderer/draw2d", "./renderer/gg", "./renderer/rasterx")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("the code does not type-check: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	p := &Prog{dir: dir, fset: fset, prog: prog, byName: map[string][]*types.Package{}, repo: map[*ssa.Package]bool{}, funcs: map[string]*ssa.Function{}, specs: specs, shadow: map[string]types.Type{}, appendOnly: specs.appendOnly}
	for _, sp := range spkgs {
		if sp == nil {
			continue
		}
		p.repo[sp] = true
		p.repoP = append(p.repoP, sp)
		if sp.Pkg.Name() == "svg" {
			p.svgPkg = sp.Pkg
		}
		p.byName[sp.Pkg.Name()] = append(p.byName[sp.Pkg.Name()], sp.Pkg)
	}
	if p.svgPkg == nil {
		return nil, fmt.Errorf("package svg not found")
	}
	for _, sp := range prog.AllPackages() {
		if !p.repo[sp] {
			p.byName[sp.Pkg.Name()] = append(p.byName[sp.Pkg.Name()], sp.Pkg)
		}
	}
	for fn := range ssautil.AllFunctions(prog) {
		if fn.Pkg != nil && p.repo[fn.Pkg] && fn.Synthetic == "" && fn.Parent() == nil {
			p.funcs[fnName(fn)] = fn
		}
	}
	// functions that are not reachable are still part of the code
	for _, sp := range p.repoP {
		for _, m := range sp.Members {
			if f, ok := m.(*ssa.Function); ok && f.Synthetic == "" {
				p.funcs[fnName(f)] = f
			}
			if t, ok := m.(*ssa.Type); ok {
				for _, tt := range []types.Type{t.Type(), types.NewPointer(t.Type())} {
					ms := prog.MethodSets.MethodSet(tt)
					for i := 0; i < ms.Len(); i++ {
						f := prog.MethodValue(ms.At(i))
						if f != nil && f.Synthetic == "" && f.Pkg != nil && p.repo[f.Pkg] {
							p.funcs[fnName(f)] = f
						}
					}
				}
			}
		}
	}
	p.declareGhostTypes()
	for name, t := range specs.ghostT {
		// ghost types named Sh_pkg_Type shadow the library type pkg.Type
		if strings.HasPrefix(name, "Sh_") {
			q := strings.SplitN(strings.TrimPrefix(name, "Sh_"), "_", 2)
			p.shadow[q[0]+"."+q[1]] = t
		}
	}
	return p, nil
}

func (p *Prog) shadowOf(t types.Type) types.Type {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil {
		for sp := range p.repo {
			if sp.Pkg == n.Obj().Pkg() {
				return nil
			}
		}
		return p.shadow[typeName(n)]
	}
	return nil
}

func (p *Prog) repoType(n *types.Named) bool {
	for sp := range p.repo {
		if sp.Pkg == n.Obj().Pkg() {
			return true
		}
	}
	return false
}

func (p *Prog) isRepo(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return p.repo[fn.Pkg]
	}
	if fn.Parent() != nil {
		return p.isRepo(fn.Parent())
	}
	// wrappers and bound methods
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		for sp := range p.repo {
			if sp.Pkg == o.Pkg() {
				return true
			}
		}
	}
	return false
}

func recvName(t types.Type) string {
	t = types.Unalias(t)
	if pt, ok := t.(*types.Pointer); ok {
		return "(*" + recvName(pt.Elem()) + ")"
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return sanitize(t.String())
}

func fnName(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	pkg := ""
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg.Name()
	} else if o := fn.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Name()
	} else if fn.Parent() != nil {
		return fnName(fn.Parent()) + "$" + fn.Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		return pkg + "." + recvName(r.Type()) + "." + fn.Name()
	}
	return pkg + "." + fn.Name()
}

func extName(fn *ssa.Function) string {
	if fn.Origin() != nil {
		fn = fn.Origin()
	}
	return fnName(fn)
}

func (p *Prog) pkgsNamed(n string) []*types.Package { return p.byName[n] }

func (p *Prog) contractOf(fn *ssa.Function) *Contract {
	if !p.isRepo(fn) || fn.Parent() != nil {
		return nil
	}
	ct := p.specs.contracts[fnName(fn)]
	if ct != nil && len(ct.Params) != len(fn.Params) {
		return nil
	}
	return ct
}

func (p *Prog) paramTypes(name string) []types.Type {
	fn := p.funcs[name]
	if fn == nil {
		return nil
	}
	var out []types.Type
	for _, q := range fn.Params {
		out = append(out, q.Type())
	}
	return out
}

func (p *Prog) globalOf(v *types.Var) *ssa.Global {
	sp := p.prog.Package(v.Pkg())
	if sp == nil {
		return nil
	}
	g, _ := sp.Members[v.Name()].(*ssa.Global)
	return g
}

// implementers lists the repository types with the methods of an interface.
func (p *Prog) implementers(t types.Type) []types.Type {
	it, ok := t.Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	var out []types.Type
	for _, sp := range p.repoP {
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != sp.Pkg {
			continue
		}
		sc := sp.Pkg.Scope()
		for _, name := range sc.Names() {
			tn, ok := sc.Lookup(name).(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Interface); ok {
				continue
			}
			if types.Implements(tn.Type(), it) {
				out = append(out, tn.Type())
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return typeName(out[i]) < typeName(out[j]) })
	return out
}

// globalPtr gives the address of a package variable. The variables of the
// repository's packages have the values their initialisation gives them.
func (e *Exec) globalPtr(g *ssa.Global) Val {
	if o, ok := e.globals[g]; ok {
		return &PtrV{Kind: 'o', Obj: o}
	}
	e.nobj++
	o := e.nobj
	e.globals[g] = o
	et := g.Type().Underlying().(*types.Pointer).Elem()
	e.objType[o] = et
	e.objName[o] = g.Name()
	name := g.Name()
	if g.Pkg != nil {
		name = g.Pkg.Pkg.Name() + "." + g.Name()
	}
	e.roObj[o] = "package variable " + name
	var v Val
	if g.Pkg != nil && e.p.repo[g.Pkg] {
		v = e.zero(et)
	} else {
		e.trustUsed["package variable "+name+" (never changes)"] = true
		v = e.reflect(e.c.Var("glob:"+name, e.ts.SortOf(et)), et)
	}
	e.globalInit[o] = v
	return &PtrV{Kind: 'o', Obj: o}
}

// runInit executes the initialisation of a package.
func (e *Exec) runInit(sp *ssa.Package, st *State) *State {
	fn := sp.Func("init")
	if fn == nil || fn.Blocks == nil {
		return st
	}
	e.inInit = true
	defer func() { e.inInit = false }()
	var out *State
	e.guard(func() {
		e.call(fn, nil, nil, st, nil, func(st *State, _ []Val) { out = st })
	})
	if out == nil {
		unsup("package initialisation")
	}
	for _, o := range e.globals {
		if v, ok := out.heap[o]; ok {
			e.globalInit[o] = v
		}
	}
	// objects made by the initialisation are not changed later
	for o := range out.heap {
		if e.roObj[o] == "" {
			e.roObj[o] = "object of a package variable"
		}
	}
	out.pc = nil
	out.pcset = map[int]bool{}
	return out
}

package main

// Mapping of Go types to sorts, and the datatypes declared for structs,
// arrays and interface values.

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

type dtype struct {
	sort   Sort
	sels   []string
	fields []Sort
	ftypes []types.Type
	fnames []string
}

type TypeSorts struct {
	dts    map[Sort]*dtype
	selIdx map[string]int // "sort|sel" -> index
	boxes  map[string]boxT
	anon   map[string]Sort
}

type boxT struct {
	tag     string
	payload Sort // "" for none
	typ     types.Type
}

func NewTypeSorts() *TypeSorts {
	return &TypeSorts{dts: map[Sort]*dtype{}, selIdx: map[string]int{}, boxes: map[string]boxT{}, anon: map[string]Sort{}}
}

func (ts *TypeSorts) selName(s Sort, i int) string {
	d := ts.dts[s]
	if d == nil {
		panic("no datatype " + string(s))
	}
	return d.sels[i]
}
func (ts *TypeSorts) fieldSort(s Sort, i int) Sort { return ts.dts[s].fields[i] }
func (ts *TypeSorts) selIndex(op string, s Sort) (int, bool) {
	i, ok := ts.selIdx[string(s)+"|"+op]
	return i, ok
}

func typeName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		n := t.Obj().Name()
		if p := t.Obj().Pkg(); p != nil {
			n = p.Name() + "." + n
		}
		return n
	case *types.Pointer:
		return "ptr." + typeName(t.Elem())
	case *types.Slice:
		return "slice." + typeName(t.Elem())
	case *types.Basic:
		return t.Name()
	}
	return sanitize(t.String())
}

// SortOf gives the sort of the term form of values of type t.
func (ts *TypeSorts) SortOf(t types.Type) Sort {
	t = types.Unalias(t)
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsFloat != 0:
			return SReal
		case u.Info()&types.IsString != 0:
			return SStr
		}
		return SRef
	case *types.Struct:
		name := Sort("")
		if n, ok := t.(*types.Named); ok {
			name = Sort(typeName(n))
		} else {
			k := u.String()
			if s, ok := ts.anon[k]; ok {
				name = s
			} else {
				name = Sort(fmt.Sprintf("anon%d", len(ts.anon)))
				ts.anon[k] = name
			}
		}
		if _, ok := ts.dts[name]; !ok {
			d := &dtype{sort: name}
			ts.dts[name] = d
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				d.sels = append(d.sels, string(name)+"."+f.Name())
				d.fnames = append(d.fnames, f.Name())
				d.ftypes = append(d.ftypes, f.Type())
			}
			for i := 0; i < u.NumFields(); i++ {
				d.fields = append(d.fields, ts.SortOf(u.Field(i).Type()))
				ts.selIdx[string(name)+"|"+d.sels[i]] = i
			}
		}
		return name
	case *types.Array:
		es := ts.SortOf(u.Elem())
		name := Sort(fmt.Sprintf("Arr%d.%s", u.Len(), es))
		if _, ok := ts.dts[name]; !ok {
			d := &dtype{sort: name}
			ts.dts[name] = d
			for i := int64(0); i < u.Len(); i++ {
				d.sels = append(d.sels, fmt.Sprintf("%s.%d", name, i))
				d.fields = append(d.fields, es)
				d.ftypes = append(d.ftypes, u.Elem())
				d.fnames = append(d.fnames, fmt.Sprint(i))
				ts.selIdx[string(name)+"|"+d.sels[i]] = int(i)
			}
		}
		return name
	case *types.Slice:
		return seqSort(ts.SortOf(u.Elem()))
	case *types.Interface:
		return SAny
	case *types.Chan: // in specifications: chan T is a map from strings, <-chan T one from references
		if u.Dir() == types.RecvOnly {
			return arrSort(SRef, ts.SortOf(u.Elem()))
		}
		return arrSort(SStr, ts.SortOf(u.Elem()))
	}
	return SRef
}

// BoxTag registers the dynamic type t of an interface value.
func (ts *TypeSorts) BoxTag(t types.Type) (string, Sort) {
	tag := typeName(t)
	s := ts.SortOf(t)
	if st, ok := t.Underlying().(*types.Struct); ok && st.NumFields() == 0 {
		s = ""
	}
	if _, ok := ts.boxes[tag]; !ok {
		ts.boxes[tag] = boxT{tag, s, t}
	}
	return tag, s
}

func (ts *TypeSorts) sortedBoxes() []boxT {
	var ks []string
	for k := range ts.boxes {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var out []boxT
	for _, k := range ks {
		out = append(out, ts.boxes[k])
	}
	return out
}

func mangle(s Sort) string {
	r := string(s)
	r = strings.NewReplacer("(", "<", ")", ">", " ", "_").Replace(r)
	return r
}

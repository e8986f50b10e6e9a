package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C34"] = checkDef{checkC34, "every instruction that can panic, in every function reachable from decoding, from the constructors and from Verify, discharged by dominating conditions, call sites and return summaries"}
}

// checkC34: loading a model, from the document to a verified model, never
// panics.
func checkC34(r *Report) {
	r.minOb = 60
	p := newPT()
	var entries []*ssa.Function
	seen := map[*ssa.Function]bool{}
	entry := func(f *ssa.Function) {
		if f == nil || seen[f] || len(f.Blocks) == 0 {
			return
		}
		seen[f] = true
		entries = append(entries, f)
		p.entry(f, func(i int, t types.Type) string {
			if isRow(t) {
				return "input"
			}
			return "model"
		})
	}
	for _, pkg := range []*ssa.Package{evalPkg, modPkg} {
		for _, n := range pkg.Pkg.Scope().Names() {
			o := pkg.Pkg.Scope().Lookup(n)
			if f := pkg.Func(n); f != nil && o.Exported() && (pkg == modPkg || n[0] == 'N') {
				entry(f)
			}
			tn, ok := o.(*types.TypeName)
			if !ok || tn.IsAlias() {
				continue
			}
			if _, ok := tn.Type().Underlying().(*types.Interface); ok {
				continue
			}
			if pkg == evalPkg && !o.Exported() {
				continue
			}
			ms := types.NewMethodSet(types.NewPointer(tn.Type()))
			for i := 0; i < ms.Len(); i++ {
				if m := ms.At(i); m.Obj().Exported() && !evaluates(m) {
					f := theProg.MethodValue(m)
					if f != nil && f.Synthetic == "" {
						entry(f)
					}
				}
			}
		}
	}
	p.solve()
	// evaluation itself is decided by C16
	reach := map[*ssa.Function]bool{}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if reach[f] {
			return
		}
		if o, ok := f.Object().(*types.Func); ok && evalMethod(o) {
			return
		}
		reach[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					for g := range p.callees[c] {
						visit(g)
					}
				}
			}
		}
	}
	for _, f := range entries {
		visit(f)
	}
	var order []*ssa.Function
	for _, f := range p.order {
		if reach[f] {
			order = append(order, f)
			r.coverFn(f)
		}
	}
	sort.Slice(entries, func(i, j int) bool { return entries[i].String() < entries[j].String() })
	q := newProver(r, entries, p, order)
	q.construction(r)
	n := map[string]int{}
	for _, fn := range order {
		q.report(r, fn, n)
	}
	q.decodedMaps(r, order)
	r.extra["sites"] = n
	r.extra["rule"] = "no dereference or call of nil, no index or slice out of range, no failing assertion, no write to a nil map, no integer division by zero, no comparison of incomparable values and no call of panic"
}

// evalMethod: a method of a model that is given a row.
func evalMethod(o *types.Func) bool {
	sig := o.Type().(*types.Signature)
	if sig.Recv() == nil || sig.Params().Len() == 0 || !isRow(sig.Params().At(0).Type()) {
		return false
	}
	return o.Pkg() == evalPkg.Pkg
}

func evaluates(m *types.Selection) bool { return evalMethod(m.Obj().(*types.Func)) }

// decodedMaps: a decoder method of a map type writes to the map it is called
// on, so a map must have been made before encoding/xml decodes into it.
func (q *prover) decodedMaps(r *Report, order []*ssa.Function) {
	decodes := func(t types.Type) bool { // by a method of the type itself
		ms := types.NewMethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == "UnmarshalXML" {
				return true
			}
		}
		return false
	}
	fills := func(t types.Type) bool { return isMap(t) && decodes(t) }
	for _, n := range modPkg.Pkg.Scope().Names() {
		tn, ok := modPkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() {
			continue
		}
		s, ok := isStruct(tn.Type())
		if !ok || decodes(types.NewPointer(tn.Type())) {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			t := s.Field(i).Type()
			for {
				if sl, ok := t.Underlying().(*types.Slice); ok {
					t = sl.Elem()
				} else if pt, ok := t.Underlying().(*types.Pointer); ok {
					t = pt.Elem()
				} else {
					break
				}
			}
			r.check(!s.Field(i).Exported() || !fills(t), "map:"+n+"."+s.Field(i).Name(), posString(s.Field(i).Pos()),
				"encoding/xml decodes into a nil %s: the field %s.%s needs a decoder that makes the map", trimMod(t.String()), n, s.Field(i).Name())
		}
	}
	for _, fn := range order {
		k := 0
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				c, ok := ins.(*ssa.Call)
				if !ok || c.Call.StaticCallee() == nil || c.Call.StaticCallee().Pkg == nil || c.Call.StaticCallee().Pkg.Pkg.Path() != "encoding/xml" {
					continue
				}
				for _, a := range c.Call.Args {
					m, ok := a.(*ssa.MakeInterface)
					if !ok || !isPtr(m.X.Type()) || !fills(derefType(m.X.Type())) {
						continue
					}
					k++
					good := false
					if al, ok := m.X.(*ssa.Alloc); ok {
						for _, u := range *al.Referrers() {
							if st, ok := u.(*ssa.Store); ok && st.Addr == ssa.Value(al) && before(st, c) {
								good = q.notNil(st.Val, q.top(fn, b), nil, map[nilQuery]bool{})
							}
						}
					}
					r.check(good, trimMod(fn.String())+":decode:"+fmt.Sprint(k), posString(instrPos(c)), "%s decodes into a map that may be nil", trimMod(fn.String()))
				}
			}
		}
	}
}

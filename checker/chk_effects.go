package main

// C12, C13, C14: write effects.

import (
	"fmt"
	"go/types"
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C13"] = checkDef{checkC13, "interprocedural points-to and write-effect analysis over go/ssa"}
	checks["C14"] = checkDef{checkC14, "interprocedural points-to and write-effect analysis over go/ssa"}
}

var modelKinds = []string{"TreeModel", "MiningModel", "RegressionModel"}

func method(typ, name string) *ssa.Function {
	o := evalPkg.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	sel := types.NewMethodSet(types.NewPointer(o.Type())).Lookup(evalPkg.Pkg, name)
	if sel == nil {
		return nil
	}
	return theProg.MethodValue(sel)
}

// modelMethods finds a method on every exported model type.
func modelMethods(r *Report, name string) []*ssa.Function {
	var l []*ssa.Function
	for _, k := range modelKinds {
		if f := method(k, name); f != nil {
			l = append(l, f)
		} else {
			r.undecided(k+"."+name, "", "method evaluation.%s.%s not found", k, name)
		}
	}
	return l
}

func isRow(t types.Type) bool {
	o := evalPkg.Pkg.Scope().Lookup("DataRow")
	return o != nil && types.Identical(t, o.Type())
}

// evaluateEffects analyses every exported method of the models that takes a
// row, with the receiver in region "model" and the row in region "input".
func evaluateEffects(r *Report) (*PT, []*ssa.Function) {
	p := newPT()
	var entries []*ssa.Function
	entry := func(f *ssa.Function) {
		if p.reach[f] {
			return
		}
		entries = append(entries, f)
		p.entry(f, func(i int, t types.Type) string {
			if isRow(t) {
				return "input"
			}
			return "model"
		})
	}
	for _, f := range modelMethods(r, "Evaluate") {
		entry(f)
	}
	for _, k := range modelKinds { // other exported evaluation methods
		o := evalPkg.Pkg.Scope().Lookup(k)
		if o == nil {
			continue
		}
		ms := types.NewMethodSet(types.NewPointer(o.Type()))
		for i := 0; i < ms.Len(); i++ {
			f := theProg.MethodValue(ms.At(i))
			if f != nil && ms.At(i).Obj().Exported() && f.Signature.Params().Len() == 1 && isRow(f.Signature.Params().At(0).Type()) {
				entry(f)
			}
		}
	}
	for _, n := range evalPkg.Pkg.Scope().Names() { // HandleInput, HandleExpression
		if f := evalPkg.Func(n); f != nil && f.Object() != nil && f.Object().Exported() {
			for i := 0; i < f.Signature.Params().Len(); i++ {
				if isRow(f.Signature.Params().At(i).Type()) {
					entry(f)
					break
				}
			}
		}
	}
	p.solve()
	for _, f := range p.order {
		r.coverFn(f)
	}
	return p, entries
}

func writesOf(p *PT) []pwrite {
	var l []pwrite
	for _, m := range p.writes {
		for _, w := range m {
			l = append(l, w)
		}
	}
	sort.Slice(l, func(i, j int) bool {
		if a, b := l[i].ins.Pos(), l[j].ins.Pos(); a != b {
			return a < b
		}
		return l[i].root < l[j].root
	})
	return l
}

// writeSites counts the instructions that write memory.
func writeSites(p *PT) []ssa.Instruction {
	var l []ssa.Instruction
	for _, f := range p.order {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store, *ssa.MapUpdate, *ssa.Send:
					l = append(l, ins)
				case ssa.CallInstruction:
					if bi, ok := i.Common().Value.(*ssa.Builtin); ok {
						switch bi.Name() {
						case "append", "copy", "delete", "clear":
							l = append(l, ins)
						}
					} else if f := i.Common().StaticCallee(); f != nil && !p.inRepo(f) {
						l = append(l, ins)
					}
				}
			}
		}
	}
	return l
}

// pureFuncs lists the analysed functions that, with everything they call,
// write no memory from outside and whose results hold no references.
func pureOf(p *PT) map[*ssa.Function]bool {
	impure := map[*ssa.Function]bool{}
	for ins, m := range p.writes {
		if len(m) > 0 {
			impure[ins.Parent()] = true
		}
	}
	calls := map[*ssa.Function]map[*ssa.Function]bool{}
	for ins, m := range p.callees {
		f := ins.Parent()
		if calls[f] == nil {
			calls[f] = map[*ssa.Function]bool{}
		}
		for g := range m {
			calls[f][g] = true
		}
	}
	for ch := true; ch; {
		ch = false
		for f, m := range calls {
			if impure[f] {
				continue
			}
			for g := range m {
				if impure[g] {
					impure[f] = true
					ch = true
				}
			}
		}
	}
	res := map[*ssa.Function]bool{}
	for _, f := range p.order {
		if impure[f] || f.Object() == nil {
			continue
		}
		ok := true
		for i := 0; i < f.Signature.Results().Len(); i++ {
			t := f.Signature.Results().At(i).Type()
			if isIface(t) {
				continue // values and errors are never written through
			}
			for _, l := range leaves(t) {
				if !isIface(leafType(t, l)) {
					ok = false
				}
			}
		}
		// parameters must not be pointers to fresh memory being filled: a
		// function without writes cannot fill them
		if ok {
			res[f] = true
		}
	}
	return res
}

// confirm re-examines possible writes path by path: a write stays an alarm
// unless no abstract path from an entry point reaches it with memory from
// outside.
func confirm(r *Report, p *PT, entries []*ssa.Function, cand map[ssa.Instruction]bool) map[ssa.Instruction]bool {
	if len(cand) == 0 {
		return nil
	}
	pure := pureOf(p)
	real := map[ssa.Instruction]bool{}
	for _, f := range entries {
		x := newExec()
		for g := range pure {
			g := g
			x.hooks[fullName(g)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
				var ra []*Term
				for _, a := range args {
					ra = append(ra, st.reify(a, 0))
				}
				return []Outcome{{st: st, ret: opaqueResults("pure", fullName(g), g.Signature, ra)}}
			}
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if os.Getenv("VERIF_DEBUG") != "" {
						fmt.Println("confirm", f, e)
					}
					for i := range cand { // not decided: keep the alarm
						real[i] = true
					}
				}
			}()
			outs := x.run(f, paramTerms(f), nil, newState(x), "e")
			r.paths += len(outs)
			for _, o := range outs {
				for _, e := range flatEvents(o.st) {
					if e.ins != nil && cand[e.ins] && (e.kind == "store" || e.kind == "mapwrite" || e.kind == "append") {
						real[e.ins] = true
					}
				}
			}
			seen := map[*ssa.Function]bool{}
			for g := range x.funcs {
				seen[g] = true
			}
			for i := range cand {
				if !seen[i.Parent()] && reaches(p, f, i.Parent()) {
					real[i] = true
				}
			}
		}()
	}
	return real
}

func reaches(p *PT, from, to *ssa.Function) bool {
	seen := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function) bool
	rec = func(f *ssa.Function) bool {
		if f == to {
			return true
		}
		if seen[f] {
			return false
		}
		seen[f] = true
		for ins, m := range p.callees {
			if ins.Parent() == f && !ins.Common().IsInvoke() {
				for g := range m {
					if rec(g) {
						return true
					}
				}
			}
		}
		return false
	}
	return rec(from)
}

func effectReport(r *Report, p *PT, entries []*ssa.Function, bad func(w pwrite) string) {
	flagged := map[ssa.Instruction]bool{}
	cand := map[ssa.Instruction]bool{}
	for _, w := range writesOf(p) {
		if bad(w) != "" {
			cand[w.ins] = true
		}
	}
	real := confirm(r, p, entries, cand)
	for _, w := range writesOf(p) {
		if msg := bad(w); msg != "" && real[w.ins] {
			flagged[w.ins] = true
			r.ob++
			r.done++
			r.fail(trimMod(w.fn.String())+":"+w.root, posString(instrPos(w.ins)), "%s in %s writes %s (component %q of %v)", w.what, trimMod(w.fn.String()), msg, w.path, w.typ)
		}
	}
	for _, ins := range writeSites(p) {
		if !flagged[ins] {
			r.check(true, trimMod(ins.Parent().String())+"@"+posString(instrPos(ins)), "", "")
		}
	}
	r.extra["write_sites"] = len(writeSites(p))
	r.extra["rule"] = "no write whose target may lie in the protected region"
}

func checkC13(r *Report) {
	p, entries := evaluateEffects(r)
	effectReport(r, p, entries, func(w pwrite) string {
		if w.root == "input" {
			return "the caller's row"
		}
		return ""
	})
	for _, f := range modelMethods(r, "Evaluate") {
		rs := p.rets[f]
		bad := false
		if len(rs) > 0 {
			for t := range rs[0][""] {
				if t.o.root == "input" {
					bad = true
				}
			}
		}
		r.check(!bad && len(rs) > 0, trimMod(f.String())+":result", posString(f.Pos()), "%s may return the caller's row itself", trimMod(f.String()))
	}
	r.minOb = 60
}

func checkC14(r *Report) {
	p, entries := evaluateEffects(r)
	effectReport(r, p, entries, func(w pwrite) string {
		switch w.root {
		case "model":
			return "memory reachable from the model or its dictionaries"
		case "global":
			return "a package variable"
		case "input":
			return "the caller's row, which concurrent calls may share"
		}
		return ""
	})
	for _, f := range p.order {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.Go); ok {
					r.check(false, trimMod(f.String())+":go", posString(ins.Pos()), "%s starts a goroutine", trimMod(f.String()))
				}
			}
		}
	}
	r.minOb = 60
}

func init() {
	checks["C12"] = checkDef{checkC12, "points-to and write-effect analysis, plus accumulation analysis of the final heap of Validate and Compile"}
}

func modelsType(name string) types.Type {
	if o := modPkg.Pkg.Scope().Lookup(name); o != nil {
		return o.Type()
	}
	return nil
}

func checkC12(r *Report) {
	p := newPT()
	for n, root := range map[string]string{"DataDictionary": "dd", "TransformationDictionary": "td"} {
		t := modelsType(n)
		if t == nil {
			r.undecided(n, "", "type models.%s not found", n)
			return
		}
		p.typeRoot[typeKey(t)] = root
	}
	var ents []*ssa.Function
	for _, n := range []string{"Validate", "Compile"} {
		ents = append(ents, modelMethods(r, n)...)
	}
	for _, n := range evalPkg.Pkg.Scope().Names() { // constructors
		f := evalPkg.Func(n)
		if f == nil || !f.Object().Exported() {
			continue
		}
		rs := f.Signature.Results()
		if rs.Len() == 2 && isError(rs.At(1).Type()) && len(f.Params) == 3 {
			if pt, ok := f.Params[0].Type().Underlying().(*types.Pointer); ok && typeKey(pt.Elem()) == typeKey(modelsType("DataDictionary")) {
				ents = append(ents, f)
			}
		}
	}
	for _, f := range ents {
		p.entry(f, func(i int, t types.Type) string { return "doc" })
	}
	p.solve()
	for _, f := range p.order {
		r.coverFn(f)
	}
	effectReport(r, p, ents, func(w pwrite) string {
		switch w.root {
		case "dd":
			return "the data dictionary"
		case "td":
			return "the transformation dictionary"
		}
		return ""
	})

	// accumulation; recursive functions are analysed on their own
	rec := recursiveFuncs(p)
	queue := append([]*ssa.Function{}, modelMethods(r, "Validate")...)
	queue = append(queue, modelMethods(r, "Compile")...)
	done := map[*ssa.Function]bool{}
	cells := 0
	for len(queue) > 0 {
		f := queue[0]
		queue = queue[1:]
		if done[f] {
			continue
		}
		done[f] = true
		name := trimMod(f.String())
		guarded(r, name, func() {
			x := newExec()
			hookNewModel(x)
			for g := range rec {
				if g != f {
					g := g
					x.hooks[fullName(g)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
						st.event(&Event{kind: "rec", ins: ins, fn: ins.Parent()})
						return []Outcome{{st: st, ret: opaqueResults("rec", fullName(g), g.Signature, args)}}
					}
				}
			}
			outs := x.run(f, paramTerms(f), nil, newState(x), "e")
			r.covered(x)
			r.paths += len(outs)
			if len(outs) == 0 {
				r.undecided(name, posString(f.Pos()), "%s has no abstract outcome", name)
			}
			ok := true
			for _, o := range outs {
				for _, e := range flatEvents(o.st) {
					if e.kind == "rec" {
						if c, isCall := e.ins.(ssa.CallInstruction); isCall && c.Common().StaticCallee() != nil {
							g := c.Common().StaticCallee()
							queue = append(queue, g)
						}
					}
					if e.kind == "mapwrite" && e.addr.op == "init" {
						ok = false
						r.fail(name+":map", posString(e.pos), "%s adds entries to the map %s of an earlier compilation", name, e.addr)
					}
				}
				for _, a := range sortedAddrs(o.st.heap) {
					if a.op == "mcont" || o.st.isFresh(addrRoot(a)) {
						continue
					}
					cells++
					v := o.st.heap[a]
					old := tInit(a, nil)
					if v == old || !v.contains(old) {
						continue
					}
					ty := addrTypes[a]
					if ty != nil && (isSlice(ty) || isMap(ty)) || accumulates(v, old) {
						ok = false
						r.fail(name+":"+faddrLabels[a], posString(f.Pos()), "%s extends the previous value of %s instead of replacing it: %s", name, a, v)
					}
				}
			}
			r.check(ok, name+":replaces", "", "")
		})
	}
	r.extra["final_heap_cells"] = cells
	r.minOb = 60
}

// accumulates: old occurs below arithmetic or concatenation in v.
func accumulates(v, old *Term) bool {
	return v.any(func(t *Term) bool { return (t.op == "poly" || t.op == "cat") && t.contains(old) })
}

func isError(t types.Type) bool {
	return types.Identical(t, types.Universe.Lookup("error").Type())
}

// hookNewModel makes the construction of a nested model opaque: a function of
// the model element, whose own construction is analysed on its own.
func hookNewModel(x *Exec) {
	f := evalPkg.Func("NewModel")
	if f == nil {
		return
	}
	x.hooks[fullName(f)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		var ra []*Term
		for _, a := range args {
			ra = append(ra, st.reify(a, 0))
		}
		r := opaqueResults("newmodel", "", f.Signature, ra)
		st.event(&Event{kind: "newmodel", args: ra, ret: r, ins: ins, fn: ins.Parent()})
		return []Outcome{{st: st, ret: r}}
	}
}

// recursiveFuncs lists the functions that can call themselves.
func recursiveFuncs(p *PT) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	for _, f := range p.order {
		if f.Object() == nil {
			continue
		}
		for ins, m := range p.callees {
			if ins.Parent() != f || ins.Common().IsInvoke() {
				continue
			}
			for g := range m {
				if reaches(p, g, f) {
					r[f] = true
				}
			}
		}
	}
	return r
}

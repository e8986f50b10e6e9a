package main

// C09: predicate literals are compiled in the declared type of their field.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type predCompiler struct {
	fn     *ssa.Function
	pi, ti int
}

// findPredCompiler: the function that compiles any predicate.
func findPredCompiler(r *Report) *predCompiler {
	iface := modType("Predicate")
	tix := func(f *ssa.Function) int {
		ti := -1
		for i, p := range f.Params {
			if isFieldTypes(p.Type()) {
				ti = i
			}
		}
		return ti
	}
	l := outermost(funcsWhere(evalPkg, func(f *ssa.Function, sig *types.Signature) bool {
		return sig.Results().Len() == 1 && returnsError(sig) && paramOf(f, iface) >= 0 && tix(f) >= 0
	}))
	if len(l) != 1 {
		r.undecided("anchor", "", "%d functions of package evaluation compile a models.Predicate with declared types, expected one", len(l))
		return nil
	}
	return &predCompiler{fn: l[0], pi: paramOf(l[0], iface), ti: tix(l[0])}
}

func (c *predCompiler) args(pred *Term) []*Term {
	a := paramTerms(c.fn)
	a[c.pi] = pred
	return a
}

func (c *predCompiler) types() *Term { return paramTerms(c.fn)[c.ti] }

// hook makes nested compilation opaque.
func (c *predCompiler) hook(x *Exec) {
	h := func(pi, ti int) Hook {
		return func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
			res := mk("compiled", "", errT, args[pi], st.reify(args[ti], 0))
			st.event(&Event{kind: "compile", args: []*Term{args[pi], st.reify(args[ti], 0)}, ret: []*Term{res}, ins: ins, fn: ins.Parent()})
			return []Outcome{{st: st, ret: []*Term{res}}}
		}
	}
	x.hooks[fullName(c.fn)] = h(c.pi, c.ti)
	x.hooks[fullName(specFn("CompilePredicate"))] = h(1, 0)
}

func checkC09(r *Report) {
	r.minOb = 40
	c := findPredCompiler(r)
	if c == nil {
		return
	}
	arr := methodOf(modType("ArrayType"), "Strings")
	hook := func(x *Exec) {
		c.hook(x)
		hookOpaque(x, arr, "array")
	}
	stored := func(p *Term, el, field string) func(st *State, o Outcome) []*Term {
		return func(st *State, o Outcome) []*Term {
			a, t := fieldByName(p, modType(el), field)
			v := st.load(a, t)
			if isSlice(t) {
				v = st.listValue(v) // an empty list is as good as none
			}
			return []*Term{st.reify(v, 0)}
		}
	}
	spec := func(name string, a ...*Term) runner {
		return func(x *Exec, st *State) []Outcome { return x.run(specFn(name), a, nil, st, "s") }
	}
	run := func(pred *Term) runner {
		return func(x *Exec, st *State) []Outcome { return x.run(c.fn, c.args(pred), nil, st, "e") }
	}
	dts := append([]string{}, "")
	for _, lt := range literalTypes {
		dts = append(dts, lt.dt)
	}
	for _, el := range []string{"SimplePredicate", "SimpleSetPredicate"} {
		for _, dt := range dts {
			for _, declared := range []bool{true, false} {
				el, dt, declared := el, dt, declared
				if !declared && dt != "" {
					continue
				}
				key := el + ":" + dt
				switch {
				case !declared:
					key = el + ":undeclared"
				case dt == "":
					key = el + ":othertype"
				}
				p := predPtr(el)
				what := "compiling a " + el + " of a field of type " + dt
				name, field := "CompileSimple", "RawPredicateValue"
				if el == "SimpleSetPredicate" {
					name, field = "CompileSet", "RawPredicateValues"
				}
				guarded(r, key, func() {
					compare(r, key, what, true, run(predOf(el)), spec(name, c.types(), p), pairOpt{
						hook: hook, pos: c.fn.Pos(), post: stored(p, el, field), min: 1,
						pre: func(x *Exec, st *State) bool {
							ok := st.f.assume(tEq(p, tNil, p.typ), false)
							fa, ft := fieldByName(p, modType(el), "Field")
							if fa == nil {
								return false
							}
							k := st.load(fa, ft)
							m := st.content(c.types())
							ok = ok && st.f.assume(mk("has", "", nil, m, k), declared)
							if !declared {
								return ok
							}
							v := staticGet(m, k, modType("DataType"))
							for _, d := range dts {
								if d != "" && (dt == "" || d == dt) {
									ok = ok && st.f.assume(tEq(v, modConst(d), modType("DataType")), d == dt)
								}
							}
							return ok
						},
					})
				})
			}
		}
	}
	guarded(r, "CompoundPredicate", func() {
		p := predPtr("CompoundPredicate")
		compare(r, "CompoundPredicate", "compiling a compound predicate", true, run(predOf("CompoundPredicate")), spec("CompileCompound", c.types(), p), pairOpt{
			hook: hook, pos: c.fn.Pos(), min: 1,
			pre: func(x *Exec, st *State) bool { return st.f.assume(tEq(p, tNil, p.typ), false) },
		})
	})
	for _, el := range []string{"True", "False"} {
		el := el
		guarded(r, el, func() {
			x := newExec()
			hook(x)
			for _, o := range x.run(c.fn, c.args(predOf(el)), nil, newState(x), "e") {
				r.check(knownNil(o.st, o.ret[0]), el, posString(c.fn.Pos()), "a %s predicate does not compile", el)
			}
		})
	}
	c.nodes(r)
	c.models(r)
}

// nodes: a node is accepted only with a compiled predicate.
func (c *predCompiler) nodes(r *Report) {
	fn, ni := nodeBuilder(r)
	if fn == nil {
		return
	}
	guarded(r, "node", func() {
		x := newExec()
		c.hook(x)
		st := newState(x)
		args := paramTerms(fn)
		node := args[ni]
		nt := modType("Node")
		pi, pt := structField(nt, "Predicate")
		var pred *Term
		if _, ok := types.Unalias(fn.Params[ni].Type()).Underlying().(*types.Pointer); ok {
			pred = st.load(tFaddr(node, pi), pt)
		} else {
			pred = tField(node, pi, pt)
		}
		outs := x.run(fn, args, nil, st, "e")
		r.covered(x)
		r.paths += len(outs)
		n := 0
		for _, o := range outs {
			if knownNonNil(o.st, o.ret[len(o.ret)-1]) {
				continue
			}
			n++
			var want *Term
			for i, p := range fn.Params {
				if i == ni {
					continue
				}
				if isFieldTypes(p.Type()) {
					want = args[i]
				} else if _, ok := isStruct(derefType(p.Type())); ok {
					if t := treeFieldTypes(o.st, args[i], derefType(p.Type())); t != nil {
						want = t
					}
				}
			}
			ok, with := false, ""
			for _, e := range flatEvents(o.st) {
				if e.kind == "compile" && sameTerm(o.st.f, e.args[0], pred) {
					if want != nil && e.args[1] == o.st.reify(want, 0) && knownNil(o.st, e.ret[0]) {
						ok = true
					} else {
						with = " (compiled with " + cut(e.args[1].String()) + ")"
					}
				}
			}
			r.check(ok, "node", posString(fn.Pos()), "%s accepts a node whose predicate was not successfully compiled with the declared types%s", fn.Name(), with)
		}
		r.check(n > 0, "node:accepted", posString(fn.Pos()), "%s never accepts a node", fn.Name())
	})
}

// models: the declared types predicates are compiled with, and that a mining
// model compiles the predicates of all its segments.
func (c *predCompiler) models(r *Report) {
	for _, kind := range []string{"TreeModel", "MiningModel"} {
		kind := kind
		guarded(r, kind, func() {
			fn := evalPkg.Func("New" + kind)
			if fn == nil {
				r.undecided(kind, "", "constructor New%s not found", kind)
				return
			}
			r.coverFn(fn)
			nb, _ := nodeBuilder(r)
			if nb == nil {
				return
			}
			var maps []*Term
			var states []*State
			pos := posString(fn.Pos())
			hook := func(x *Exec) {
				hookNewModel(x)
				c.hook(x)
				h := x.hooks[fullName(c.fn)]
				x.hooks[fullName(c.fn)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
					maps = append(maps, args[c.ti])
					states = append(states, st.clone())
					return h(x, st, ins, args)
				}
				x.hooks[fullName(nb)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
					for i, p := range nb.Params {
						var m *Term
						if isFieldTypes(p.Type()) {
							m = args[i]
						} else if _, ok := isStruct(derefType(p.Type())); ok {
							if _, isNode := p.Type().(*types.Named); !isNode {
								m = treeFieldTypes(st, args[i], derefType(p.Type()))
							}
						}
						if m != nil {
							maps = append(maps, m)
							states = append(states, st.clone())
						}
					}
					var ra []*Term
					for _, a := range args {
						ra = append(ra, a)
					}
					return []Outcome{{st: st, ret: opaqueResults("node", "", nb.Signature, ra)}}
				}
			}
			x := newExec()
			hook(x)
			args := paramTerms(fn)
			st := newState(x)
			for _, a := range args {
				st.f.assume(tEq(a, tNil, a.typ), false)
			}
			outs := x.run(fn, args, nil, st, "e")
			r.covered(x)
			r.paths += len(outs)
			var dd, td, md *Term
			for i, p := range fn.Params {
				switch {
				case types.Identical(p.Type(), types.NewPointer(modType("DataDictionary"))):
					dd = args[i]
				case types.Identical(p.Type(), types.NewPointer(modType("TransformationDictionary"))):
					td = args[i]
				case types.Identical(p.Type(), types.NewPointer(modType(kind))):
					md = args[i]
				}
			}
			name := "TreeTypes"
			if kind == "MiningModel" {
				name = "MiningTypes"
			}
			r.check(len(maps) > 0, kind+":compiles", pos, "New%s compiles no predicate", kind)
			for i, m := range maps {
				y := newExec()
				s0 := newState(y)
				s0.f = states[i].f.clone()
				souts := y.run(specFn(name), []*Term{dd, td, md}, nil, s0, "s")
				for _, s := range souts {
					a, b := states[i].reify(m, 0), s.st.reify(s.ret[0], 0)
					if !r.check(sameTerm(s.st.f, a, b), kind+":types", pos, "New%s compiles predicates with the types %s where %s are declared", kind, cut(a.String()), cut(b.String())) {
						debugPair(kind, s.st.f, a, b)
					}
				}
			}
			if kind == "MiningModel" {
				c.segments(r, fn, args, md)
			}
		})
	}
}

// segments: success implies that every predicate of every segment compiled.
func (c *predCompiler) segments(r *Report, fn *ssa.Function, args []*Term, md *Term) {
	compare(r, "segments", fn.Name(), true, runFn(fn, args, "e"), runFn(specFn("CompileSegments"), []*Term{md}, "s"), pairOpt{
		hook: c.segmentHook, pos: fn.Pos(), only: "errors", min: 1,
		pre: func(x *Exec, st *State) bool {
			ok := true
			for _, a := range args {
				ok = st.f.assume(tEq(a, tNil, a.typ), false) && ok
			}
			return ok
		},
		skip: func(o Outcome) bool { return knownNonNil(o.st, o.ret[len(o.ret)-1]) },
	})
}

// segmentHook: compiling a predicate and building a nested model are
// functions of the predicate and of the model element.
func (c *predCompiler) segmentHook(x *Exec) {
	h := func(pi int) Hook {
		return func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
			return []Outcome{{st: st, ret: []*Term{mk("compiled", "", errT, args[pi])}}}
		}
	}
	x.hooks[fullName(c.fn)] = h(c.pi)
	x.hooks[fullName(specFn("CompilePredicate"))] = h(1)
	nm := evalPkg.Func("NewModel")
	x.hooks[fullName(nm)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		return []Outcome{{st: st, ret: opaqueResults("newmodel", "", nm.Signature, args[2:])}}
	}
}

func init() {
	checks["C09"] = checkDef{checkC09, "abstract interpretation of the predicate compiler and the model constructors, compared with a reference under every path's facts"}
}

package main

// C24, C25, C28: mining models (segmentation).

import (
	"golang.org/x/tools/go/ssa"
)

// hookSegments makes nested models opaque: what they return is a function of
// the model and of the row they are given.
func hookSegments(x *Exec) {
	x.invokeHooks[modPath+"/evaluation.Model.Evaluate"] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		ra := []*Term{args[0], st.reify(args[1], 0)}
		r := opaqueResults("segment", "", method("TreeModel", "Evaluate").Signature, ra)
		st.event(&Event{kind: "segment", args: ra, ret: r, ins: ins, fn: ins.Parent()})
		return []Outcome{{st: st, ret: r}}
	}
}

// miningModels constructs mining models with opaque nested parts.
func miningModels(r *Report) (l []*built, c *predCompiler) {
	c = findPredCompiler(r)
	if c == nil {
		return nil, nil
	}
	return construct(r, "MiningModel", c.segmentHook), c
}

func checkC24(r *Report) {
	r.minOb = 8
	mining(r)
}

func checkC25(r *Report) {
	r.minOb = 8
	mining(r)
	c := findPredCompiler(r)
	if c == nil {
		return
	}
	fn := evalPkg.Func("NewMiningModel")
	guarded(r, "compile", func() {
		args := paramTerms(fn)
		var md *Term
		for i, p := range fn.Params {
			if t := modType("MiningModel"); typeKey(derefType(p.Type())) == typeKey(t) {
				md = args[i]
			}
		}
		c.segments(r, fn, args, md)
	})
}

func mining(r *Report) {
	e := findPredEngine(r)
	if e == nil {
		return
	}
	l, c := miningModels(r)
	mt := modType("MiningModel")
	row := mk("res", "0", evType("DataRow"), mk("prepared", "", nil))
	for _, b := range l {
		types := treeFieldTypes(b.st, b.m, derefType(b.eval.Params[0].Type()))
		if types == nil {
			r.undecided("types", posString(b.eval.Pos()), "a mining model has no declared types")
			return
		}
		sA, sT := fieldByName(b.mdl, mt, "Segmentation")
		mA, mT := fieldByName(sA, sT, "MultipleModelMethod")
		for _, m := range []struct{ method, fn string }{{"Sum", "Sum"}, {"Average", "Average"}, {"ModelChain", "Chain"}, {"SelectFirst", "First"}} {
			m := m
			spec := func(name string) runner { return e.spec(name, b.mdl, row, types) }
			mv := modConst("MultipleModelMethod" + m.method)
			if !b.st.f.clone().assume(tEq(b.st.load(mA, mT), mv, mT), true) {
				continue
			}
			guarded(r, m.method, func() {
				compare(r, m.method, "MiningModel.Evaluate ("+m.method+")", true, runFn(b.eval, b.evalArgs, "e"), spec(m.fn), pairOpt{
					hook: func(x *Exec) {
						c.segmentHook(x)
						e.hook(x)
						hookSegments(x)
						f := evalPkg.Func("HandleInput")
						x.hooks[fullName(f)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
							return []Outcome{{st: st, ret: []*Term{row, tNil}}}
						}
					},
					heap: b.st, pos: b.eval.Pos(), min: 1, alts: specAlts(m.fn, spec),
					pre: func(x *Exec, st *State) bool {
						return st.f.assume(tEq(st.load(mA, mT), mv, mT), true)
					},
				})
			})
		}
	}
}

func checkC28(r *Report) {
	r.minOb = 2
	l, _ := miningModels(r)
	hi := evalPkg.Func("HandleInput")
	if hi == nil {
		r.undecided("anchor", "", "evaluation.HandleInput not found")
		return
	}
	ri := paramOf(hi, evType("DataRow"))
	for _, b := range l {
		b := b
		guarded(r, "impute", func() {
			x := newExec()
			n := 0
			x.hooks[fullName(hi)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
				n++
				got := st.reify(args[ri], 0)
				imputed := func(spec string) []Outcome {
					y := newExec()
					s0 := newState(y)
					s0.inherit(b.st)
					s0.f = st.f.clone()
					return y.run(specFn(spec), []*Term{b.mdl, b.row}, nil, s0, "s")
				}
				as := func(spec string) bool {
					l := imputed(spec)
					for _, s := range l {
						if !sameTerm(s.st.f, got, s.st.reify(s.ret[0], 0)) {
							return false
						}
					}
					return len(l) > 0
				}
				other := !as("Impute") && as("Impute2")
				for _, s := range imputed("Impute") {
					want := s.st.reify(s.ret[0], 0)
					if !r.check(other || sameTerm(s.st.f, got, want), "impute", posString(ins.Pos()), "the row derived fields are computed on is %s where %s is required", cut(got.String()), cut(want.String())) {
						debugPair("impute", s.st.f, got, want)
					}
				}
				// nothing after this matters here
				return []Outcome{{st: st, ret: []*Term{tNil, x.newErr("", ins)}}}
			}
			st := newState(x)
			st.inherit(b.st)
			outs := x.run(b.eval, b.evalArgs, nil, st, "e")
			r.covered(x)
			r.paths += len(outs)
			r.check(n > 0, "impute:called", posString(b.eval.Pos()), "MiningModel.Evaluate does not compute derived fields")
		})
	}
}

func init() {
	checks["C24"] = checkDef{checkC24, "abstract interpretation with loop summaries of Evaluate per combination method, compared with a reference under every path's facts"}
	checks["C25"] = checkDef{checkC25, "abstract interpretation with loop summaries of segment selection and of segment compilation, compared with a reference under every path's facts"}
	checks["C28"] = checkDef{checkC28, "abstract interpretation of the imputed row, compared with a reference under every path's facts"}
}

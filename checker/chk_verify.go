package main

// C32: model verification.

import (
	"golang.org/x/tools/go/ssa"
)

// hookEvaluate makes what a model predicts a function of the model and row.
func hookEvaluate(x *Exec) {
	hook := func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		m := args[0]
		for m.op == "iface" {
			m = m.args[0]
		}
		ra := []*Term{m, st.reify(args[1], 0)}
		return []Outcome{{st: st, ret: opaqueResults("predict", "", method("TreeModel", "Evaluate").Signature, ra)}}
	}
	x.invokeHooks[modPath+"/evaluation.Model.Evaluate"] = hook
	for _, k := range []string{"TreeModel", "MiningModel", "RegressionModel"} {
		if f := method(k, "Evaluate"); f != nil {
			x.hooks[fullName(f)] = hook
		}
	}
}

func checkC32(r *Report) {
	r.minOb = 6
	for _, k := range []struct{ kind, spec string }{{"TreeModel", "VerifyTree"}, {"MiningModel", "VerifyMining"}, {"RegressionModel", "VerifyRegression"}} {
		k := k
		vf := method(k.kind, "Verify")
		if vf == nil {
			r.undecided(k.kind, "", "%s.Verify not found", k.kind)
			continue
		}
		c := findPredCompiler(r)
		if c == nil {
			return
		}
		hook := func(x *Exec) {}
		if k.kind == "MiningModel" {
			hook = c.segmentHook
		}
		if k.kind == "TreeModel" {
			hook = hookNodes
		}
		for _, b := range construct(r, k.kind, hook) {
			b := b
			guarded(r, k.kind, func() {
				spec := func(n string) runner { return runFn(specFn(n), []*Term{b.m, b.mdl}, "s") }
				compare(r, k.kind, k.kind+".Verify", true, runFn(vf, []*Term{b.m}, "e"), spec(k.spec), pairOpt{
					hook: hookEvaluate, heap: b.st, pos: vf.Pos(), min: 2, only: "errors", alts: specAlts(k.spec, spec),
				})
			})
		}
	}
}

// hookNodes leaves node construction out.
func hookNodes(x *Exec) {
	nb, _ := nodeBuilder(newReport("nodes"))
	if nb == nil {
		return
	}
	x.hooks[fullName(nb)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		return []Outcome{{st: st, ret: []*Term{mk("tree", "", resTypes(nb.Signature)[0]), tNil}}}
	}
}

func init() {
	checks["C32"] = checkDef{checkC32, "abstract interpretation with loop summaries of Verify, compared with a reference under every path's facts"}
}

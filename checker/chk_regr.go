package main

// C29, C30, C31: regression models.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// built is a successfully constructed model.
type built struct {
	st           *State
	m            *Term // the evaluator
	mdl, dd, td  *Term
	ctor, eval   *ssa.Function
	row          *Term
	evalArgs     []*Term
	constructors []Outcome
}

// construct runs New<kind> and returns every successful outcome.
func construct(r *Report, kind string, hook func(x *Exec)) []*built {
	fn := evalPkg.Func("New" + kind)
	ev := method(kind, "Evaluate")
	if fn == nil || ev == nil {
		r.undecided(kind, "", "New%s or its Evaluate not found", kind)
		return nil
	}
	x := newExec()
	if hook != nil {
		hook(x)
	}
	st := newState(x)
	args := paramTerms(fn)
	for _, a := range args {
		st.f.assume(tEq(a, tNil, a.typ), false)
	}
	b0 := built{ctor: fn, eval: ev}
	for i, p := range fn.Params {
		switch {
		case types.Identical(p.Type(), types.NewPointer(modType("DataDictionary"))):
			b0.dd = args[i]
		case types.Identical(p.Type(), types.NewPointer(modType("TransformationDictionary"))):
			b0.td = args[i]
		case types.Identical(p.Type(), types.NewPointer(modType(kind))):
			b0.mdl = args[i]
		}
	}
	var l []*built
	for _, o := range x.run(fn, args, nil, st, "n") {
		if knownNonNil(o.st, o.ret[1]) {
			continue
		}
		b := b0
		b.st, b.m = o.st, o.ret[0]
		b.evalArgs = append([]*Term{}, paramTerms(ev)...)
		b.evalArgs[0] = o.ret[0]
		b.row = b.evalArgs[1]
		l = append(l, &b)
	}
	r.covered(x)
	if len(l) == 0 {
		r.undecided(kind, posString(fn.Pos()), "New%s never succeeds", kind)
	}
	return l
}

// hookInput makes the preparation of the row a function of the row and of
// the declarations.
func hookInput(x *Exec) {
	f := evalPkg.Func("HandleInput")
	if f == nil {
		return
	}
	x.hooks[fullName(f)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		var ra []*Term
		for _, a := range args {
			ra = append(ra, a)
			if a.typ != nil && isMap(a.typ) {
				ra[len(ra)-1] = st.reify(a, 0)
			}
		}
		r := opaqueResults("input", "", f.Signature, ra)
		st.event(&Event{kind: "input", args: ra, ret: r, ins: ins, fn: ins.Parent()})
		return []Outcome{{st: st, ret: r}}
	}
}

var linkMethods = []string{"None", "Softmax", "Logit", "Exp", "Cloglog", "Cauchit", "Simplemax"}

// regression compares Evaluate with its reference for a kind of model.
func regression(r *Report, key, function string, fields int, method string, b *built, tables bool) {
	mt := modType("RegressionModel")
	fnA, fnT := fieldByName(b.mdl, mt, "FunctionName")
	mA, mT := fieldByName(b.mdl, mt, "RegressionNormalizationMethod")
	oA, oT := fieldByName(b.mdl, mt, "Output")
	fA, fT := fieldByName(oA, oT, "Fields")
	guarded(r, key, func() {
		compare(r, key, "RegressionModel.Evaluate ("+key+")", true, runFn(b.eval, b.evalArgs, "e"), runFn(specFn("Regression"), []*Term{b.mdl, b.dd, b.td, b.row}, "s"), pairOpt{
			hook: hookInput, heap: b.st, pos: b.eval.Pos(),
			pre: func(x *Exec, st *State) bool {
				ok := st.f.assume(tEq(st.load(fnA, fnT), modConst("MiningFunction"+function), fnT), true)
				mv := st.load(mA, mT)
				if method != "" {
					ok = ok && st.f.assume(tEq(mv, modConst("RegressionNormalizationMethod"+method), mT), true)
				}
				n := tLen(st.load(fA, fT))
				switch fields {
				case 2:
					ok = ok && st.f.assume(tEqInt(n, cInt(2)), true)
				case -2:
					ok = ok && st.f.assume(tEqInt(n, cInt(2)), false)
				}
				return ok
			},
		})
	})
}

func regressionModels(r *Report) []*built {
	return construct(r, "RegressionModel", hookInput)
}

// possible: the constructed model may declare the method.
func possible(b *built, field, typ, c string) bool {
	a, t := fieldByName(b.mdl, modType("RegressionModel"), field)
	f := b.st.f.clone()
	return f.assume(tEq(b.st.load(a, t), modConst(typ+c), t), true)
}

func checkC29(r *Report) {
	r.minOb = 20
	for _, b := range regressionModels(r) {
		for _, m := range linkMethods {
			if !possible(b, "RegressionNormalizationMethod", "RegressionNormalizationMethod", m) {
				continue
			}
			if possible(b, "FunctionName", "MiningFunction", "Regression") {
				regression(r, "regression:"+m, "Regression", 0, m, b, false)
			}
			if possible(b, "FunctionName", "MiningFunction", "Classification") {
				regression(r, "binary:"+m, "Classification", 2, m, b, false)
			}
		}
	}
}

func checkC30(r *Report) {
	checkC29(r)
}

func checkC31(r *Report) {
	r.minOb = 10
	for _, b := range regressionModels(r) {
		for _, m := range linkMethods {
			if !possible(b, "RegressionNormalizationMethod", "RegressionNormalizationMethod", m) || !possible(b, "FunctionName", "MiningFunction", "Classification") {
				continue
			}
			regression(r, "multiclass:"+m, "Classification", -2, m, b, false)
		}
	}
}

func init() {
	checks["C29"] = checkDef{checkC29, "abstract interpretation of Evaluate per normalization method, compared with a reference under every path's facts"}
	checks["C30"] = checkDef{checkC30, "abstract interpretation with loop summaries of Evaluate, compared with a reference under every path's facts"}
	checks["C31"] = checkDef{checkC31, "abstract interpretation with loop summaries of Evaluate, compared with a reference under every path's facts"}
}

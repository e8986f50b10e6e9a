package main

// C26 (built-in functions) and C27 (expressions and derived fields).

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// exprEngine is the exported expression evaluator.
func exprEngine(r *Report) *ssa.Function {
	f := evalPkg.Func("HandleExpression")
	if f == nil {
		r.undecided("anchor", "", "evaluation.HandleExpression not found")
	}
	return f
}

// hookExpr makes the evaluation of sub-expressions a function of the
// expression and the row.
func hookExpr(x *Exec) {
	f := evalPkg.Func("HandleExpression")
	ei, ri := paramOf(f, modType("Expression")), paramOf(f, evType("DataRow"))
	x.hooks[fullName(f)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		ra := []*Term{args[ei], st.reify(args[ri], 0)}
		r := opaqueResults("expr", "", f.Signature, ra)
		st.event(&Event{kind: "expr", args: ra, ret: r, ins: ins, fn: ins.Parent()})
		return []Outcome{{st: st, ret: r}}
	}
}

func checkC26(r *Report) {
	r.minOb = 30
	f := exprEngine(r)
	if f == nil {
		return
	}
	pt := types.NewPointer(modType("Apply"))
	p := mk("param", "apply", pt)
	args := paramTerms(f)
	ei := paramOf(f, modType("Expression"))
	impl := append([]*Term{}, args...)
	impl[ei] = mk("iface", typeKey(pt), nil, p)
	spec := append([]*Term{}, args...)
	spec[ei] = p
	names := []string{"sum", "+", "-", "*", "/", "isMissing", "isNotMissing", "if"}
	fa, ft := fieldByName(p, modType("Apply"), "Function")
	ea, et := fieldByName(p, modType("Apply"), "Expressions")
	if fa == nil || ea == nil {
		r.undecided("fields", "", "models.Apply has lost Function or Expressions")
		return
	}
	for _, n := range append(append([]string{}, names...), "") {
		n := n
		sizes := []int64{-1}
		if n != "" && n != "sum" {
			sizes = []int64{0, 1, 2, 3, 4} // 4 stands for more
		}
		for _, size := range sizes {
			size := size
			key := "apply:" + n
			if n == "" {
				key = "apply:other"
			}
			if size >= 0 {
				key += ":" + string(rune('0'+size))
			}
			guarded(r, key, func() {
				compare(r, key, "Apply function \""+n+"\"", true, runFn(f, impl, "e"), runFn(specFn("Apply"), spec, "s"), pairOpt{
					hook: hookExpr, pos: f.Pos(), min: 1,
					pre: func(x *Exec, st *State) bool {
						ok := st.f.assume(tEq(p, tNil, p.typ), false)
						fn := st.load(fa, ft)
						for _, m := range names {
							if n == "" || m == n {
								ok = st.f.assume(tEq(fn, cStr(m), ft), m == n) && ok
							}
						}
						ln := tLen(st.load(ea, et))
						if size == 4 {
							ok = st.f.assume(tLe0(tSub(cInt(4), ln, false)), true) && ok
						} else if size >= 0 {
							ok = st.f.assume(tEqInt(ln, cInt(size)), true) && ok
						}
						return ok
					},
				})
			})
		}
	}
}

func checkC27(r *Report) {
	r.minOb = 10
	f := exprEngine(r)
	hi := evalPkg.Func("HandleInput")
	if f == nil || hi == nil {
		r.undecided("anchor", "", "evaluation.HandleInput not found")
		return
	}
	args := paramTerms(f)
	ei, ri := paramOf(f, modType("Expression")), paramOf(f, evType("DataRow"))
	supported := map[string]bool{"Apply": true}
	for _, k := range []string{"FieldRef", "Constant", "MapValues"} {
		k := k
		supported[k] = true
		guarded(r, k, func() {
			pt := types.NewPointer(modType(k))
			p := mk("param", "expr:"+k, pt)
			impl := append([]*Term{}, args...)
			impl[ei] = mk("iface", typeKey(pt), nil, p)
			sp := []*Term{p}
			if k != "Constant" {
				sp = append(sp, args[ri])
			}
			compare(r, k, "a "+k+" expression", true, runFn(f, impl, "e"), runFn(specFn(k), sp, "s"), pairOpt{
				hook: hookExpr, pos: f.Pos(), min: 1,
				pre: func(x *Exec, st *State) bool { return st.f.assume(tEq(p, tNil, p.typ), false) },
			})
		})
	}
	it, _ := modType("Expression").Underlying().(*types.Interface)
	for _, n := range modPkg.Pkg.Scope().Names() {
		tn, ok := modPkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || supported[n] || isIface(tn.Type()) || it == nil || !types.Implements(types.NewPointer(tn.Type()), it) {
			continue
		}
		n := n
		guarded(r, "unsupported:"+n, func() {
			pt := types.NewPointer(tn.Type())
			impl := append([]*Term{}, args...)
			impl[ei] = mk("iface", typeKey(pt), nil, mk("param", "expr:"+n, pt))
			compare(r, "unsupported:"+n, "a "+n+" expression", true, runFn(f, impl, "e"), runFn(specFn("Unsupported"), impl[ei:ei+1], "s"), pairOpt{
				hook: hookExpr, pos: f.Pos(), min: 1,
			})
		})
	}
	guarded(r, "nil", func() {
		impl := append([]*Term{}, args...)
		impl[ei] = tNil
		compare(r, "nil", "an absent expression", true, runFn(f, impl, "e"), runFn(specFn("Unsupported"), impl[ei:ei+1], "s"), pairOpt{hook: hookExpr, pos: f.Pos(), min: 1})
	})
	ha := paramTerms(hi)
	var lt *Term
	for i, p := range hi.Params {
		if types.Identical(p.Type(), types.NewPointer(modType("LocalTransformations"))) {
			lt = ha[i]
		}
	}
	for _, withTD := range []bool{true, false} {
		withTD := withTD
		key := "HandleInput:td"
		if !withTD {
			key = "HandleInput:notd"
		}
		guarded(r, key, func() {
			compare(r, key, "HandleInput", true, runFn(hi, ha, "e"), runFn(specFn("Input"), ha, "s"), pairOpt{
				hook: hookExpr, pos: hi.Pos(), min: 1,
				alts: specAlts("Input", func(n string) runner { return runFn(specFn(n), ha, "s") }),
				pre: func(x *Exec, st *State) bool {
					ok := st.f.assume(tEq(lt, tNil, lt.typ), false)
					for i, p := range hi.Params {
						if types.Identical(p.Type(), types.NewPointer(modType("TransformationDictionary"))) {
							ok = st.f.assume(tEq(ha[i], tNil, ha[i].typ), !withTD) && ok
						}
					}
					return ok
				},
			})
		})
	}
}

func init() {
	checks["C26"] = checkDef{checkC26, "abstract interpretation of Apply per function name and argument count, compared with a reference under every path's facts"}
	checks["C27"] = checkDef{checkC27, "abstract interpretation of expressions and of derived field computation, compared with a reference under every path's facts"}
}

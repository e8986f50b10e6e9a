package main

// C07: the typed accessors of models.ArrayType.

import (
	"golang.org/x/tools/go/ssa"
)

const shellParse = "github.com/mattn/go-shellwords.Parse"

// hookShellwords: Parse gives a list and no error, or an error and no list.
func hookShellwords(x *Exec) {
	x.hooks[shellParse] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		f := ins.Common().StaticCallee()
		rt := resTypes(f.Signature)
		list, err := mk("words", "", rt[0], args[0]), mk("wordserr", "", rt[1], args[0])
		var r []Outcome
		for _, b := range x.fork(st, tEq(err, tNil, errT)) {
			st.event(&Event{kind: "ext", note: shellParse, args: args, ret: []*Term{list, err}, ins: ins, fn: ins.Parent()})
			if b.val {
				if !b.st.f.assume(tEq(list, tNil, rt[0]), false) {
					continue
				}
				r = append(r, Outcome{st: b.st, ret: []*Term{list, tNil}})
			} else {
				r = append(r, Outcome{st: b.st, ret: []*Term{tNil, err}})
			}
		}
		return r
	}
}

func checkC07(r *Report) {
	r.minOb = 12
	for _, a := range []string{"Strings", "Int64s", "Float64s"} {
		a := a
		get, want, m := specFn("Get"+a), specFn("Want"+a), methodOf(modType("ArrayType"), a)
		if get == nil || m == nil {
			r.undecided(a, "", "models.ArrayType.%s not found", a)
			continue
		}
		guarded(r, a, func() {
			args := paramTerms(get)
			compare(r, a, "ArrayType."+a+" (called twice)", false, runFn(get, args, "e"), runFn(want, args, "s"), pairOpt{
				hook: hookShellwords, pos: m.Pos(), min: 3,
			})
		})
	}
}

func init() {
	checks["C07"] = checkDef{checkC07, "abstract interpretation of two consecutive calls of every accessor, compared with a reference under every path's facts"}
}

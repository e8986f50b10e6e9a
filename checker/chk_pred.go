package main

// Predicates: C18 (simple), C19 (compound), C20 (every kind, sets).

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type predEngine struct {
	fn         *ssa.Function // evaluates any predicate
	pi, ri, ti int           // parameters: predicate, row, field types
	T, F, U    *Term
}

func fieldTypesType() types.Type {
	return types.NewMap(modType("FieldName"), modType("DataType"))
}

func isFieldTypes(t types.Type) bool {
	return types.Identical(types.Unalias(t).Underlying(), fieldTypesType())
}

// findPredEngine locates the function that evaluates any predicate by its
// signature, and learns the encoding of true, false and unknown from it.
func findPredEngine(r *Report) *predEngine {
	iface, row := modType("Predicate"), evType("DataRow")
	if iface == nil || row == nil {
		r.undecided("anchor", "", "types models.Predicate and evaluation.DataRow not found")
		return nil
	}
	l := funcsWhere(evalPkg, func(f *ssa.Function, sig *types.Signature) bool {
		return sig.Results().Len() == 1 && isInt(sig.Results().At(0).Type()) && paramOf(f, iface) >= 0 && paramOf(f, row) >= 0
	})
	l = outermost(l)
	var e *predEngine
	for _, f := range l {
		ti := -1
		for i, p := range f.Params {
			if isFieldTypes(p.Type()) {
				ti = i
			}
		}
		e = &predEngine{fn: f, pi: paramOf(f, iface), ri: paramOf(f, row), ti: ti}
		break
	}
	if e == nil || len(l) > 1 {
		r.undecided("anchor", "", "%d functions of package evaluation evaluate a models.Predicate on a DataRow, expected one", len(l))
		return nil
	}
	constOf := func(el string) *Term {
		x := newExec()
		outs := x.run(e.fn, e.args(predOf(el)), nil, newState(x), "c")
		r.covered(x)
		var v *Term
		for _, o := range outs {
			if v != nil && v != o.ret[0] || !o.ret[0].isConst() {
				return nil
			}
			v = o.ret[0]
		}
		return v
	}
	e.T, e.F = constOf("True"), constOf("False")
	if e.T == nil || e.F == nil || e.T == e.F {
		r.check(false, "encoding", posString(e.fn.Pos()), "%s does not give the True and the False element two different constant results", e.fn.Name())
		return nil
	}
	for _, n := range enumDomain(mk("k", "?", e.fn.Signature.Results().At(0).Type())) {
		if c := cInt(n); c != e.T && c != e.F {
			if e.U != nil {
				r.undecided("encoding", posString(e.fn.Pos()), "the result type of %s has more than three values", e.fn.Name())
				return nil
			}
			e.U = c
		}
	}
	if e.U == nil {
		r.undecided("encoding", posString(e.fn.Pos()), "no value for unknown found")
		return nil
	}
	return e
}

// predOf is a symbolic predicate of a given element type.
func predOf(el string) *Term {
	pt := types.NewPointer(modType(el))
	return mk("iface", typeKey(pt), nil, mk("param", "pred:"+el, pt))
}

func predPtr(el string) *Term { return predOf(el).args[0] }

func (e *predEngine) args(pred *Term) []*Term {
	a := paramTerms(e.fn)
	a[e.pi] = pred
	return a
}

func (e *predEngine) row() *Term { return paramTerms(e.fn)[e.ri] }
func (e *predEngine) ftypes() *Term {
	if e.ti < 0 {
		return tNil
	}
	return paramTerms(e.fn)[e.ti]
}

func (e *predEngine) spec(name string, a ...*Term) runner {
	return func(x *Exec, st *State) []Outcome {
		args := append(append([]*Term{}, a...), e.T, e.F, e.U)
		return x.run(specFn(name), args, nil, st, "s")
	}
}

func (e *predEngine) impl(pred *Term) runner {
	return func(x *Exec, st *State) []Outcome {
		// the top call is analysed, members are opaque
		return x.run(e.fn, e.args(pred), nil, st, "e")
	}
}

// hook makes evaluation of member predicates an uninterpreted result.
func (e *predEngine) hook(x *Exec) {
	h := func(pi, ri, ti int) Hook {
		return func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
			if args[pi].op == "iface" && len(x.stack) > 0 && !x.running(e.fn) {
				return nil // the kind of predicate is known: look inside
			}
			ft := tNil
			if ti >= 0 {
				ft = st.reify(args[ti], 0)
			}
			res := mk("predicate", "", e.fn.Signature.Results().At(0).Type(), args[pi], st.reify(args[ri], 0), ft)
			return []Outcome{{st: st, ret: []*Term{res}}}
		}
	}
	x.hooks[fullName(e.fn)] = h(e.pi, e.ri, e.ti)
	if f := specFn("Pred"); f != nil {
		ti := 2
		if e.ti < 0 {
			ti = -1
		}
		x.hooks[fullName(f)] = h(0, 1, ti)
	}
}

func (x *Exec) running(f *ssa.Function) bool {
	for _, g := range x.stack {
		if g == f {
			return true
		}
	}
	return false
}

var literalTypes = []struct {
	dt  string
	typ types.Type
}{
	{"DataTypeBoolean", types.Typ[types.Bool]},
	{"DataTypeDouble", types.Typ[types.Float64]},
	{"DataTypeFloat", types.Typ[types.Float64]},
	{"DataTypeInteger", types.Typ[types.Int64]},
	{"DataTypeString", types.Typ[types.String]},
}

func modConst(name string) *Term {
	c, ok := modPkg.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	return constTerm(ssaConst(c))
}

func ssaConst(c *types.Const) *ssa.Const { return ssa.NewConst(c.Val(), c.Type()) }

func fieldByName(addr *Term, t types.Type, name string) (*Term, types.Type) {
	i, ft := structField(t, name)
	if i < 0 {
		return nil, nil
	}
	return tFaddr(addr, i), ft
}

// assumeType: the field p.Field is declared with data type dt.
func (e *predEngine) assumeType(st *State, p *Term, el string, dt *Term) bool {
	fa, ft := fieldByName(p, modType(el), "Field")
	if fa == nil || e.ti < 0 {
		return false
	}
	key := st.load(fa, ft)
	m := e.ftypes()
	c := st.content(m)
	ok := st.f.assume(mk("has", "", nil, c, key), true)
	ok = st.f.assume(tEq(staticGet(c, key, modType("DataType")), dt, modType("DataType")), true) && ok
	return ok
}

var simpleOps = []string{"Equal", "NotEqual", "LessThan", "LessOrEqual", "GreaterThan", "GreaterOrEqual", "IsMissing", "IsNotMissing"}

func checkC18(r *Report) {
	r.minOb = 80
	e := findPredEngine(r)
	if e == nil {
		return
	}
	p := predPtr("SimplePredicate")
	spT := modType("SimplePredicate")
	opA, opT := fieldByName(p, spT, "Operator")
	rawA, rawT := fieldByName(p, spT, "RawPredicateValue")
	if opA == nil || rawA == nil {
		r.undecided("fields", "", "models.SimplePredicate has lost Operator or RawPredicateValue")
		return
	}
	for _, lt := range literalTypes {
		for _, op := range append(append([]string{}, simpleOps...), "") {
			lt, op := lt, op
			dt := modConst(lt.dt)
			key := lt.dt + ":" + op
			if op == "" {
				key = lt.dt + ":other"
			}
			guarded(r, key, func() {
				compare(r, key, "a simple predicate ("+op+", "+lt.dt+")", false, e.impl(predOf("SimplePredicate")), e.spec("Simple", p, e.row(), dt), pairOpt{
					hook: func(x *Exec) {},
					pos:  e.fn.Pos(),
					pre: func(x *Exec, st *State) bool {
						ok := st.f.assume(tEq(p, tNil, p.typ), false) && e.assumeType(st, p, "SimplePredicate", dt)
						opv := st.load(opA, opT)
						if op != "" {
							ok = ok && st.f.assume(tEq(opv, modConst("SimplePredicateOperator"+op), opT), true)
						} else {
							for _, o := range simpleOps {
								ok = ok && st.f.assume(tEq(opv, modConst("SimplePredicateOperator"+o), opT), false)
							}
						}
						// construction compiled the literal (C09)
						if op != "IsMissing" && op != "IsNotMissing" {
							ok = ok && st.f.assume(tIsType(st.load(rawA, rawT), lt.typ), true)
						}
						return ok
					},
				})
			})
		}
	}
}

func checkC19(r *Report) {
	r.minOb = 10
	e := findPredEngine(r)
	if e == nil {
		return
	}
	p := predPtr("CompoundPredicate")
	t := modType("CompoundPredicate")
	opA, opT := fieldByName(p, t, "BooleanOperator")
	if opA == nil {
		r.undecided("fields", "", "models.CompoundPredicate has lost BooleanOperator")
		return
	}
	for _, op := range []string{"And", "Or", "Xor", "Surrogate"} {
		op := op
		guarded(r, op, func() {
			compare(r, op, "a compound predicate ("+op+")", false, e.impl(predOf("CompoundPredicate")), e.spec("Compound", p, e.row(), e.ftypes()), pairOpt{
				hook: e.hook, pos: e.fn.Pos(),
				alts: specAlts("Compound", func(n string) runner { return e.spec(n, p, e.row(), e.ftypes()) }),
				pre: func(x *Exec, st *State) bool {
					return st.f.assume(tEq(p, tNil, p.typ), false) && st.f.assume(tEq(st.load(opA, opT), modConst("CompoundPredicateOperator"+op), opT), true)
				},
			})
		})
	}
}

func init() {
	checks["C18"] = checkDef{checkC18, "abstract interpretation of the simple predicate per operator and data type, compared with a reference under every path's facts"}
	checks["C19"] = checkDef{checkC19, "abstract interpretation with loop summaries; three-valued logic compared with a reference under every path's facts"}
}

// nodeBuilder finds the function that compiles a models.Node.
func nodeBuilder(r *Report) (fn *ssa.Function, ni int) {
	nt := modType("Node")
	match := func(p types.Type) bool {
		return types.Identical(types.Unalias(p), nt) || types.Identical(types.Unalias(p), types.NewPointer(nt))
	}
	l := funcsWhere(evalPkg, func(f *ssa.Function, sig *types.Signature) bool {
		if sig.Results().Len() != 2 || !returnsError(sig) {
			return false
		}
		if _, ok := isStruct(derefType(sig.Results().At(0).Type())); !ok {
			return false
		}
		n := 0
		for _, p := range f.Params {
			if match(p.Type()) {
				n++
			}
		}
		return n == 1
	})
	l = outermost(l)
	if len(l) != 1 {
		r.undecided("nodes", "", "%d functions of package evaluation compile a models.Node, expected one", len(l))
		return nil, 0
	}
	for i, p := range l[0].Params {
		if match(p.Type()) {
			ni = i
		}
	}
	return l[0], ni
}

func derefType(t types.Type) types.Type {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// testField is the field of the compiled node that holds its predicate test.
func testField(nt types.Type) (int, *types.Signature) {
	s, ok := isStruct(nt)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if sig, ok := s.Field(i).Type().Underlying().(*types.Signature); ok {
			if sig.Params().Len() == 1 && types.Identical(types.Unalias(sig.Params().At(0).Type()), evType("DataRow")) && sig.Results().Len() == 1 {
				return i, sig
			}
		}
	}
	return -1, nil
}

// treeFieldTypes is the map of declared types of a tree model.
func treeFieldTypes(st *State, m *Term, t types.Type) *Term {
	s, ok := isStruct(t)
	if !ok {
		return nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if isFieldTypes(s.Field(i).Type()) {
			return st.load(tFaddr(m, i), s.Field(i).Type())
		}
	}
	return nil
}

func checkC20(r *Report) {
	r.minOb = 25
	e := findPredEngine(r)
	if e == nil {
		return
	}
	// sets
	set := predPtr("SimpleSetPredicate")
	guarded(r, "set", func() {
		compare(r, "set", "a set predicate", false, e.impl(predOf("SimpleSetPredicate")), e.spec("Set", set, e.row()), pairOpt{
			pos: e.fn.Pos(),
			pre: func(x *Exec, st *State) bool { return st.f.assume(tEq(set, tNil, set.typ), false) },
		})
	})
	// nodes
	fn, ni := nodeBuilder(r)
	if fn == nil {
		return
	}
	kinds := []string{"True", "False", "SimplePredicate", "CompoundPredicate", "SimpleSetPredicate"}
	supported := map[string]bool{}
	for _, k := range kinds {
		supported[k] = true
	}
	it := modType("Predicate").Underlying().(*types.Interface)
	for _, n := range modPkg.Pkg.Scope().Names() {
		tn, ok := modPkg.Pkg.Scope().Lookup(n).(*types.TypeName)
		if !ok || tn.IsAlias() || supported[n] || isIface(tn.Type()) {
			continue
		}
		if types.Implements(types.NewPointer(tn.Type()), it) {
			kinds = append(kinds, n)
		}
	}
	kinds = append(kinds, "")
	nt := modType("Node")
	pi, pt := structField(nt, "Predicate")
	if pi < 0 {
		r.undecided("nodes", "", "models.Node has lost Predicate")
		return
	}
	for _, k := range kinds {
		k := k
		guarded(r, "node:"+k, func() {
			args := paramTerms(fn)
			pred := tNil
			if k != "" {
				pred = predOf(k)
			}
			run := func(x *Exec, st *State) []Outcome {
				node := args[ni]
				if _, ok := types.Unalias(fn.Params[ni].Type()).Underlying().(*types.Pointer); ok {
					st.store(tFaddr(node, pi), pred, pt)
				} else {
					s, _ := isStruct(nt)
					fs := make([]*Term, s.NumFields())
					for i := range fs {
						fs[i] = tField(node, i, s.Field(i).Type())
					}
					fs[pi] = pred
					node = tStruct(nt, fs)
				}
				a := append([]*Term{}, args...)
				a[ni] = node
				return x.run(fn, a, nil, st, "e")
			}
			if !supported[k] {
				x := newExec()
				e.hook(x)
				outs := run(x, newState(x))
				r.covered(x)
				r.paths += len(outs)
				for _, o := range outs {
					r.check(knownNonNil(o.st, o.ret[1]), "node:"+k+":rejected", posString(fn.Pos()), "%s accepts a node whose predicate is %q", fn.Name(), k)
				}
				return
			}
			resT := derefType(fn.Signature.Results().At(0).Type())
			ti, _ := testField(resT)
			if ti < 0 {
				r.undecided("node:test", posString(fn.Pos()), "%s has no field holding the predicate test", resT)
				return
			}
			built := false
			x := newExec()
			e.hook(x)
			outs := run(x, newState(x))
			r.covered(x)
			r.paths += len(outs)
			for _, o := range outs {
				if knownNonNil(o.st, o.ret[1]) {
					continue
				}
				n := o.ret[0]
				var test *Term
				if _, ok := types.Unalias(fn.Signature.Results().At(0).Type()).Underlying().(*types.Pointer); ok {
					test = o.st.load(tFaddr(n, ti), resT.Underlying().(*types.Struct).Field(ti).Type())
				} else {
					test = tField(n, ti, resT.Underlying().(*types.Struct).Field(ti).Type())
				}
				if test.op != "closure" && test.op != "fn" {
					r.check(false, "node:"+k+":test", posString(fn.Pos()), "%s: a node with a %s gets the test %s", fn.Name(), k, test)
					continue
				}
				built = true
				row := e.row()
				var ftypes *Term
				for i, p := range fn.Params {
					if _, ok := isStruct(derefType(p.Type())); ok && i != ni {
						if t := treeFieldTypes(o.st, args[i], derefType(p.Type())); t != nil {
							ftypes = t
						}
					}
				}
				if ftypes == nil && e.ti >= 0 {
					ftypes = e.ftypes()
				}
				tf := test.fn.(*ssa.Function)
				compare(r, "node:"+k, "the test of a node with a "+k, false,
					func(x *Exec, st *State) []Outcome { return x.run(tf, []*Term{row}, test.args, st, "t") },
					func(x *Exec, st *State) []Outcome {
						a := e.args(pred)
						if e.ti >= 0 {
							a[e.ti] = ftypes
						}
						return x.run(e.fn, a, nil, st, "s")
					}, pairOpt{hook: e.hook, pos: tf.Pos(), heap: o.st, pre: func(x *Exec, st *State) bool {
						return st.f.assume(tEq(pred.args[0], tNil, pred.args[0].typ), false)
					}})
			}
			r.check(built, "node:"+k+":accepted", posString(fn.Pos()), "%s never accepts a node with a %s predicate", fn.Name(), k)
		})
	}
}

func init() {
	checks["C20"] = checkDef{checkC20, "abstract interpretation of node construction and of the resulting test closures, compared with the predicate evaluator and a reference for sets"}
}

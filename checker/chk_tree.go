package main

// C21, C22, C23, C33: trees.
//
// A node's evaluation is verified by induction on the tree: building a node
// is analysed with its children replaced by a template (what a child keeps of
// its model element is a function of that element), evaluating a node with
// the outcomes of its children uninterpreted, whichever evaluation function
// is called on them; every such function is then itself compared with the
// reference.

import (
	"go/types"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type treeEngine struct {
	e        *predEngine
	c        *predCompiler
	nb       *ssa.Function // builds a node
	ni       int           // its models.Node parameter
	nodeT    types.Type    // the node (struct)
	ptr      bool          // nodes are handled by pointer
	ti       int           // the field with the predicate test
	list, rs types.Type    // result types of an evaluation
	tmpl     []*Term       // fields of a built node, over the builder's parameters; nil: uninterpreted
	building int
	known    bool // children are never unknown
	never    bool // no child is ever true or unknown
}

// outcome is the outcome of a node on a row, uninterpreted.
func (t *treeEngine) outcome(x *Exec, st *State, key, row *Term, lt types.Type) [][3]any {
	rt := t.e.fn.Signature.Results().At(0).Type()
	res := mk("nodeeval", "", nil, key, row)
	l := mk("res", "0", lt, res)
	if t.never {
		return [][3]any{{st, l, t.e.F}}
	}
	if !t.known {
		return [][3]any{{st, l, mk("res", "1", rt, res)}}
	}
	var r [][3]any
	for _, b := range x.fork(st, mk("nodetrue", "", types.Typ[types.Bool], key, row)) {
		v := t.e.F
		if b.val {
			v = t.e.T
		}
		r = append(r, [3]any{b.st, l, v})
	}
	return r
}

const errNodes = "the shape of compiled nodes is not understood: "

func findTrees(r *Report) *treeEngine {
	t := &treeEngine{e: findPredEngine(r), c: findPredCompiler(r)}
	if t.e == nil || t.c == nil {
		return nil
	}
	t.nb, t.ni = nodeBuilder(r)
	if t.nb == nil {
		return nil
	}
	rt := types.Unalias(t.nb.Signature.Results().At(0).Type())
	t.nodeT = derefType(rt)
	_, t.ptr = rt.Underlying().(*types.Pointer)
	t.ti, _ = testField(t.nodeT)
	if t.ti < 0 {
		r.undecided("nodes", posString(t.nb.Pos()), errNodes+"no predicate test in %s", t.nodeT)
		return nil
	}
	ok := true
	guarded(r, "template", func() { ok = t.template(r) })
	if !ok {
		return nil
	}
	return t
}

func (t *treeEngine) fields() *types.Struct {
	s, _ := isStruct(t.nodeT)
	return s
}

// part reads a field of a node value or of a pointer to one.
func (t *treeEngine) part(st *State, n *Term, i int) *Term {
	ft := t.fields().Field(i).Type()
	if t.ptr {
		return st.load(tFaddr(n, i), ft)
	}
	return tField(n, i, ft)
}

// template learns which fields of a node are simple functions of its element.
func (t *treeEngine) template(r *Report) bool {
	x := newExec()
	t.c.segmentHook(x)
	t.e.hook(x)
	t.hookBuild(x)
	t.building = 1
	st := newState(x)
	args := paramTerms(t.nb)
	for i, a := range args {
		if isPtr(a.typ) && i != t.ni {
			st.f.assume(tEq(a, tNil, a.typ), false)
		}
	}
	outs := x.run(t.nb, args, nil, st, "n")
	t.building = 0
	r.covered(x)
	n := t.fields().NumFields()
	t.tmpl = make([]*Term, n)
	first := true
	for _, o := range outs {
		if knownNonNil(o.st, o.ret[1]) {
			continue
		}
		for i := 0; i < n; i++ {
			v := t.part(o.st, o.ret[0], i)
			if !simpleField(t.fields().Field(i).Type()) || v.any(func(y *Term) bool { return y.op == "alloc" || y.op == "closure" || y.op == "lv" || y.op == "rec" }) {
				v = nil
			}
			if first {
				t.tmpl[i] = v
			} else if t.tmpl[i] != v {
				t.tmpl[i] = nil
			}
		}
		first = false
	}
	if first {
		r.undecided("nodes", posString(t.nb.Pos()), "%s never succeeds", t.nb.Name())
	}
	return !first
}

func isPtr(t types.Type) bool {
	if t == nil {
		return false
	}
	_, ok := types.Unalias(t).Underlying().(*types.Pointer)
	return ok
}

// simpleField: values that say nothing about the children.
func simpleField(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Basic, *types.Pointer:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !simpleField(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// node is the built node of a model element, as far as it is known.
func (t *treeEngine) node(st *State, args []*Term, key *Term) *Term {
	sub := map[*Term]*Term{}
	for i, p := range paramTerms(t.nb) {
		sub[p] = args[i]
	}
	s := t.fields()
	fs := make([]*Term, s.NumFields())
	for i := range fs {
		switch {
		case i == t.ti:
			fs[i] = mk("nodetest", "", s.Field(i).Type(), key)
		case t.tmpl != nil && t.tmpl[i] != nil:
			fs[i] = subst(t.tmpl[i], sub)
		default:
			fs[i] = mk("nodepart", strconv.Itoa(i), s.Field(i).Type(), key)
		}
	}
	v := tStruct(t.nodeT, fs)
	if t.ptr {
		return mk("ref", "", types.NewPointer(t.nodeT), v)
	}
	return v
}

// key identifies a node by its model element.
func (t *treeEngine) keyArg(st *State, a *Term, typ types.Type) *Term {
	if isPtr(typ) {
		return st.load(a, modType("Node"))
	}
	return a
}

// hookBuild analyses the building of one node; its children are templates.
func (t *treeEngine) hookBuild(x *Exec) {
	x.hooks[fullName(t.nb)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		key := t.keyArg(st, args[t.ni], t.nb.Params[t.ni].Type())
		if t.building > 0 {
			err := mk("nodeerr", "", errT, key)
			return []Outcome{{st: st, ret: []*Term{t.node(st, args, key), err}}}
		}
		t.building++
		outs := x.run(t.nb, args, nil, st, "root")
		t.building--
		var l []Outcome
		seen := map[*Term]bool{}
		for _, o := range outs {
			if o.panicked {
				continue
			}
			if knownNonNil(o.st, o.ret[1]) {
				l = append(l, o)
				continue
			}
			n := o.ret[0]
			test := mk("nodetest", "", t.fields().Field(t.ti).Type(), key)
			if t.ptr {
				o.st.store(tFaddr(n, t.ti), test, t.fields().Field(t.ti).Type())
			} else {
				s := t.fields()
				fs := make([]*Term, s.NumFields())
				for i := range fs {
					fs[i] = tField(n, i, s.Field(i).Type())
				}
				fs[t.ti] = test
				n = tStruct(t.nodeT, fs)
				if seen[n] {
					continue // differs in the predicate only
				}
				seen[n] = true
			}
			o.ret = []*Term{n, o.ret[1]}
			l = append(l, o)
		}
		return l
	}
}

// evaluators: functions evaluating a node on a row.
func (t *treeEngine) evaluators() map[*ssa.Function][4]int {
	m := map[*ssa.Function][4]int{}
	funcsWhere(evalPkg, func(f *ssa.Function, sig *types.Signature) bool {
		if sig.Results().Len() != 2 {
			return false
		}
		n, row, l, rs := -1, paramOf(f, evType("DataRow")), -1, -1
		for i, p := range f.Params {
			if types.Identical(types.Unalias(derefType(p.Type())), types.Unalias(t.nodeT)) {
				if n >= 0 {
					return false
				}
				n = i
			}
		}
		for i := 0; i < 2; i++ {
			rt := sig.Results().At(i).Type()
			if isSlice(rt) {
				l = i
			}
			if types.Identical(types.Unalias(rt), types.Unalias(t.e.fn.Signature.Results().At(0).Type())) {
				rs = i
			}
		}
		if n >= 0 && row >= 0 && l >= 0 && rs >= 0 {
			m[f] = [4]int{n, row, l, rs}
		}
		return false
	})
	return m
}

func (t *treeEngine) keyOf(st *State, n *Term, isPointer bool) *Term {
	ft := t.fields().Field(t.ti).Type()
	var v *Term
	if isPointer {
		v = st.load(tFaddr(n, t.ti), ft)
	} else {
		v = tField(n, t.ti, ft)
	}
	if v.op != "nodetest" {
		panic(undecided(errNodes + v.String()))
	}
	return v.args[0]
}

// hookEval makes the outcome of a node uninterpreted, except that the
// functions are looked into as long as they pass the root on.
func (t *treeEngine) hookEval(x *Exec, root *Term, called func(f *ssa.Function)) {
	for f, ix := range t.evaluators() {
		f, ix := f, ix
		x.hooks[fullName(f)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
			key := t.keyOf(st, args[ix[0]], isPtr(f.Params[ix[0]].Type()))
			if key == root {
				for _, g := range x.stack {
					if g == f {
						panic(undecided(f.Name() + " calls itself on the same node"))
					}
				}
				return nil
			}
			called(f)
			var l []Outcome
			for _, o := range t.outcome(x, st, key, st.reify(args[ix[1]], 0), f.Signature.Results().At(ix[2]).Type()) {
				ret := make([]*Term, 2)
				ret[ix[2]], ret[ix[3]] = o[1].(*Term), o[2].(*Term)
				l = append(l, Outcome{st: o[0].(*State), ret: ret})
			}
			return l
		}
	}
	if f := specFn("Child"); f != nil {
		x.hooks[fullName(f)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
			var l []Outcome
			for _, o := range t.outcome(x, st, args[0], st.reify(args[1], 0), f.Signature.Results().At(0).Type()) {
				l = append(l, Outcome{st: o[0].(*State), ret: []*Term{o[1].(*Term), o[2].(*Term)}})
			}
			return l
		}
	}
	if f := specFn("Test"); f != nil {
		x.hooks[fullName(f)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
			ft := t.fields().Field(t.ti).Type()
			res := mk("callv", "", nil, mk("nodetest", "", ft, args[0]), st.reify(args[1], 0))
			return []Outcome{{st: st, ret: []*Term{mk("res", "0", t.e.fn.Signature.Results().At(0).Type(), res)}}}
		}
	}
}

func (t *treeEngine) models(r *Report) []*built {
	return construct(r, "TreeModel", func(x *Exec) {
		t.c.segmentHook(x)
		t.e.hook(x)
		t.hookBuild(x)
	})
}

// rootOf finds the root node in the evaluator and the element it stands for.
func (t *treeEngine) rootOf(b *built) (node, key *Term, ptr bool) {
	mt := derefType(b.eval.Params[0].Type())
	s, ok := isStruct(mt)
	if !ok {
		return nil, nil, false
	}
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if !types.Identical(types.Unalias(derefType(ft)), types.Unalias(t.nodeT)) {
			continue
		}
		if isPtr(ft) {
			node = b.st.load(tFaddr(b.m, i), ft)
			return node, t.keyOf(b.st, node, true), true
		}
		node = b.st.load(tFaddr(b.m, i), ft)
		return node, t.keyOf(b.st, node, false), false
	}
	return nil, nil, false
}

var strategies = []struct {
	name, spec string
	lists      string // outcomes whose scores are used by the caller
}{
	{"None", "NodeNone", "T"},
	{"", "NodeNone", "T"},
	{"NullPrediction", "NodeNull", "T"},
	{"LastPrediction", "NodeLast", "T"},
	{"DefaultChild", "NodeDefault", "TFU"},
	{"WeightedConfidence", "NodeWeighted", "TU"},
	{"AggregateNodes", "NodeAggregate", "TU"},
}

func checkC21(r *Report) { descend(r, true, false) }
func checkC22(r *Report) { descend(r, false, false) }
func checkC33(r *Report) { descend(r, false, true) }

func descend(r *Report, known, never bool) {
	r.minOb = 20
	t := findTrees(r)
	if t == nil {
		return
	}
	t.known, t.never = known, never
	var all []string
	for _, s := range strategies {
		if s.name != "" {
			all = append(all, s.name)
		}
	}
	for _, b := range t.models(r) {
		node, root, isRef := t.rootOf(b)
		if node == nil {
			r.undecided("root", posString(b.eval.Pos()), "the evaluator of a tree has no root node")
			return
		}
		sA, sT := fieldByName(b.mdl, modType("TreeModel"), "MissingValueStrategy")
		for _, s := range strategies {
			s := s
			key := s.name
			if key == "" {
				key = "other"
			}
			pre := func(x *Exec, st *State) bool {
				if never {
					// the node itself is true: what it gives is its own scores
					row := st.reify(b.row, 0)
					test := mk("res", "0", t.e.fn.Signature.Results().At(0).Type(), mk("callv", "", nil, mk("nodetest", "", t.fields().Field(t.ti).Type(), root), row))
					if !st.f.assume(tEq(test, t.e.T, test.typ), true) {
						return false
					}
				}
				v := st.load(sA, sT)
				if s.name != "" {
					return st.f.assume(tEq(v, modConst("MissingValueStrategy"+s.name), sT), true)
				}
				ok := true
				for _, o := range all {
					ok = ok && st.f.assume(tEq(v, modConst("MissingValueStrategy"+o), sT), false)
				}
				return ok
			}
			// the functions a tree of this strategy evaluates its root with
			var work []*ssa.Function
			known := map[*ssa.Function]bool{}
			add := func(f *ssa.Function) {
				if !known[f] {
					known[f] = true
					work = append(work, f)
				}
			}
			guarded(r, key, func() {
				x := newExec()
				hookRow(x)
				t.e.hook(x)
				t.hookEval(x, nil, add)
				st := newState(x)
				st.inherit(b.st)
				if pre(x, st) {
					x.run(b.eval, b.evalArgs, nil, st, "e")
				}
				if len(work) == 0 {
					r.undecided(key, posString(b.eval.Pos()), "TreeModel.Evaluate calls no function that evaluates a node")
				}
			})
			for i := 0; i < len(work); i++ {
				f := work[i]
				guarded(r, key, func() { t.evaluator(r, key, f, b, node, isRef, root, s.spec, s.lists, pre, add) })
			}
		}
	}
}

// evaluator compares one function evaluating a node with its reference.
func (t *treeEngine) evaluator(r *Report, key string, f *ssa.Function, b *built, node *Term, isRef bool, root *Term, spec, lists string, pre func(x *Exec, st *State) bool, add func(f *ssa.Function)) {
	ix := t.evaluators()[f]
	args := paramTerms(f)
	args[ix[1]] = b.row
	for i, p := range f.Params {
		if i != ix[0] && i != ix[1] {
			if types.Identical(types.Unalias(p.Type()), types.Unalias(b.eval.Params[0].Type())) {
				args[i] = b.m
			} else {
				panic(undecided("unknown parameter " + p.Name() + " of " + f.Name()))
			}
		}
	}
	if isPtr(f.Params[ix[0]].Type()) && !isRef {
		// the root inside the evaluator, or a copy
		a := mk("param", p0name(f, ix[0]), f.Params[ix[0]].Type())
		args[ix[0]] = a
		p := pre
		pre = func(x *Exec, st *State) bool {
			s := t.fields()
			for i := 0; i < s.NumFields(); i++ {
				st.store(tFaddr(a, i), tField(node, i, s.Field(i).Type()), s.Field(i).Type())
			}
			return p(x, st) && st.f.assume(tEq(a, tNil, a.typ), false)
		}
	} else if isRef && !isPtr(f.Params[ix[0]].Type()) {
		args[ix[0]] = b.st.load(node, t.nodeT)
	} else {
		args[ix[0]] = node
	}
	results := func(st *State, l, res *Term) []*Term {
		for _, c := range []struct {
			n string
			v *Term
		}{{"T", t.e.T}, {"F", t.e.F}, {"U", t.e.U}} {
			if v, ok := st.f.decide(tEq(res, c.v, t.e.fn.Signature.Results().At(0).Type())); ok && v {
				for _, y := range lists {
					if string(y) == c.n {
						return []*Term{c.v, st.reify(st.listValue(l), 0)}
					}
				}
				return []*Term{c.v}
			}
		}
		return []*Term{res, st.reify(st.listValue(l), 0)}
	}
	hook := func(x *Exec) {
		t.e.hook(x)
		t.hookEval(x, root, add)
	}
	ref := func(spec string) runner {
		return func(x *Exec, st *State) []Outcome {
			return x.run(specFn(spec), []*Term{root, b.mdl, b.dd, b.row, t.e.T, t.e.F, t.e.U}, nil, st, "s")
		}
	}
	compare(r, key+":"+f.Name(), f.Name()+" ("+key+")", false, runFn(f, args, "e"), ref(spec), pairOpt{
		alts: specAlts(spec, ref),
		hook: hook, heap: b.st, pos: f.Pos(), min: 1, pre: pre,
		post:  func(st *State, o Outcome) []*Term { return results(st, o.ret[ix[2]], o.ret[ix[3]]) },
		spost: func(st *State, o Outcome) []*Term { return results(st, o.ret[0], o.ret[1]) },
	})
}

func p0name(f *ssa.Function, i int) string { return f.Params[i].Name() }

// listValue is the content of a list, however it is stored.
func (st *State) listValue(l *Term) *Term {
	if isEmptyList(l) {
		return tNil
	}
	if v := st.listOf(l); v != nil {
		if isEmptyList(v) {
			return tNil
		}
		return v
	}
	return l
}

// hookRow makes the prepared row a constant.
func hookRow(x *Exec) {
	row := mk("res", "0", evType("DataRow"), mk("prepared", "", nil))
	f := evalPkg.Func("HandleInput")
	x.hooks[fullName(f)] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		return []Outcome{{st: st, ret: []*Term{row, tNil}}}
	}
}

func checkC23(r *Report) {
	r.minOb = 6
	t := findTrees(r)
	if t == nil {
		return
	}
	for _, b := range t.models(r) {
		b := b
		row := mk("res", "0", evType("DataRow"), mk("prepared", "", nil))
		for _, fn := range []string{"Classification", "Regression"} {
			fn := fn
			fA, fT := fieldByName(b.mdl, modType("TreeModel"), "FunctionName")
			if !b.st.f.clone().assume(tEq(b.st.load(fA, fT), modConst("MiningFunction"+fn), fT), true) {
				continue
			}
			guarded(r, fn, func() {
				spec := func(name string) runner { return t.e.spec(name, b.mdl, row) }
				compare(r, fn, "TreeModel.Evaluate ("+fn+")", true, runFn(b.eval, b.evalArgs, "e"), spec("Tree"), pairOpt{
					alts: specAlts("Tree", spec),
					hook: func(x *Exec) {
						hookRow(x)
						t.e.hook(x)
						t.hookEval(x, nil, func(*ssa.Function) {})
					},
					heap: b.st, pos: b.eval.Pos(), min: 1,
					pre: func(x *Exec, st *State) bool {
						return st.f.assume(tEq(st.load(fA, fT), modConst("MiningFunction"+fn), fT), true)
					},
				})
			})
		}
	}
}

func init() {
	checks["C21"] = checkDef{checkC21, "abstract interpretation with loop summaries of every function that evaluates a node, per strategy, by induction on the tree, compared with a reference under every path's facts"}
	checks["C22"] = checkDef{checkC22, "abstract interpretation with loop summaries of every function that evaluates a node, per strategy, by induction on the tree, compared with a reference under every path's facts"}
	checks["C33"] = checkDef{checkC33, "abstract interpretation with loop summaries of node construction and of a node's own scores, compared with a reference under every path's facts"}
	checks["C23"] = checkDef{checkC23, "abstract interpretation with loop summaries of TreeModel.Evaluate over uninterpreted scores, compared with a reference under every path's facts"}
}

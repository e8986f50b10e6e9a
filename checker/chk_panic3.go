package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C16"] = checkDef{checkC16, "every instruction that can panic, in every function reachable from Evaluate, discharged by dominating conditions (difference bounds, nil tests), call sites, return summaries and construction invariants"}
}

func checkC16(r *Report) {
	r.minOb = 150
	p, entries := evaluateEffects(r)
	q := newProver(r, entries, p, p.order)
	q.construction(r)
	n := map[string]int{}
	for _, fn := range p.order {
		q.report(r, fn, n)
	}
	q.builtValues(r, n)
	r.extra["sites"] = n
	r.extra["rule"] = "no dereference or call of nil, no index or slice out of range, no failing assertion, no write to a nil map, no integer division by zero, no comparison of incomparable values and no call of panic"
	r.extra["assumed"] = "declarations and document are given and come from the decoder (no nil pointers inside interfaces); methods of the caller's own types return"
}

func (q *prover) report(r *Report, fn *ssa.Function, n map[string]int) {
	guarded(r, trimMod(fn.String()), func() {
		for k, s := range q.sites(fn) {
			n[s.kind]++
			r.check(s.ok, fmt.Sprintf("%s:%s:%d", trimMod(fn.String()), s.kind, k), posString(instrPos(s.ins)), "%s can panic: %s", trimMod(fn.String()), s.what)
		}
	})
}

// construction learns from the analysis of construction which fields of a
// model and of its nodes are never nil, which lists have the same length, and
// which literals a compiled predicate holds.
func (q *prover) construction(r *Report) {
	t := findTrees(r)
	if t == nil {
		return
	}
	q.builds[typeKey(types.Unalias(t.nodeT))] = true
	built := map[string][]*built{}
	guarded(r, "construction", func() {
		built["TreeModel"] = t.models(r)
		built["MiningModel"] = construct(r, "MiningModel", t.c.segmentHook)
		built["RegressionModel"] = construct(r, "RegressionModel", nil)
	})
	for kind, l := range built {
		mt := evType(kind)
		s, ok := isStruct(mt)
		if !ok {
			continue
		}
		for i := 0; i < s.NumFields(); i++ {
			ft := s.Field(i).Type()
			if !nilable(ft) {
				continue
			}
			all := len(l) > 0
			for _, b := range l {
				v := b.st.load(tFaddr(b.m, i), ft)
				all = all && (neverNil(v) || nonNilAs(b.st, v, ft))
			}
			if all {
				q.engine[fieldKey(mt, i)] = true
			}
		}
	}
	q.lenEq = func(kind string, a, b []int) bool {
		for _, k := range modelKinds {
			if typeKey(types.Unalias(evType(k))) != kind || len(built[k]) == 0 {
				continue
			}
			for _, bu := range built[k] {
				la, ok1 := builtList(bu, evType(k), a)
				lb, ok2 := builtList(bu, evType(k), b)
				if !ok1 || !ok2 {
					return false
				}
				if v, ok := bu.st.f.decide(tEqInt(tLen(la), tLen(lb))); !ok || !v {
					return false
				}
			}
			return true
		}
		return false
	}
	q.nodeFields(r, t)
	q.literals(r, t)
}

func nonNilAs(st *State, v *Term, t types.Type) bool {
	d, ok := st.f.decide(tEq(v, tNil, t))
	return ok && !d
}

// builtList follows field steps from a built model, through pointers.
func builtList(b *built, t types.Type, steps []int) (*Term, bool) {
	addr := b.m
	for k, f := range steps {
		s, ok := isStruct(t)
		if !ok || f >= s.NumFields() {
			return nil, false
		}
		addr = tFaddr(addr, f)
		t = s.Field(f).Type()
		if k == len(steps)-1 {
			break
		}
		if isPtr(t) {
			addr = b.st.load(addr, t)
			t = derefType(t)
		}
	}
	if !isSlice(t) {
		return nil, false
	}
	return b.st.load(addr, t), true
}

// nodeFields: fields never nil in a node that was built without an error.
func (q *prover) nodeFields(r *Report, t *treeEngine) {
	guarded(r, "nodes", func() {
		x := newExec()
		t.c.segmentHook(x)
		t.e.hook(x)
		t.hookBuild(x)
		t.building = 1
		defer func() { t.building = 0 }()
		st := newState(x)
		args := paramTerms(t.nb)
		for i, a := range args {
			if isPtr(a.typ) && i != t.ni {
				st.f.assume(tEq(a, tNil, a.typ), false)
			}
		}
		s := t.fields()
		never := map[int]bool{}
		n := 0
		for _, o := range x.run(t.nb, args, nil, st, "n") {
			if knownNonNil(o.st, o.ret[1]) {
				continue
			}
			n++
			for i := 0; i < s.NumFields(); i++ {
				if !nilable(s.Field(i).Type()) {
					continue
				}
				v := t.part(o.st, o.ret[0], i)
				ok := neverNil(v) || nonNilAs(o.st, v, s.Field(i).Type())
				if n == 1 {
					never[i] = ok
				}
				never[i] = never[i] && ok
			}
		}
		r.covered(x)
		for i, ok := range never {
			if ok {
				q.engine[fieldKey(t.nodeT, i)] = true
			}
		}
		r.check(never[t.ti], "nodes:test", posString(t.nb.Pos()), "%s builds a node without a predicate test", t.nb.Name())
		q.engine["result "+t.nb.String()] = true
	})
}

// literals: a predicate is compiled, then evaluated; which assertions on the
// compiled literals hold.
func (q *prover) literals(r *Report, t *treeEngine) {
	assertLog = map[ssa.Instruction]bool{}
	defer func() { assertLog = nil }()
	e, c := t.e, t.c
	for _, el := range []string{"SimplePredicate", "SimpleSetPredicate"} {
		p := predPtr(el)
		fa, ft := fieldByName(p, modType(el), "Field")
		for _, lt := range literalTypes {
			el, lt := el, lt
			guarded(r, "literal:"+el+":"+lt.dt, func() {
				x := newExec()
				st := newState(x)
				st.f.assume(tEq(p, tNil, p.typ), false)
				m := c.types()
				key := st.load(fa, ft)
				dt := modConst(lt.dt)
				st.f.assume(mk("has", "", nil, st.content(m), key), true)
				st.f.assume(tEq(staticGet(st.content(m), key, modType("DataType")), dt, modType("DataType")), true)
				outs := x.run(c.fn, c.args(predOf(el)), nil, st, "c")
				for _, o := range outs {
					if knownNonNil(o.st, o.ret[len(o.ret)-1]) {
						continue
					}
					args := e.args(predOf(el))
					if e.ti >= 0 {
						args[e.ti] = m
					}
					x.run(e.fn, args, nil, o.st, "e")
				}
				r.covered(x)
			})
		}
	}
	for ins, ok := range assertLog {
		if ok {
			q.asserts[ins] = true
		}
	}
}

// builtValues: nodes that are kept come from a successful construction.
func (q *prover) builtValues(r *Report, n map[string]int) {
	forEachFunc(evalPkg, func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for k, ins := range b.Instrs {
				s, ok := ins.(*ssa.Store)
				if !ok || !q.isBuild(s.Val.Type()) {
					continue
				}
				if _, local := s.Addr.(*ssa.Alloc); local {
					continue
				}
				n["built"]++
				ok = q.notNil(s.Val, q.top(fn, b), nil, map[nilQuery]bool{}) || checkedNext(s)
				r.check(ok, fmt.Sprintf("%s:built:%d.%d", trimMod(fn.String()), b.Index, k), posString(instrPos(ins)), "%s keeps a node that may not have been built", trimMod(fn.String()))
			}
		}
	})
}

// checkedNext: a result is stored and the error that came with it makes the
// function fail.
func checkedNext(s *ssa.Store) bool {
	e, ok := s.Val.(*ssa.Extract)
	if !ok {
		return false
	}
	i := ifOf(s.Block())
	if i == nil {
		return false
	}
	c, ok := i.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, u := range *e.Tuple.Referrers() {
		x, ok := u.(*ssa.Extract)
		if !ok || x == e || !isError(x.Type()) || c.X != ssa.Value(x) && c.Y != ssa.Value(x) {
			continue
		}
		for _, t := range s.Block().Succs {
			if failing(s.Block(), t) {
				return true
			}
		}
	}
	return false
}

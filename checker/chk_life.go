package main

// C10, C11, C17: construction, lifecycle and error reporting of the models.

import (
	"fmt"
	"go/constant"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C10"] = checkDef{checkC10, "abstract interpretation of NewModel and the constructors; error-atom propagation rule"}
	checks["C11"] = checkDef{checkC11, "typestate exploration of the lifecycle fields by abstract interpretation"}
	checks["C17"] = checkDef{checkC17, "abstract interpretation with an error-atom propagation rule"}
}

func evalErr(name string) *Term {
	c, ok := evalPkg.Pkg.Scope().Lookup(name).(*types.Const)
	if !ok {
		return nil
	}
	return mk("iface", typeKey(c.Type()), nil, cStr(constant.StringVal(c.Val())))
}

func checkC10(r *Report) {
	fn := evalPkg.Func("NewModel")
	if fn == nil || len(fn.Params) != 3 {
		r.undecided("NewModel", "", "function evaluation.NewModel not found")
		return
	}
	r.minOb = 25
	supported := map[string]bool{}
	for _, k := range modelKinds {
		supported[k] = true
	}
	pos := posString(fn.Pos())
	g := readGolden()
	elems := append([]string{}, g.Groups["GetModelElement"]...)
	elems = append(elems, "")
	hookLife := func(x *Exec) {
		for _, k := range modelKinds {
			for _, n := range []string{"Validate", "Compile"} {
				hookOpaque(x, method(k, n), "life")
			}
		}
	}
	for _, el := range elems {
		el := el
		guarded(r, "NewModel:"+el, func() {
			x := newExec()
			hookLife(x)
			args := paramTerms(fn)
			if el == "" {
				args[2] = tNil
			} else {
				args[2] = mk("iface", typeKey(types.NewPointer(modType(el))), nil, mk("param", "mdl:"+el, types.NewPointer(modType(el))))
			}
			st := newState(x)
			if el != "" {
				st.f.assume(tEq(args[2].args[0], tNil, nil), false)
			}
			outs := x.run(fn, args, nil, st, "e")
			r.covered(x)
			r.paths += len(outs)
			if len(outs) == 0 {
				r.undecided("NewModel:"+el, pos, "no abstract outcome")
			}
			okSome := false
			for _, o := range outs {
				if knownNonNil(o.st, o.ret[1]) {
					continue
				}
				okSome = true
				if !supported[el] {
					r.check(false, "NewModel:"+el, pos, "NewModel can return a nil error for a model element %q, which no evaluator supports", el)
					continue
				}
				m := o.ret[0]
				want := typeKey(types.NewPointer(evalPkg.Pkg.Scope().Lookup(el).Type()))
				if !r.check(m.op == "iface" && m.aux == want && m.args[0] != tNil, "NewModel:"+el, pos, "NewModel returns %s for a models.%s, not a *evaluation.%s", m, el, el) {
					continue
				}
				if knownNil(o.st, o.ret[1]) || true {
					checkBuilt(r, "NewModel:"+el, el, o, m.args[0], pos)
				}
			}
			r.check(okSome == supported[el], "NewModel:"+el+":outcome", pos, "NewModel never succeeds for a models.%s", el)
		})
	}
	for _, k := range modelKinds {
		k := k
		ctor := evalPkg.Func("New" + k)
		if ctor == nil {
			r.undecided("New"+k, "", "function evaluation.New%s not found", k)
			continue
		}
		guarded(r, "New"+k, func() {
			x := newExec()
			hookLife(x)
			outs := x.run(ctor, paramTerms(ctor), nil, newState(x), "e")
			r.covered(x)
			r.paths += len(outs)
			n := 0
			for _, o := range outs {
				if knownNonNil(o.st, o.ret[1]) {
					continue
				}
				n++
				checkBuilt(r, "New"+k, k, o, o.ret[0], posString(ctor.Pos()))
			}
			r.check(n > 0, "New"+k+":outcome", posString(ctor.Pos()), "New%s never succeeds", k)
			checkErrors(r, "New"+k, ctor, outs, nil)
		})
		// errors inside Validate and Compile, nested models included
		for _, n := range []string{"Validate", "Compile"} {
			f := method(k, n)
			if f == nil {
				continue
			}
			checkErrorsOf(r, f, nil)
		}
	}
}

// checkErrorsOf applies the error rule to f and to the recursive functions
// it reaches; nested model construction is opaque.
func checkErrorsOf(r *Report, f *ssa.Function, prep func(x *Exec)) {
	done := map[*ssa.Function]bool{}
	queue := []*ssa.Function{f}
	for len(queue) > 0 {
		g := queue[0]
		queue = queue[1:]
		if done[g] {
			continue
		}
		done[g] = true
		name := trimMod(g.String())
		guarded(r, name, func() {
			x := newExec()
			hookNewModel(x)
			if prep != nil {
				prep(x)
			}
			delete(x.hooks, fullName(g))
			outs := x.run(g, paramTerms(g), nil, newState(x), "e")
			r.covered(x)
			r.paths += len(outs)
			checkErrors(r, name, g, outs, nil)
			for _, o := range outs {
				for _, e := range flatEvents(o.st) {
					if e.kind == "rec" || e.kind == "opq" {
						if c, ok := e.ins.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil {
							queue = append(queue, c.Common().StaticCallee())
						}
					}
				}
			}
		})
	}
}

// checkBuilt: the model of a successful construction went through Validate
// and Compile, and neither failed.
func checkBuilt(r *Report, key, kind string, o Outcome, m *Term, pos string) {
	m2 := o.st.reify(m, 0)
	for _, n := range []string{"Validate", "Compile"} {
		f := method(kind, n)
		if f == nil {
			r.undecided(kind+"."+n, pos, "method not found")
			continue
		}
		called := false
		for _, e := range o.st.events() {
			if e.kind == "life" && e.note == fullName(f) {
				if e.args[0] == m || e.args[0] == m2 || e.args[0].op == "ref" && m.op == "alloc" {
					called = called || knownNil(o.st, e.ret[0]) || e.ret[0] == o.ret[1]
				}
			}
		}
		r.check(called, key+":"+n, pos, "%s can return a model with a nil error without a successful %s of that model", key, n)
	}
}

// ------------------------------------------------------------------- C11

type lifeState struct {
	fields          map[int]*Term
	val, comp, fail bool // Validate/Compile have succeeded; one failed after succeeding
}

func (s lifeState) key() string {
	var l []string
	for i, t := range s.fields {
		l = append(l, fmt.Sprintf("%d=%s", i, t))
	}
	sort.Strings(l)
	return fmt.Sprint(l, s.val, s.comp, s.fail)
}

// A scalarField is a field of basic type, possibly of a struct that is itself
// a field.
type scalarField struct {
	path   []int
	name   string
	typ    types.Type
	owners []types.Type // the structs along the path
}

// lifecycleField is the tracked field that field number n of the struct t (or
// pointer to struct) is or, if not exact, contains.
func lifecycleField(t types.Type, n int, leaves []scalarField, tracked map[int]*Term) (i int, exact bool) {
	t = derefType(t)
	for j, l := range leaves {
		if tracked[j] == nil {
			continue
		}
		for k, o := range l.owners {
			if l.path[k] == n && types.Identical(o, t) {
				return j, k == len(l.path)-1
			}
		}
	}
	return -1, false
}

// touches tells whether f or what it calls deals with a tracked field.
func touches(f *ssa.Function, leaves []scalarField, tracked map[int]*Term, p *PT, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			i := -1
			switch v := ins.(type) {
			case *ssa.FieldAddr:
				i, _ = lifecycleField(v.X.Type(), v.Field, leaves, tracked)
			case *ssa.Field:
				i, _ = lifecycleField(v.X.Type(), v.Field, leaves, tracked)
			}
			if i >= 0 {
				return true
			}
		}
	}
	for ins, m := range p.callees {
		if ins.Parent() == f {
			for g := range m {
				if touches(g, leaves, tracked, p, seen) {
					return true
				}
			}
		}
	}
	return false
}

func (l scalarField) addr(recv *Term) *Term {
	for _, i := range l.path {
		recv = tFaddr(recv, i)
	}
	return recv
}

func scalarFields(t types.Type) (l []scalarField) {
	var walk func(t types.Type, owners []types.Type, path []int)
	walk = func(t types.Type, owners []types.Type, path []int) {
		st := t.Underlying().(*types.Struct)
		owners = append(append([]types.Type{}, owners...), t)
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			here := append(append([]int{}, path...), i)
			switch ft.Underlying().(type) {
			case *types.Basic:
				l = append(l, scalarField{here, st.Field(i).Name(), ft, owners})
			case *types.Struct:
				walk(ft, owners, here)
			}
		}
	}
	walk(t, nil, nil)
	return
}

func checkC11(r *Report) {
	r.minOb = 30
	nv, nc := evalErr("ErrNotValidated"), evalErr("ErrNotCompiled")
	if nv == nil || nc == nil {
		r.undecided("errors", "", "constants ErrNotValidated and ErrNotCompiled not found")
		return
	}
	for _, k := range modelKinds {
		k := k
		guarded(r, k, func() { lifecycle(r, k, nv, nc) })
	}
}

func lifecycle(r *Report, kind string, nv, nc *Term) {
	fs := map[string]*ssa.Function{}
	for _, n := range []string{"Validate", "Compile", "Evaluate"} {
		if fs[n] = method(kind, n); fs[n] == nil {
			r.undecided(kind+"."+n, "", "method not found")
			return
		}
	}
	recvT := fs["Validate"].Params[0].Type().Underlying().(*types.Pointer).Elem()
	p := newPT()
	for _, f := range fs {
		p.entry(f, func(i int, t types.Type) string { return "model" })
	}
	p.solve()
	pure := pureOf(p)
	rec := recursiveFuncs(p)
	leaves := scalarFields(recvT)
	run := func(f *ssa.Function, s lifeState) (outs []Outcome, recv *Term) {
		x := newExec()
		hookNewModel(x)
		hookOpaque(x, evalPkg.Func("HandleInput"), "opq")
		for g := range pure {
			if g != f && g.Parent() == nil && f.Name() == "Evaluate" && !touches(g, leaves, s.fields, p, map[*ssa.Function]bool{}) {
				hookOpaque(x, g, "opq")
			}
		}
		for g := range rec {
			if g != f {
				hookOpaque(x, g, "opq")
			}
		}
		st := newState(x)
		args := paramTerms(f)
		recv = args[0]
		st.f.assume(tEq(recv, tNil, nil), false)
		for i, v := range s.fields {
			fa := leaves[i].addr(recv)
			label(fa, leaves[i].name)
			st.store(fa, v, leaves[i].typ)
		}
		outs = x.run(f, args, nil, st, "e")
		r.covered(x)
		r.paths += len(outs)
		return
	}
	// lifecycle fields: scalar fields that Validate or Compile assign constants
	track := map[int]bool{}
	nonConst := map[int]bool{}
	discover := func(from lifeState) {
		for _, n := range []string{"Validate", "Compile"} {
			outs, recv := run(fs[n], from)
			for _, o := range outs {
				for i, l := range leaves {
					fa := l.addr(recv)
					if v, ok := o.st.heap[fa]; ok && v != tInit(fa, nil) && v != tInit(fa, l.typ) {
						if v.isConst() {
							track[i] = true
						} else {
							nonConst[i] = true
						}
					}
				}
			}
		}
	}
	discover(lifeState{})
	if len(nonConst) > 0 {
		// set from their own former value, as a set of flags would be
		zero := lifeState{fields: map[int]*Term{}}
		for i := range nonConst {
			zero.fields[i] = tZero(leaves[i].typ)
		}
		nonConst = map[int]bool{}
		discover(zero)
	}
	start := lifeState{fields: map[int]*Term{}}
	for i := range track {
		if !nonConst[i] {
			start.fields[i] = tZero(leaves[i].typ)
		}
	}
	if !r.check(len(start.fields) > 0, kind+":flags", posString(fs["Validate"].Pos()), "Validate and Compile of %s record nothing about having succeeded", kind) {
		return
	}
	r.extra[kind+"_lifecycle_fields"] = len(start.fields)
	seen := map[string]bool{start.key(): true}
	queue := []lifeState{start}
	for len(queue) > 0 {
		s := queue[0]
		queue = queue[1:]
		if len(seen) > 64 {
			r.undecided(kind, "", "more than 64 lifecycle states")
			return
		}
		desc := fmt.Sprintf("%s{validated:%v compiled:%v}", kind, s.val, s.comp)
		if s.fail {
			desc += " after a failed repetition"
		}
		// Evaluate
		outs, _ := run(fs["Evaluate"], s)
		pos := posString(fs["Evaluate"].Pos())
		if len(outs) == 0 {
			r.undecided(desc, pos, "Evaluate has no abstract outcome")
		}
		for _, o := range outs {
			res, err := o.ret[0], o.ret[1]
			switch {
			case !s.val:
				r.check(err == nv && res == tNil, desc+":Evaluate", pos, "Evaluate of %s on which Validate has not succeeded returns (%s, %s) instead of ErrNotValidated", kind, res, err)
			case !s.comp:
				if s.fail && (err == nv) {
					continue
				}
				r.check(err == nc && res == tNil, desc+":Evaluate", pos, "Evaluate of %s on which Compile has not succeeded returns (%s, %s) instead of ErrNotCompiled", kind, res, err)
			case !s.fail:
				r.check(err != nv && err != nc, desc+":Evaluate", pos, "Evaluate of a validated and compiled %s returns %s", kind, err)
			}
		}
		for _, n := range []string{"Validate", "Compile"} {
			outs, recv := run(fs[n], s)
			if len(outs) == 0 {
				r.undecided(desc+":"+n, posString(fs[n].Pos()), "%s has no abstract outcome", n)
			}
			for _, o := range outs {
				ns := lifeState{fields: map[int]*Term{}, val: s.val, comp: s.comp, fail: s.fail}
				for i := range s.fields {
					v := o.st.load(leaves[i].addr(recv), leaves[i].typ)
					if !v.isConst() {
						r.undecided(desc+":"+n, posString(fs[n].Pos()), "lifecycle field %s becomes %s", leaves[i].name, v)
						return
					}
					ns.fields[i] = v
				}
				ok := !knownNonNil(o.st, o.ret[0])
				if ok && !knownNil(o.st, o.ret[0]) {
					// either: explore both
					f2 := ns
					f2.fail = f2.fail || n == "Validate" && s.val || n == "Compile" && s.comp
					if k := f2.key(); !seen[k] {
						seen[k] = true
						queue = append(queue, f2)
					}
				}
				if ok {
					if n == "Validate" {
						ns.val = true
					} else {
						ns.comp = true
					}
				} else {
					ns.fail = ns.fail || n == "Validate" && s.val || n == "Compile" && s.comp
				}
				if k := ns.key(); !seen[k] {
					seen[k] = true
					queue = append(queue, ns)
				}
			}
		}
	}
	r.extra[kind+"_states"] = len(seen)
	// nobody else touches the lifecycle fields
	var names []string
	for i := range start.fields {
		names = append(names, leaves[i].name)
	}
	sort.Strings(names)
	allowed := map[*ssa.Function]bool{}
	var mark func(f *ssa.Function)
	mark = func(f *ssa.Function) {
		if allowed[f] {
			return
		}
		allowed[f] = true
		for ins, m := range p.callees {
			if ins.Parent() == f {
				for g := range m {
					mark(g)
				}
			}
		}
	}
	for _, n := range []string{"Validate", "Compile", "Evaluate"} {
		mark(fs[n])
	}
	forEachFunc(evalPkg, func(f *ssa.Function) {
		if allowed[f] {
			return
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				fa, ok := ins.(*ssa.FieldAddr)
				if !ok {
					continue
				}
				i, exact := lifecycleField(fa.X.Type(), fa.Field, leaves, start.fields)
				if i < 0 {
					continue
				}
				name := leaves[i].name
				for _, ref := range *fa.Referrers() {
					if _, isPart := ref.(*ssa.FieldAddr); isPart {
						continue
					}
					if u, isLoad := ref.(*ssa.UnOp); isLoad && u.X == fa {
						continue
					}
					st, isStore := ref.(*ssa.Store)
					if isStore {
						if c, isC := st.Val.(*ssa.Const); isC && (c.Value == nil || exact && constTerm(c) == start.fields[i]) {
							continue // resetting is harmless
						}
					}
					r.check(false, kind+":"+name, posString(instrPos(ref)), "%s changes %s.%s, which only Validate and Compile may set", trimMod(f.String()), kind, name)
				}
			}
		}
	})
	r.check(true, kind+":writers("+strings.Join(names, ",")+")", "", "")
}

// ------------------------------------------------------------------- C17

func checkC17(r *Report) {
	r.minOb = 25
	p, entries := evaluateEffects(r)
	_ = p
	rec := recursiveFuncs(p)
	ent := map[*ssa.Function]bool{}
	for _, f := range entries {
		if rs := f.Signature.Results(); rs.Len() > 0 && isError(rs.At(rs.Len()-1).Type()) {
			ent[f] = true
		}
	}
	prep := func(x *Exec) {
		for f := range ent {
			hookOpaque(x, f, "opq")
		}
		for f := range rec {
			hookOpaque(x, f, "opq")
		}
		for f := range pureOf(p) {
			if rs := f.Signature.Results(); rs.Len() == 0 || !isError(rs.At(rs.Len()-1).Type()) {
				hookOpaque(x, f, "pure")
			}
		}
	}
	done := map[*ssa.Function]bool{}
	for _, f := range entries {
		if ent[f] && !done[f] {
			done[f] = true
			checkErrorsOf(r, f, prep)
		}
	}
}

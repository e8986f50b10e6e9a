package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ------------------------------------------------------------------ nil

func nilable(t types.Type) bool {
	switch u := types.Unalias(t).Underlying().(type) {
	case *types.Pointer, *types.Signature, *types.Interface, *types.Map, *types.Chan:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

type nilQuery struct {
	v  ssa.Value
	sc string
}

// notNil: v is not nil (nor an interface holding a nil pointer) at sc.blk.
func (q *prover) notNil(v ssa.Value, sc *scope, errNil map[ssa.Value]bool, seen map[nilQuery]bool) bool {
	switch i := v.(type) {
	case *ssa.Const:
		return i.Value != nil || isStructT(i.Type())
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.MakeChan, *ssa.MakeClosure, *ssa.Function, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Builtin:
		return true
	case *ssa.MakeInterface:
		if nilable(i.X.Type()) {
			return q.notNil(i.X, sc, errNil, seen)
		}
		if q.isBuild(i.X.Type()) {
			return q.notNil(i.X, sc, errNil, seen)
		}
		return true
	}
	if !nilable(v.Type()) && !q.isBuild(v.Type()) {
		return true
	}
	nq := nilQuery{v, sc.id}
	if seen[nq] {
		_, phi := v.(*ssa.Phi)
		return phi
	}
	seen[nq] = true
	defer delete(seen, nq)
	f := q.facts(sc)
	if f.nonNil[q.key(v, sc)] || f.contradictory() {
		return true
	}
	switch i := v.(type) {
	case *ssa.ChangeType:
		return q.notNil(i.X, sc, errNil, seen)
	case *ssa.ChangeInterface:
		return q.notNil(i.X, sc, errNil, seen)
	case *ssa.Convert:
		return q.notNil(i.X, sc, errNil, seen)
	case *ssa.Parameter, *ssa.FreeVar:
		return q.paramNotNil(v, sc, seen)
	case *ssa.Phi:
		for k, e := range i.Edges {
			if e == ssa.Value(i) {
				continue
			}
			if q.phiFactsContradict(i, k, sc) {
				continue
			}
			p := i.Block().Preds[k]
			g := noFacts()
			q.edgeFacts(g, p, i.Block(), sc, 0)
			if g.nonNil[q.key(e, sc)] {
				continue
			}
			en := errNil
			for _, x := range q.phisNil(i, k, sc, errNil) {
				if en2 := map[ssa.Value]bool{x: true}; true {
					for v := range en {
						en2[v] = true
					}
					en = en2
				}
			}
			if !q.notNil(e, sc.at(p), en, seen) {
				return false
			}
		}
		return true
	case *ssa.UnOp:
		if i.Op == token.MUL {
			return q.loadNotNil(i.X, i, sc, errNil, seen)
		}
	case *ssa.Field:
		if q.fieldNotNil(i.X.Type(), i.Field) {
			return true
		}
		return q.isBuild(i.Type())
	case *ssa.TypeAssert:
		return true // it would have failed; no nil pointers in interfaces
	case *ssa.Lookup:
		return !i.CommaOk && isStructT(i.Type()) && !q.isBuild(i.Type())
	case *ssa.Call:
		return q.resultNotNil(i, 0, sc, seen)
	case *ssa.Extract:
		switch t := i.Tuple.(type) {
		case *ssa.Call:
			return q.extractNotNil(t, i.Index, sc, errNil, seen)
		case *ssa.Lookup:
			ok := false
			for _, u := range *t.Referrers() {
				if e, isE := u.(*ssa.Extract); isE && e.Index == 1 {
					ok = ok || f.bools[q.key(e, sc)]
				}
			}
			return ok && q.mapValuesNotNil(t.X.Type())
		case *ssa.Next:
			if r, ok := t.Iter.(*ssa.Range); ok && isMap(r.X.Type()) && i.Index == 2 {
				return q.mapValuesNotNil(r.X.Type())
			}
		}
	}
	return false
}

// phisNil: what the other choices made together with phi were, on its k-th
// edge, of those known to be nil.
func (q *prover) phisNil(phi *ssa.Phi, k int, sc *scope, errNil map[ssa.Value]bool) []ssa.Value {
	var l []ssa.Value
	f := q.facts(sc)
	for _, ins := range phi.Block().Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if p != phi && (errNil[p] || f.isNil[q.key(p, sc)]) {
			l = append(l, p.Edges[k])
		}
	}
	return l
}

func (q *prover) phiFactsContradict(phi *ssa.Phi, k int, sc *scope) bool {
	if phi.Block().Dominates(phi.Block().Preds[k]) || !phi.Block().Dominates(sc.blk) {
		return false
	}
	f := q.phiFacts(phi, k, sc)
	f.sharpen()
	return f.contradictory()
}

func (q *prover) paramNotNil(v ssa.Value, sc *scope, seen map[nilQuery]bool) bool {
	if a, up := sc.arg(v); a != nil {
		return q.notNil(a, up, nil, seen)
	}
	if fv, ok := v.(*ssa.FreeVar); ok {
		// every closure made of the function
		found, all := false, true
		for _, parent := range q.makers(sc.fn) {
			for _, b := range parent.Blocks {
				for _, ins := range b.Instrs {
					mc, ok := ins.(*ssa.MakeClosure)
					if !ok || mc.Fn != ssa.Value(sc.fn) {
						continue
					}
					for k, x := range sc.fn.FreeVars {
						if x == fv {
							found = true
							all = all && q.notNil(mc.Bindings[k], q.top(parent, b), nil, seen)
						}
					}
				}
			}
		}
		return found && all
	}
	p := v.(*ssa.Parameter)
	if !q.reach[sc.fn] && sc.fn.Signature.Recv() != nil && sc.fn.Params[0] == p && sc.fn.Object() != nil && sc.fn.Object().Exported() {
		return true // a model is validated, compiled and evaluated
	}
	if q.entries[sc.fn] {
		if sc.fn.Signature.Recv() != nil && sc.fn.Params[0] == p {
			return true
		}
		if isPtr(p.Type()) && isModelsType(derefType(p.Type())) {
			return true // the declarations and the document are supplied
		}
		if isPtr(p.Type()) && isXMLType(derefType(p.Type())) {
			return true // encoding/xml supplies its decoder
		}
		if q.isRoot(sc.fn) || len(q.callers[sc.fn]) == 0 {
			return false
		}
	}
	if q.isBuild(p.Type()) {
		return true // every value of the type that is stored is well built
	}
	if sc.depth() > 6 {
		return false
	}
	return q.atCallers(sc, func(c ssa.CallInstruction) bool { return passesOn(c, p) }, func(s *scope) bool {
		a, up := s.arg(v)
		if a == nil {
			return false
		}
		return q.notNil(a, up, nil, seen)
	})
}

func (q *prover) top(fn *ssa.Function, b *ssa.BasicBlock) *scope {
	return &scope{fn: fn, blk: b, id: "0"}
}

func isModelsType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg() == modPkg.Pkg
}

func isXMLType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "encoding/xml"
}

func isEvalType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg() == evalPkg.Pkg
}

func (q *prover) isBuild(t types.Type) bool {
	return q.builds[typeKey(types.Unalias(t))]
}

func (q *prover) loadNotNil(addr ssa.Value, load ssa.Value, sc *scope, errNil map[ssa.Value]bool, seen map[nilQuery]bool) bool {
	switch a := addr.(type) {
	case *ssa.Alloc:
		return q.varNotNil(a, nil, load, sc, errNil, seen)
	case *ssa.Global:
		n, all := 0, true
		if a.Pkg == nil || !isRepoPkg(a.Pkg.Pkg.Path()) {
			return true // a variable of the standard library
		}
		forEachFunc(a.Pkg, func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if s, ok := ins.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
						n++
						all = all && q.notNil(s.Val, q.top(f, b), nil, seen)
					}
				}
			}
		})
		return n > 0 && all
	case *ssa.FreeVar:
		if v, up := sc.arg(a); v != nil {
			return q.loadNotNil(v, load, up, errNil, seen)
		}
		// the variable of the enclosing function
		if sc.fn.Parent() == nil {
			return false
		}
		found, all := false, true
		for _, b := range sc.fn.Parent().Blocks {
			for _, ins := range b.Instrs {
				mc, ok := ins.(*ssa.MakeClosure)
				if !ok || mc.Fn != ssa.Value(sc.fn) {
					continue
				}
				for k, x := range sc.fn.FreeVars {
					if x == a {
						found = true
						if al, ok := mc.Bindings[k].(*ssa.Alloc); ok {
							all = all && q.varNotNil(al, nil, mc, q.top(sc.fn.Parent(), b), nil, seen)
						} else {
							all = all && q.loadNotNil(mc.Bindings[k], load, q.top(sc.fn.Parent(), b), nil, seen)
						}
					}
				}
			}
		}
		return found && all
	case *ssa.FieldAddr:
		if r, ok := rootOf(a).(*ssa.Alloc); ok && a.X == ssa.Value(r) {
			return q.varNotNil(r, a, load, sc, errNil, seen)
		}
		return q.fieldNotNil(a.X.Type(), a.Field) || q.isBuild(derefType(a.Type()))
	case *ssa.IndexAddr:
		return q.elemNotNil(derefType(a.Type()))
	}
	// a pointer to it
	return q.isBuild(derefType(addr.Type()))
}

// varNotNil: what is read from a local variable (or a field of one).
func (q *prover) varNotNil(a *ssa.Alloc, field *ssa.FieldAddr, at ssa.Value, sc *scope, errNil map[ssa.Value]bool, seen map[nilQuery]bool) bool {
	use, _ := at.(ssa.Instruction)
	covered := false
	all := true
	same := func(v *ssa.FieldAddr) bool { return field != nil && v.Field == field.Field }
	var stores func(v ssa.Value, f *ssa.FieldAddr)
	stores = func(v ssa.Value, f *ssa.FieldAddr) {
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch i := u.(type) {
			case *ssa.Store:
				if i.Addr != v {
					if field == nil {
						all = false // its address escapes
					}
					continue
				}
				ok := true
				switch {
				case f == nil && field == nil, f != nil && same(f):
					ok = q.notNil(i.Val, sc.at(i.Block()), errNil, seen)
				case f == nil && field != nil: // the whole struct
					ok = q.structField(i.Val, field, sc.at(i.Block()))
				default:
					continue
				}
				if !ok {
					all = false
				}
				if use != nil && before(i, use) {
					covered = true
				}
			case *ssa.FieldAddr:
				if f == nil {
					stores(i, i)
				}
			case *ssa.MakeClosure:
				if v == ssa.Value(a) && writesFree(i, v) {
					all = false
				}
			case ssa.CallInstruction:
				if field == nil || f == nil && !q.readOnly(i, v) {
					if f == nil {
						all = all && field != nil && q.fieldNotNil(field.X.Type(), field.Field)
					}
				}
			}
		}
	}
	stores(a, nil)
	return all && covered
}

// readOnly: a method called on a local variable does not write it (the field
// types of the repository are written through other paths only).
func (q *prover) readOnly(c ssa.CallInstruction, v ssa.Value) bool {
	t := derefType(v.Type())
	s, ok := isStruct(t)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		if q.fields[fieldKey(t, i)] {
			return false
		}
	}
	return true
}

// structField: a field of a struct value is not nil.
func (q *prover) structField(v ssa.Value, field *ssa.FieldAddr, sc *scope) bool {
	if q.facts(sc).nonNil[fmt.Sprintf("%s.%d", q.key(v, sc), field.Field)] {
		return true
	}
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return false
	}
	return q.fieldNotNil(field.X.Type(), field.Field)
}

// before: a is executed before b whenever b is.
func before(a, b ssa.Instruction) bool {
	if a.Block() == b.Block() {
		return instrIndex(a) < instrIndex(b)
	}
	return a.Block().Dominates(b.Block())
}

// fieldNotNil: a field is never nil in a value made by the package.
func (q *prover) fieldNotNil(t types.Type, i int) bool {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	k := fieldKey(t, i)
	if q.engine[k] {
		return true
	}
	s, ok := isStruct(t)
	if !ok {
		return false
	}
	if !nilable(s.Field(i).Type()) && !q.isBuild(s.Field(i).Type()) {
		return true
	}
	if isModelsType(t) {
		return false
	}
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Exported() && s.Field(i).Exported() {
		return false
	}
	switch q.inv[k] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	q.inv[k] = 3
	ok = q.fieldStores(t, i)
	q.inv[k] = 2
	if ok {
		q.inv[k] = 1
	}
	return ok
}

// fieldStores: everything stored in the field is not nil, and no value of the
// type is used before the field is set.
func (q *prover) fieldStores(t types.Type, f int) bool {
	all, n := true, 0
	forEachFunc(evalPkg, func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					fa, ok := i.Addr.(*ssa.FieldAddr)
					if ok && fa.Field == f && structKey(fa.X.Type()) == structKey(t) {
						n++
						all = all && q.notNil(i.Val, q.top(fn, b), nil, map[nilQuery]bool{})
					}
					if c, ok := i.Val.(*ssa.Const); ok && c.Value == nil && structKey(c.Type()) == structKey(t) && isStructT(c.Type()) {
						if _, local := i.Addr.(*ssa.Alloc); !local {
							all = false
						}
					}
				case *ssa.Alloc:
					if structKey(i.Type()) == structKey(t) && isStructT(derefType(i.Type())) && !q.setFirst(i, f) {
						all = false
					}
				case *ssa.MakeSlice:
					if structKey(i.Type().Underlying().(*types.Slice).Elem()) == structKey(t) {
						if c, ok := i.Len.(*ssa.Const); !ok || c.Int64() != 0 {
							all = all && filled(i)
						}
					}
				}
			}
		}
	})
	return all && n > 0
}

// setFirst: the field of a new struct is set before the struct is used.
func (q *prover) setFirst(a *ssa.Alloc, f int) bool {
	var set []ssa.Instruction
	var uses []ssa.Instruction
	for _, u := range *a.Referrers() {
		switch i := u.(type) {
		case *ssa.Store:
			if i.Addr == ssa.Value(a) {
				set = append(set, i) // copied from a complete one
			} else {
				uses = append(uses, i)
			}
		case *ssa.FieldAddr:
			for _, w := range *i.Referrers() {
				if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(i) {
					if i.Field == f {
						set = append(set, s)
					}
				} else if i.Field == f {
					uses = append(uses, w)
				}
			}
		case *ssa.DebugRef:
		default:
			uses = append(uses, u)
		}
	}
	for _, u := range uses {
		if r, ok := u.(*ssa.UnOp); ok && returnedWithError(r) {
			continue
		}
		if _, ok := u.(*ssa.DebugRef); ok {
			continue
		}
		ok := false
		for _, s := range set {
			ok = ok || before(s, u)
		}
		if !ok {
			return false
		}
	}
	return true
}

// returnedWithError: the value is only returned next to an error.
func returnedWithError(v ssa.Value) bool {
	for _, u := range *v.Referrers() {
		r, ok := u.(*ssa.Return)
		if !ok || len(r.Results) < 2 || !isError(r.Results[len(r.Results)-1].Type()) {
			return false
		}
		e := r.Results[len(r.Results)-1]
		if isNilConst(e) {
			return false
		}
		if !certainError(e) && !dominatedNonNil(e, r.Block()) {
			return false
		}
	}
	return true
}

func dominatedNonNil(e ssa.Value, b *ssa.BasicBlock) bool {
	for d := b; d != nil; d = d.Idom() {
		if len(d.Preds) != 1 {
			continue
		}
		i := ifOf(d.Preds[0])
		if i == nil {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || !(c.X == e && isNilConst(c.Y) || c.Y == e && isNilConst(c.X)) {
			continue
		}
		if c.Op == token.NEQ && d.Preds[0].Succs[0] == d || c.Op == token.EQL && d.Preds[0].Succs[1] == d {
			return true
		}
	}
	return false
}

// elemNotNil: elements of lists of the package's own types are never nil.
func (q *prover) elemNotNil(t types.Type) bool {
	if !nilable(t) && !q.isBuild(t) {
		return true
	}
	if q.isBuild(t) {
		return true
	}
	if isModelsType(t) || isModelsType(derefType(t)) {
		return false
	}
	k := "elem " + typeKey(t)
	switch q.inv[k] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	q.inv[k] = 3
	all, n := true, 0
	forEachFunc(evalPkg, func(fn *ssa.Function) {
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					if ia, ok := i.Addr.(*ssa.IndexAddr); ok && typeKey(derefType(ia.Type())) == typeKey(t) {
						n++
						all = all && q.notNil(i.Val, q.top(fn, b), nil, map[nilQuery]bool{})
					}
				case *ssa.MakeSlice:
					if typeKey(i.Type().Underlying().(*types.Slice).Elem()) == typeKey(t) {
						if c, ok := i.Len.(*ssa.Const); !ok || c.Int64() != 0 {
							all = all && filled(i)
						}
					}
				}
			}
		}
	})
	q.inv[k] = 2
	if all && n > 0 {
		q.inv[k] = 1
	}
	return q.inv[k] == 1
}

// filled: every element of a new list is stored in a loop over its length.
func filled(m *ssa.MakeSlice) bool {
	for _, u := range *m.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		var st *ssa.Store
		for _, w := range *ia.Referrers() {
			if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(ia) {
				st = s
			}
		}
		if st == nil {
			continue
		}
		// the loop it is in
		for h := st.Block(); h != nil; h = h.Idom() {
			loop := naturalLoop(h)
			if !isHeader(h) || !loop[st.Block()] {
				continue
			}
			good := true
			for _, p := range h.Preds {
				if loop[p] && !st.Block().Dominates(p) {
					good = false
				}
			}
			for b := range loop {
				for _, s := range b.Succs {
					if !loop[s] && b != h && !failing(b, s) {
						good = false
					}
				}
			}
			i := ifOf(h)
			if i == nil {
				break
			}
			c, ok := i.Cond.(*ssa.BinOp)
			if !ok || c.Op != token.LSS || c.X != ia.Index || !fromZero(ia.Index, h) {
				good = false
			}
			if ok && good && sameLength(c.Y, m.Len) {
				return true
			}
			break
		}
	}
	return false
}

func isHeader(h *ssa.BasicBlock) bool {
	for _, p := range h.Preds {
		if h.Dominates(p) {
			return true
		}
	}
	return false
}

// fromZero: i counts 0, 1, 2 ... in the loop with header h.
func fromZero(i ssa.Value, h *ssa.BasicBlock) bool {
	off := int64(0)
	if b, ok := i.(*ssa.BinOp); ok && b.Op == token.ADD {
		c, ok := b.Y.(*ssa.Const)
		if !ok {
			return false
		}
		off = c.Int64()
		i = b.X
	}
	phi, ok := i.(*ssa.Phi)
	if !ok || phi.Block() != h {
		return false
	}
	for k, e := range phi.Edges {
		if !h.Dominates(h.Preds[k]) {
			c, ok := e.(*ssa.Const)
			if !ok || c.Int64()+off != 0 {
				return false
			}
			continue
		}
		b, ok := e.(*ssa.BinOp)
		if !ok || b.Op != token.ADD || b.X != ssa.Value(phi) {
			return false
		}
		if c, ok := b.Y.(*ssa.Const); !ok || c.Int64() != 1 {
			return false
		}
	}
	return true
}

func sameLength(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	ca, ok1 := a.(*ssa.Call)
	cb, ok2 := b.(*ssa.Call)
	if !ok1 || !ok2 {
		return false
	}
	x, ok1 := ca.Call.Value.(*ssa.Builtin)
	y, ok2 := cb.Call.Value.(*ssa.Builtin)
	if !ok1 || !ok2 || x.Name() != "len" || y.Name() != "len" {
		return false
	}
	q := &prover{fields: map[string]bool{}, elems: map[string]bool{}, cells: map[string]bool{}, maps: map[string]bool{}, rooted: map[string]rooted{}, p: newPT(),
		mods: map[*ssa.Function]*writes{}, loads: map[string]*ssa.UnOp{}, reach1: map[*ssa.UnOp]ssa.Value{}, bounds: map[ssa.Value]*interval{}, factMemo: map[string]*pfacts{}}
	s := q.top(ca.Parent(), ca.Block())
	return q.key(ca.Call.Args[0], s) == q.key(cb.Call.Args[0], s)
}

func (q *prover) mapValuesNotNil(t types.Type) bool {
	mt := t.Underlying().(*types.Map)
	if !nilable(mt.Elem()) {
		return true
	}
	if isModelsType(mt.Elem()) || isModelsType(derefType(mt.Elem())) {
		return false
	}
	k := "map " + typeKey(t.Underlying())
	switch q.inv[k] {
	case 1, 3:
		return true
	case 2:
		return false
	}
	q.inv[k] = 3
	all, n := true, 0
	for _, p := range []*ssa.Package{evalPkg, modPkg} {
		forEachFunc(p, func(fn *ssa.Function) {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					if i, ok := ins.(*ssa.MapUpdate); ok && typeKey(i.Map.Type().Underlying()) == typeKey(t.Underlying()) {
						n++
						all = all && q.notNil(i.Value, q.top(fn, b), nil, map[nilQuery]bool{})
					}
				}
			}
		})
	}
	q.inv[k] = 2
	if all && n > 0 {
		q.inv[k] = 1
	}
	return q.inv[k] == 1
}

// resultNotNil: a call returns something that is not nil.
func (q *prover) resultNotNil(c *ssa.Call, k int, sc *scope, seen map[nilQuery]bool) bool {
	if b, ok := c.Call.Value.(*ssa.Builtin); ok {
		return b.Name() != "recover"
	}
	gs := q.callees(c)
	if len(gs) == 0 {
		return false
	}
	for _, g := range gs {
		if !q.p.inRepo(g) || len(g.Blocks) == 0 {
			continue // constructors of the standard library
		}
		if !q.returnsNotNil(g, k, c, sc, nil, seen) {
			return false
		}
	}
	return true
}

// extractNotNil: one of several results, given what is known of the others.
func (q *prover) extractNotNil(c *ssa.Call, k int, sc *scope, errNil map[ssa.Value]bool, seen map[nilQuery]bool) bool {
	n := c.Call.Signature().Results().Len()
	known := map[int]bool{} // results known to be nil / false
	f := q.facts(sc)
	isTrue := map[int]bool{}
	for _, u := range *c.Referrers() {
		e, ok := u.(*ssa.Extract)
		if !ok {
			continue
		}
		if f.isNil[q.key(e, sc)] || errNil[e] {
			known[e.Index] = true
		}
		if v, ok := f.bools[q.key(e, sc)]; ok && v {
			isTrue[e.Index] = true
		}
	}
	_ = n
	gs := q.callees(c)
	if len(gs) == 0 {
		return false
	}
	for _, g := range gs {
		if !q.p.inRepo(g) || len(g.Blocks) == 0 {
			// a value, or an error
			last := g.Signature.Results().Len() - 1
			if isError(g.Signature.Results().At(last).Type()) && !known[last] {
				return false
			}
			continue
		}
		if !q.returnsNotNil(g, k, c, sc, func(r *ssa.Return, s *scope) (bool, map[ssa.Value]bool) {
			m := map[ssa.Value]bool{}
			for j := range known {
				e := r.Results[j]
				if certainError(e) || dominatedNonNil(e, r.Block()) || q.facts(s).nonNil[q.key(e, s)] {
					return false, nil
				}
				m[e] = true
			}
			for j := range isTrue {
				if cst, ok := r.Results[j].(*ssa.Const); ok && cst.Value != nil && cst.Value.String() == "false" {
					return false, nil
				}
			}
			return true, m
		}, seen) {
			return false
		}
	}
	return true
}

func (q *prover) returnsNotNil(g *ssa.Function, k int, c *ssa.Call, sc *scope, possible func(r *ssa.Return, s *scope) (bool, map[ssa.Value]bool), seen map[nilQuery]bool) bool {
	if sc.depth() > 8 {
		return false
	}
	for _, b := range g.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		s := q.enter(g, b, c, sc)
		if sc.has(g) {
			s = q.top(g, b)
		}
		var m map[ssa.Value]bool
		if possible != nil {
			ok, mm := possible(r, s)
			if !ok {
				continue
			}
			m = mm
		}
		if q.isBuild(r.Results[k].Type()) && q.builtOK(g) {
			continue
		}
		if !q.notNil(r.Results[k], s, m, seen) {
			return false
		}
	}
	return true
}

// builtOK: what g returns without an error was found well built.
func (q *prover) builtOK(g *ssa.Function) bool { return q.engine["result "+g.String()] }

// ------------------------------------------------------------------ the obligations

type panicSite struct {
	fn   *ssa.Function
	ins  ssa.Instruction
	kind string
	what string
	ok   bool
}

func (q *prover) sites(fn *ssa.Function) []panicSite {
	var l []panicSite
	name := func(v ssa.Value) string { return nameOf(v) }
	for _, b := range fn.Blocks {
		if b.Index != 0 && len(b.Preds) == 0 {
			continue
		}
		sc := q.top(fn, b)
		nn := func(v ssa.Value) bool { return q.notNil(v, sc, nil, map[nilQuery]bool{}) }
		add := func(ins ssa.Instruction, kind, what string, ok bool) {
			l = append(l, panicSite{fn, ins, kind, what, ok})
		}
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.FieldAddr:
				if q.trivialAddr(i.X) {
					continue
				}
				add(i, "nil", fmt.Sprintf("%s may be nil when its field %s is used", name(i.X), fieldName(i.X.Type(), i.Field)), nn(i.X))
			case *ssa.UnOp:
				if i.Op == token.MUL && !q.trivialAddr(i.X) {
					if _, ok := i.X.(*ssa.FieldAddr); ok {
						continue
					}
					if _, ok := i.X.(*ssa.IndexAddr); ok {
						continue
					}
					add(i, "nil", name(i.X)+" may be nil when it is dereferenced", nn(i.X))
				}
			case *ssa.Store:
				switch i.Addr.(type) {
				case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc, *ssa.Global, *ssa.FreeVar:
				default:
					add(i, "nil", name(i.Addr)+" may be nil when it is written through", nn(i.Addr))
				}
			case *ssa.MapUpdate:
				add(i, "nilmap", name(i.Map)+" may be nil when an entry is added", nn(i.Map))
				if k := i.Key; types.IsInterface(k.Type()) {
					add(i, "hash", name(k)+" may not be hashable", q.comparable(k, sc, 0))
				}
			case *ssa.IndexAddr:
				if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
					n := pt.Elem().Underlying().(*types.Array).Len()
					if !q.trivialAddr(i.X) {
						add(i, "nil", name(i.X)+" may be nil when it is indexed", nn(i.X))
					}
					if c, ok := i.Index.(*ssa.Const); ok && c.Int64() >= 0 && c.Int64() < n {
						continue
					}
					add(i, "index", "index "+name(i.Index)+" may be out of range", q.proveLe(goal{a: nil, aIs: true, b: i.Index}, sc, 0) && q.proveLe(goal{a: i.Index, c: n - 1}, sc, 0))
					continue
				}
				add(i, "index", fmt.Sprintf("index %s of %s may be out of range", name(i.Index), name(i.X)), q.inBounds(i.Index, i.X, sc))
			case *ssa.Index:
				if at, ok := i.X.Type().Underlying().(*types.Array); ok {
					if c, ok := i.Index.(*ssa.Const); ok && c.Int64() < at.Len() {
						continue
					}
					add(i, "index", "index "+name(i.Index)+" may be out of range", q.proveLe(goal{aIs: true, b: i.Index}, sc, 0) && q.proveLe(goal{a: i.Index, c: at.Len() - 1}, sc, 0))
					continue
				}
				add(i, "index", fmt.Sprintf("index %s of %s may be out of range", name(i.Index), name(i.X)), q.inBounds(i.Index, i.X, sc))
			case *ssa.Lookup:
				if isString(i.X.Type()) {
					add(i, "index", fmt.Sprintf("index %s of %s may be out of range", name(i.Index), name(i.X)), q.inBounds(i.Index, i.X, sc))
				} else if types.IsInterface(i.Index.Type()) {
					add(i, "hash", name(i.Index)+" may not be hashable", q.comparable(i.Index, sc, 0))
				}
			case *ssa.Slice:
				if i.Low == nil && i.High == nil && i.Max == nil {
					if _, ok := i.X.Type().Underlying().(*types.Pointer); ok && !q.trivialAddr(i.X) {
						add(i, "nil", name(i.X)+" may be nil when it is sliced", nn(i.X))
					}
					continue
				}
				add(i, "slice", "the bounds of a slice of "+name(i.X)+" may be out of range", q.sliceOK(i, sc))
			case *ssa.MakeSlice:
				if _, ok := i.Len.(*ssa.Const); !ok {
					add(i, "make", "the length of a new list may be negative", q.nonNegative(i.Len, sc))
				}
				if _, ok := i.Cap.(*ssa.Const); !ok && i.Cap != i.Len {
					add(i, "make", "the capacity of a new list may be too small", q.capOK(i, sc))
				}
			case *ssa.TypeAssert:
				if i.CommaOk {
					continue
				}
				add(i, "assert", fmt.Sprintf("%s may not hold a %s", name(i.X), types.TypeString(i.AssertedType, types.RelativeTo(evalPkg.Pkg))), q.assertOK(i, sc))
			case *ssa.BinOp:
				switch i.Op {
				case token.QUO, token.REM:
					if isInt(i.Type()) {
						if c, ok := i.Y.(*ssa.Const); ok && c.Int64() != 0 {
							continue
						}
						add(i, "div", name(i.Y)+" may be zero when it divides", q.proveLe(goal{aIs: true, aConst: 1, b: i.Y}, sc, 0) || q.proveLe(goal{a: i.Y, c: -1}, sc, 0))
					}
				case token.SHL, token.SHR:
					if bt, ok := i.Y.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsUnsigned == 0 {
						if c, ok := i.Y.(*ssa.Const); ok && c.Int64() >= 0 {
							continue
						}
						add(i, "shift", name(i.Y)+" may be negative when it shifts", q.nonNegative(i.Y, sc))
					}
				case token.EQL, token.NEQ:
					if types.IsInterface(i.X.Type()) && types.IsInterface(i.Y.Type()) && !isNilConst(i.X) && !isNilConst(i.Y) {
						add(i, "compare", fmt.Sprintf("comparing %s with %s may fail for values that cannot be compared", name(i.X), name(i.Y)), isError(i.X.Type()) || q.comparable(i.X, sc, 0) || q.comparable(i.Y, sc, 0))
					}
				}
			case *ssa.Panic:
				f := noFacts()
				f.merge(q.facts(sc))
				f.sharpen()
				add(i, "panic", "panic is called", f.contradictory())
			case ssa.CallInstruction:
				com := i.Common()
				switch v := com.Value.(type) {
				case *ssa.Builtin:
					if v.Name() == "panic" {
						add(i, "panic", "panic is called", false)
					}
					continue
				case *ssa.Function, *ssa.MakeClosure:
					q.external(i, sc, add)
					continue
				}
				if com.IsInvoke() {
					add(i, "nilcall", fmt.Sprintf("%s may be nil when its method %s is called", name(com.Value), com.Method.Name()), nn(com.Value))
				} else {
					add(i, "nilcall", name(com.Value)+" may be nil when it is called", nn(com.Value))
				}
			case *ssa.SliceToArrayPointer:
				add(i, "slice", "a slice may be too short for the array it is converted to", false)
			}
		}
	}
	return l
}

func (q *prover) trivialAddr(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Alloc, *ssa.Global, *ssa.FieldAddr, *ssa.IndexAddr, *ssa.FreeVar:
		_, fv := v.(*ssa.FreeVar)
		if fv {
			// a captured variable is an address; a captured pointer is loaded from it
			return true
		}
		return true
	}
	return false
}

// makers: the functions that make a closure (or the bound method) fn.
func (q *prover) makers(fn *ssa.Function) []*ssa.Function {
	if p := fn.Parent(); p != nil {
		return []*ssa.Function{p}
	}
	var l []*ssa.Function
	for _, f := range q.order {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if mc, ok := ins.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(fn) && (len(l) == 0 || l[len(l)-1] != f) {
					l = append(l, f)
				}
			}
		}
	}
	return l
}

func (q *prover) capOK(i *ssa.MakeSlice, sc *scope) bool {
	if q.lin(i.Len, sc) == (linear{}) && q.nonNegative(i.Cap, sc) {
		return true
	}
	return q.proveLe(goal{a: i.Len, b: i.Cap}, sc, 0)
}

func (q *prover) nonNegative(v ssa.Value, sc *scope) bool {
	switch i := v.(type) {
	case *ssa.BinOp:
		switch i.Op {
		case token.ADD, token.MUL, token.QUO, token.SHR, token.AND:
			if q.nonNegative(i.X, sc) && q.nonNegative(i.Y, sc) {
				return true
			}
		case token.REM:
			if q.nonNegative(i.X, sc) {
				return true
			}
		}
	case *ssa.Convert:
		if isInt(i.X.Type()) && isInt(i.Type()) && q.nonNegative(i.X, sc) {
			return true
		}
	}
	return q.proveLe(goal{aIs: true, b: v}, sc, 0)
}

func (q *prover) inBounds(i, x ssa.Value, sc *scope) bool {
	if bt, ok := i.Type().Underlying().(*types.Basic); !ok || bt.Info()&types.IsUnsigned == 0 {
		if !q.nonNegative(i, sc) {
			return false
		}
	}
	return q.proveLe(goal{a: i, b: x, lenB: true, c: -1}, sc, 0)
}

func (q *prover) sliceOK(i *ssa.Slice, sc *scope) bool {
	if i.Max != nil {
		return false
	}
	if isPtrArr(i.X.Type()) {
		// an array: constant bounds within its length
		n := derefType(i.X.Type()).Underlying().(*types.Array).Len()
		lo, hi := linear{}, linear{"", n}
		if i.Low != nil {
			lo = q.lin(i.Low, sc)
		}
		if i.High != nil {
			hi = q.lin(i.High, sc)
		}
		return lo.atom == "" && hi.atom == "" && 0 <= lo.c && lo.c <= hi.c && hi.c <= n && q.trivialAddr(i.X)
	}
	if i.Low != nil && !q.nonNegative(i.Low, sc) {
		return false
	}
	if i.High == nil {
		return q.proveLe(goal{a: i.Low, b: i.X, lenB: true}, sc, 0)
	}
	if i.Low == nil {
		if !q.nonNegative(i.High, sc) {
			return false
		}
	} else if !q.proveLe(goal{a: i.Low, b: i.High}, sc, 0) {
		return false
	}
	return q.proveLe(goal{a: i.High, b: i.X, lenB: true}, sc, 0)
}

func fieldName(t types.Type, i int) string {
	s, ok := isStruct(derefType(t))
	if !ok {
		return "?"
	}
	return s.Field(i).Name()
}

// describe names a value for a reader.
func nameOf(v ssa.Value) string {
	switch i := v.(type) {
	case *ssa.Const:
		if i.Value == nil {
			return "nil"
		}
		return i.Value.String()
	case *ssa.Parameter, *ssa.FreeVar:
		return v.Name()
	case *ssa.Alloc:
		if i.Comment != "" {
			return i.Comment
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			return nameOf(i.X)
		}
	case *ssa.FieldAddr:
		return nameOf(i.X) + "." + fieldName(i.X.Type(), i.Field)
	case *ssa.Field:
		return nameOf(i.X) + "." + fieldName(i.X.Type(), i.Field)
	case *ssa.IndexAddr:
		return nameOf(i.X) + "[" + nameOf(i.Index) + "]"
	case *ssa.Extract:
		return nameOf(i.Tuple)
	case *ssa.TypeAssert:
		return nameOf(i.X)
	case *ssa.MakeInterface:
		return nameOf(i.X)
	case *ssa.Phi:
		if i.Comment != "" && !strings.Contains(i.Comment, "||") && !strings.Contains(i.Comment, "&&") {
			return i.Comment
		}
	case *ssa.BinOp:
		return nameOf(i.X) + " " + i.Op.String() + " " + nameOf(i.Y)
	case *ssa.Global:
		return i.Name()
	case *ssa.Call:
		if g := i.Call.StaticCallee(); g != nil {
			return "the result of " + g.Name()
		}
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && len(i.Call.Args) > 0 {
			return b.Name() + "(" + nameOf(i.Call.Args[0]) + ")"
		}
		if i.Call.IsInvoke() {
			return "the result of " + i.Call.Method.Name()
		}
	case *ssa.Lookup:
		return nameOf(i.X) + "[" + nameOf(i.Index) + "]"
	}
	return "a " + types.TypeString(v.Type(), func(p *types.Package) string { return p.Name() })
}

// external: functions of the standard library that panic.
func (q *prover) external(c ssa.CallInstruction, sc *scope, add func(ins ssa.Instruction, kind, what string, ok bool)) {
	g := c.Common().StaticCallee()
	if g == nil || q.p.inRepo(g) {
		return
	}
	pkg, n := pkgPath(g), g.Name()
	full := pkg + "." + n
	switch {
	case strings.HasPrefix(n, "Must"):
		ok := len(c.Common().Args) > 0
		for _, a := range c.Common().Args {
			if _, isC := a.(*ssa.Const); !isC {
				ok = false
			}
		}
		add(c, "call", full+" panics on what it cannot parse", ok)
	case full == "strings.Repeat" || full == "bytes.Repeat":
		add(c, "call", full+" panics on a negative count", q.nonNegative(c.Common().Args[1], sc))
	case full == "strings.NewReplacer":
		add(c, "call", full+" panics on an odd number of arguments", true)
	case pkg == "reflect":
		switch n {
		case "DeepEqual", "TypeOf", "ValueOf", "String", "Kind", "IsValid":
			return
		}
		add(c, "call", full+" panics on values of the wrong kind", false)
	case pkg == "os" && n == "Exit", pkg == "log" && strings.HasPrefix(n, "Fatal"), pkg == "log" && strings.HasPrefix(n, "Panic"), pkg == "runtime" && n == "Goexit":
		add(c, "call", full+" ends the program", false)
	case pkg == "math/rand" && strings.HasSuffix(n, "n"):
		add(c, "call", full+" panics unless its argument is positive", q.proveLe(goal{aIs: true, aConst: 1, b: c.Common().Args[len(c.Common().Args)-1]}, sc, 0))
	}
	// methods of the library called on nil pointers
	if g.Signature.Recv() != nil && isPtr(g.Signature.Recv().Type()) && len(c.Common().Args) > 0 {
		a := c.Common().Args[0]
		add(c, "nilcall", fmt.Sprintf("%s may be nil when its method %s is called", nameOf(a), n), q.notNil(a, sc, nil, map[nilQuery]bool{}))
	}
}

// ------------------------------------------------------------------ dynamic types

// comparable: the dynamic type of an interface value can be compared.
func (q *prover) comparable(v ssa.Value, sc *scope, d int) bool {
	ts, ok := q.dynTypes(v, sc, d, map[ssa.Value]bool{})
	if !ok {
		return false
	}
	for _, t := range ts {
		if !types.Comparable(t) || hasIface(t) {
			return false
		}
	}
	return true
}

func hasIface(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Interface:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if hasIface(u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return hasIface(u.Elem())
	}
	return false
}

// dynTypes lists the types an interface value may hold.
func (q *prover) dynTypes(v ssa.Value, sc *scope, d int, seen map[ssa.Value]bool) ([]types.Type, bool) {
	if seen[v] {
		return nil, true
	}
	if d > 10 {
		return nil, false
	}
	seen[v] = true
	var l []types.Type
	all := func(vs []ssa.Value, scs []*scope) ([]types.Type, bool) {
		for k, x := range vs {
			ts, ok := q.dynTypes(x, scs[k], d+1, seen)
			if !ok {
				return nil, false
			}
			l = append(l, ts...)
		}
		return l, true
	}
	switch i := v.(type) {
	case *ssa.MakeInterface:
		return []types.Type{i.X.Type()}, true
	case *ssa.Const:
		return nil, true
	case *ssa.ChangeInterface:
		return q.dynTypes(i.X, sc, d, seen)
	case *ssa.ChangeType:
		return q.dynTypes(i.X, sc, d, seen)
	case *ssa.Phi:
		for _, e := range i.Edges {
			ts, ok := q.dynTypes(e, sc, d+1, seen)
			if !ok {
				return nil, false
			}
			l = append(l, ts...)
		}
		return l, true
	case *ssa.Parameter:
		if q.isRoot(sc.fn) {
			return nil, false
		}
		var vs []ssa.Value
		var scs []*scope
		n := 0
		for _, c := range q.callers[sc.fn] {
			for k, p := range sc.fn.Params {
				if p == i {
					n++
					vs = append(vs, callArg(c, k))
					scs = append(scs, q.top(c.Parent(), c.Block()))
				}
			}
		}
		if n == 0 {
			return nil, false
		}
		return all(vs, scs)
	case *ssa.Call, *ssa.Extract:
		k := 0
		c, ok := v.(*ssa.Call)
		if e, isE := v.(*ssa.Extract); isE {
			k = e.Index
			c, ok = e.Tuple.(*ssa.Call)
		}
		if !ok {
			return nil, false
		}
		gs := q.callees(c)
		if len(gs) == 0 {
			return nil, false
		}
		var vs []ssa.Value
		var scs []*scope
		for _, g := range gs {
			if !q.p.inRepo(g) || len(g.Blocks) == 0 {
				return nil, false
			}
			for _, b := range g.Blocks {
				if len(b.Instrs) == 0 {
					continue
				}
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					vs = append(vs, r.Results[k])
					scs = append(scs, q.top(g, b))
				}
			}
		}
		return all(vs, scs)
	case *ssa.UnOp:
		if i.Op != token.MUL {
			return nil, false
		}
		switch a := i.X.(type) {
		case *ssa.Alloc:
			var vs []ssa.Value
			var scs []*scope
			for _, u := range *a.Referrers() {
				if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) {
					vs = append(vs, s.Val)
					scs = append(scs, q.top(a.Parent(), s.Block()))
				}
			}
			return all(vs, scs)
		case *ssa.FieldAddr:
			return q.fieldTypes(a.X.Type(), a.Field, d, seen)
		case *ssa.IndexAddr:
			// the list is a field
			if f, ok := listField(a.X); ok {
				return q.fieldTypes(f.X.Type(), f.Field, d, seen)
			}
			if p, ok := a.X.(*ssa.Parameter); ok {
				for _, c := range q.callers[sc.fn] {
					for k, x := range sc.fn.Params {
						if x == p {
							f, ok := listField(callArg(c, k))
							if !ok {
								return nil, false
							}
							ts, ok := q.fieldTypes(f.X.Type(), f.Field, d, seen)
							if !ok {
								return nil, false
							}
							l = append(l, ts...)
						}
					}
				}
				return l, len(q.callers[sc.fn]) > 0
			}
		}
	case *ssa.Field:
		return q.fieldTypes(i.X.Type(), i.Field, d, seen)
	}
	return nil, false
}

func listField(v ssa.Value) (*ssa.FieldAddr, bool) {
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL {
		f, ok := u.X.(*ssa.FieldAddr)
		return f, ok
	}
	return nil, false
}

// fieldTypes lists the dynamic types of what is stored in a field (of the
// elements, if it is a list).
func (q *prover) fieldTypes(t types.Type, f int, d int, seen map[ssa.Value]bool) ([]types.Type, bool) {
	var l []types.Type
	ok := true
	var val func(v ssa.Value, sc *scope, d int) bool
	done := map[ssa.Value]bool{}
	val = func(v ssa.Value, sc *scope, d int) bool {
		if done[v] {
			return true
		}
		done[v] = true
		if !isSlice(v.Type()) {
			ts, ok := q.dynTypes(v, sc, d+1, seen)
			l = append(l, ts...)
			return ok
		}
		switch i := v.(type) {
		case *ssa.Const:
			return true
		case *ssa.MakeSlice:
			return q.stored(i, sc, d, val)
		case *ssa.Phi:
			for _, e := range i.Edges {
				if !val(e, sc, d) {
					return false
				}
			}
			return true
		case *ssa.Slice:
			if a, ok := i.X.(*ssa.Alloc); ok {
				return q.stored(a, sc, d, val)
			}
			return val(i.X, sc, d)
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
				return val(i.Call.Args[0], sc, d) && val(i.Call.Args[1], sc, d)
			}
			if g := i.Call.StaticCallee(); g != nil && q.p.inRepo(g) {
				return q.returned(g, 0, d, val)
			}
		case *ssa.Extract:
			if c, ok := i.Tuple.(*ssa.Call); ok {
				if g := c.Call.StaticCallee(); g != nil && q.p.inRepo(g) {
					return q.returned(g, i.Index, d, val)
				}
			}
		case *ssa.UnOp:
			if fa, ok := i.X.(*ssa.FieldAddr); ok && fa.Field == f && structKey(fa.X.Type()) == structKey(t) {
				return true // from the field itself
			}
			if a, ok := i.X.(*ssa.Alloc); ok {
				for _, u := range *a.Referrers() {
					if s, ok := u.(*ssa.Store); ok && s.Addr == ssa.Value(a) && !val(s.Val, sc, d) {
						return false
					}
				}
				return true
			}
		}
		return false
	}
	for _, p := range []*ssa.Package{evalPkg, modPkg} {
		forEachFunc(p, func(fn *ssa.Function) {
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					s, isS := ins.(*ssa.Store)
					if !isS {
						continue
					}
					if fa, isF := s.Addr.(*ssa.FieldAddr); isF && fa.Field == f && structKey(fa.X.Type()) == structKey(t) {
						ok = ok && val(s.Val, q.top(fn, b), d)
					}
				}
			}
		})
	}
	if s, isS := isStruct(derefType(t)); !isS || s.Field(f).Exported() && decodable(s, f) {
		return nil, false
	}
	return l, ok
}

// decodable: the XML decoder may fill the field by itself.
func decodable(s *types.Struct, f int) bool {
	return s.Tag(f) != "" && !strings.Contains(s.Tag(f), `xml:"-"`)
}

func (q *prover) stored(list ssa.Value, sc *scope, d int, val func(v ssa.Value, sc *scope, d int) bool) bool {
	for _, u := range *list.Referrers() {
		ia, ok := u.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, w := range *ia.Referrers() {
			if s, ok := w.(*ssa.Store); ok && s.Addr == ssa.Value(ia) && !val(s.Val, sc.at(s.Block()), d+1) {
				return false
			}
		}
	}
	return true
}

func (q *prover) returned(g *ssa.Function, k, d int, val func(v ssa.Value, sc *scope, d int) bool) bool {
	for _, b := range g.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !val(r.Results[k], q.top(g, b), d+1) {
			return false
		}
	}
	return true
}

func (q *prover) assertOK(i *ssa.TypeAssert, sc *scope) bool {
	f := q.facts(sc)
	if f.contradictory() || f.isType[q.key(i.X, sc)] == i.AssertedType.String() {
		return true
	}
	if q.asserts[i] {
		return true
	}
	ts, ok := q.dynTypes(i.X, sc, 0, map[ssa.Value]bool{})
	if !ok || len(ts) == 0 {
		return false
	}
	for _, t := range ts {
		if types.IsInterface(i.AssertedType) {
			if !types.Implements(t, i.AssertedType.Underlying().(*types.Interface)) {
				return false
			}
		} else if !types.Identical(t, i.AssertedType) {
			return false
		}
	}
	return q.notNil(i.X, sc, nil, map[nilQuery]bool{})
}

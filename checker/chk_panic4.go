package main

import (
	"go/constant"
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------- loads of the same value

// writes is memory that some instructions may change.
type writes struct {
	fields, elems, cells map[string]bool
	allocs               map[*ssa.Alloc]map[int]bool // fields, -1: all of it
	calls                bool
}

func newWrites() *writes {
	return &writes{map[string]bool{}, map[string]bool{}, map[string]bool{}, map[*ssa.Alloc]map[int]bool{}, false}
}

func (w *writes) add(o *writes) {
	for _, p := range [][2]map[string]bool{{w.fields, o.fields}, {w.elems, o.elems}, {w.cells, o.cells}} {
		for k := range p[1] {
			p[0][k] = true
		}
	}
	w.calls = w.calls || o.calls
}

func (w *writes) inside(t types.Type) {
	if s, ok := isStruct(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			w.fields[fieldKey(t, i)] = true
			w.inside(s.Field(i).Type())
		}
	}
}

// instr adds what an instruction may write.
func (q *prover) instrWrites(w *writes, ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.Store:
		if a, ok := rootOf(i.Addr).(*ssa.Alloc); ok {
			if w.allocs[a] == nil {
				w.allocs[a] = map[int]bool{}
			}
			w.allocs[a][firstField(i.Addr)] = true
			if !escapes(a) {
				return
			}
		}
		switch x := i.Addr.(type) {
		case *ssa.FieldAddr:
			w.fields[fieldKey(x.X.Type(), x.Field)] = true
		case *ssa.IndexAddr:
			addStored(w.elems, i.Val.Type())
		default:
			w.cells[elemKey(i.Val.Type())] = true
		}
		w.inside(i.Val.Type())
	case ssa.CallInstruction:
		w.calls = true
		if b, ok := i.Common().Value.(*ssa.Builtin); ok {
			if b.Name() == "copy" || b.Name() == "append" {
				if s, ok := i.Common().Args[0].Type().Underlying().(*types.Slice); ok {
					addStored(w.elems, s.Elem())
					w.inside(s.Elem())
				}
			}
			return
		}
		for _, g := range q.callees(i) {
			if q.p.inRepo(g) && len(g.Blocks) > 0 {
				w.add(q.modsOf(g))
				continue
			}
			for _, a := range i.Common().Args {
				switch u := a.Type().Underlying().(type) {
				case *types.Slice:
					addStored(w.elems, u.Elem())
				case *types.Pointer:
					w.cells[elemKey(u.Elem())] = true
					w.inside(u.Elem())
				}
				if m, ok := a.(*ssa.MakeInterface); ok {
					switch u := m.X.Type().Underlying().(type) {
					case *types.Slice:
						addStored(w.elems, u.Elem())
					case *types.Pointer:
						w.cells[elemKey(u.Elem())] = true
						w.inside(u.Elem())
					}
				}
			}
		}
	}
}

// modsOf: what a function may write, the functions it calls included.
func (q *prover) modsOf(fn *ssa.Function) *writes {
	if w, ok := q.mods[fn]; ok {
		return w
	}
	q.mods[fn] = newWrites() // a recursive call adds nothing by itself
	seen := map[*ssa.Function]bool{}
	w := newWrites()
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if c, ok := ins.(ssa.CallInstruction); ok {
					if _, ok := c.Common().Value.(*ssa.Builtin); !ok {
						for _, g := range q.callees(c) {
							if q.p.inRepo(g) && len(g.Blocks) > 0 {
								visit(g)
							}
						}
					}
				}
				if c, ok := ins.(ssa.CallInstruction); ok {
					repo := false
					for _, g := range q.callees(c) {
						repo = repo || q.p.inRepo(g) && len(g.Blocks) > 0
					}
					if repo {
						continue
					}
				}
				q.instrWrites(w, ins)
			}
		}
	}
	visit(fn)
	w.allocs = map[*ssa.Alloc]map[int]bool{}
	w.calls = true
	q.mods[fn] = w
	return w
}

// firstField: which field of the variable it starts from an address is in.
func firstField(a ssa.Value) int {
	for {
		switch i := a.(type) {
		case *ssa.FieldAddr:
			if _, ok := i.X.(*ssa.Alloc); ok {
				return i.Field
			}
			a = i.X
		case *ssa.IndexAddr:
			if !isPtrArr(i.X.Type()) {
				return -1
			}
			a = i.X
		default:
			return -1
		}
	}
}

// sameAddr: two addresses in the same variable are written the same way.
func sameAddr(a, b ssa.Value) bool {
	if a == b {
		return true
	}
	x, ok1 := a.(*ssa.FieldAddr)
	y, ok2 := b.(*ssa.FieldAddr)
	return ok1 && ok2 && x.Field == y.Field && sameAddr(x.X, y.X)
}

// reaching is the value that was stored where l, a load from a local variable,
// reads.
func (q *prover) reaching(l *ssa.UnOp) ssa.Value {
	r, ok := rootOf(l.X).(*ssa.Alloc)
	if !ok || l.Block() == nil {
		return nil
	}
	if v, ok := q.reach1[l]; ok {
		return v
	}
	q.reach1[l] = nil
	var found ssa.Value
	var stores func(v ssa.Value)
	stores = func(v ssa.Value) {
		if v.Referrers() == nil || found != nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch i := u.(type) {
			case *ssa.FieldAddr:
				stores(i)
			case *ssa.Store:
				if i.Addr != v || !sameAddr(i.Addr, l.X) || !before(i, l) {
					continue
				}
				w := newWrites()
				q.between(w, i, l)
				if kept(l.X, w) {
					found = i.Val
				}
			}
		}
	}
	stores(r)
	q.reach1[l] = found
	return found
}

// escapes: the address of a variable is kept somewhere.
func escapes(a *ssa.Alloc) bool {
	var esc func(v ssa.Value) bool
	esc = func(v ssa.Value) bool {
		if v.Referrers() == nil {
			return false
		}
		for _, u := range *v.Referrers() {
			switch i := u.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.Store:
				if i.Val == v {
					return true
				}
			case *ssa.FieldAddr:
				if esc(i) {
					return true
				}
			case *ssa.IndexAddr:
				if esc(i) {
					return true
				}
			case *ssa.BinOp:
			default:
				return true
			}
		}
		return false
	}
	return esc(a)
}

// kept: the memory at an address is none of what may be written.
func kept(a ssa.Value, w *writes) bool {
	if r, ok := rootOf(a).(*ssa.Alloc); ok {
		f := firstField(a)
		if w.allocs[r][-1] || w.allocs[r][f] || f == -1 && len(w.allocs[r]) > 0 {
			return false
		}
		return !w.calls || !escapes(r)
	}
	switch i := a.(type) {
	case *ssa.FieldAddr:
		if w.fields[fieldKey(i.X.Type(), i.Field)] {
			return false
		}
		switch i.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr:
			return kept(i.X, w)
		}
		return true
	case *ssa.IndexAddr:
		t := derefType(i.Type())
		return !w.elems[elemKey(t)] && !overlaps(w.elems, t)
	case *ssa.Global:
		return !w.calls && !w.cells[elemKey(derefType(a.Type()))]
	}
	t := derefType(a.Type())
	if w.cells[elemKey(t)] || w.elems[elemKey(t)] {
		return false
	}
	if s, ok := isStruct(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			if w.fields[fieldKey(t, i)] {
				return false
			}
		}
	}
	return true
}

// sameLoad is an earlier load of the same memory, unchanged since.
func (q *prover) sameLoad(l *ssa.UnOp, k string, sc *scope) *ssa.UnOp {
	if l.Block() == nil || l.Parent() != sc.fn {
		return l
	}
	mk := sc.id + "|" + sc.fn.String() + "|" + l.Name()
	if x, ok := q.loads[mk]; ok {
		return x
	}
	q.loads[mk] = l
	best := l
	for _, b := range sc.fn.Blocks {
		if b != l.Block() && !b.Dominates(l.Block()) {
			continue
		}
		for _, ins := range b.Instrs {
			o, ok := ins.(*ssa.UnOp)
			if ins == ssa.Instruction(l) {
				break
			}
			if !ok || o.Op != token.MUL || !types.Identical(o.Type(), l.Type()) {
				continue
			}
			if ko, _ := q.path(o.X, sc); ko != k {
				continue
			}
			if o.X != l.X && !sameRoot(o.X, l.X) {
				continue
			}
			w := newWrites()
			q.between(w, o, l)
			if kept(l.X, w) {
				best = o
				break
			}
		}
		if best != l {
			break
		}
	}
	if best != l {
		best = q.sameLoad(best, k, sc)
	}
	q.loads[mk] = best
	return best
}

func sameRoot(a, b ssa.Value) bool {
	ra, okA := rootOf(a).(*ssa.Alloc)
	rb, okB := rootOf(b).(*ssa.Alloc)
	return okA == okB && ra == rb
}

// between: what may be written after the first instruction and before the
// second, which it dominates.
func (q *prover) between(w *writes, a, b ssa.Instruction) {
	ba, bb := a.Block(), b.Block()
	ia, ib := instrIndex(a), instrIndex(b)
	if ba == bb {
		for _, ins := range ba.Instrs[ia+1 : ib] {
			q.instrWrites(w, ins)
		}
		return
	}
	for _, ins := range ba.Instrs[ia+1:] {
		q.instrWrites(w, ins)
	}
	fwd := map[*ssa.BasicBlock]bool{}
	var f func(x *ssa.BasicBlock)
	f = func(x *ssa.BasicBlock) {
		if x == ba || fwd[x] {
			return
		}
		fwd[x] = true
		for _, s := range x.Succs {
			f(s)
		}
	}
	for _, s := range ba.Succs {
		f(s)
	}
	bwd := map[*ssa.BasicBlock]bool{}
	var g func(x *ssa.BasicBlock)
	g = func(x *ssa.BasicBlock) {
		if x == ba || bwd[x] {
			return
		}
		bwd[x] = true
		for _, p := range x.Preds {
			g(p)
		}
	}
	again := false // b's block is reached again without passing a's
	for _, p := range bb.Preds {
		g(p)
	}
	again = bwd[bb]
	for x := range fwd {
		if bwd[x] && x != bb {
			for _, ins := range x.Instrs {
				q.instrWrites(w, ins)
			}
		}
	}
	for k, ins := range bb.Instrs {
		if k < ib || again {
			q.instrWrites(w, ins)
		}
	}
}

// ------------------------------------------------------------- small integers

// interval is what values come from constants only.
type interval struct {
	lo, hi int64
	ok     bool
	empty  bool
}

// interval: the smallest and the largest constant a value can be.
func (q *prover) interval(v ssa.Value) (int64, int64, bool) {
	if x, ok := q.bounds[v]; ok {
		return x.lo, x.hi, x.ok && !x.empty
	}
	x := q.constants(v, map[ssa.Value]bool{}, 0)
	q.bounds[v] = &x
	return x.lo, x.hi, x.ok && !x.empty
}

func (q *prover) constants(v ssa.Value, seen map[ssa.Value]bool, d int) interval {
	no := interval{}
	if seen[v] {
		return interval{ok: true, empty: true}
	}
	if d > 30 {
		return no
	}
	join := func(l []ssa.Value) interval {
		r := interval{ok: true, empty: true}
		for _, e := range l {
			x := q.constants(e, seen, d+1)
			if !x.ok {
				return no
			}
			if x.empty {
				continue
			}
			if r.empty {
				r = x
				continue
			}
			if x.lo < r.lo {
				r.lo = x.lo
			}
			if x.hi > r.hi {
				r.hi = x.hi
			}
		}
		return r
	}
	results := func(c *ssa.Call, k int) interval {
		var l []ssa.Value
		gs := q.callees(c)
		if _, ok := c.Call.Value.(*ssa.Builtin); ok || len(gs) == 0 {
			return no
		}
		for _, g := range gs {
			if !q.p.inRepo(g) || len(g.Blocks) == 0 {
				return no
			}
			for _, b := range g.Blocks {
				if len(b.Instrs) == 0 {
					continue
				}
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
					l = append(l, r.Results[k])
				}
			}
		}
		return join(l)
	}
	switch i := v.(type) {
	case *ssa.Const:
		if i.Value != nil && i.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(i.Value); ok {
				return interval{n, n, true, false}
			}
		}
		return no
	case *ssa.Phi:
		seen[v] = true
		return join(i.Edges)
	case *ssa.ChangeType:
		return q.constants(i.X, seen, d+1)
	case *ssa.Call:
		seen[v] = true
		return results(i, 0)
	case *ssa.Extract:
		if c, ok := i.Tuple.(*ssa.Call); ok {
			seen[v] = true
			return results(c, i.Index)
		}
	case *ssa.Parameter:
		fn := i.Parent()
		if q.entries[fn] || len(q.callers[fn]) == 0 {
			return no
		}
		seen[v] = true
		var l []ssa.Value
		for _, c := range q.callers[fn] {
			for k, p := range fn.Params {
				if p == i {
					a := callArg(c, k)
					if a == nil {
						return no
					}
					l = append(l, a)
				}
			}
		}
		return join(l)
	}
	return no
}

// ---------------------------------------------------------------- induction

// inductive proves a bound of a variable of a loop: it holds when the loop is
// entered and every assignment in the loop keeps it.
func (q *prover) inductive(g goal, phi *ssa.Phi, sc *scope, hyp map[*ssa.Phi]bool) bool {
	if hyp[phi] {
		return true
	}
	if len(hyp) > 6 {
		return false
	}
	hyp[phi] = true
	var b linear
	if g.b != nil {
		if ins, ok := g.b.(ssa.Instruction); ok && !ins.Block().Dominates(phi.Block()) || ok && ins.Block() == phi.Block() && q.loopPhi(phi) {
			// the bound has to be the same in every iteration
			if k := q.side(g.b, g.lenB, sc); k.atom != "" && k.atom == "len("+q.opaque(g.b, sc)+")" || k.atom == q.opaque(g.b, sc) {
				return false
			}
		}
		b = q.side(g.b, g.lenB, sc)
	}
	for k, e := range phi.Edges {
		if e == ssa.Value(phi) {
			continue
		}
		p := phi.Block().Preds[k]
		f := noFacts()
		f.merge(q.facts(sc.at(p)))
		q.edgeFacts(f, p, phi.Block(), sc, 0)
		for h := range hyp {
			q.le(f, q.lin(h, sc), b, g.c)
		}
		f.sharpen()
		if f.contradictory() || f.holds(q.lin(e, sc), b, g.c) {
			continue
		}
		if ph, ok := e.(*ssa.Phi); ok && q.inductive(g, ph, sc, hyp) {
			continue
		}
		return false
	}
	return true
}

// inStep: a list that grows by one element whenever a counter does.
func (q *prover) inStep(f *pfacts, list *ssa.Phi, sc *scope) {
	if !q.loopPhi(list) {
		return
	}
	for _, ins := range list.Block().Instrs {
		c, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if !isInt(c.Type()) {
			continue
		}
		le, ge := true, true // len(list) - c never grows, never shrinks
		var init []int64
		known := true
		for k, e := range list.Edges {
			if !list.Block().Dominates(list.Block().Preds[k]) {
				a, b := q.lenLin(e, sc), q.lin(c.Edges[k], sc)
				known = known && a.atom == b.atom
				init = append(init, a.c-b.c)
				continue
			}
			lo, hi, ok := q.grown(list, e, map[ssa.Value]bool{})
			clo, chi, ok2 := q.stepOf(c, c.Edges[k], map[ssa.Value]bool{})
			le = le && ok && ok2 && hi <= clo
			ge = ge && ok && ok2 && lo >= chi
		}
		if !known || len(init) != 1 {
			continue
		}
		l, n := q.lenLin(list, sc), q.lin(c, sc)
		if le {
			q.le(f, l, n, init[0])
		}
		if ge {
			q.le(f, n, l, -init[0])
		}
	}
}

// grown bounds how many elements e has more than list.
func (q *prover) grown(list *ssa.Phi, e ssa.Value, seen map[ssa.Value]bool) (lo, hi int64, ok bool) {
	if e == ssa.Value(list) {
		return 0, 0, true
	}
	if seen[e] {
		return 0, 0, false
	}
	seen[e] = true
	defer delete(seen, e)
	if phi, ok := e.(*ssa.Phi); ok {
		for k, x := range phi.Edges {
			l, h, o := q.grown(list, x, seen)
			if !o {
				return 0, 0, false
			}
			if k == 0 || l < lo {
				lo = l
			}
			if k == 0 || h > hi {
				hi = h
			}
		}
		return lo, hi, true
	}
	if base, n, ok := appended(e); ok {
		lo, hi, ok = q.grown(list, base, seen)
		return lo + n, hi + n, ok
	}
	return 0, 0, false
}

// maybeStored: l reads a local variable that is set once, on one side of a
// condition, and is otherwise zero. The value, the block that decides and the
// way that leaves it zero.
func (q *prover) maybeStored(l *ssa.UnOp) (ssa.Value, *ssa.BasicBlock, *ssa.BasicBlock) {
	r, ok := rootOf(l.X).(*ssa.Alloc)
	if !ok || l.Block() == nil || escapes(r) {
		return nil, nil, nil
	}
	var st *ssa.Store
	var init []*ssa.Store
	n := 0
	var stores func(v ssa.Value)
	stores = func(v ssa.Value) {
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch i := u.(type) {
			case *ssa.FieldAddr:
				stores(i)
			case *ssa.Store:
				if i.Addr != v {
					continue
				}
				switch {
				case sameAddr(i.Addr, l.X):
					st = i
					n++
				case firstField(i.Addr) == -1 || firstField(i.Addr) == firstField(l.X):
					if k, ok := i.Val.(*ssa.Const); (!ok || k.Value != nil) && !zeroField(i, firstField(l.X)) {
						n += 2 // something else is written over it
					}
					init = append(init, i)
				}
			}
		}
	}
	stores(r)
	if n != 1 {
		return nil, nil, nil
	}
	b := st.Block()
	if len(b.Preds) != 1 {
		return nil, nil, nil
	}
	d := b.Preds[0]
	if ifOf(d) == nil || !d.Dominates(l.Block()) {
		return nil, nil, nil
	}
	for _, i := range init {
		if !i.Block().Dominates(d) {
			return nil, nil, nil
		}
	}
	for x := d; x != nil; x = x.Idom() {
		if isHeader(x) && naturalLoop(x)[d] {
			return nil, nil, nil
		}
	}
	for k, s := range d.Succs {
		if s != b {
			return st.Val, d, d.Succs[k]
		}
	}
	return nil, nil, nil
}

// zeroField: a whole struct is stored in which a field was left zero.
func zeroField(st *ssa.Store, f int) bool {
	ld, ok := st.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || f < 0 || firstField(st.Addr) != -1 {
		return false
	}
	if _, ok := st.Addr.(*ssa.Alloc); !ok {
		return false
	}
	a, ok := ld.X.(*ssa.Alloc)
	if !ok || escapes(a) {
		return false
	}
	w := newWrites()
	q := &prover{}
	for _, b := range a.Parent().Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok && rootOf(s.Addr) == ssa.Value(a) {
				q.instrWrites(w, s)
			}
		}
	}
	return !w.allocs[a][-1] && !w.allocs[a][f]
}

package main

// C16, C34: nothing panics.
//
// Every instruction that can panic, in every function reachable from the
// entry points, is an obligation: dereference, call or method call of nil,
// index and slice bounds, unchecked type assertion, write to a nil map,
// integer division, comparison of interfaces, explicit panic. It is
// discharged from the conditions that dominate it (difference constraints
// over lengths and indexes, tests for nil), from the call sites of the
// function, from what callees return, and from what construction guarantees
// about the fields of a model.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type scope struct {
	fn   *ssa.Function
	blk  *ssa.BasicBlock
	call ssa.CallInstruction // in up.fn, the call that entered fn
	up   *scope
	id   string
}

func (sc *scope) at(b *ssa.BasicBlock) *scope {
	c := *sc
	c.blk = b
	return &c
}

func (sc *scope) depth() int {
	n := 0
	for ; sc != nil; sc = sc.up {
		n++
	}
	return n
}

type linear struct {
	atom string
	c    int64
}

// le: a <= b + c
type le struct {
	a, b string
	c    int64
}

type pfacts struct {
	les    []le
	nonNil map[string]bool
	isNil  map[string]bool
	isType map[string]string
	bools  map[string]bool
	ne     map[[2]string][]int64 // a != b + c
	lens   map[string]lenOf      // len atoms: what they are the length of
	false_ bool                  // contradictory
}

type lenOf struct {
	v  ssa.Value
	sc *scope
}

type prover struct {
	r        *Report
	p        *PT
	entries  map[*ssa.Function]bool
	reach    map[*ssa.Function]bool
	order    []*ssa.Function
	callers  map[*ssa.Function][]ssa.CallInstruction
	fields   map[string]bool // written fields, "T.i"
	elems    map[string]bool // written element types
	cells    map[string]bool // written through other pointers
	maps     map[string]bool // map types written
	inv      map[string]int  // field invariants: 1 never nil, 2 unknown, 3 being decided
	engine   map[string]bool // fields never nil, by analysis of construction
	lenEq    func(kind string, a, b []int) bool
	asserts  map[ssa.Instruction]bool // discharged by the analysis of predicates
	rooted   map[string]rooted        // keys of paths from a parameter
	factMemo map[string]*pfacts
	builds   map[string]bool // node types
	mods     map[*ssa.Function]*writes
	loads    map[string]*ssa.UnOp
	reach1   map[*ssa.UnOp]ssa.Value
	bounds   map[ssa.Value]*interval
}

type rooted struct {
	typ   types.Type
	root  string
	steps []int
}

func structKey(t types.Type) string {
	if p, ok := types.Unalias(t).Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return typeKey(types.Unalias(t))
}

func fieldKey(t types.Type, i int) string { return fmt.Sprintf("%s.%d", structKey(t), i) }

func newProver(r *Report, entries []*ssa.Function, p *PT, order []*ssa.Function) *prover {
	q := &prover{r: r, p: p, entries: map[*ssa.Function]bool{}, reach: map[*ssa.Function]bool{}, order: order,
		callers: map[*ssa.Function][]ssa.CallInstruction{}, fields: map[string]bool{}, elems: map[string]bool{}, cells: map[string]bool{},
		maps: map[string]bool{}, inv: map[string]int{}, engine: map[string]bool{}, asserts: map[ssa.Instruction]bool{},
		rooted: map[string]rooted{}, factMemo: map[string]*pfacts{}, builds: map[string]bool{},
		mods: map[*ssa.Function]*writes{}, loads: map[string]*ssa.UnOp{}, reach1: map[*ssa.UnOp]ssa.Value{}, bounds: map[ssa.Value]*interval{}}
	for _, f := range entries {
		q.entries[f] = true
	}
	for _, f := range order {
		q.reach[f] = true
	}
	// the construction of what the property is about: its calls matter for the
	// variables its closures keep
	for _, pkg := range []*ssa.Package{evalPkg, modPkg} {
		forEachFunc(pkg, func(f *ssa.Function) {
			if q.reach[f] {
				return
			}
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					if i, ok := ins.(ssa.CallInstruction); ok {
						if g := i.Common().StaticCallee(); g != nil && !q.reach[g] {
							q.callers[g] = append(q.callers[g], i)
						}
					}
				}
			}
		})
	}
	for _, f := range order {
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				switch i := ins.(type) {
				case *ssa.Store:
					q.written(i.Addr, i.Val.Type())
				case *ssa.MapUpdate:
					q.maps[elemKey(i.Map.Type())] = true
				case ssa.CallInstruction:
					for _, g := range q.callees(i) {
						q.callers[g] = append(q.callers[g], i)
					}
					if b, ok := i.Common().Value.(*ssa.Builtin); ok {
						switch b.Name() {
						case "copy":
							if s, ok := i.Common().Args[0].Type().Underlying().(*types.Slice); ok {
								addStored(q.elems, s.Elem())
							}
						case "delete", "clear":
							q.maps[elemKey(i.Common().Args[0].Type())] = true
						}
					}
				}
			}
		}
	}
	return q
}

func (q *prover) callees(c ssa.CallInstruction) []*ssa.Function {
	var l []*ssa.Function
	for g := range q.p.callees[c] {
		l = append(l, g)
	}
	if g := c.Common().StaticCallee(); g != nil && len(l) == 0 {
		l = append(l, g)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].String() < l[j].String() })
	return l
}

// written records what a store may change.
func (q *prover) written(addr ssa.Value, t types.Type) {
	if a, ok := rootOf(addr).(*ssa.Alloc); ok {
		_ = a
		return // loads from the same variable are followed separately
	}
	switch i := addr.(type) {
	case *ssa.FieldAddr:
		q.fields[fieldKey(i.X.Type(), i.Field)] = true
		q.writtenInside(t)
	case *ssa.IndexAddr:
		addStored(q.elems, t)
		q.writtenInside(t)
	default:
		q.cells[elemKey(t)] = true
		q.writtenInside(t)
	}
}

// writtenInside: storing a whole struct writes its fields.
func (q *prover) writtenInside(t types.Type) {
	if s, ok := isStruct(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			q.fields[fieldKey(t, i)] = true
			q.writtenInside(s.Field(i).Type())
		}
	}
}

func (q *prover) stableStruct(t types.Type) bool {
	s, ok := isStruct(t)
	if !ok {
		return true
	}
	for i := 0; i < s.NumFields(); i++ {
		if q.fields[fieldKey(t, i)] || !q.stableStruct(s.Field(i).Type()) {
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------ names

// arg is what a parameter stands for in the calling scope.
func (sc *scope) arg(p ssa.Value) (ssa.Value, *scope) {
	if sc.up == nil {
		return nil, nil
	}
	for i, q := range sc.fn.Params {
		if ssa.Value(q) != p {
			continue
		}
		if v := callArg(sc.call, i); v != nil {
			return v, sc.up
		}
	}
	if fv, ok := p.(*ssa.FreeVar); ok && sc.call != nil {
		if mc, ok := sc.call.Common().Value.(*ssa.MakeClosure); ok && mc.Fn == ssa.Value(sc.fn) {
			for i, f := range sc.fn.FreeVars {
				if f == fv {
					return mc.Bindings[i], sc.up
				}
			}
		}
	}
	return nil, nil
}

func callArg(c ssa.CallInstruction, i int) ssa.Value {
	com := c.Common()
	if com.IsInvoke() {
		if i == 0 {
			return com.Value
		}
		i--
	}
	if i < len(com.Args) {
		return com.Args[i]
	}
	return nil
}

// whole returns the only value ever stored in a local variable as a whole,
// when nothing else writes it before blk.
func whole(a *ssa.Alloc) *ssa.Store {
	var st *ssa.Store
	var bad bool
	var use func(v ssa.Value, top bool)
	use = func(v ssa.Value, top bool) {
		if v.Referrers() == nil {
			return
		}
		for _, u := range *v.Referrers() {
			switch i := u.(type) {
			case *ssa.Store:
				if i.Addr == v && top {
					if st != nil {
						bad = true
					}
					st = i
				} else {
					bad = true
				}
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				use(i, false)
			case *ssa.IndexAddr:
				use(i, false)
			case *ssa.MakeClosure:
				if !top || writesFree(i, v) {
					bad = true
				}
			case ssa.CallInstruction, *ssa.Phi, *ssa.MakeInterface, *ssa.Slice, *ssa.MapUpdate, *ssa.Return:
				bad = true
			default:
				bad = true
			}
		}
	}
	use(a, true)
	if bad {
		return nil
	}
	return st
}

// writesFree: the closure does more than read the variable it captures.
func writesFree(mc *ssa.MakeClosure, v ssa.Value) bool {
	fn := mc.Fn.(*ssa.Function)
	for i, b := range mc.Bindings {
		if b != v {
			continue
		}
		if i >= len(fn.FreeVars) || fn.FreeVars[i].Referrers() == nil {
			continue
		}
		for _, u := range *fn.FreeVars[i].Referrers() {
			switch x := u.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				for _, w := range *x.Referrers() {
					if _, ok := w.(*ssa.UnOp); !ok {
						return true
					}
				}
			default:
				return true
			}
		}
	}
	return false
}

func (q *prover) opaque(v ssa.Value, sc *scope) string {
	return "V:" + sc.id + ":" + sc.fn.String() + ":" + v.Name()
}

// path names the memory at an address; ok: it does not change.
func (q *prover) path(a ssa.Value, sc *scope) (string, bool) {
	switch i := a.(type) {
	case *ssa.FieldAddr:
		var base string
		ok := true
		switch i.X.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Alloc:
			base, ok = q.path(i.X, sc)
		default:
			base = "(" + q.key(i.X, sc) + ")*"
		}
		if _, local := rootOf(i).(*ssa.Alloc); !local {
			ok = ok && !q.fields[fieldKey(i.X.Type(), i.Field)]
		}
		k := fmt.Sprintf("%s.%d", base, i.Field)
		q.step(k, base, i.X, i.Field, sc)
		return k, ok
	case *ssa.IndexAddr:
		var base string
		ok := true
		if isPtrArr(i.X.Type()) {
			base, ok = q.path(i.X, sc)
		} else {
			base = q.key(i.X, sc)
			if et := derefType(i.Type()); q.elems[elemKey(et)] || q.cells[elemKey(et)] || innerArrays(q.elems, et) {
				ok = false
			}
		}
		return base + "[" + q.key(i.Index, sc) + "]", ok
	case *ssa.Alloc:
		if st := whole(i); st != nil {
			return q.key(st.Val, sc), true
		}
		return q.opaque(i, sc), false
	case *ssa.Global:
		return "G:" + i.RelString(nil), !globalAssigned(i)
	case *ssa.FreeVar:
		if v, up := sc.arg(i); v != nil {
			return q.path(v, up)
		}
		return "(" + q.opaque(i, sc) + ")*", !q.cells[elemKey(derefType(i.Type()))]
	}
	return "(" + q.key(a, sc) + ")*", !q.cells[elemKey(derefType(a.Type()))] && q.stableStruct(derefType(a.Type()))
}

// innerArrays: an array inside a value of type t may be written element by
// element.
func innerArrays(w map[string]bool, t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if innerArrays(w, u.Field(i).Type()) {
				return true
			}
		}
	case *types.Array:
		return overlaps(w, u.Elem())
	}
	return false
}

func (q *prover) step(k, base string, x ssa.Value, f int, sc *scope) {
	if r, ok := q.rooted[base]; ok {
		q.rooted[k] = rooted{r.typ, r.root, append(append([]int{}, r.steps...), f)}
		return
	}
	if pt, ok := x.Type().Underlying().(*types.Pointer); ok && strings.HasSuffix(base, ")*") {
		inner := base[1 : len(base)-2]
		if r, ok := q.rooted[inner]; ok { // a pointer reached from the root
			q.rooted[k] = rooted{r.typ, r.root, append(append([]int{}, r.steps...), f)}
			return
		}
		q.rooted[k] = rooted{pt.Elem(), inner, []int{f}}
	}
}

// globalAssigned: a package variable is written outside of initialisation.
func globalAssigned(g *ssa.Global) bool {
	if g.Pkg == nil {
		return false
	}
	w := false
	forEachFunc(g.Pkg, func(f *ssa.Function) {
		if f.Name() == "init" && f.Synthetic != "" {
			return
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if s, ok := ins.(*ssa.Store); ok && rootOf(s.Addr) == ssa.Value(g) {
					w = true
				}
			}
		}
	})
	return w
}

func (q *prover) key(v ssa.Value, sc *scope) string {
	switch i := v.(type) {
	case *ssa.Const:
		if i.Value == nil {
			return "nil"
		}
		return "c:" + i.Value.ExactString()
	case *ssa.Parameter, *ssa.FreeVar:
		if a, up := sc.arg(v); a != nil {
			return q.key(a, up)
		}
	case *ssa.ChangeType:
		return q.key(i.X, sc)
	case *ssa.ChangeInterface:
		return q.key(i.X, sc)
	case *ssa.Convert:
		if isInt(i.X.Type()) && isInt(i.Type()) || isString(i.X.Type()) && isString(i.Type()) {
			return q.key(i.X, sc)
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			k, ok := q.path(i.X, sc)
			if ok {
				return k
			}
			if v := q.reaching(i); v != nil {
				return q.key(v, sc)
			}
			if l := q.sameLoad(i, k, sc); l != i {
				return q.opaque(l, sc)
			}
		}
	case *ssa.Field:
		k := q.key(i.X, sc)
		n := fmt.Sprintf("%s.%d", k, i.Field)
		if r, ok := q.rooted[k]; ok {
			q.rooted[n] = rooted{r.typ, r.root, append(append([]int{}, r.steps...), i.Field)}
		} else if strings.HasSuffix(k, ")*") { // a field of a whole struct that was read
			q.rooted[n] = rooted{i.X.Type(), k[1 : len(k)-2], []int{i.Field}}
		}
		return n
	case *ssa.FieldAddr, *ssa.IndexAddr:
		k, _ := q.path(v, sc)
		return "&" + k
	case *ssa.Extract:
		if ta, ok := i.Tuple.(*ssa.TypeAssert); ok && i.Index == 0 {
			return "assert{" + ta.AssertedType.String() + "}(" + q.key(ta.X, sc) + ")"
		}
		if c, ok := i.Tuple.(*ssa.Call); ok {
			if k := q.pure(c, sc); k != "" {
				return fmt.Sprintf("%s#%d", k, i.Index)
			}
		}
		if l, ok := i.Tuple.(*ssa.Lookup); ok && !q.maps[elemKey(l.X.Type())] {
			return fmt.Sprintf("%s{%s}#%d", q.key(l.X, sc), q.key(l.Index, sc), i.Index)
		}
	case *ssa.Lookup:
		if !i.CommaOk && isMap(i.X.Type()) && !q.maps[elemKey(i.X.Type())] {
			return fmt.Sprintf("%s{%s}#0", q.key(i.X, sc), q.key(i.Index, sc))
		}
	case *ssa.TypeAssert:
		if !i.CommaOk {
			return "assert{" + i.AssertedType.String() + "}(" + q.key(i.X, sc) + ")"
		}
	case *ssa.BinOp:
		if isInt(i.Type()) {
			if l := q.lin(v, sc); l.atom != q.opaque(v, sc) {
				return fmt.Sprintf("(%s%+d)", l.atom, l.c)
			}
		}
	case *ssa.Call:
		if k := q.pure(i, sc); k != "" {
			return k
		}
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
			if l := q.lenLin(i.Call.Args[0], sc); l.atom != "" {
				return fmt.Sprintf("(%s%+d)", l.atom, l.c)
			}
		}
	}
	return q.opaque(v, sc)
}

// pure names the result of a call that depends on its arguments only.
func (q *prover) pure(c *ssa.Call, sc *scope) string {
	g := c.Call.StaticCallee()
	if g == nil {
		return ""
	}
	n := ""
	switch {
	case pkgPath(g) == "strings" && g.Signature.Recv() == nil:
		n = "strings." + g.Name()
	case q.accessor(g):
		n = g.String()
	}
	if n == "" {
		return ""
	}
	var a []string
	for _, x := range c.Call.Args {
		a = append(a, q.key(x, sc))
	}
	return n + "(" + strings.Join(a, ",") + ")"
}

// accessor: a function of value arguments without effects or memory access.
func (q *prover) accessor(g *ssa.Function) bool {
	if !q.p.inRepo(g) || len(g.Blocks) == 0 || len(g.Blocks) > 1 {
		return false
	}
	for _, p := range g.Params {
		if refs(p.Type()) && !isStructWithoutPtr(p.Type()) {
			return false
		}
	}
	for _, ins := range g.Blocks[0].Instrs {
		switch i := ins.(type) {
		case *ssa.Call, *ssa.MapUpdate, *ssa.Lookup, *ssa.Defer, *ssa.Go:
			return false
		case *ssa.UnOp:
			if i.Op == token.MUL {
				if _, ok := rootOf(i.X).(*ssa.Alloc); !ok {
					return false
				}
			}
		case *ssa.Store:
			if _, ok := rootOf(i.Addr).(*ssa.Alloc); !ok {
				return false
			}
		}
	}
	return true
}

func isStructWithoutPtr(t types.Type) bool {
	s, ok := isStruct(t)
	if !ok {
		return false
	}
	for i := 0; i < s.NumFields(); i++ {
		switch s.Field(i).Type().Underlying().(type) {
		case *types.Basic, *types.Interface:
		default:
			return false
		}
	}
	return true
}

// ------------------------------------------------------------------ integers

func (q *prover) lin(v ssa.Value, sc *scope) linear {
	switch i := v.(type) {
	case *ssa.Const:
		if i.Value != nil && i.Value.Kind() == constant.Int {
			if n, ok := constant.Int64Val(i.Value); ok {
				return linear{"", n}
			}
		}
	case *ssa.Parameter, *ssa.FreeVar:
		if a, up := sc.arg(v); a != nil {
			return q.lin(a, up)
		}
	case *ssa.ChangeType:
		return q.lin(i.X, sc)
	case *ssa.Convert:
		if isInt(i.X.Type()) && isInt(i.Type()) {
			return q.lin(i.X, sc)
		}
	case *ssa.BinOp:
		if i.Op == token.ADD || i.Op == token.SUB {
			a, b := q.lin(i.X, sc), q.lin(i.Y, sc)
			if i.Op == token.SUB {
				if a.atom == b.atom {
					return linear{"", a.c - b.c}
				}
				if b.atom == "" {
					return linear{a.atom, a.c - b.c}
				}
			} else {
				if a.atom == "" {
					return linear{b.atom, a.c + b.c}
				}
				if b.atom == "" {
					return linear{a.atom, a.c + b.c}
				}
			}
		}
		return linear{q.opaque(v, sc), 0}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if a, ok := i.X.(*ssa.Alloc); ok {
				if st := whole(a); st != nil {
					return q.lin(st.Val, sc)
				}
			}
			if v := q.reaching(i); v != nil {
				return q.lin(v, sc)
			}
		}
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") {
			if b.Name() == "len" {
				return q.lenLin(i.Call.Args[0], sc)
			}
			return linear{q.opaque(v, sc), 0}
		}
		if l, ok := q.inlined(i, 0, sc, func(v ssa.Value, s *scope) linear { return q.lin(v, s) }); ok {
			return l
		}
	}
	return linear{q.key(v, sc), 0}
}

// inlined evaluates a result of a call when all returns agree.
func (q *prover) inlined(c *ssa.Call, k int, sc *scope, f func(v ssa.Value, s *scope) linear) (linear, bool) {
	g := c.Call.StaticCallee()
	if g == nil || !q.p.inRepo(g) || len(g.Blocks) == 0 || sc.depth() > 6 || sc.has(g) {
		return linear{}, false
	}
	var res *linear
	for _, b := range g.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || k >= len(r.Results) {
			continue
		}
		s := q.enter(g, b, c, sc)
		l := f(r.Results[k], s)
		if strings.Contains(l.atom, s.id) && s.id != sc.id { // local to the callee
			return linear{}, false
		}
		if res != nil && *res != l {
			return linear{}, false
		}
		res = &l
	}
	if res == nil {
		return linear{}, false
	}
	return *res, true
}

func (sc *scope) has(g *ssa.Function) bool {
	for ; sc != nil; sc = sc.up {
		if sc.fn == g {
			return true
		}
	}
	return false
}

func (q *prover) enter(g *ssa.Function, b *ssa.BasicBlock, c ssa.CallInstruction, up *scope) *scope {
	id := fmt.Sprintf("<%s/%s/%d.%d>", up.id, c.Parent().Name(), c.Block().Index, instrIndex(c))
	return &scope{fn: g, blk: b, call: c, up: up.at(c.Block()), id: id}
}

func instrIndex(i ssa.Instruction) int {
	for k, j := range i.Block().Instrs {
		if j == i {
			return k
		}
	}
	return -1
}

func (q *prover) lenLin(x ssa.Value, sc *scope) linear {
	switch i := x.(type) {
	case *ssa.Const:
		if i.Value == nil {
			return linear{"", 0}
		}
		if i.Value.Kind() == constant.String {
			return linear{"", int64(len(constant.StringVal(i.Value)))}
		}
	case *ssa.Parameter, *ssa.FreeVar:
		if a, up := sc.arg(x); a != nil {
			return q.lenLin(a, up)
		}
	case *ssa.MakeSlice:
		return q.lin(i.Len, sc)
	case *ssa.ChangeType:
		return q.lenLin(i.X, sc)
	case *ssa.Slice:
		if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok && i.Low == nil && i.High == nil {
			return linear{"", pt.Elem().Underlying().(*types.Array).Len()}
		}
		var hi linear
		if i.High != nil {
			hi = q.lin(i.High, sc)
		} else if pt, ok := i.X.Type().Underlying().(*types.Pointer); ok {
			hi = linear{"", pt.Elem().Underlying().(*types.Array).Len()}
		} else {
			hi = q.lenLin(i.X, sc)
		}
		lo := linear{}
		if i.Low != nil {
			lo = q.lin(i.Low, sc)
		}
		if lo.atom == "" {
			return linear{hi.atom, hi.c - lo.c}
		}
		if lo.atom == hi.atom {
			return linear{"", hi.c - lo.c}
		}
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			a, k := q.lenLin(i.Call.Args[0], sc), linear{}
			if len(i.Call.Args) > 1 {
				k = q.lenLin(i.Call.Args[1], sc)
			}
			if k.atom == "" {
				return linear{a.atom, a.c + k.c}
			}
			if a.atom == "" {
				return linear{k.atom, a.c + k.c}
			}
		} else if l, ok := q.inlined(i, 0, sc, func(v ssa.Value, s *scope) linear { return q.lenLin(v, s) }); ok {
			return l
		}
	case *ssa.UnOp:
		if i.Op == token.MUL {
			if a, ok := i.X.(*ssa.Alloc); ok {
				if st := whole(a); st != nil {
					return q.lenLin(st.Val, sc)
				}
			}
			if v := q.reaching(i); v != nil {
				return q.lenLin(v, sc)
			}
		}
	case *ssa.Extract:
		if c, ok := i.Tuple.(*ssa.Call); ok {
			if l, ok := q.inlined(c, i.Index, sc, func(v ssa.Value, s *scope) linear { return q.lenLin(v, s) }); ok {
				return l
			}
		}
	}
	return linear{"len(" + q.key(x, sc) + ")", 0}
}

// ------------------------------------------------------------------ facts

func noFacts() *pfacts {
	return &pfacts{nonNil: map[string]bool{}, isNil: map[string]bool{}, isType: map[string]string{}, bools: map[string]bool{}, ne: map[[2]string][]int64{}, lens: map[string]lenOf{}}
}

func (f *pfacts) merge(g *pfacts) {
	f.les = append(f.les, g.les...)
	for k := range g.nonNil {
		f.nonNil[k] = true
	}
	for k := range g.isNil {
		f.isNil[k] = true
	}
	for k, v := range g.isType {
		f.isType[k] = v
	}
	for k, v := range g.bools {
		if old, ok := f.bools[k]; ok && old != v {
			f.false_ = true
		}
		f.bools[k] = v
	}
	for k, v := range g.ne {
		f.ne[k] = append(f.ne[k], v...)
	}
	for k, v := range g.lens {
		f.lens[k] = v
	}
	f.false_ = f.false_ || g.false_
}

func (f *pfacts) contradictory() bool {
	if f.false_ {
		return true
	}
	for k := range f.nonNil {
		if f.isNil[k] || k == "nil" {
			return true
		}
	}
	return f.negative()
}

// facts known whenever control is in sc.blk.
func (q *prover) facts(sc *scope) *pfacts {
	k := fmt.Sprintf("%s|%p|%d|%p", sc.id, sc.fn, sc.blk.Index, sc.call)
	if f, ok := q.factMemo[k]; ok {
		return f
	}
	f := noFacts()
	q.factMemo[k] = f // facts needed while they are collected
	g := noFacts()
	for b := sc.blk; b != nil; b = b.Idom() {
		if len(b.Preds) == 1 {
			q.edgeFacts(g, b.Preds[0], b, sc, 0)
		}
		q.axioms(g, b, sc)
	}
	if sc.up != nil {
		g.merge(q.facts(sc.up))
	}
	q.factMemo[k] = g
	return g
}

func (q *prover) edgeFacts(f *pfacts, from, to *ssa.BasicBlock, sc *scope, d int) {
	i := ifOf(from)
	if i == nil || from.Succs[0] == from.Succs[1] {
		return
	}
	q.cond(f, i.Cond, from.Succs[0] == to, sc.at(from), d)
}

func (q *prover) le(f *pfacts, a, b linear, c int64) {
	f.les = append(f.les, le{a.atom, b.atom, b.c + c - a.c})
}

// cond records what follows from the outcome of a condition.
func (q *prover) cond(f *pfacts, c ssa.Value, val bool, sc *scope, d int) {
	if d > 8 {
		return
	}
	k := q.key(c, sc)
	if old, ok := f.bools[k]; ok && old != val {
		f.false_ = true
	}
	f.bools[k] = val
	switch i := c.(type) {
	case *ssa.Const:
		if i.Value != nil && i.Value.Kind() == constant.Bool && constant.BoolVal(i.Value) != val {
			f.false_ = true
		}
	case *ssa.UnOp:
		if i.Op == token.NOT {
			q.cond(f, i.X, !val, sc, d+1)
		}
		if i.Op == token.MUL {
			if a, ok := i.X.(*ssa.Alloc); ok {
				if st := whole(a); st != nil {
					q.cond(f, st.Val, val, sc, d+1)
				}
			}
		}
	case *ssa.BinOp:
		q.compare(f, i, val, sc, d)
	case *ssa.Phi:
		var keep []int
		for k, e := range i.Edges {
			if kc, ok := e.(*ssa.Const); ok && kc.Value != nil && constant.BoolVal(kc.Value) != val {
				continue
			}
			keep = append(keep, k)
		}
		b := i.Block()
		if len(keep) == 1 && !b.Dominates(b.Preds[keep[0]]) {
			p := b.Preds[keep[0]]
			q.cond(f, i.Edges[keep[0]], val, sc.at(p), d+1)
			q.edgeFacts(f, p, b, sc, d+1)
			for x := p; x != nil && x != b.Idom(); x = x.Idom() {
				if len(x.Preds) == 1 {
					q.edgeFacts(f, x.Preds[0], x, sc, d+1)
				}
			}
		}
	case *ssa.Extract:
		switch t := i.Tuple.(type) {
		case *ssa.TypeAssert:
			if i.Index == 1 && val {
				f.isType[q.key(t.X, sc)] = t.AssertedType.String()
				f.nonNil[q.key(t.X, sc)] = true
				f.nonNil["assert{"+t.AssertedType.String()+"}("+q.key(t.X, sc)+")"] = true
			}
		case *ssa.Call:
			q.outcome(f, t, i.Index, sc, d, func(v ssa.Value) (bool, bool) {
				kc, ok := v.(*ssa.Const)
				return !ok || kc.Value == nil || constant.BoolVal(kc.Value) == val, !ok
			}, val)
		}
	case *ssa.Call:
		g := i.Call.StaticCallee()
		if g == nil {
			return
		}
		if pkgPath(g) == "strings" && val && len(i.Call.Args) == 2 {
			switch g.Name() {
			case "HasPrefix", "HasSuffix", "Contains":
				q.le(f, q.lenLin(i.Call.Args[1], sc), q.lenLin(i.Call.Args[0], sc), 0)
			}
			return
		}
		q.outcome(f, i, 0, sc, d, func(v ssa.Value) (bool, bool) {
			kc, ok := v.(*ssa.Const)
			return !ok || kc.Value == nil || constant.BoolVal(kc.Value) == val, !ok
		}, val)
	}
}

// outcome: the k-th result of a call to a function of the repository is
// known; if only one return can give it, what holds there holds.
func (q *prover) outcome(f *pfacts, c *ssa.Call, k int, sc *scope, d int, fits func(v ssa.Value) (bool, bool), val bool) {
	g := c.Call.StaticCallee()
	if g == nil || !q.p.inRepo(g) || len(g.Blocks) == 0 || sc.has(g) || d > 4 {
		return
	}
	var ret *ssa.Return
	cond := false
	for _, b := range g.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			if ok, open := fits(r.Results[k]); ok {
				if ret != nil {
					return
				}
				ret, cond = r, open
			}
		}
	}
	if ret == nil {
		return
	}
	s := q.enter(g, ret.Block(), c, sc.at(c.Block()))
	for b := ret.Block(); b != nil; b = b.Idom() {
		if len(b.Preds) == 1 {
			q.edgeFacts(f, b.Preds[0], b, s, d+1)
		}
	}
	if cond && isBool(ret.Results[k].Type()) {
		q.cond(f, ret.Results[k], val, s, d+1)
	}
}

func (q *prover) compare(f *pfacts, i *ssa.BinOp, val bool, sc *scope, d int) {
	op := i.Op
	if !val {
		switch op {
		case token.EQL:
			op = token.NEQ
		case token.NEQ:
			op = token.EQL
		case token.LSS:
			op = token.GEQ
		case token.LEQ:
			op = token.GTR
		case token.GTR:
			op = token.LEQ
		case token.GEQ:
			op = token.LSS
		default:
			return
		}
	}
	x, y := i.X, i.Y
	if isNilConst(x) {
		x, y = y, x
	}
	if isNilConst(y) {
		switch op {
		case token.NEQ:
			f.nonNil[q.key(x, sc)] = true
			if isSlice(x.Type()) { // not of use: nil or not, it may be empty
				delete(f.nonNil, q.key(x, sc))
			}
		case token.EQL:
			f.isNil[q.key(x, sc)] = true
			if isSlice(x.Type()) || isMap(x.Type()) {
				q.le(f, q.lenLin(x, sc), linear{}, 0)
			}
			if e, ok := x.(*ssa.Extract); ok {
				if c, ok := e.Tuple.(*ssa.Call); ok {
					q.outcome(f, c, e.Index, sc, d, func(v ssa.Value) (bool, bool) {
						return isNilConst(v) || !certainError(v), !isNilConst(v)
					}, true)
				}
			}
			if c, ok := x.(*ssa.Call); ok {
				q.outcome(f, c, 0, sc, d, func(v ssa.Value) (bool, bool) {
					return isNilConst(v) || !certainError(v), !isNilConst(v)
				}, true)
			}
		}
		return
	}
	if isBool(x.Type()) && (op == token.EQL || op == token.NEQ) {
		for k := 0; k < 2; k++ {
			if c, ok := y.(*ssa.Const); ok && c.Value != nil {
				q.cond(f, x, constant.BoolVal(c.Value) == (op == token.EQL), sc, d+1)
			}
			x, y = y, x
		}
		return
	}
	if isString(x.Type()) {
		for k := 0; k < 2; k++ {
			if c, ok := y.(*ssa.Const); ok && c.Value != nil {
				n := int64(len(constant.StringVal(c.Value)))
				if op == token.EQL {
					q.le(f, linear{"", n}, q.lenLin(x, sc), 0)
					q.le(f, q.lenLin(x, sc), linear{"", n}, 0)
				} else if op == token.NEQ && n == 0 {
					q.le(f, linear{"", 1}, q.lenLin(x, sc), 0)
				}
			}
			x, y = y, x
		}
		return
	}
	if !isInt(x.Type()) {
		return
	}
	a, b := q.lin(x, sc), q.lin(y, sc)
	q.noteLen(f, x, sc)
	q.noteLen(f, y, sc)
	switch op {
	case token.EQL:
		q.le(f, a, b, 0)
		q.le(f, b, a, 0)
	case token.NEQ:
		f.ne[[2]string{a.atom, b.atom}] = append(f.ne[[2]string{a.atom, b.atom}], b.c-a.c)
		f.ne[[2]string{b.atom, a.atom}] = append(f.ne[[2]string{b.atom, a.atom}], a.c-b.c)
	case token.LSS:
		q.le(f, a, b, -1)
	case token.LEQ:
		q.le(f, a, b, 0)
	case token.GTR:
		q.le(f, b, a, -1)
	case token.GEQ:
		q.le(f, b, a, 0)
	}
}

func (q *prover) noteLen(f *pfacts, v ssa.Value, sc *scope) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return
	}
	if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
		f.lens[q.lenLin(v.(*ssa.Call).Call.Args[0], sc).atom] = lenOf{c.Call.Args[0], sc}
	}
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil && !isStructT(c.Type())
}

func isStructT(t types.Type) bool { _, ok := isStruct(t); return ok }

// certainError: v is an error for sure.
func certainError(v ssa.Value) bool {
	switch i := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.UnOp:
		_, ok := i.X.(*ssa.Global)
		return ok && i.Op == token.MUL
	case *ssa.Call:
		if g := i.Call.StaticCallee(); g != nil {
			p := pkgPath(g)
			return g.Name() == "Errorf" || strings.HasSuffix(p, "errors") && (g.Name() == "New" || g.Name() == "Wrap" || g.Name() == "Wrapf")
		}
	case *ssa.Phi:
		for _, e := range i.Edges {
			if e != ssa.Value(i) && !certainError(e) {
				return false
			}
		}
		return true
	}
	return false
}

// axioms: what holds of the values defined in a block.
func (q *prover) axioms(f *pfacts, b *ssa.BasicBlock, sc *scope) {
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi:
			if isInt(i.Type()) {
				q.counter(f, i, sc)
			}
			if isSlice(i.Type()) {
				q.inStep(f, i, sc)
			}
		case *ssa.Call:
			g := i.Call.StaticCallee()
			if g == nil || pkgPath(g) != "strings" {
				continue
			}
			a := linear{q.key(i, sc), 0}
			switch g.Name() {
			case "Index", "LastIndex", "IndexByte", "LastIndexByte", "IndexRune", "IndexAny", "LastIndexAny", "IndexFunc", "LastIndexFunc":
				q.le(f, linear{"", -1}, a, 0)
				n := int64(0)
				if len(i.Call.Args) == 2 {
					n = 1
					if isString(i.Call.Args[1].Type()) {
						n = 0
						if k, ok := i.Call.Args[1].(*ssa.Const); ok && k.Value != nil {
							n = int64(len(constant.StringVal(k.Value)))
							if strings.Contains(g.Name(), "Any") {
								n = 1
							}
						}
					}
				}
				// a match ends within the string; without one the index is -1
				if n > 0 {
					q.le(f, a, q.lenLin(i.Call.Args[0], sc), -1)
				} else {
					q.le(f, a, q.lenLin(i.Call.Args[0], sc), 0)
				}
			case "Count":
				q.le(f, linear{}, a, 0)
			}
		}
	}
}

// counter: a variable that only grows (shrinks) stays above (below) where it
// started.
func (q *prover) counter(f *pfacts, phi *ssa.Phi, sc *scope) {
	var init []linear
	up, down, back := true, true, false
	self := q.opaque(phi, sc)
	for k, e := range phi.Edges {
		if !phi.Block().Dominates(phi.Block().Preds[k]) {
			init = append(init, q.lin(e, sc))
			continue
		}
		back = true
		lo, hi, ok := q.stepOf(phi, e, map[ssa.Value]bool{})
		up = up && ok && lo >= 0
		down = down && ok && hi <= 0
	}
	if !back || len(init) == 0 {
		return
	}
	same := true
	min, consts := init[0].c, init[0].atom == ""
	max := min
	for _, l := range init[1:] {
		same = same && l == init[0]
		consts = consts && l.atom == ""
		if l.c < min {
			min = l.c
		}
		if l.c > max {
			max = l.c
		}
	}
	s := linear{self, 0}
	switch {
	case same:
		if up {
			q.le(f, init[0], s, 0)
		}
		if down {
			q.le(f, s, init[0], 0)
		}
	case consts:
		if up {
			q.le(f, linear{"", min}, s, 0)
		}
		if down {
			q.le(f, s, linear{"", max}, 0)
		}
	}
}

// stepOf bounds e - phi.
func (q *prover) stepOf(phi *ssa.Phi, e ssa.Value, seen map[ssa.Value]bool) (lo, hi int64, ok bool) {
	if e == ssa.Value(phi) {
		return 0, 0, true
	}
	if seen[e] {
		return 0, 0, false
	}
	seen[e] = true
	defer delete(seen, e)
	switch i := e.(type) {
	case *ssa.BinOp:
		x, y := i.X, i.Y
		if _, isC := x.(*ssa.Const); isC && i.Op == token.ADD {
			x, y = y, x
		}
		c, isC := y.(*ssa.Const)
		if !isC || i.Op != token.ADD && i.Op != token.SUB || c.Value == nil || c.Value.Kind() != constant.Int {
			return 0, 0, false
		}
		n, exact := constant.Int64Val(c.Value)
		if !exact {
			return 0, 0, false
		}
		if i.Op == token.SUB {
			n = -n
		}
		lo, hi, ok = q.stepOf(phi, x, seen)
		return lo + n, hi + n, ok
	case *ssa.Phi:
		for k, x := range i.Edges {
			l, h, o := q.stepOf(phi, x, seen)
			if !o {
				return 0, 0, false
			}
			if k == 0 || l < lo {
				lo = l
			}
			if k == 0 || h > hi {
				hi = h
			}
		}
		return lo, hi, true
	}
	return 0, 0, false
}

// ------------------------------------------------------------------ bounds

const inf = int64(1) << 40

// closure: shortest distances from b: the least c with x <= b + c.
func (f *pfacts) dist(b string) (map[string]int64, bool) {
	d := map[string]int64{b: 0}
	les := f.les
	// an inequality sharpens a bound that is met exactly
	for round := 0; round < 40; round++ {
		ch := false
		relax := func(a, b string, c int64) {
			if v, ok := d[b]; ok {
				if w, ok := d[a]; !ok || v+c < w {
					d[a] = v + c
					ch = true
				}
			}
		}
		for _, l := range les {
			relax(l.a, l.b, l.c)
			for _, k := range []string{l.a, l.b} {
				if strings.HasPrefix(k, "len(") {
					relax("", k, 0)
				}
			}
		}
		if strings.HasPrefix(b, "len(") {
			relax("", b, 0)
		}
		if d[b] < 0 {
			return d, true
		}
		if !ch {
			break
		}
	}
	return d, false
}

func (f *pfacts) negative() bool {
	seen := map[string]bool{}
	for _, l := range f.les {
		if l.a == l.b && l.c < 0 {
			return true
		}
		if !seen[l.b] {
			seen[l.b] = true
			if _, neg := f.dist(l.b); neg {
				return true
			}
		}
	}
	return false
}

// sharpen turns a <= b together with a != b into a < b.
func (f *pfacts) sharpen() {
	for round := 0; round < 3; round++ {
		ch := false
		for k, cs := range f.ne {
			for _, c := range cs {
				// a != b + c; if a <= b + c then a <= b + c - 1
				d, _ := f.dist(k[1])
				if v, ok := d[k[0]]; ok && v == c {
					f.les = append(f.les, le{k[0], k[1], c - 1})
					ch = true
				} else if k[0] == "" && strings.HasPrefix(k[1], "len(") && c == 0 {
					// 0 != len
					if v, ok := d[""]; !ok || v > -1 {
						f.les = append(f.les, le{"", k[1], -1})
						ch = true
					}
				}
			}
		}
		if !ch {
			return
		}
	}
}

// holds: a <= b + c follows.
func (f *pfacts) holds(a, b linear, c int64) bool {
	c = c + b.c - a.c
	if a.atom == b.atom {
		return c >= 0
	}
	if a.atom == "" && strings.HasPrefix(b.atom, "len(") && c >= 0 {
		return true
	}
	d, neg := f.dist(b.atom)
	if neg {
		return true
	}
	if v, ok := d[a.atom]; ok && v <= c {
		return true
	}
	return false
}

type goal struct {
	a, b   ssa.Value // a <= b + c; the length of b if lenB, of a if lenA
	lenA   bool
	lenB   bool
	aConst int64
	aIs    bool // a is the constant
	c      int64
}

func (q *prover) side(v ssa.Value, length bool, sc *scope) linear {
	if length {
		return q.lenLin(v, sc)
	}
	return q.lin(v, sc)
}

func (q *prover) proveLe(g goal, sc *scope, depth int) bool {
	f := noFacts()
	f.merge(q.facts(sc))
	f.sharpen()
	if f.contradictory() {
		return true
	}
	var a linear
	if g.aIs {
		a = linear{"", g.aConst}
	} else {
		a = q.side(g.a, g.lenA, sc)
	}
	b := linear{}
	if g.b != nil {
		b = q.side(g.b, g.lenB, sc)
	}
	for _, v := range []ssa.Value{g.a, g.b} {
		if v == nil || !isInt(v.Type()) {
			continue
		}
		rv, _ := given(v, sc)
		if lo, hi, ok := q.interval(rv); ok {
			l := q.lin(v, sc)
			q.le(f, linear{"", lo}, l, 0)
			q.le(f, l, linear{"", hi}, 0)
		}
	}
	if f.holds(a, b, g.c) {
		return true
	}
	// lists of the same length
	if g.lenB {
		for _, k := range lensKeys(f.lens) {
			o := f.lens[k]
			if q.sameLen(g.b, sc, o.v, o.sc) {
				if f.holds(a, q.lenLin(o.v, o.sc), g.c) {
					return true
				}
			}
		}
	}
	// a choice between values
	if !g.aIs && !g.lenA {
		ra, up := given(g.a, sc)
		if phi, ok := ra.(*ssa.Phi); ok && !q.loopPhi(phi) {
			all := true
			for k := range phi.Edges {
				all = all && q.proveEdge(g, phi, k, up, sc)
			}
			if all {
				return true
			}
		}
		if phi, ok := g.a.(*ssa.Phi); ok && q.inductive(g, phi, sc, map[*ssa.Phi]bool{}) {
			return true
		}
	}
	if l, ok := g.b.(*ssa.UnOp); ok && g.lenB && depth < 12 {
		if v, d, to := q.maybeStored(l); v != nil {
			g2 := g
			g2.b = v
			z := noFacts()
			z.merge(q.facts(sc))
			q.edgeFacts(z, d, to, sc, 0)
			z.sharpen()
			if (z.contradictory() || z.holds(a, linear{}, g.c)) && q.proveLe(g2, sc, depth+1) {
				return true
			}
		}
	}
	if sc.depth() > 4 || depth > 12 {
		return false
	}
	return q.atCallers(sc, nil, func(s *scope) bool { return q.proveLe(g, s, depth+1) })
}

func (q *prover) loopPhi(p *ssa.Phi) bool {
	for _, x := range p.Block().Preds {
		if p.Block().Dominates(x) {
			return true
		}
	}
	return false
}

// given is what a parameter stands for, and where.
func given(v ssa.Value, sc *scope) (ssa.Value, *scope) {
	for {
		a, up := sc.arg(v)
		if a == nil {
			return v, sc
		}
		v, sc = a, up
	}
}

// proveEdge proves g for the value phi has when entered by its k-th edge.
func (q *prover) proveEdge(g goal, phi *ssa.Phi, k int, up, sc *scope) bool {
	f := q.phiFacts(phi, k, up)
	f.merge(q.facts(sc))
	f.sharpen()
	if f.contradictory() {
		return true
	}
	a := q.side(phi.Edges[k], g.lenA, up)
	var b linear
	if g.b != nil {
		b = q.side(g.b, g.lenB, sc)
	}
	return f.holds(a, b, g.c)
}

// phiFacts: the facts at sc and those of the edge by which phi was entered.
func (q *prover) phiFacts(phi *ssa.Phi, k int, sc *scope) *pfacts {
	f := noFacts()
	f.merge(q.facts(sc))
	p := phi.Block().Preds[k]
	if !phi.Block().Dominates(p) {
		f.merge(q.facts(sc.at(p)))
		q.edgeFacts(f, p, phi.Block(), sc, 0)
		// the choices made together
		for _, ins := range phi.Block().Instrs {
			o, ok := ins.(*ssa.Phi)
			if !ok {
				break
			}
			ok1, ok2 := q.key(o, sc), q.key(o.Edges[k], sc)
			if f.isNil[ok1] {
				f.isNil[ok2] = true
				if certainError(o.Edges[k]) {
					f.false_ = true
				}
			}
			if f.nonNil[ok1] {
				f.nonNil[ok2] = true
			}
			if b, known := f.bools[ok1]; known {
				if c, isC := o.Edges[k].(*ssa.Const); isC && c.Value != nil && (c.Value.String() == "true") != b {
					f.false_ = true
				}
				if b2, known := f.bools[ok2]; known && b2 != b {
					f.false_ = true
				}
				f.bools[ok2] = b
			}
		}
	}
	return f
}

func lensKeys(m map[string]lenOf) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// atCallers proves something about a function's parameters at every call.
func (q *prover) atCallers(sc *scope, same func(c ssa.CallInstruction) bool, prove func(s *scope) bool) bool {
	top := sc
	for top.up != nil {
		top = top.up
	}
	if q.entries[top.fn] && len(q.callers[top.fn]) == 0 || q.isRoot(top.fn) || len(top.fn.Params)+len(top.fn.FreeVars) == 0 {
		return false
	}
	cs := q.callers[top.fn]
	if len(cs) == 0 {
		return false
	}
	for _, c := range cs {
		if !q.reach[c.Parent()] && q.reach[top.fn] {
			continue
		}
		if sc.has(c.Parent()) {
			if same != nil && c.Parent() == top.fn && same(c) {
				continue // the function passes on what it was given
			}
			return false // recursion: not decided this way
		}
		if !prove(q.extend(sc, c)) {
			return false
		}
	}
	return true
}

// passesOn: a recursive call is given the parameter itself.
func passesOn(c ssa.CallInstruction, p *ssa.Parameter) bool {
	cc := c.Common()
	for k, x := range p.Parent().Params {
		if x != p || cc.IsInvoke() || k >= len(cc.Args) {
			continue
		}
		if cc.StaticCallee() != p.Parent() {
			return false
		}
		a := cc.Args[k]
		if a == ssa.Value(p) {
			return true
		}
		ld, ok := a.(*ssa.UnOp)
		if !ok || ld.Op != token.MUL {
			return false
		}
		al, ok := ld.X.(*ssa.Alloc)
		return ok && onlyHolds(al, p)
	}
	return false
}

// onlyHolds: a local variable that is set once.
func onlyHolds(a *ssa.Alloc, v ssa.Value) bool {
	for _, u := range *a.Referrers() {
		switch i := u.(type) {
		case *ssa.Store:
			if i.Addr != ssa.Value(a) || i.Val != v {
				return false
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.MakeClosure:
			if writesFree(i, a) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

// isRoot: what the property is about starts here.
func (q *prover) isRoot(f *ssa.Function) bool { return q.entries[f] && f.Signature.Recv() != nil }

// extend adds a caller to the outermost scope.
func (q *prover) extend(sc *scope, c ssa.CallInstruction) *scope {
	n := *sc
	if sc.up != nil {
		n.up = q.extend(sc.up, c)
	} else {
		n.call = c
		n.up = &scope{fn: c.Parent(), blk: c.Block(), id: fmt.Sprintf("%s^%s.%d.%d", sc.id, c.Parent().Name(), c.Block().Index, instrIndex(c))}
	}
	n.id = sc.id + "~" + n.up.id
	return &n
}

// sameLen: two lists have the same length.
func (q *prover) sameLen(a ssa.Value, sa *scope, b ssa.Value, sb *scope) bool {
	la, lb := q.lenLin(a, sa), q.lenLin(b, sb)
	if la == lb {
		return true
	}
	if la.c == 0 && lb.c == 0 && q.lenEq != nil {
		ra, ok1 := q.rooted[strings.TrimSuffix(strings.TrimPrefix(la.atom, "len("), ")")]
		rb, ok2 := q.rooted[strings.TrimSuffix(strings.TrimPrefix(lb.atom, "len("), ")")]
		if ok1 && ok2 && ra.root == rb.root && q.lenEq(structKey(ra.typ), ra.steps, rb.steps) {
			return true
		}
	}
	if sa.fn == sb.fn {
		return q.parallel(a, b, sa, map[[2]ssa.Value]bool{})
	}
	return false
}

// parallel: two variables that grow in step.
func (q *prover) parallel(a, b ssa.Value, sc *scope, seen map[[2]ssa.Value]bool) bool {
	if a == b || q.lenLin(a, sc) == q.lenLin(b, sc) {
		return true
	}
	k := [2]ssa.Value{a, b}
	if seen[k] {
		return true
	}
	seen[k] = true
	pa, ok1 := a.(*ssa.Phi)
	pb, ok2 := b.(*ssa.Phi)
	if ok1 && ok2 && pa.Block() == pb.Block() {
		for i := range pa.Edges {
			if !q.parallel(pa.Edges[i], pb.Edges[i], sc, seen) {
				return false
			}
		}
		return true
	}
	ca, n, ok1 := appended(a)
	cb, m, ok2 := appended(b)
	if ok1 && ok2 && n == m {
		return q.parallel(ca, cb, sc, seen)
	}
	return false
}

// appended: v is append(base, n values).
func appended(v ssa.Value) (ssa.Value, int64, bool) {
	c, ok := v.(*ssa.Call)
	if !ok {
		return nil, 0, false
	}
	b, ok := c.Call.Value.(*ssa.Builtin)
	if !ok || b.Name() != "append" || len(c.Call.Args) != 2 {
		return nil, 0, false
	}
	s, ok := c.Call.Args[1].(*ssa.Slice)
	if !ok || s.Low != nil || s.High != nil {
		return nil, 0, false
	}
	pt, ok := s.X.Type().Underlying().(*types.Pointer)
	if !ok {
		return nil, 0, false
	}
	return c.Call.Args[0], pt.Elem().Underlying().(*types.Array).Len(), true
}

package main

// Forward interpretation of SSA over the term domain, one abstract state per
// control-flow path (trace partitioning), with calls into the repository
// analysed in context and recursion and unknown code cut to opaque results.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"slices"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st       *State
	ret      []*Term
	panicked bool
}

type Hook func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome

// Limits of the tier.
var pathLimit, loopStates = 60000, 12

type Exec struct {
	hooks        map[string]Hook
	invokeHooks  map[string]Hook // by interface method full name
	stack        []*ssa.Function
	loops        []*LoopCtx
	forks        int
	maxForks     int
	globalStored map[string]bool
	funcs        map[*ssa.Function]bool
	unsupported  map[string]bool
	nrec         int
	rawAcc       bool // analyse Value accessors instead of naming their result
	noCut        map[*ssa.Function]bool
}

var storedGlobals map[string]bool

func newExec() *Exec {
	if storedGlobals == nil {
		storedGlobals = map[string]bool{}
		for _, p := range theProg.AllPackages() {
			if p.Pkg == nil || !isRepoPkg(p.Pkg.Path()) {
				continue
			}
			for _, m := range p.Members {
				if g, ok := m.(*ssa.Global); ok {
					if globalWritten(g) {
						storedGlobals[g.RelString(nil)] = true
					}
				}
			}
		}
	}
	return &Exec{hooks: map[string]Hook{}, invokeHooks: map[string]Hook{}, maxForks: pathLimit, globalStored: storedGlobals,
		funcs: map[*ssa.Function]bool{}, unsupported: map[string]bool{}, noCut: map[*ssa.Function]bool{}}
}

// globalWritten: anything but plain loads of the variable exists.
func globalWritten(g *ssa.Global) bool {
	w := false
	for _, p := range theProg.AllPackages() {
		if p.Pkg == nil || !isRepoPkg(p.Pkg.Path()) {
			continue
		}
		forEachFunc(p, func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, i := range b.Instrs {
					for _, op := range i.Operands(nil) {
						if *op == ssa.Value(g) {
							if u, ok := i.(*ssa.UnOp); !ok || u.Op != token.MUL {
								w = true
							}
						}
					}
				}
			}
		})
	}
	return w
}

func forEachFunc(p *ssa.Package, f func(*ssa.Function)) {
	seen := map[*ssa.Function]bool{}
	var rec func(fn *ssa.Function)
	rec = func(fn *ssa.Function) {
		if fn == nil || seen[fn] {
			return
		}
		seen[fn] = true
		f(fn)
		for _, a := range fn.AnonFuncs {
			rec(a)
		}
	}
	for _, m := range p.Members {
		switch m := m.(type) {
		case *ssa.Function:
			rec(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := theProg.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					fn := theProg.MethodValue(ms.At(i))
					if fn != nil && fn.Synthetic == "" && fn.Pkg == p {
						rec(fn)
					}
				}
			}
		}
	}
}

type frame struct {
	fn    *ssa.Function
	ctx   string
	loops map[*ssa.BasicBlock]*natLoop
}

type item struct {
	blk  *ssa.BasicBlock
	prev *ssa.BasicBlock
	pc   int
	env  map[ssa.Value]*Term
	st   *State
}

func cloneEnv(e map[ssa.Value]*Term) map[ssa.Value]*Term {
	n := make(map[ssa.Value]*Term, len(e)+8)
	for k, v := range e {
		n[k] = v
	}
	return n
}

var ctxIDs = map[string]int{}

func ctxID(s string) string {
	if _, ok := ctxIDs[s]; !ok {
		ctxIDs[s] = len(ctxIDs) + 1
	}
	return fmt.Sprintf("c%d", ctxIDs[s])
}

// run analyses fn from state st.
func (x *Exec) run(fn *ssa.Function, args []*Term, free []*Term, st *State, ctx string) []Outcome {
	if fn.Blocks == nil {
		panic(undecided("no body for %s", fn))
	}
	x.funcs[fn] = true
	x.stack = append(x.stack, fn)
	depth := len(x.stack)
	defer func() { x.stack = x.stack[:depth-1] }()
	fr := &frame{fn: fn, ctx: ctx, loops: naturalLoops(fn)}
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		env[p] = args[i]
		if args[i].typ == nil {
			args[i].typ = p.Type()
		}
	}
	for i, p := range fn.FreeVars {
		env[p] = free[i]
	}
	start := edge{nil, fn.Blocks[0], env, st}
	_, exits, rets := x.region(fr, nil, []edge{start})
	if len(exits) > 0 {
		panic(undecided("unexpected exit"))
	}
	return rets
}

type edge struct {
	from, to *ssa.BasicBlock
	env      map[ssa.Value]*Term
	st       *State
}

// region runs the blocks of loop l (or the whole function) from the given
// edges; edges back to the header and edges leaving the loop are returned.
func (x *Exec) region(fr *frame, l *natLoop, in []edge) (backs, exits []edge, rets []Outcome) {
	var work []item
	var route func(e edge, first bool)
	route = func(e edge, first bool) {
		if l != nil && !first {
			if e.to == l.header {
				backs = append(backs, e)
				return
			}
			if !l.blocks[e.to] {
				exits = append(exits, e)
				return
			}
		}
		if m := fr.loops[e.to]; m != nil && m != l {
			ex, rs := x.execLoop(fr, m, e)
			rets = append(rets, rs...)
			for _, e2 := range ex {
				route(e2, false)
			}
			return
		}
		it := item{blk: e.to, prev: e.from, env: e.env, st: e.st}
		if !(first && l != nil) {
			x.phis(&it)
		} else {
			for it.pc < len(it.blk.Instrs) {
				if _, ok := it.blk.Instrs[it.pc].(*ssa.Phi); !ok {
					break
				}
				it.pc++
			}
		}
		work = append(work, it)
	}
	for _, e := range in {
		route(e, true)
	}
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		es, rs, more := x.block(fr, it)
		rets = append(rets, rs...)
		work = append(work, more...)
		for _, e := range es {
			route(e, false)
		}
	}
	return
}

func (x *Exec) phis(it *item) {
	idx := -1
	for i, p := range it.blk.Preds {
		if p == it.prev {
			idx = i
		}
	}
	vals := map[ssa.Value]*Term{}
	for _, ins := range it.blk.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		vals[phi] = x.operand(it, phi.Edges[idx])
		it.pc++
	}
	for k, v := range vals {
		it.env[k] = v
	}
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return tZero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return cBool(constant.BoolVal(c.Value))
	case constant.String:
		return cStr(constant.StringVal(c.Value))
	case constant.Int, constant.Float:
		r, _ := new(big.Rat).SetString(constant.ToFloat(c.Value).ExactString())
		if r == nil {
			f, _ := constant.Float64Val(c.Value)
			r = new(big.Rat).SetFloat64(f)
		}
		if isFloat(c.Type()) {
			if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Kind() == types.Float64 {
				f, _ := r.Float64()
				if q := new(big.Rat).SetFloat64(f); q != nil {
					r = q
				}
			}
			return cFloat(r)
		}
		return cBig(r)
	}
	panic(undecided("constant %s", c))
}

func (x *Exec) operand(it *item, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Function:
		t := mk("fn", v.String(), v.Type())
		t.fn = v
		return t
	case *ssa.Global:
		return mk("global", v.RelString(nil), v.Type())
	case *ssa.Builtin:
		return mk("builtin", v.Name(), nil)
	}
	t, ok := it.env[v]
	if !ok {
		panic(undecided("no value for %s in %s", v.Name(), it.blk.Parent()))
	}
	return t
}

type res struct {
	st   *State
	val  *Term
	dead bool
	ret  *Outcome
}

func (x *Exec) block(fr *frame, it item) (es []edge, rets []Outcome, more []item) {
	for it.pc < len(it.blk.Instrs) {
		ins := it.blk.Instrs[it.pc]
		switch ins := ins.(type) {
		case *ssa.Jump:
			return []edge{{it.blk, it.blk.Succs[0], it.env, it.st}}, rets, more
		case *ssa.If:
			c := x.operand(&it, ins.Cond)
			bs := x.fork(it.st, c)
			for i, b := range bs {
				env := it.env
				if i < len(bs)-1 {
					env = cloneEnv(env)
				}
				to := it.blk.Succs[1]
				if b.val {
					to = it.blk.Succs[0]
				}
				es = append(es, edge{it.blk, to, env, b.st})
			}
			return es, rets, more
		case *ssa.Return:
			var r []*Term
			for _, v := range ins.Results {
				r = append(r, x.operand(&it, v))
			}
			rets = append(rets, Outcome{st: it.st, ret: r})
			return
		case *ssa.Panic:
			it.st.event(&Event{kind: "panic:explicit", ins: ins, fn: fr.fn})
			return
		}
		rs := x.instr(fr, &it, ins)
		it.pc++
		if len(rs) == 0 {
			return
		}
		v, isVal := ins.(ssa.Value)
		for i := 1; i < len(rs); i++ {
			env := cloneEnv(it.env)
			if isVal && rs[i].val != nil {
				env[v] = rs[i].val
			}
			more = append(more, item{it.blk, it.prev, it.pc, env, rs[i].st})
		}
		it.st = rs[0].st
		if isVal && rs[0].val != nil {
			it.env[v] = rs[0].val
		}
	}
	panic(undecided("block without terminator"))
}

func one(st *State, v *Term) []res { return []res{{st: st, val: v}} }

func (x *Exec) allocName(fr *frame, ins ssa.Instruction) string {
	b := ins.Block()
	idx := 0
	for i, j := range b.Instrs {
		if j == ins {
			idx = i
		}
	}
	n := fmt.Sprintf("%s:%s:%d.%d", fr.ctx, fr.fn.Name(), b.Index, idx)
	if len(x.loops) > 0 {
		n = x.loops[len(x.loops)-1].name + "|" + n
	}
	return n
}

func (x *Exec) derefCheck(fr *frame, st *State, p *Term, ins ssa.Instruction) {
	if neverNil(p) {
		return
	}
	if v, ok := st.f.decide(tEq(p, tNil, nil)); ok && !v {
		return
	}
	st.event(&Event{kind: "panic:nil", addr: p, ins: ins, fn: fr.fn})
}

func (x *Exec) indexCheck(fr *frame, st *State, i, n *Term, ins ssa.Instruction) {
	lo, ok1 := st.f.decide(tLe0(tNeg(i, false)))
	hi, ok2 := st.f.decide(tLe0(tAdd(tSub(i, n, false), cInt(1), false)))
	if ok1 && lo && ok2 && hi {
		return
	}
	st.event(&Event{kind: "panic:index", addr: i, val: n, ins: ins, fn: fr.fn})
}

func countsIterations(i *Term) bool {
	for _, m := range asPoly(i).m {
		for _, f := range m.fac {
			if f.atom.op == "k" {
				return true
			}
		}
	}
	return false
}

// pickIndex distinguishes the values of an index into a small array.
func (x *Exec) pickIndex(st *State, i *Term, n int64) []res {
	if i.isConst() {
		return []res{{st: st, val: i}}
	}
	var r []res
	for j := int64(0); j < n; j++ {
		rest := st
		st = nil
		for _, b := range x.fork(rest, tEqInt(i, cInt(j))) {
			if b.val {
				r = append(r, res{st: b.st, val: cInt(j)})
			} else {
				st = b.st
			}
		}
		if st == nil {
			return r
		}
	}
	return r
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Pointer:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	}
	return nil
}

func (x *Exec) instr(fr *frame, it *item, ins ssa.Instruction) []res {
	st := it.st
	op := func(v ssa.Value) *Term { return x.operand(it, v) }
	switch ins := ins.(type) {
	case *ssa.DebugRef:
		return one(st, nil)
	case *ssa.Alloc:
		a := mk("alloc", x.allocName(fr, ins), ins.Type())
		st.clear(a)
		st.fresh[a] = true
		return one(st, a)
	case *ssa.MakeMap:
		a := mk("alloc", x.allocName(fr, ins), ins.Type())
		st.clear(a)
		st.fresh[a] = true
		return one(st, a)
	case *ssa.MakeSlice:
		a := mk("alloc", x.allocName(fr, ins), nil)
		st.clear(a)
		st.fresh[a] = true
		return one(st, mk("slice", "", ins.Type(), a, cInt(0), op(ins.Len)))
	case *ssa.BinOp:
		return x.binop(fr, st, ins, op(ins.X), op(ins.Y))
	case *ssa.UnOp:
		return x.unop(fr, st, ins, op(ins.X))
	case *ssa.FieldAddr:
		p := op(ins.X)
		x.derefCheck(fr, st, p, ins)
		fa := tFaddr(p, ins.Field)
		label(fa, elemType(ins.X.Type()).Underlying().(*types.Struct).Field(ins.Field).Name())
		return one(st, fa)
	case *ssa.Field:
		s := ins.X.Type().Underlying().(*types.Struct)
		return one(st, tField(op(ins.X), ins.Field, s.Field(ins.Field).Type()))
	case *ssa.IndexAddr:
		b, i := op(ins.X), op(ins.Index)
		n := tLen(b)
		if pt, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
			n = cInt(pt.Elem().Underlying().(*types.Array).Len())
		}
		x.indexCheck(fr, st, i, n, ins)
		if n == cInt(0) {
			return nil // panics
		}
		if size, ok := n.intVal(); ok && size <= 4 && addrRoot(b).op == "alloc" && !countsIterations(i) {
			var r []res
			for _, c := range x.pickIndex(st, i, size) {
				r = append(r, res{st: c.st, val: tIaddr(b, c.val)})
			}
			return r
		}
		return one(st, tIaddr(b, i))
	case *ssa.Index:
		if at, ok := ins.X.Type().Underlying().(*types.Array); ok && at.Len() <= 4 {
			var r []res
			for _, c := range x.pickIndex(st, op(ins.Index), at.Len()) {
				r = append(r, res{st: c.st, val: mk("index", "", ins.Type(), op(ins.X), c.val)})
			}
			return r
		}
		return one(st, mk("index", "", ins.Type(), op(ins.X), op(ins.Index)))
	case *ssa.Store:
		a, v := op(ins.Addr), op(ins.Val)
		x.derefCheck(fr, st, a, ins)
		r := addrRoot(a)
		if !st.isFresh(r) {
			st.event(&Event{kind: "store", addr: a, val: v, ins: ins, fn: fr.fn})
		}
		st.store(a, v, ins.Val.Type())
		return one(st, nil)
	case *ssa.MapUpdate:
		m, k, v := op(ins.Map), op(ins.Key), op(ins.Value)
		if !st.isFresh(m) {
			st.event(&Event{kind: "mapwrite", addr: m, val: k, ins: ins, fn: fr.fn})
			if v, ok := st.f.decide(tEq(m, tNil, nil)); m == tNil || !ok || v {
				st.event(&Event{kind: "panic:nilmap", addr: m, ins: ins, fn: fr.fn})
			}
		}
		return x.mapSet(st, m, k, v)
	case *ssa.Lookup:
		if isString(ins.X.Type()) {
			x.indexCheck(fr, st, op(ins.Index), tLen(op(ins.X)), ins)
			return one(st, mk("strindex", "", ins.Type(), op(ins.X), op(ins.Index)))
		}
		c := st.content(op(ins.X))
		mt := ins.X.Type().Underlying().(*types.Map)
		var r []res
		for _, g := range x.mapGet(st, c, op(ins.Index), mt.Elem()) {
			v := g.val
			if ins.CommaOk {
				v = mk("tuple", "", ins.Type(), v, cBool(g.ok))
			}
			r = append(r, res{st: g.st, val: v})
		}
		return r
	case *ssa.Extract:
		t := op(ins.Tuple)
		if t.op == "tuple" {
			return one(st, t.args[ins.Index])
		}
		return one(st, mk("res", fmt.Sprint(ins.Index), ins.Type(), t))
	case *ssa.MakeInterface:
		return one(st, mk("iface", typeKey(ins.X.Type()), ins.Type(), op(ins.X)))
	case *ssa.ChangeInterface:
		return one(st, op(ins.X))
	case *ssa.ChangeType:
		return one(st, op(ins.X))
	case *ssa.Convert:
		return one(st, tConv(op(ins.X), ins.X.Type(), ins.Type()))
	case *ssa.MultiConvert:
		return one(st, tConv(op(ins.X), ins.X.Type(), ins.Type()))
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, ins, op(ins.X))
	case *ssa.MakeClosure:
		var b []*Term
		for _, v := range ins.Bindings {
			b = append(b, op(v))
		}
		f := ins.Fn.(*ssa.Function)
		t := mk("closure", f.String(), ins.Type(), b...)
		t.fn = f
		return one(st, t)
	case *ssa.Slice:
		return x.slice(fr, st, ins, it)
	case *ssa.Range:
		m := op(ins.X)
		if isString(ins.X.Type()) {
			return one(st, mk("striter", "", nil, m))
		}
		return one(st, mk("iter", "", ins.X.Type(), m, st.content(m)))
	case *ssa.Next:
		return x.next(st, ins, op(ins.Iter))
	case *ssa.Call:
		rs := x.call(fr, it, ins, ins.Common())
		return rs
	case *ssa.RunDefers:
		return one(st, nil)
	case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.MakeChan:
		st.event(&Event{kind: "concurrency", ins: ins, fn: fr.fn, note: ins.String()})
		x.unsupported[ins.String()] = true
		if v, ok := ins.(ssa.Value); ok {
			return one(st, mk("opaque", v.Name()+fr.ctx, v.Type()))
		}
		return one(st, nil)
	}
	x.unsupported[ins.String()] = true
	if v, ok := ins.(ssa.Value); ok {
		return one(st, mk("opaque", v.Name()+fr.ctx, v.Type()))
	}
	return one(st, nil)
}

func (x *Exec) mapSet(st *State, m, k, v *Term) []res {
	c := st.content(m)
	// overwrite an existing layer when the key is the same
	var put func(c *Term) *Term
	put = func(c *Term) *Term {
		if c.op == "mset" {
			if e, ok := st.f.decide(tEq(c.args[1], k, nil)); ok {
				if e {
					return mk("mset", "", nil, c.args[0], k, v)
				}
				if in := put(c.args[0]); in != nil {
					return mk("mset", "", nil, in, c.args[1], c.args[2])
				}
			}
		}
		return nil
	}
	if n := put(c); n != nil {
		st.heap[mcont(m)] = n
	} else {
		// layers with provably different keys commute: keep them sorted
		st.heap[mcont(m)] = insertLayer(st, c, k, v)
	}
	return one(st, nil)
}

func insertLayer(st *State, c, k, v *Term) *Term {
	if c.op == "mset" && k.id < c.args[1].id {
		if e, ok := st.f.decide(tEq(c.args[1], k, nil)); ok && !e {
			return mk("mset", "", nil, insertLayer(st, c.args[0], k, v), c.args[1], c.args[2])
		}
	}
	return mk("mset", "", nil, c, k, v)
}

func (x *Exec) next(st *State, ins *ssa.Next, iter *Term) []res {
	if len(x.loops) == 0 || iter.op != "iter" {
		x.unsupported[ins.String()] = true
		return one(st, mk("opaque", ins.Name(), ins.Type()))
	}
	l := x.loops[len(x.loops)-1]
	l.iter = iter
	key := mk("mkey", l.name, ins.Type().(*types.Tuple).At(1).Type())
	var r []res
	for _, b := range x.fork(st, mk("more", l.name, nil)) {
		if !b.val {
			r = append(r, res{st: b.st, val: mk("tuple", "", ins.Type(), tFalse, tNil, tNil)})
			continue
		}
		c := b.st.content(iter.args[0])
		if c.op == "lvo" && strings.HasPrefix(c.aux, l.name+"|") {
			c = c.args[0]
		}
		mt := iter.typ.Underlying().(*types.Map)
		if b.st.f.assume(tHas(rootContent(c), key), true) {
			v := staticGet(c, key, mt.Elem())
			if c.op == "mmap" {
				v = instBV(c.args[1], bvOf(c), key)
			}
			r = append(r, res{st: b.st, val: mk("tuple", "", ins.Type(), tTrue, key, v)})
		}
	}
	return r
}

// rootContent: the content whose keys decide membership.
func rootContent(c *Term) *Term {
	for c.op == "mmap" {
		c = c.args[0]
	}
	return c
}

func (x *Exec) binop(fr *frame, st *State, ins *ssa.BinOp, a, b *Term) []res {
	t := ins.X.Type()
	flt := isFloat(t)
	switch ins.Op {
	case token.ADD:
		if isString(t) {
			return one(st, tCat(a, b))
		}
		return one(st, tAdd(a, b, flt))
	case token.SUB:
		return one(st, tSub(a, b, flt))
	case token.MUL:
		return one(st, tMul(a, b, flt))
	case token.QUO:
		if flt {
			return one(st, tDiv(a, b))
		}
		if v, ok := st.f.decide(tEqInt(b, cInt(0))); !ok || v {
			st.event(&Event{kind: "panic:div", addr: b, ins: ins, fn: fr.fn})
		}
		return one(st, mk("idiv", "", t, a, b))
	case token.REM:
		if v, ok := st.f.decide(tEqInt(b, cInt(0))); !ok || v {
			st.event(&Event{kind: "panic:div", addr: b, ins: ins, fn: fr.fn})
		}
		if n, ok := a.intVal(); ok {
			if m, ok := b.intVal(); ok && m != 0 {
				return one(st, cInt(n%m))
			}
		}
		return one(st, mk("rem", "", t, a, b))
	case token.EQL:
		return one(st, tEq(a, b, t))
	case token.NEQ:
		return one(st, tNot(tEq(a, b, t)))
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		o := ins.Op
		if flt {
			m := map[token.Token]int{token.LSS: oLT, token.LEQ: oLT | oEQ, token.GTR: oGT, token.GEQ: oGT | oEQ}[o]
			return one(st, tFcmpMask(m, a, b))
		}
		if isInt(t) {
			switch o {
			case token.LSS:
				return one(st, tLe0(tAdd(tSub(a, b, false), cInt(1), false)))
			case token.LEQ:
				return one(st, tLe0(tSub(a, b, false)))
			case token.GTR:
				return one(st, tLe0(tAdd(tSub(b, a, false), cInt(1), false)))
			default:
				return one(st, tLe0(tSub(b, a, false)))
			}
		}
		if o == token.GTR || o == token.GEQ {
			a, b = b, a
		}
		if o == token.LSS || o == token.GTR {
			return one(st, mk("slt", "", nil, a, b))
		}
		return one(st, tNot(mk("slt", "", nil, b, a)))
	case token.AND:
		if isInt(t) {
			if n, ok := b.intVal(); ok && n == 1 {
				return one(st, mk("rem", "", t, a, cInt(2)))
			}
			if n, ok := a.intVal(); ok && n == 1 {
				return one(st, mk("rem", "", t, b, cInt(2)))
			}
		}
	}
	return one(st, mk("binop", ins.Op.String(), t, a, b))
}

func (x *Exec) unop(fr *frame, st *State, ins *ssa.UnOp, a *Term) []res {
	switch ins.Op {
	case token.MUL:
		x.derefCheck(fr, st, a, ins)
		return one(st, st.load(a, ins.Type()))
	case token.NOT:
		return one(st, tNot(a))
	case token.SUB:
		return one(st, tNeg(a, isFloat(ins.Type())))
	}
	return one(st, mk("unop", ins.Op.String(), ins.Type(), a))
}

// assertLog records which unchecked type assertions always hold.
var assertLog map[ssa.Instruction]bool

func (x *Exec) typeAssert(fr *frame, st *State, ins *ssa.TypeAssert, v *Term) []res {
	c := tIsType(v, ins.AssertedType)
	get := func() *Term {
		if isIface(ins.AssertedType) {
			return v
		}
		return tUnbox(v, ins.AssertedType)
	}
	if !ins.CommaOk {
		d, ok := st.f.decide(c)
		if assertLog != nil {
			good, seen := assertLog[ins]
			assertLog[ins] = ok && d && (good || !seen)
		}
		if !ok || !d {
			st.event(&Event{kind: "panic:assert", addr: v, ins: ins, fn: fr.fn})
			st.f.assume(c, true)
		}
		return one(st, get())
	}
	var r []res
	for _, b := range x.fork(st, c) {
		val := tZero(ins.AssertedType)
		if b.val {
			val = get()
		}
		r = append(r, res{st: b.st, val: mk("tuple", "", ins.Type(), val, cBool(b.val))})
	}
	return r
}

func (x *Exec) slice(fr *frame, st *State, ins *ssa.Slice, it *item) []res {
	b := x.operand(it, ins.X)
	lo := cInt(0)
	if ins.Low != nil {
		lo = x.operand(it, ins.Low)
	}
	var n *Term
	if isString(ins.X.Type()) {
		n = tLen(b)
		hi := n
		if ins.High != nil {
			hi = x.operand(it, ins.High)
		}
		x.sliceCheck(fr, st, lo, hi, n, ins)
		if s, ok := b.strVal(); ok {
			if l, ok := lo.intVal(); ok {
				if h, ok := hi.intVal(); ok && l >= 0 && l <= h && h <= int64(len(s)) {
					return one(st, cStr(s[l:h]))
				}
			}
		}
		if lo == cInt(0) && hi == n {
			return one(st, b)
		}
		return one(st, tSubstr(b, lo, hi))
	}
	if pt, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
		n = cInt(pt.Elem().Underlying().(*types.Array).Len())
	} else {
		n = tLen(b)
	}
	hi := n
	if ins.High != nil {
		hi = x.operand(it, ins.High)
	}
	x.sliceCheck(fr, st, lo, hi, n, ins)
	if lo == cInt(0) && hi == n && !isPtrArr(ins.X.Type()) {
		return one(st, b)
	}
	if b.op == "slice" {
		return one(st, mk("slice", "", ins.Type(), b.args[0], tAdd(b.args[1], lo, false), tSub(hi, lo, false)))
	}
	return one(st, mk("slice", "", ins.Type(), b, lo, tSub(hi, lo, false)))
}

func isPtrArr(t types.Type) bool { _, ok := t.Underlying().(*types.Pointer); return ok }

func (x *Exec) sliceCheck(fr *frame, st *State, lo, hi, n *Term, ins ssa.Instruction) {
	for _, c := range []*Term{tLe0(tNeg(lo, false)), tLe0(tSub(lo, hi, false)), tLe0(tSub(hi, n, false))} {
		if v, ok := st.f.decide(c); !ok || !v {
			st.event(&Event{kind: "panic:slice", addr: lo, val: hi, ins: ins, fn: fr.fn})
			return
		}
	}
}

// ------------------------------------------------------------------ calls

// isAdapter: a synthetic function that only passes a call on (method values,
// method expressions, promoted methods).
func isAdapter(f *ssa.Function) bool {
	return f.Pkg == nil && f.Blocks != nil && (strings.HasPrefix(f.Synthetic, "bound") || strings.HasPrefix(f.Synthetic, "thunk") || strings.HasPrefix(f.Synthetic, "wrapper"))
}

func fullName(f *ssa.Function) string {
	if o := f.Object(); o != nil {
		if tf, ok := o.(*types.Func); ok {
			return tf.FullName()
		}
	}
	return f.String()
}

func resTypes(sig *types.Signature) []types.Type {
	var l []types.Type
	for i := 0; i < sig.Results().Len(); i++ {
		l = append(l, sig.Results().At(i).Type())
	}
	return l
}

// opaqueResults names the results of a call that is not looked into.
func opaqueResults(kind, name string, sig *types.Signature, args []*Term) []*Term {
	rt := resTypes(sig)
	t := mk(kind, name, nil, args...)
	var r []*Term
	for i, ty := range rt {
		r = append(r, mk("res", fmt.Sprint(i), ty, t))
	}
	return r
}

// reify replaces references to memory of this call by their contents, so that
// an opaque result is a function of values.
func (st *State) reify(a *Term, d int) *Term {
	if a == nil || d > 6 {
		return a
	}
	if a.typ != nil && isMap(a.typ) {
		c := st.content(a)
		if c != a {
			if c.typ != nil && isMap(c.typ) {
				return c // the unmodified content of another map
			}
			return mk("mapval", "", a.typ, c)
		}
		return a
	}
	switch a.op {
	case "alloc":
		if pt, ok := types.Unalias(typOr(a)).Underlying().(*types.Pointer); ok {
			return mk("ref", "", a.typ, st.reify(st.load(a, pt.Elem()), d+1))
		}
	case "struct":
		na := make([]*Term, len(a.args))
		for i, y := range a.args {
			na[i] = st.reify(y, d+1)
		}
		return tStruct(a.typ, na)
	case "slice":
		if r := a.args[0]; r.op == "alloc" && st.fresh[r] {
			if l := st.listOf(a); l != nil {
				return l
			}
		}
	case "iface":
		return mk("iface", a.aux, a.typ, st.reify(a.args[0], d+1))
	default:
		if l := st.rewritten(a); l != nil {
			return l
		}
	}
	return a
}

func typOr(t *Term) types.Type {
	if t.typ == nil {
		return types.Typ[types.Int]
	}
	return t.typ
}

func packRes(st *State, ret []*Term, typ types.Type) res {
	switch len(ret) {
	case 0:
		return res{st: st}
	case 1:
		return res{st: st, val: ret[0]}
	}
	return res{st: st, val: mk("tuple", "", typ, ret...)}
}

func (x *Exec) call(fr *frame, it *item, ins *ssa.Call, cc *ssa.CallCommon) []res {
	st := it.st
	var args []*Term
	for _, a := range cc.Args {
		args = append(args, x.operand(it, a))
	}
	ctx := ctxID(fr.ctx + ":" + fmt.Sprintf("%s@%d.%d", fr.fn.Name(), it.blk.Index, it.pc))
	pack := func(os []Outcome) []res {
		var r []res
		for _, o := range os {
			if o.panicked {
				continue
			}
			r = append(r, packRes(o.st, o.ret, ins.Type()))
		}
		return r
	}
	if cc.IsInvoke() {
		recv := x.operand(it, cc.Value)
		if h := x.invokeHooks[cc.Method.FullName()]; h != nil {
			if r := h(x, st, ins, append([]*Term{recv}, args...)); r != nil {
				return pack(r)
			}
		}
		d := tDyn(recv)
		if v, ok := st.f.val[d]; ok {
			d = v
		}
		if t := d.typeVal(); t != nil && d.aux != "T:error" {
			if m := theProg.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); m != nil {
				return pack(x.callFn(fr, st, ins, m, append([]*Term{tUnbox(recv, t)}, args...), nil, ctx))
			}
		}
		x.derefCheck(fr, st, recv, ins)
		ra := []*Term{st.reify(recv, 0)}
		for _, a := range args {
			ra = append(ra, st.reify(a, 0))
		}
		r := opaqueResults("invoke", cc.Method.FullName(), cc.Signature(), ra)
		st.event(&Event{kind: "invoke", note: cc.Method.FullName(), args: append([]*Term{recv}, args...), ret: r, ins: ins, fn: fr.fn})
		return []res{packRes(st, r, ins.Type())}
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		return x.builtin(fr, st, ins, f, args, cc)
	case *ssa.Function:
		return pack(x.callFn(fr, st, ins, f, args, nil, ctx))
	}
	ft := x.operand(it, cc.Value)
	switch ft.op {
	case "closure", "fn":
		return pack(x.callFn(fr, st, ins, ft.fn.(*ssa.Function), args, ft.args, ctx))
	}
	x.derefCheck(fr, st, ft, ins)
	ra := []*Term{ft}
	for _, a := range args {
		ra = append(ra, st.reify(a, 0))
	}
	r := opaqueResults("callv", "", cc.Signature(), ra)
	st.event(&Event{kind: "dyncall", addr: ft, args: args, ret: r, ins: ins, fn: fr.fn})
	return []res{packRes(st, r, ins.Type())}
}

func (x *Exec) callFn(fr *frame, st *State, ins ssa.CallInstruction, f *ssa.Function, args, free []*Term, ctx string) []Outcome {
	name := fullName(f)
	if isAdapter(f) {
		name = ""
	}
	if h := x.hooks[name]; h != nil {
		if r := h(x, st, ins, args); r != nil {
			return r
		}
	}
	inRepo := f.Pkg != nil && isRepoPkg(f.Pkg.Pkg.Path())
	if f.Pkg == nil && f.Blocks != nil { // wrappers, bound methods, instances
		inRepo = true
		if o := f.Origin(); o != nil && o.Pkg != nil && !isRepoPkg(o.Pkg.Pkg.Path()) {
			inRepo = false
		}
		if f.Object() != nil && f.Object().Pkg() != nil && !isRepoPkg(f.Object().Pkg().Path()) {
			inRepo = false
		}
	}
	if !inRepo || f.Blocks == nil {
		return x.external(st, ins, f, args)
	}
	if !x.rawAcc && name != "" {
		if n := accessorName(f); n != "" {
			return []Outcome{{st: st, ret: []*Term{tAcc(n, args[0], f.Signature.Results().At(0).Type())}}}
		}
	}
	for _, g := range x.stack {
		if g == f && !x.noCut[f] {
			var ra []*Term
			for _, a := range args {
				ra = append(ra, st.reify(a, 0))
			}
			for _, a := range free {
				ra = append(ra, st.reify(a, 0))
			}
			r := opaqueResults("rec", name, f.Signature, ra)
			st.event(&Event{kind: "rec", note: name, args: args, ret: r, ins: ins, fn: ins.Parent()})
			return []Outcome{{st: st, ret: r}}
		}
	}
	if !joinable(f) {
		return x.run(f, args, free, st, ctx)
	}
	// tentatively, without moving what it tests out of the loops around
	base, try := st.clone(), st.clone()
	saved := x.loops
	x.loops = nil
	var outs []Outcome
	depth := len(x.stack)
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, und := e.(*undecidedErr); !und {
					panic(e)
				}
				x.stack = x.stack[:depth]
			}
		}()
		outs = x.run(f, args, free, try, ctx)
	}()
	x.loops = saved
	if j := join(base, outs); j != nil {
		return []Outcome{*j}
	}
	if len(saved) == 0 && outs != nil {
		return outs
	}
	return x.run(f, args, free, st, ctx)
}

var joinables = map[*ssa.Function]bool{}

// joinable: small, without loops and effects.
func joinable(f *ssa.Function) bool {
	if r, ok := joinables[f]; ok {
		return r
	}
	r := len(f.Blocks) > 1 && len(f.Blocks) <= 8 && len(naturalLoops(f)) == 0
	for _, b := range f.Blocks {
		for _, i := range b.Instrs {
			switch i.(type) {
			case *ssa.Store, *ssa.MapUpdate, *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice, *ssa.Defer, *ssa.Go, *ssa.Send:
				r = false
			}
		}
	}
	joinables[f] = r
	return r
}

// join merges two outcomes that differ in whether x == c when the result of
// the one is what the other gives for x = c.
func join(base *State, outs []Outcome) *Outcome {
	if len(outs) != 2 {
		return nil
	}
	var lits [2]Lit
	var evs [2][]*Event
	for i, o := range outs {
		l := litsSince(o.st.trail, base.trail)
		if len(l) != 1 {
			return nil
		}
		for _, e := range eventsSince(o.st.ev, base.ev) {
			if !strings.HasPrefix(e.kind, "panic:") {
				evs[i] = append(evs[i], e)
			}
		}
		lits[i] = l[0]
		for lits[i].c.op == "not" {
			lits[i] = Lit{lits[i].c.args[0], !lits[i].val, lits[i].free}
		}
	}
	if !slices.Equal(evs[0], evs[1]) {
		return nil
	}
	c := lits[0].c
	if c != lits[1].c || lits[0].val == lits[1].val {
		return nil
	}
	eq, ne := outs[0], outs[1]
	if !lits[0].val {
		eq, ne = ne, eq
	}
	m := map[*Term]*Term{}
	switch c.op {
	case "eq":
		if c.args[1].isConst() {
			m[c.args[0]] = c.args[1]
		}
	case "eq0":
		sh, k := splitConst(asPoly(c.args[0]))
		if len(sh.m) == 1 && sh.m[0].coef.Cmp(big.NewRat(1, 1)) == 0 {
			m[mkPoly(sh, false)] = cBig(new(big.Rat).Neg(k))
		}
	}
	if len(m) == 0 || len(eq.ret) != len(ne.ret) {
		return nil
	}
	for i := range eq.ret {
		if eq.ret[i] != ne.ret[i] && subst(ne.ret[i], m) != subst(eq.ret[i], m) {
			return nil
		}
	}
	base.ev = ne.st.ev
	return &Outcome{st: base, ret: ne.ret}
}

// accessorName recognises the conversion methods of evaluation.Value, whose
// contract is the subject of C08.
func accessorName(f *ssa.Function) string {
	o, ok := f.Object().(*types.Func)
	if !ok {
		return ""
	}
	r := o.Type().(*types.Signature).Recv()
	if r == nil {
		return ""
	}
	t := r.Type()
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Name() != "Value" || n.Obj().Pkg() == nil || n.Obj().Pkg() != evalPkg.Pkg {
		return ""
	}
	switch o.Name() {
	case "Float64", "Float32", "Int64", "Bool", "String":
		return o.Name()
	}
	return ""
}

func (x *Exec) newErr(fr string, ins ssa.CallInstruction) *Term {
	return mk("newerr", fmt.Sprintf("%s", posString(ins.Pos())), nil)
}

func (x *Exec) external(st *State, ins ssa.CallInstruction, f *ssa.Function, args []*Term) []Outcome {
	name := fullName(f)
	ret := func(t ...*Term) []Outcome { return []Outcome{{st: st, ret: t}} }
	switch name {
	case "errors.New", "fmt.Errorf", "github.com/pkg/errors.New", "github.com/pkg/errors.Errorf":
		e := x.newErr("", ins)
		st.event(&Event{kind: "newerr", val: e, ins: ins, fn: ins.Parent()})
		return ret(e)
	case "github.com/pkg/errors.Wrap", "github.com/pkg/errors.Wrapf", "github.com/pkg/errors.WithMessage", "github.com/pkg/errors.WithStack", "github.com/pkg/errors.WithMessagef":
		var r []Outcome
		for _, b := range x.fork(st, tEq(args[0], tNil, f.Signature.Params().At(0).Type())) {
			if b.val {
				r = append(r, Outcome{st: b.st, ret: []*Term{tNil}})
			} else {
				r = append(r, Outcome{st: b.st, ret: []*Term{x.newErr("", ins)}})
			}
		}
		return r
	case "github.com/creasty/defaults.Set", "github.com/mcuadros/go-defaults.SetDefaults":
		st.event(&Event{kind: "defaults", addr: args[0], ins: ins, fn: ins.Parent()})
		if f.Signature.Results().Len() == 0 {
			return ret()
		}
		return ret(tNil)
	case "fmt.Sprintf":
		if t := x.sprintf(st, args); t != nil {
			return ret(t)
		}
	case "strings.TrimPrefix":
		var r []Outcome
		for _, b := range x.fork(st, mk("ext", "strings.HasPrefix", types.Typ[types.Bool], args[0], args[1])) {
			v := args[0]
			if b.val {
				v = tSubstr(args[0], tLen(args[1]), tLen(args[0]))
			}
			r = append(r, Outcome{st: b.st, ret: []*Term{v}})
		}
		return r
	case "strings.CutPrefix":
		var r []Outcome
		for _, b := range x.fork(st, mk("ext", "strings.HasPrefix", types.Typ[types.Bool], args[0], args[1])) {
			v := args[0]
			if b.val {
				v = tSubstr(args[0], tLen(args[1]), tLen(args[0]))
			}
			r = append(r, Outcome{st: b.st, ret: []*Term{v, cBool(b.val)}})
		}
		return r
	}
	var ra []*Term
	for _, a := range args {
		ra = append(ra, st.reify(a, 0))
	}
	ev := &Event{kind: "ext", note: name, args: args, ins: ins, fn: ins.Parent()}
	st.event(ev)
	n := f.Signature.Results().Len()
	switch n {
	case 0:
		return ret()
	case 1:
		ev.ret = []*Term{mk("ext", name, f.Signature.Results().At(0).Type(), ra...)}
	default:
		ev.ret = opaqueResults("ext", name, f.Signature, ra)
	}
	return ret(ev.ret...)
}

// sprintf turns formats made of %s and %v over strings into concatenation.
func (x *Exec) sprintf(st *State, args []*Term) *Term {
	fm, ok := args[0].strVal()
	if !ok {
		return nil
	}
	n, ok := tLen(args[1]).intVal()
	if !ok {
		return nil
	}
	var parts []*Term
	ai := int64(0)
	for i := 0; i < len(fm); i++ {
		if fm[i] != '%' {
			parts = append(parts, cStr(fm[i:i+1]))
			continue
		}
		i++
		if i >= len(fm) {
			return nil
		}
		switch fm[i] {
		case '%':
			parts = append(parts, cStr("%"))
		case 's', 'v':
			if ai >= n {
				return nil
			}
			a := st.load(tIaddr(args[1], cInt(ai)), types.NewInterfaceType(nil, nil))
			ai++
			if a.op != "iface" {
				return nil
			}
			t := typeByKey[a.aux]
			if t == nil || !isString(t) || types.NewMethodSet(t).Len() > 0 {
				return nil
			}
			parts = append(parts, a.args[0])
		default:
			return nil
		}
	}
	if ai != n {
		return nil
	}
	return tCat(parts...)
}

func (x *Exec) builtin(fr *frame, st *State, ins *ssa.Call, f *ssa.Builtin, args []*Term, cc *ssa.CallCommon) []res {
	switch f.Name() {
	case "len":
		if isMap(cc.Args[0].Type()) {
			c := st.content(args[0])
			if c.op == "mempty" {
				return one(st, cInt(0))
			}
			return one(st, mk("len", "", types.Typ[types.Int], rootContent(c)))
		}
		return one(st, tLen(args[0]))
	case "cap":
		return one(st, mk("cap", "", types.Typ[types.Int], args[0]))
	case "append":
		return one(st, x.doAppend(fr, st, ins, args[0], args[1]))
	case "copy":
		if !st.isFresh(addrRoot(sliceBase(args[0]))) {
			st.event(&Event{kind: "store", addr: tIaddr(args[0], mk("any", "", nil)), ins: ins, fn: fr.fn})
		}
		x.doCopy(st, args[0], args[1], cc)
		return one(st, mk("opaque", "copy", types.Typ[types.Int], args...))
	case "delete":
		if !st.isFresh(args[0]) {
			st.event(&Event{kind: "mapwrite", addr: args[0], val: args[1], ins: ins, fn: fr.fn})
		}
		st.heap[mcont(args[0])] = mk("mdel", "", nil, st.content(args[0]), args[1])
		return one(st, nil)
	case "print", "println":
		return one(st, nil)
	case "panic":
		st.event(&Event{kind: "panic:explicit", ins: ins, fn: fr.fn})
		return nil
	case "min", "max":
		flt := isFloat(ins.Type())
		v := args[0]
		rs := []res{{st: st, val: v}}
		for _, a := range args[1:] {
			var n []res
			for _, r := range rs {
				var c *Term
				if flt {
					c = tFcmpMask(oLT, a, r.val)
				} else {
					c = tLe0(tAdd(tSub(a, r.val, false), cInt(1), false))
				}
				if f.Name() == "max" {
					if flt {
						c = tFcmpMask(oGT, a, r.val)
					} else {
						c = tLe0(tAdd(tSub(r.val, a, false), cInt(1), false))
					}
				}
				for _, b := range x.fork(r.st, c) {
					w := r.val
					if b.val {
						w = a
					}
					n = append(n, res{st: b.st, val: w})
				}
			}
			rs = n
		}
		return rs
	case "clear":
		if isMap(cc.Args[0].Type()) {
			if !st.isFresh(args[0]) {
				st.event(&Event{kind: "mapwrite", addr: args[0], ins: ins, fn: fr.fn})
			}
			st.heap[mcont(args[0])] = mEmpty
			return one(st, nil)
		}
	case "ssa:wrapnilchk":
		return one(st, args[0])
	}
	x.unsupported["builtin "+f.Name()] = true
	return one(st, mk("opaque", f.Name()+fr.ctx, ins.Type(), args...))
}

func sliceBase(s *Term) *Term {
	for {
		switch s.op {
		case "slice", "app", "appS":
			s = s.args[0]
		default:
			return s
		}
	}
}

func isFreshSlice(st *State, s *Term) bool {
	switch s.op {
	case "slice":
		return st.isFresh(addrRoot(s.args[0]))
	case "app", "appS", "comp", "flat":
		return true
	}
	return s == tNil
}

func isEmptyList(s *Term) bool {
	v, ok := tLen(s).intVal()
	return ok && v == 0
}

func (x *Exec) doAppend(fr *frame, st *State, ins *ssa.Call, s, e *Term) *Term {
	r := x.append(fr, st, ins, s, e)
	if r != s && r.op != "const" {
		st.clear(r) // nothing has been written to it yet
	}
	return r
}

func (x *Exec) append(fr *frame, st *State, ins *ssa.Call, s, e *Term) *Term {
	if l := st.rewritten(s); l != nil {
		s = l
	}
	if l := st.rewritten(e); l != nil {
		e = l
	}
	if !isFreshSlice(st, s) {
		st.event(&Event{kind: "append", addr: s, val: e, ins: ins, fn: fr.fn})
	}
	et := elemType(ins.Type())
	if isEmptyList(s) && s.op != "lv" {
		s = tNil
	}
	if s.op == "comp" || s.op == "flat" || s.op == "fin" {
		if v, ok := st.f.decide(tLe0(tLen(s))); ok && v {
			s = tNil // known to be empty here
		}
	}
	if n, ok := tLen(e).intVal(); ok && e.op == "slice" {
		for i := int64(0); i < n; i++ {
			v := st.load(tIaddr(e, cInt(i)), et)
			s = mk("app", "", ins.Type(), s, v)
		}
		return s
	}
	if e == tNil {
		return s
	}
	return mk("appS", "", ins.Type(), s, e)
}

func (x *Exec) doCopy(st *State, dst, src *Term, cc *ssa.CallCommon) {
	et := elemType(cc.Args[0].Type())
	if et == nil {
		return
	}
	v := bv(1 + maxBV(dst, src))
	x.quantStore(st, tIaddr(dst, v), v, tLen(src), st.load(tIaddr(src, v), et), et)
}

// quantStore records addr[v] = body for all v in [0,n).
func (x *Exec) quantStore(st *State, addr, v, n, body *Term, typ types.Type) {
	if s, ok := isStruct(typ); ok {
		for i := 0; i < s.NumFields(); i++ {
			x.quantStore(st, tFaddr(addr, i), v, n, tField(body, i, s.Field(i).Type()), s.Field(i).Type())
		}
		return
	}
	tm, idx := template(addr)
	if tm == nil || idx != v {
		return
	}
	st.hq[tm] = &qwrite{n, v, body}
}

func trimMod(s string) string { return strings.ReplaceAll(s, modPath+"/", "") }

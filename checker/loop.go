package main

// Loops.  The body of a natural loop is analysed with its header values
// abstracted (invariant, linear in the iteration number, one of finitely many
// constants, or unknown), iterated until the abstraction is inductive, and
// then summarised: sums, list comprehensions, pointwise map updates and, for
// everything else, a canonical fold over the iteration domain.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"sort"
	"strconv"

	"golang.org/x/tools/go/ssa"
)

type natLoop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*natLoop{}

func naturalLoops(fn *ssa.Function) map[*ssa.BasicBlock]*natLoop {
	if l, ok := loopCache[fn]; ok {
		return l
	}
	r := map[*ssa.BasicBlock]*natLoop{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := r[h]
			if l == nil {
				l = &natLoop{h, map[*ssa.BasicBlock]bool{h: true}}
				r[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				c := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[c] {
					continue
				}
				l.blocks[c] = true
				work = append(work, c.Preds...)
			}
		}
	}
	loopCache[fn] = r
	return r
}

type LoopCtx struct {
	name    string
	noHoist bool
	iter    *Term
}

type slot struct {
	key     string
	phi     *ssa.Phi
	addr    *Term
	typ     types.Type
	entry   *Term
	lv      *Term
	lvo     *Term
	class   string // sym inv ind fin own alias
	parts   []*foldComp
	whole   *Term
	of      *slot // alias: always equal to (field ofField of) this slot
	ofField int
	noAlias map[string]bool
	step    *Term
	demoted bool
	leaves  bool  // an iteration gives it a value that only ends the loop
	final   *Term // closed form after a normal exit, in terms of dom
}

type LoopTrans struct {
	from, to map[*slot]*Term // values of finite slots
	next     map[*slot]*Term
	lits     []Lit
	events   []*Event
	st       *State
}

type LoopExit struct {
	kind   string // normal, early, return, normalret
	from   map[*slot]*Term
	lits   []Lit
	events []*Event
	st     *State
	ret    []*Term
	edge   *edge
}

type LoopRecord struct {
	name   string
	fn     *ssa.Function
	pos    token.Pos
	header *ssa.BasicBlock
	k      *Term
	dom    *Term // iteration count, or mapdom(content), or nil
	iter   *Term
	slots  []*slot
	trans  []*LoopTrans
	exits  []*LoopExit
	events []*Event // every event of every path through the body
	order  bool     // some result depends on the iteration order
	entry  *State
}

var addrTypes = map[*Term]types.Type{}

// trips: what the path says about the number of iterations.
func (x *Exec) headCond(fr *frame, m *natLoop, e edge) (cond, bound *Term, st *State) {
	idx := -1
	for i, p := range m.header.Preds {
		if p == e.from {
			idx = i
		}
	}
	it := item{blk: m.header, prev: e.from, env: cloneEnv(e.env), st: e.st.clone()}
	src := &item{blk: m.header, env: e.env, st: e.st}
	for _, ins := range m.header.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi:
			it.env[i] = x.operand(src, i.Edges[idx])
		case *ssa.If:
			b, ok := i.Cond.(*ssa.BinOp)
			if !ok || b.Op != token.LSS || !isInt(b.X.Type()) {
				return nil, nil, nil
			}
			return x.operand(&it, b), x.operand(&it, b.Y), it.st
		case *ssa.BinOp, *ssa.FieldAddr, *ssa.DebugRef:
			if !x.single(fr, &it, ins) {
				return nil, nil, nil
			}
		case *ssa.UnOp:
			if i.Op == token.ARROW || !x.single(fr, &it, ins) {
				return nil, nil, nil
			}
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); !ok || b.Name() != "len" || !x.single(fr, &it, ins) {
				return nil, nil, nil
			}
		default:
			return nil, nil, nil
		}
	}
	return nil, nil, nil
}

func (x *Exec) single(fr *frame, it *item, ins ssa.Instruction) bool {
	if b, ok := ins.(*ssa.BinOp); ok && (b.Op == token.QUO || b.Op == token.REM) {
		return false
	}
	rs := x.instr(fr, it, ins)
	if len(rs) != 1 {
		return false
	}
	it.st = rs[0].st
	if v, ok := ins.(ssa.Value); ok && rs[0].val != nil {
		it.env[v] = rs[0].val
	}
	return true
}

const maxUnroll = 3

// unroll runs a loop whose number of iterations is known and small one
// iteration at a time.
func (x *Exec) unroll(fr *frame, m *natLoop, e edge) (exits []edge, rets []Outcome, ok bool) {
	if e.from == nil {
		return
	}
	c, n, st := x.headCond(fr, m, e)
	if c == nil {
		return
	}
	if v, known := st.f.decide(c); !known || !v {
		return
	}
	max := int64(maxUnroll)
	if _, lit := n.intVal(); lit {
		max = 16
	}
	if r := st.f.interval(asPoly(n)); !r.hasLo || !r.hasHi || r.lo != r.hi || r.hi > max {
		return
	}
	cur := []edge{{e.from, e.to, cloneEnv(e.env), e.st.clone()}}
	for i := 0; len(cur) > 0; i++ {
		if i > 16 {
			return nil, nil, false
		}
		f2 := *fr
		f2.ctx = fmt.Sprintf("%su%d", fr.ctx, i)
		var next []edge
		for _, c := range cur {
			cond, _, st := x.headCond(&f2, m, c)
			if cond == nil {
				return nil, nil, false
			}
			if _, known := st.f.decide(cond); !known {
				return nil, nil, false
			}
			idx := -1
			for i, p := range m.header.Preds {
				if p == c.from {
					idx = i
				}
			}
			env := cloneEnv(c.env)
			src := &item{blk: m.header, env: c.env, st: c.st}
			for _, ins := range m.header.Instrs {
				phi, isPhi := ins.(*ssa.Phi)
				if !isPhi {
					break
				}
				env[phi] = x.operand(src, phi.Edges[idx])
			}
			backs, ex, rs := x.region(&f2, m, []edge{{c.from, m.header, env, c.st}})
			exits = append(exits, ex...)
			rets = append(rets, rs...)
			next = append(next, backs...)
		}
		cur = next
	}
	return exits, rets, true
}

func (x *Exec) execLoop(fr *frame, m *natLoop, e edge) (exits []edge, rets []Outcome) {
	if ex, rs, ok := x.unroll(fr, m, e); ok {
		return ex, rs
	}
	outer := ""
	if len(x.loops) > 0 {
		outer = x.loops[len(x.loops)-1].name + "|"
	}
	ctx := &LoopCtx{name: outer + "L" + ctxID(fr.ctx) + ":" + strconv.Itoa(m.header.Index)}
	x.loops = append(x.loops, ctx)
	nl, ns := len(x.loops), len(x.stack)
	var req *splitReq
	func() {
		defer func() {
			if r := recover(); r != nil {
				if sr, ok := r.(*splitReq); ok && sr.loop == ctx {
					req = sr
					x.loops = x.loops[:nl]
					x.stack = x.stack[:ns]
					return
				}
				panic(r)
			}
		}()
		exits, rets = x.loopBody(fr, m, e, ctx)
	}()
	x.loops = x.loops[:nl-1]
	if req == nil {
		return
	}
	exits, rets = nil, nil
	for _, v := range []bool{true, false} {
		st := e.st.clone()
		if _, known := st.f.decide(req.cond); known {
			panic(undecided("loop split does not progress on %s", req.cond))
		}
		if !st.f.assume(req.cond, v) {
			continue
		}
		st.push(Lit{c: req.cond, val: v})
		x.forks++
		if x.forks > x.maxForks {
			panic(undecided("path budget exhausted"))
		}
		ex, rs := x.execLoop(fr, m, edge{e.from, e.to, cloneEnv(e.env), st})
		exits = append(exits, ex...)
		rets = append(rets, rs...)
	}
	return
}

func (s *slot) value(fin map[*slot]*Term, k *Term) *Term {
	switch s.class {
	case "inv":
		return s.entry
	case "ind":
		return tAdd(s.entry, tMul(s.step, k, false), false)
	case "fin":
		return fin[s]
	case "own":
		return s.lvo
	case "alias":
		return s.of.project(s.of.value(fin, k), s.ofField)
	}
	return s.lv
}

// project is a part of the value of a slot (field f, or all of it).
func (s *slot) project(v *Term, f int) *Term {
	if f < 0 {
		return v
	}
	st, _ := isStruct(s.typ)
	return tField(v, f, st.Field(f).Type())
}

// findAlias looks for a slot that may always agree with (a field of) another.
func findAlias(slots []*slot) bool {
	for i, a := range slots {
		if a.class != "sym" || a.typ == nil || a.addr != nil && a.addr.op == "mcont" {
			continue
		}
		for j, b := range slots {
			if a == b || b.class != "sym" || b.typ == nil || b.addr != nil && b.addr.op == "mcont" {
				continue
			}
			if j < i && !a.noAlias[b.key+".-1"] && types.Identical(a.typ, b.typ) && a.entry == b.entry {
				a.class, a.of, a.ofField = "alias", b, -1
				return true
			}
			if st, ok := isStruct(b.typ); ok {
				for f := 0; f < st.NumFields(); f++ {
					if !a.noAlias[fmt.Sprintf("%s.%d", b.key, f)] && types.Identical(a.typ, st.Field(f).Type()) && b.project(b.entry, f) == a.entry {
						a.class, a.of, a.ofField = "alias", b, f
						return true
					}
				}
			}
		}
	}
	return false
}

func finKey(slots []*slot, fin map[*slot]*Term) string {
	r := ""
	for _, s := range slots {
		if s.class == "fin" {
			r += strconv.Itoa(fin[s].id) + ","
		}
	}
	return r
}

func isFinConst(t *Term) bool {
	if t.op != "const" {
		return false
	}
	return !(len(t.aux) > 1 && t.aux[:2] == "f:")
}

func predIndex(b, from *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == from {
			return i
		}
	}
	return -1
}

func (x *Exec) loopBody(fr *frame, m *natLoop, e edge, ctx *LoopCtx) ([]edge, []Outcome) {
	L := ctx.name
	k := mk("k", L, types.Typ[types.Int])
	own := mk("mkey", L, nil)
	var slots []*slot
	byAddr := map[*Term]*slot{}
	idx := -1
	for i, p := range m.header.Preds {
		if p == e.from {
			idx = i
		}
	}
	addSlot := func(s *slot) {
		s.lv = mk("lv", L+"|"+s.key, s.typ)
		s.lvo = mk("lvo", L+"|"+s.key, s.typ, s.entry)
		s.class = "sym"
		slots = append(slots, s)
		if s.addr != nil {
			byAddr[s.addr] = s
		}
	}
	for i, ins := range m.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		it := &item{blk: m.header, env: e.env, st: e.st}
		addSlot(&slot{key: fmt.Sprintf("p%d", i), phi: phi, typ: phi.Type(), entry: x.operand(it, phi.Edges[idx])})
	}

	var trans []*LoopTrans
	var exits []*LoopExit
	written := &carry{up: e.st.carry, L: L, k: k}
	for pass := 0; ; pass++ {
		if pass > 80 {
			panic(undecided("loop abstraction of %s does not stabilise", posString(fr.fn.Pos())))
		}
		trans, exits = nil, nil
		start := map[*slot]*Term{}
		for _, s := range slots {
			s.leaves = false
			if s.class == "fin" {
				start[s] = s.entry
			}
		}
		work := []map[*slot]*Term{start}
		seen := map[string]bool{finKey(slots, start): true}
		changed := false
		for len(work) > 0 && !changed {
			fin := work[0]
			work = work[1:]
			env := cloneEnv(e.env)
			st := e.st.clone()
			st.carry = &carry{written.up, L, k, append([]*Term{}, written.writes...)}
			for _, s := range slots {
				v := s.value(fin, k)
				if s.phi != nil {
					env[s.phi] = v
				} else {
					st.heap[s.addr] = v
				}
			}
			backs, exs, rets := x.region(fr, m, []edge{{e.from, m.header, env, st}})
			for i := range exs {
				ed := exs[i]
				exits = append(exits, &LoopExit{from: fin, lits: litsSince(ed.st.trail, e.st.trail), events: eventsSince(ed.st.ev, e.st.ev), st: ed.st, edge: &ed})
			}
			for _, o := range rets {
				exits = append(exits, &LoopExit{kind: "return", from: fin, lits: litsSince(o.st.trail, e.st.trail), events: eventsSince(o.st.ev, e.st.ev), st: o.st, ret: o.ret})
			}
			// flags: one transition for each value
			for j := 0; j < len(backs); j++ {
				b := backs[j]
				it := &item{blk: m.header, env: b.env, st: b.st}
				for _, s := range slots {
					if s.typ == nil || !isBool(s.typ) {
						continue
					}
					var v *Term
					if s.phi != nil {
						v = x.operand(it, s.phi.Edges[predIndex(m.header, b.from)])
					} else {
						v = b.st.heap[s.addr]
					}
					if v == nil || v.isConst() || v == s.lv || v == s.lvo {
						continue
					}
					bs := x.fork(b.st, v)
					for i, y := range bs {
						env := b.env
						if i < len(bs)-1 {
							env = cloneEnv(env)
						}
						if s.phi != nil {
							e := s.phi.Edges[predIndex(m.header, b.from)]
							if _, isC := e.(*ssa.Const); !isC {
								env[e] = cBool(y.val)
							}
						} else {
							y.st.heap[s.addr] = cBool(y.val)
						}
						if i == 0 {
							backs[j] = edge{b.from, b.to, env, y.st}
						} else {
							backs = append(backs, edge{b.from, b.to, env, y.st})
						}
					}
					if len(bs) == 0 {
						backs = append(backs[:j], backs[j+1:]...)
					}
					j--
					break
				}
			}
			for _, b := range backs {
				bi := predIndex(m.header, b.from)
				t := &LoopTrans{from: fin, to: map[*slot]*Term{}, next: map[*slot]*Term{}, st: b.st,
					lits: litsSince(b.st.trail, e.st.trail), events: eventsSince(b.st.ev, e.st.ev)}
				it := &item{blk: m.header, env: b.env, st: b.st}
				for _, s := range slots {
					var v *Term
					if s.phi != nil {
						v = x.operand(it, s.phi.Edges[bi])
					} else if h, ok := b.st.heap[s.addr]; ok {
						v = h
					} else {
						v = s.value(fin, k)
					}
					t.next[s] = b.st.settle(v, L)
				}
				// cells modified by the body that are not abstracted yet
				for _, a := range sortedAddrs(b.st.heap) {
					v := b.st.heap[a]
					if a.dependsOn(L) && a.op != "mcont" && written.add(a) {
						changed = true
					}
					if byAddr[a] != nil || a.dependsOn(L) {
						continue
					}
					ent, ok := e.st.heap[a]
					if !ok {
						if a.op == "mcont" {
							ent = e.st.content(a.args[0])
						} else {
							ty := addrTypes[a]
							if ty == nil {
								panic(undecided("untyped cell %s", a))
							}
							ent = e.st.load(a, ty)
						}
					}
					if ent == v {
						continue
					}
					s := &slot{key: fmt.Sprintf("a%d", a.id), addr: a, typ: addrTypes[a], entry: ent}
					addSlot(s)
					changed = true
				}
				if changed {
					break
				}
				for _, s := range slots {
					if s.class == "fin" {
						n := t.next[s]
						if !isFinConst(n) {
							s.class, s.demoted = "sym", true
							changed = true
						}
						t.to[s] = n
					}
				}
				if changed {
					break
				}
				fk := finKey(slots, t.to)
				if !seen[fk] && ctx.iter == nil {
					if exs, ok := x.leaves(fr, m, b); ok {
						for i := range exs {
							ed := exs[i]
							exits = append(exits, &LoopExit{from: fin, lits: litsSince(ed.st.trail, e.st.trail), events: eventsSince(ed.st.ev, e.st.ev), st: ed.st, edge: &ed})
						}
						for _, s := range slots {
							if s.class == "fin" && t.to[s] != s.entry {
								s.leaves = true
							}
						}
						continue
					}
				}
				trans = append(trans, t)
				if !seen[fk] {
					seen[fk] = true
					work = append(work, t.to)
					if len(seen) > loopStates {
						for _, s := range slots {
							if s.class == "fin" {
								s.class, s.demoted = "sym", true
							}
						}
						changed = true
						break
					}
				}
			}
		}
		if changed {
			continue
		}
		// check the classes and try to refine
		for _, s := range slots {
			if c := s.reclass(trans, k, own, ctx); c != s.class {
				s.class = c
				changed = true
				written.writes = nil // seen anew in the terms that follow
			}
		}
		if !changed && len(trans) > 0 {
			changed = findAlias(slots)
		}
		if !changed {
			break
		}
	}
	// a flag whose other value only ends the loop never changes within it
	for _, s := range slots {
		if s.leaves {
			s.leaves = false
			s.class = s.reclass(trans, k, own, ctx)
		}
	}
	rec := &LoopRecord{name: L, fn: fr.fn, pos: loopPos(m), header: m.header, k: k, iter: ctx.iter, slots: slots, trans: trans, exits: exits, entry: e.st}
	for _, t := range trans {
		rec.events = append(rec.events, t.events...)
	}
	for _, ex := range exits {
		rec.events = append(rec.events, ex.events...)
	}
	return x.summarise(fr, rec, e)
}

// leaves runs the head of the loop once more after the given iteration; the
// exits are returned if that does nothing but leave the loop.
func (x *Exec) leaves(fr *frame, m *natLoop, b edge) ([]edge, bool) {
	it := &item{blk: m.header, prev: b.from, env: cloneEnv(b.env), st: b.st.clone()}
	x.phis(it)
	n := len(b.st.heap)
	backs, exits, rets := x.region(fr, m, []edge{{b.from, m.header, it.env, it.st}})
	if len(backs) > 0 || len(rets) > 0 || len(exits) == 0 {
		return nil, false
	}
	for _, ed := range exits {
		if ed.from != m.header && !m.blocks[ed.from] || ed.st.ev != b.st.ev || len(ed.st.heap) != n {
			return nil, false
		}
		for a, v := range ed.st.heap {
			if b.st.heap[a] != v {
				return nil, false
			}
		}
	}
	return exits, true
}

func loopPos(m *natLoop) token.Pos {
	best := token.NoPos
	for b := range m.blocks {
		for _, i := range b.Instrs {
			if p := i.Pos(); p != token.NoPos && (best == token.NoPos || p < best) {
				best = p
			}
		}
	}
	return best
}

func (s *slot) reclass(trans []*LoopTrans, k, own *Term, ctx *LoopCtx) string {
	bad := func() string {
		s.demoted = true
		return "sym"
	}
	switch s.class {
	case "inv":
		for _, t := range trans {
			if t.next[s] != s.entry {
				return bad()
			}
		}
		return "inv"
	case "alias":
		for _, t := range trans {
			if t.next[s] != s.of.project(t.next[s.of], s.ofField) {
				if s.noAlias == nil {
					s.noAlias = map[string]bool{}
				}
				s.noAlias[fmt.Sprintf("%s.%d", s.of.key, s.ofField)] = true
				return bad()
			}
		}
		return "alias"
	case "ind":
		want := tAdd(s.value(nil, k), s.step, false)
		for _, t := range trans {
			if t.next[s] != want {
				return bad()
			}
		}
		return "ind"
	case "fin":
		for _, t := range trans {
			if t.to[s] != s.entry {
				return "fin"
			}
		}
		if s.leaves {
			return "fin"
		}
		return "inv"
	case "own":
		for _, t := range trans {
			n := t.next[s]
			if n != s.lvo && !(n.op == "mset" && n.args[0] == s.lvo && n.args[1] == own && !n.args[2].contains(s.lvo)) {
				return bad()
			}
		}
		return "own"
	}
	if s.demoted || len(trans) == 0 {
		return s.class
	}
	inv, fin, ownk := true, isFinConst(s.entry), s.addr != nil && s.addr.op == "mcont" && ctx.iter != nil
	var step *Term
	ind := s.typ != nil && isInt(s.typ) && enumDomain(s.lv) == nil
	for _, t := range trans {
		n := t.next[s]
		if n != s.lv && n != s.entry {
			inv = false
		}
		if n != s.lv && !isFinConst(n) {
			fin = false
		}
		if ind {
			d := tSub(n, s.lv, false)
			if _, ok := d.ratVal(); !ok || (step != nil && step != d) {
				ind = false
			}
			step = d
		}
		if n != s.lv && !(n.op == "mset" && n.args[0] == s.lv && n.args[1] == own) {
			ownk = false
		}
	}
	switch {
	case inv:
		return "inv"
	case ind:
		if r, _ := step.ratVal(); r.Sign() != 0 {
			s.step = step
			return "ind"
		}
	case fin:
		return "fin"
	case ownk:
		return "own"
	}
	return s.class
}

// settle replaces references to memory allocated in an iteration by their
// contents.
func (st *State) settle(v *Term, L string) *Term {
	v = st.settleList(v)
	wrote := map[*Term]bool{} // maps this iteration has changed
	for a := range st.heap {
		if a.op == "mcont" && a.args[0].op != "alloc" && a.args[0].dependsOn(L) && st.heap[a] != a.args[0] {
			wrote[a.args[0]] = true
		}
	}
	has := v.any(func(t *Term) bool { return t.op == "alloc" && t.dependsOn(L) || wrote[t] })
	if !has {
		return v
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term, d int) *Term
	rec = func(t *Term, d int) *Term {
		if d > 12 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		memo[t] = t
		r := t
		if t.op == "slice" && t.args[0].op == "alloc" && t.args[0].dependsOn(L) {
			if l := st.listOf(t); l != nil {
				r = rec(l, d+1)
				memo[t] = r
				return r
			}
		}
		if wrote[t] {
			r = mk("mapval", "", t.typ, rec(st.content(t), d+1))
		} else if t.op == "alloc" && t.dependsOn(L) && t.typ != nil {
			if isMap(t.typ) {
				r = mk("mapval", "", t.typ, rec(st.content(t), d+1))
			} else if pt, ok := t.typ.Underlying().(*types.Pointer); ok {
				if _, arr := pt.Elem().Underlying().(*types.Array); !arr {
					r = mk("ref", "", t.typ, rec(st.load(t, pt.Elem()), d+1))
				}
			}
		} else if len(t.args) > 0 {
			na := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				na[i] = rec(a, d)
				ch = ch || na[i] != a
			}
			if ch {
				r = rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	return rec(v, 0)
}

// settleList gives a list, possibly one that has been extended or is part of a
// struct, the values that have been written to it.
func (st *State) settleList(v *Term) *Term {
	switch {
	case v.op == "struct":
		na := make([]*Term, len(v.args))
		ch := false
		for i, a := range v.args {
			na[i] = st.settleList(a)
			ch = ch || na[i] != a
		}
		if ch {
			return rebuild(v, na)
		}
	case v.typ != nil && isSlice(v.typ):
		if l := st.rewritten(v); l != nil {
			return l
		}
	}
	return v
}

// rewritten gives the value of a list of this call's own that has been written
// to since it was put together.
func (st *State) rewritten(t *Term) *Term {
	if t == tNil || t.op == "slice" || t.typ == nil || !isSlice(t.typ) {
		return nil
	}
	et := elemType(t.typ)
	if et == nil {
		return nil
	}
	found := false
	for a := range st.heap {
		found = found || addrRoot(a) == t
	}
	for a := range st.hq {
		found = found || addrRoot(a) == t
	}
	if !found {
		return nil
	}
	v := bv(1 + maxBV(t))
	b := st.load(tIaddr(t, v), et)
	v2 := bv(1 + maxBV(t, b))
	if v2 != v {
		b = subst(b, map[*Term]*Term{v: v2})
	}
	return mk("comp", v2.aux, t.typ, tNil, tLen(t), b, cInt(1))
}

// listOf gives the value of a slice of fresh memory, if it is known.
func (st *State) listOf(t *Term) *Term {
	if t.op != "slice" {
		return st.rewritten(t)
	}
	et := elemType(typOr(t))
	if et == nil {
		return nil
	}
	n, ok := t.args[2].intVal()
	if ok {
		if n > 16 {
			return nil
		}
		l := tNil
		for i := int64(0); i < n; i++ {
			l = mk("app", "", t.typ, l, st.load(tIaddr(t, cInt(i)), et))
		}
		return l
	}
	for a, q := range st.hq {
		if addrRoot(a) == t.args[0] && q.n != t.args[2] {
			return nil // filled in part
		}
	}
	v := bv(1 + maxBV(t))
	a := tIaddr(t, v)
	if b := st.load(a, et); b != nil {
		v2 := bv(1 + maxBV(t, b))
		if v2 != v {
			b = subst(b, map[*Term]*Term{v: v2})
		}
		return mk("comp", v2.aux, t.typ, tNil, t.args[2], b, cInt(1))
	}
	return nil
}

// ------------------------------------------------------------------ domain

// kBound reads a literal as k <= N-1 and returns N.
func kBound(l Lit, k *Term) (n *Term, cont bool, ok bool) {
	c, val := l.c, l.val
	for c.op == "not" {
		c, val = c.args[0], !val
	}
	switch c.op {
	case "le0":
		p := asPoly(c.args[0])
		if !val {
			p = polyAdd(polyConst(big.NewRat(1, 1)), p, -1)
		}
		kk := asPoly(k)
		for _, m := range p.m {
			if m.key == kk.m[0].key {
				one := big.NewRat(1, 1)
				if m.coef.Cmp(one) == 0 {
					N := mkPoly(polyAdd(polyAdd(kk, p, -1), polyConst(one), 1), false)
					return N, true, true
				}
				if m.coef.Cmp(big.NewRat(-1, 1)) == 0 {
					// -k + q <= 0: k >= q
					return mkPoly(polyAdd(p, kk, 1), false), false, true
				}
			}
		}
	case "eq0":
		d := tAdd(k, c.args[0], false) // k - N sign-normalised either way
		e := tSub(k, c.args[0], false)
		for _, n := range []*Term{d, e} {
			if !n.contains(k) {
				return n, !val, true
			}
		}
	}
	return nil, false, false
}

func (x *Exec) findDomain(rec *LoopRecord) (isDom func(Lit) (bool, bool)) {
	more := mk("more", rec.name, nil)
	isMore := func(l Lit) (bool, bool) { // is domain literal, continuing
		if l.c == more {
			return true, l.val
		}
		return false, false
	}
	all := [][]Lit{}
	for _, t := range rec.trans {
		all = append(all, t.lits)
	}
	uses := false
	for _, e := range rec.exits {
		for _, l := range e.lits {
			if l.c == more {
				uses = true
			}
		}
	}
	if uses {
		ok := true
		for _, t := range all {
			if len(t) == 0 || t[0].c != more {
				ok = false
			}
		}
		if ok && rec.iter != nil {
			rec.dom = mk("mapdom", "", nil, rec.iter.args[1])
			return isMore
		}
		return nil
	}
	// candidate bounds from the exits
	cands := map[*Term]bool{}
	var order []*Term
	for _, e := range rec.exits {
		for _, l := range e.lits {
			if n, cont, ok := kBound(l, rec.k); ok && !cont && !n.dependsOn(rec.name) && !cands[n] {
				cands[n] = true
				order = append(order, n)
			}
		}
	}
	for _, n := range order {
		is := func(l Lit) (bool, bool) {
			m, cont, ok := kBound(l, rec.k)
			return ok && m == n, cont
		}
		good := true
		for _, t := range all {
			f := false
			for _, l := range t {
				if d, c := is(l); d && c {
					f = true
				}
			}
			good = good && f
		}
		if good {
			rec.dom = n
			return is
		}
	}
	return nil
}

// ------------------------------------------------------------------ summary

type gval struct {
	g *Poly
	v *Term
}

func polyIsOne(p *Poly) bool {
	return len(p.m) == 1 && len(p.m[0].fac) == 0 && p.m[0].coef.Cmp(big.NewRat(1, 1)) == 0
}

func numericType(t types.Type) (num, flt bool) {
	if t == nil {
		return false, false
	}
	if isFloat(t) {
		return true, true
	}
	if isInt(t) {
		if enumDomain(mk("typed", typeKey(t), t)) != nil {
			return false, false
		}
		return true, false
	}
	return false, false
}

// finiteCases spells out values of a finite type.
func finiteCases(cs []gval, typ types.Type) []gval {
	same := true
	for _, c := range cs {
		same = same && c.v == cs[0].v
	}
	if same {
		return cs
	}
	var r []gval
	for _, c := range cs {
		if c.v.isConst() {
			r = append(r, c)
			continue
		}
		var vals []*Term
		if isBool(typ) {
			vals = []*Term{tTrue, tFalse}
		} else {
			for _, d := range enumDomain(c.v) {
				vals = append(vals, cInt(d))
			}
		}
		if len(vals) == 0 {
			return cs
		}
		for _, v := range vals {
			r = append(r, gval{polyMul(c.g, indPoly(tEq(c.v, v, typ), true)), v})
		}
	}
	by := map[*Term]*Poly{}
	for _, c := range r {
		p := by[c.v]
		if p == nil {
			p = &Poly{}
		}
		by[c.v] = polyAdd(p, c.g, 1)
	}
	// a single condition (or state) in disguise
	if isBool(typ) && by[tTrue] != nil && by[tFalse] != nil && polyIsOne(polyAdd(by[tTrue], by[tFalse], 1)) {
		for i, p := range []*Poly{by[tTrue], by[tFalse]} {
			if len(p.m) == 1 && len(p.m[0].fac) == 1 && p.m[0].coef.Cmp(big.NewRat(1, 1)) == 0 && p.m[0].fac[0].atom.op == "ind" {
				c := condOfInd(p.m[0].fac[0].atom)
				if i == 1 {
					c = tNot(c)
				}
				return []gval{{polyConst(big.NewRat(1, 1)), c}}
			}
		}
	}
	return r
}

// underGuard drops the alternatives within v that g rules out.
func underGuard(v *Term, g *Poly) *Term {
	if len(g.m) == 0 || len(g.m) > 12 {
		return v
	}
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if len(t.args) == 0 || binder(t) != 0 || t.op == "poly" {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		a := make([]*Term, len(t.args))
		same := true
		for i := range a {
			a[i] = rec(t.args[i])
			same = same && a[i] == t.args[i]
		}
		r := t
		if !same {
			r = rebuild(t, a)
		}
		if r.op == "cases" {
			var l []*Term
			for i := 0; i+1 < len(r.args); i += 2 {
				p := asPoly(r.args[i])
				if len(p.m) > 12 || len(polyMul(g, p).m) > 0 {
					l = append(l, r.args[i+1])
				}
			}
			if len(l) == 1 {
				r = l[0]
			}
		}
		memo[t] = r
		return r
	}
	if !v.any(func(t *Term) bool { return t.op == "cases" }) {
		return v
	}
	return rec(v)
}

// combine merges guarded values into one term; dflt (may be nil) is the value
// when no guard holds.
func combine(cs []gval, dflt *Term, typ types.Type) *Term {
	if typ != nil && (isBool(typ) || enumDomain(mk("typed", typeKey(typ), typ)) != nil) {
		if dflt != nil {
			rest := polyConst(big.NewRat(1, 1))
			for _, c := range cs {
				rest = polyAdd(rest, c.g, -1)
			}
			cs = append(append([]gval{}, cs...), gval{rest, dflt})
			dflt = nil
		}
		cs = finiteCases(cs, typ)
	}
	by := map[*Term]*Poly{}
	var vals []*Term
	sum := &Poly{}
	for _, c := range cs {
		if len(cs) > 1 || dflt != nil {
			c.v = underGuard(c.v, c.g)
		}
		if p, ok := by[c.v]; ok {
			by[c.v] = polyAdd(p, c.g, 1)
		} else {
			by[c.v] = c.g
			vals = append(vals, c.v)
		}
		sum = polyAdd(sum, c.g, 1)
	}
	if dflt != nil {
		rest := polyAdd(polyConst(big.NewRat(1, 1)), sum, -1)
		if len(rest.m) > 0 {
			if p, ok := by[dflt]; ok {
				by[dflt] = polyAdd(p, rest, 1)
			} else {
				by[dflt] = rest
				vals = append(vals, dflt)
			}
		}
	}
	if len(vals) == 1 && (dflt != nil || true) {
		return vals[0]
	}
	if num, flt := numericType(typ); num {
		res := &Poly{}
		for _, v := range vals {
			res = polyAdd(res, polyMul(by[v], asPoly(v)), 1)
		}
		return mkPoly(res, flt)
	}
	if typ != nil {
		if s, ok := isStruct(typ); ok {
			fs := make([]*Term, s.NumFields())
			for i := range fs {
				ft := s.Field(i).Type()
				var l []gval
				for _, v := range vals {
					l = append(l, gval{by[v], tField(v, i, ft)})
				}
				fs[i] = combine(l, nil, ft)
			}
			return tStruct(typ, fs)
		}
	}
	// where two things are equal, either may be given
	for i, v := range vals {
		if w := equalUnder(by[v], v, by); w != nil {
			by[w] = polyAdd(by[w], by[v], 1)
			delete(by, v)
			vals = append(append([]*Term{}, vals[:i]...), vals[i+1:]...)
			break
		}
	}
	if len(vals) == 1 {
		return vals[0]
	}
	sort.Slice(vals, func(i, j int) bool { return vals[i].id < vals[j].id })
	var a []*Term
	for _, v := range vals {
		if len(by[v].m) == 0 {
			continue
		}
		a = append(a, mkPoly(by[v], false), v)
	}
	if len(a) == 2 {
		return a[1]
	}
	return mk("cases", "", typ, a...)
}

// equalUnder finds another of the values that equals v wherever g holds.
func equalUnder(g *Poly, v *Term, by map[*Term]*Poly) *Term {
	if len(g.m) != 1 {
		return nil
	}
	for _, f := range g.m[0].fac {
		if f.atom.op != "ind" {
			continue
		}
		c := condOfInd(f.atom)
		if c.op != "eq" {
			continue
		}
		for k := 0; k < 2; k++ {
			if w := c.args[1-k]; c.args[k] == v && by[w] != nil {
				return w
			}
		}
	}
	return nil
}

func guardOf(lits []Lit) *Poly {
	p := polyConst(big.NewRat(1, 1))
	for _, l := range lits {
		if l.free {
			continue
		}
		p = polyMul(p, indPoly(l.c, l.val))
		if len(p.m) > 4000 {
			panic(undecided("guard too large"))
		}
	}
	return p
}

func hasLV(t *Term, L string) bool {
	return t.any(func(y *Term) bool {
		return (y.op == "lv" || y.op == "lvo") && len(y.aux) > len(L) && y.aux[:len(L)+1] == L+"|" && isOwnSlot(y.aux[len(L)+1:])
	})
}

func isOwnSlot(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] == '|' {
			return false
		}
	}
	return true
}

func polyHasLV(p *Poly, L string) bool {
	for _, m := range p.m {
		for _, f := range m.fac {
			if hasLV(f.atom, L) {
				return true
			}
		}
	}
	return false
}

// tEx: some element of the domain satisfies g.
func tEx(dom, g, v *Term) *Term { return tNot(tLe0(tSum(dom, g, v, false))) }

// normPrefix replaces map iteration keys by the bound variable as well.
type loopClose struct {
	rec   *LoopRecord
	x     *Exec
	v     *Term // bound variable
	sub   map[*Term]*Term
	keep  map[*LoopTrans]*Poly // guard of each transition without common literals, raw terms
	full  map[*LoopTrans]*Poly
	isM   bool
	early bool
}

func (c *loopClose) close(t *Term) *Term { return subst(t, c.sub) }

func (x *Exec) summarise(fr *frame, rec *LoopRecord, e edge) ([]edge, []Outcome) {
	L := rec.name
	isDom := x.findDomain(rec)
	strip := func(l []Lit) (r []Lit, out bool) {
		for _, y := range l {
			if isDom != nil {
				if d, c := isDom(y); d {
					if !c {
						out = true
					}
					continue
				}
			}
			r = append(r, y)
		}
		return
	}
	for _, t := range rec.trans {
		t.lits, _ = strip(t.lits)
	}
	for _, ex := range rec.exits {
		var out bool
		ex.lits, out = strip(ex.lits)
		switch {
		case out && ex.kind == "return":
			ex.kind = "normalret"
		case out:
			ex.kind = "normal"
		case ex.kind == "":
			ex.kind = "early"
		}
	}
	// literals shared by all transitions hold in every completed iteration
	common := map[Lit]int{}
	for _, t := range rec.trans {
		seen := map[Lit]bool{}
		for _, l := range t.lits {
			if !seen[l] {
				seen[l] = true
				common[l]++
			}
		}
	}
	c := &loopClose{rec: rec, x: x, keep: map[*LoopTrans]*Poly{}, full: map[*LoopTrans]*Poly{}}
	nb := 0
	up := func(ts ...*Term) {
		if n := maxBV(ts...); n > nb {
			nb = n
		}
	}
	for _, t := range rec.trans {
		var l []Lit
		for _, y := range t.lits {
			up(y.c)
			if common[y] != len(rec.trans) {
				l = append(l, y)
			}
		}
		c.keep[t] = guardOf(l)
		c.full[t] = guardOf(t.lits)
		for _, n := range t.next {
			up(n)
		}
		for a, v := range t.st.heap {
			if a.dependsOn(L) {
				up(v)
			}
		}
	}
	for _, ex := range rec.exits {
		for _, y := range ex.lits {
			up(y.c)
		}
	}
	for _, s := range rec.slots {
		up(s.entry)
	}
	if rec.dom != nil {
		up(rec.dom)
	}
	c.v = bv(nb + 1)
	c.isM = rec.dom != nil && rec.dom.op == "mapdom"
	mkey := mk("mkey", L, nil)
	c.sub = map[*Term]*Term{rec.k: c.v, mkey: c.v}
	leave := &Poly{}
	early := false
	for _, ex := range rec.exits {
		if ex.kind == "early" || ex.kind == "return" {
			early = true
			g := guardOf(ex.lits)
			for _, s := range rec.slots {
				if s.class == "fin" {
					g = polyMul(g, indPoly(mkEqT(s.lv, ex.from[s], s.typ), true))
				}
			}
			leave = polyAdd(leave, g, 1)
		}
	}
	nfin := 0
	for _, s := range rec.slots {
		if s.class == "fin" {
			nfin++
		}
	}
	c.early = early
	leaveT := mkPoly(leave, false)
	stateful := hasLV(leaveT, L)
	if nfin > 0 && early {
		if g := c.sameLeave(); g != nil {
			leaveT, stateful = g, hasLV(g, L)
		} else {
			stateful = true
		}
	}

	fin := c.finals(rec.dom, false)

	// ---- exits
	var outE []edge
	var outR []Outcome
	emit := func(ex *LoopExit, head []Lit, sub map[*Term]*Term, free int, implied bool) {
		for i, l := range head {
			head[i].c = alpha(l.c)
		}
		for k, v := range sub {
			sub[k] = alpha(v)
		}
		st, ok := x.leaveState(rec, ex, e.st, head, sub, free, implied)
		if !ok {
			return
		}
		env := map[ssa.Value]*Term{}
		if ex.edge != nil {
			for k, v := range ex.edge.env {
				if v != nil && v.dependsOn(L) {
					v = subst(ex.st.settleKeep(v), sub)
				}
				env[k] = v
			}
			outE = append(outE, edge{ex.edge.from, ex.edge.to, env, st})
			return
		}
		var ret []*Term
		for _, r := range ex.ret {
			if r != nil && r.dependsOn(L) {
				r = subst(r, sub)
			}
			ret = append(ret, r)
		}
		outR = append(outR, Outcome{st: st, ret: ret})
	}

	baseSub := func(k *Term, vals map[*slot]*Term) map[*Term]*Term {
		m := map[*Term]*Term{rec.k: k}
		for _, s := range rec.slots {
			if v, ok := vals[s]; ok {
				m[s.lv] = v
				m[s.lvo] = v
			}
		}
		return m
	}
	_ = baseSub

	// finite slots at a normal exit: conditions for each final valuation
	ways := map[string]int{}
	for _, ex := range rec.exits {
		if ex.kind == "early" || ex.kind == "return" {
			ways[finKey(rec.slots, ex.from)]++
		}
	}
	for _, ex := range rec.exits {
		switch ex.kind {
		case "normal", "normalret":
			var head []Lit
			if early && rec.dom != nil {
				if stateful {
					head = append(head, Lit{c.fold("lexit", leaveT, nil, false), false, false})
				} else {
					head = append(head, Lit{tEx(rec.dom, c.close(leaveT), c.v), false, false})
				}
			}
			sub := map[*Term]*Term{rec.k: domSize(rec.dom), mkey: mk("nokey", "", nil)}
			for _, s := range rec.slots {
				switch s.class {
				case "sym", "own":
					sub[s.lv] = fin[s]
					sub[s.lvo] = fin[s]
				case "fin":
					if nfin > 0 {
						cond := c.finCond(s, ex.from[s], fin[s])
						head = append(head, cond...)
					}
				}
			}
			emit(ex, head, sub, -1, false)
		default: // early, return
			// head[free] follows from the literals before it; the only
			// way to leave early is the condition "first" is defined by
			free := -1
			var head []Lit
			sub := map[*Term]*Term{}
			if rec.dom != nil && !stateful {
				g := c.close(leaveT)
				first := mk("first", c.v.aux, types.Typ[types.Int], keysOf(rec.dom), g)
				if c.isM {
					first.typ = nil
				}
				head = append(head, Lit{tEx(rec.dom, g, c.v), true, false})
				if !c.isM {
					head = append(head, Lit{tLe0(tAdd(tSub(first, rec.dom, false), cInt(1), false)), true, false})
					free = 1
				}
				sub[rec.k] = first
				sub[mkey] = first
				pre := c.finals(first, c.isM)
				for _, s := range rec.slots {
					switch s.class {
					case "sym", "own":
						sub[s.lv] = pre[s]
						sub[s.lvo] = pre[s]
					case "fin":
						head = append(head, c.finCond(s, ex.from[s], pre[s])...)
					}
				}
			} else {
				if rec.dom != nil {
					head = append(head, Lit{c.fold("lexit", leaveT, nil, false), true, false})
				}
				kx := c.fold("kx", leaveT, nil, true)
				sub[rec.k] = kx
				sub[mkey] = kx
				if rec.dom != nil && !c.isM {
					head = append(head, Lit{tLe0(tAdd(tSub(kx, rec.dom, false), cInt(1), false)), true, false})
					free = 1
				}
				for _, s := range rec.slots {
					if s.class == "sym" || s.class == "own" || s.class == "fin" {
						v := c.fold("finx", leaveT, s, true)
						if s.class == "fin" {
							head = append(head, Lit{mkEqT(v, ex.from[s], s.typ), true, false})
							v = ex.from[s]
						}
						sub[s.lv] = v
						sub[s.lvo] = v
					}
				}
			}
			emit(ex, head, sub, free, !stateful && rec.dom != nil && ways[finKey(rec.slots, ex.from)] == 1)
		}
	}
	return outE, outR
}

// sameLeave is the condition of leaving the loop early if it is the same in
// every state of the finite slots.
func (c *loopClose) sameLeave() *Term {
	of := map[string]*Poly{}
	key := func(from map[*slot]*Term) string { return finKey(c.rec.slots, from) }
	for _, t := range c.rec.trans {
		if of[key(t.from)] == nil {
			of[key(t.from)] = &Poly{}
		}
	}
	for _, ex := range c.rec.exits {
		if of[key(ex.from)] == nil {
			of[key(ex.from)] = &Poly{}
		}
		if ex.kind == "early" || ex.kind == "return" {
			of[key(ex.from)] = polyAdd(of[key(ex.from)], guardOf(ex.lits), 1)
		}
	}
	var g *Term
	for _, p := range of {
		h := mkPoly(p, false)
		if g != nil && g != h {
			return nil
		}
		g = h
	}
	return g
}

func (st *State) settleKeep(v *Term) *Term { return v }

func mkEqT(a, b *Term, typ types.Type) *Term { return tEq(a, b, typ) }

// finals computes the value of every abstracted slot after the iterations
// 0..dom-1 (all of them continuing).
func (c *loopClose) finals(dom *Term, forceFold bool) map[*slot]*Term {
	rec := c.rec
	L := rec.name
	r := map[*slot]*Term{}
	nfin := 0
	for _, s := range rec.slots {
		if s.class == "fin" {
			nfin++
		}
	}
	for _, s := range rec.slots {
		switch s.class {
		case "inv":
			r[s] = s.entry
			continue
		case "ind":
			continue
		case "fin":
			if t := c.finiteForm(s, dom); t != nil {
				r[s] = t
			} else {
				r[s] = c.fold("fin", nil, s, false)
			}
			continue
		}
		var t *Term
		if dom != nil && !forceFold && nfin == 0 {
			t = c.closedForm(s, dom)
		}
		if t == nil && dom != nil && !forceFold && nfin > 0 {
			// guards do not mention the finite slots when every transition
			// exists for all of their values; merged by combine
			t = c.closedForm(s, dom)
		}
		if t == nil {
			if rec.iter != nil {
				rec.order = true
			}
			if dom == rec.dom || dom == nil {
				t = c.fold("fin", nil, s, false)
			} else {
				t = c.fold("finx", mk("upto", "", nil, dom), s, false)
			}
		}
		r[s] = t
	}
	// quantified writes
	_ = L
	return r
}

// transGuard is the guard of a transition, over the finite slots as well.
func (c *loopClose) transGuard(t *LoopTrans, full bool) *Poly {
	g := c.keep[t]
	if full {
		g = c.full[t]
	}
	for _, s := range c.rec.slots {
		if s.class == "fin" {
			g = polyMul(g, indPoly(mkEqT(s.lv, t.from[s], s.typ), true))
		}
	}
	return g
}

// finiteForm: a two-valued slot that is set once or toggled; the result is a
// "two" term holding the condition.
func (c *loopClose) finiteForm(s *slot, dom *Term) *Term {
	if dom == nil {
		return nil
	}
	vals := map[*Term]bool{s.entry: true}
	for _, t := range c.rec.trans {
		vals[t.to[s]] = true
		vals[t.from[s]] = true
	}
	if len(vals) != 2 {
		return nil
	}
	var other *Term
	for v := range vals {
		if v != s.entry {
			other = v
		}
	}
	// group the transitions by the values of the other finite slots
	type grp struct{ set, tog, stay0, stay1 *Poly }
	gs := map[string]*grp{}
	for _, t := range c.rec.trans {
		key := ""
		for _, o := range c.rec.slots {
			if o.class == "fin" && o != s {
				key += strconv.Itoa(t.from[o].id) + ","
			}
		}
		g := gs[key]
		if g == nil {
			g = &grp{&Poly{}, &Poly{}, &Poly{}, &Poly{}}
			gs[key] = g
		}
		p := c.keep[t]
		switch {
		case t.from[s] == s.entry && t.to[s] == other:
			g.set = polyAdd(g.set, p, 1)
		case t.from[s] == s.entry:
			g.stay0 = polyAdd(g.stay0, p, 1)
		case t.to[s] == s.entry:
			g.tog = polyAdd(g.tog, p, 1)
		default:
			g.stay1 = polyAdd(g.stay1, p, 1)
		}
	}
	var set, tog *Term
	for _, g := range gs {
		st, tg := mkPoly(g.set, false), mkPoly(g.tog, false)
		f0 := len(g.set.m)+len(g.stay0.m) > 0
		f1 := len(g.tog.m)+len(g.stay1.m) > 0
		if f0 {
			if set != nil && set != st {
				return nil
			}
			set = st
		}
		if f1 {
			if tog != nil && tog != tg {
				return nil
			}
			tog = tg
		}
	}
	if set == nil || hasLV(set, c.rec.name) || (tog != nil && hasLV(tog, c.rec.name)) {
		return nil
	}
	var cond *Term
	if tog == nil || tog == cInt(0) {
		cond = tEx(dom, c.close(set), c.v)
	} else if tog == set {
		cond = tEqInt(mk("rem", "", types.Typ[types.Int], tSum(dom, c.close(set), c.v, false), cInt(2)), cInt(1))
	} else {
		return nil
	}
	return mk("two", "", s.typ, cond, other, s.entry)
}

// finCond: the literals saying that slot s finally has value v.
func (c *loopClose) finCond(s *slot, v, fin *Term) []Lit {
	if fin.op == "two" {
		switch v {
		case fin.args[1]:
			return []Lit{{fin.args[0], true, false}}
		case fin.args[2]:
			return []Lit{{fin.args[0], false, false}}
		}
	}
	return []Lit{{mkEqT(fin, v, s.typ), true, false}}
}

func (c *loopClose) closedForm(s *slot, dom *Term) *Term {
	rec := c.rec
	L := rec.name
	lv := s.lv
	if s.class == "own" {
		lv = s.lvo
	}
	// guards must not depend on the loop state
	type upd struct {
		g *Poly
		n *Term
	}
	var ups []upd
	var froms []string
	byFrom := map[string][]upd{}
	for _, t := range rec.trans {
		fk := finKey(rec.slots, t.from)
		l, ok := byFrom[fk]
		if !ok {
			froms = append(froms, fk)
		}
		found := false
		for i := range l {
			if l[i].n == t.next[s] {
				l[i].g = polyAdd(l[i].g, c.keep[t], 1)
				found = true
			}
		}
		if !found {
			l = append(l, upd{c.keep[t], t.next[s]})
		}
		byFrom[fk] = l
	}
	// the same in every finite state, wherever that state does not leave
	stay := map[string]*Poly{}
	for _, fk := range froms {
		p := &Poly{}
		for _, t := range rec.trans {
			if finKey(rec.slots, t.from) == fk {
				p = polyAdd(p, c.keep[t], 1)
			}
		}
		stay[fk] = p
	}
	for i := range froms {
		ok := true
		m := map[*Term]*Poly{}
		var l []upd
		for _, u := range byFrom[froms[i]] {
			if u.n == lv {
				continue
			}
			if polyHasLV(u.g, L) {
				return nil
			}
			m[u.n] = u.g
			l = append(l, u)
		}
		for _, fk := range froms {
			seen := 0
			for _, u := range byFrom[fk] {
				if u.n == lv {
					continue
				}
				if m[u.n] == nil {
					ok = false
					break
				}
				seen++
				if m[u.n] != u.g && mkPoly(m[u.n], false) != mkPoly(u.g, false) && mkPoly(polyMul(m[u.n], stay[fk]), false) != mkPoly(polyMul(u.g, stay[fk]), false) {
					ok = false
				}
			}
			if seen != len(m) {
				ok = false
			}
		}
		if ok {
			ups = l
			break
		}
		if i == len(froms)-1 {
			return nil
		}
	}
	if len(ups) == 0 {
		return s.entry
	}
	// an update of every iteration that does not leave happens in every
	// iteration the result counts
	always := func(g *Poly) *Poly {
		if mkPoly(g, false) == cInt(1) {
			return g
		}
		for _, fk := range froms {
			st := mkPoly(stay[fk], false)
			if mkPoly(g, false) != st && mkPoly(polyMul(g, stay[fk]), false) != st {
				return g
			}
		}
		return polyConst(big.NewRat(1, 1))
	}
	for i := range ups {
		ups[i].g = always(ups[i].g)
	}
	// sums
	if num, flt := numericType(s.typ); num {
		total := &Poly{}
		for _, u := range ups {
			d := tSub(u.n, lv, flt)
			if hasLV(d, L) {
				return nil
			}
			total = polyAdd(total, polyMul(u.g, asPoly(d)), 1)
		}
		b := c.close(mkPoly(total, flt))
		return tAdd(s.entry, tSum(dom, b, c.v, flt), flt)
	}
	if s.typ != nil && isSlice(s.typ) {
		var cs []gval
		gsum := &Poly{}
		flat := false
		for _, u := range ups {
			if u.n.op == "app" && u.n.args[0] == lv {
				if hasLV(u.n.args[1], L) {
					return nil
				}
				cs = append(cs, gval{u.g, u.n.args[1]})
				gsum = polyAdd(gsum, u.g, 1)
			} else if u.n.op == "appS" && u.n.args[0] == lv && !hasLV(u.n.args[1], L) {
				cs = append(cs, gval{u.g, u.n.args[1]})
				gsum = polyAdd(gsum, u.g, 1)
				flat = true
			} else if (u.n.op == "comp" || u.n.op == "flat") && u.n.args[0] == lv {
				n := mk(u.n.op, u.n.aux, u.n.typ, append([]*Term{tNil}, u.n.args[1:]...)...)
				if hasLV(n, L) {
					return nil
				}
				cs = append(cs, gval{u.g, n})
				gsum = polyAdd(gsum, u.g, 1)
				flat = true
			} else {
				return nil
			}
		}
		if flat {
			for i, u := range ups {
				if u.n.op == "app" {
					cs[i].v = mk("app", "", s.typ, tNil, cs[i].v)
				}
			}
		}
		et := elemType(s.typ)
		ct := et
		if flat {
			ct = s.typ
		}
		var cs2 []gval
		for _, g := range cs {
			cs2 = append(cs2, gval{asPoly(c.close(mkPoly(g.g, false))), c.close(g.v)})
		}
		body := combine(cs2, nil, ct)
		g := c.close(mkPoly(always(gsum), false))
		if rec.iter != nil {
			rec.order = true
		}
		base := s.entry
		if isEmptyList(base) {
			base = tNil
		}
		if flat {
			return mk("flat", c.v.aux, s.typ, base, dom, body, g)
		}
		// appending a copy of a whole list
		if g == cInt(1) && body.op == "init" && body.args[0].op == "iaddr" && body.args[0].args[1] == c.v && dom.op == "len" && dom.args[0] == body.args[0].args[0] {
			if base == tNil {
				return dom.args[0]
			}
			return mk("appS", "", s.typ, base, dom.args[0])
		}
		if m, inner, gf := flatSplit(dom, c.v, body, g, s.typ); m != nil {
			return mk("flat", m.aux, s.typ, base, m.args[1], inner, gf)
		}
		return mk("comp", c.v.aux, s.typ, base, dom, body, g)
	}
	if s.class == "own" && c.isM {
		var mt types.Type
		if s.addr.args[0].typ != nil {
			mt = elemType(s.addr.args[0].typ)
		}
		gsum := &Poly{}
		var cs []gval
		for _, u := range ups {
			if hasLV(u.n.args[2], L) {
				return nil
			}
			cs = append(cs, gval{asPoly(c.close(mkPoly(u.g, false))), c.close(u.n.args[2])})
			gsum = polyAdd(gsum, u.g, 1)
		}
		g := c.close(mkPoly(gsum, false))
		D := dom.args[0]
		self := staticGet(D, c.v, mt)
		if s.entry == D || rootContent(s.entry) == rootContent(D) && s.entry == D {
			body := combine(cs, self, mt)
			if body == self {
				return D
			}
			return mk("mmap", c.v.aux, nil, D, body)
		}
		body := combine(cs, nil, mt)
		if s.entry == mEmpty && g == cInt(1) {
			if body == self || body == mk("mget", "", nil, D, c.v) {
				return D
			}
			return mk("mmap", c.v.aux, nil, D, body)
		}
		return mk("mover", c.v.aux, nil, s.entry, D, body, g)
	}
	// pointwise map update: next = mmap(lv, mget(lv, b) + d)
	if s.addr != nil && s.addr.op == "mcont" {
		var total *Poly = &Poly{}
		var bvar *Term
		var mt types.Type
		if s.addr.args[0].typ != nil {
			mt = elemType(s.addr.args[0].typ)
		}
		num, flt := numericType(mt)
		if !num {
			return nil
		}
		nv := bv(atoi(c.v.aux) + 1)
		_ = bvar
		for _, u := range ups {
			if u.n.op != "mmap" || u.n.args[0] != lv {
				return nil
			}
			b := bvOf(u.n)
			body := subst(u.n.args[1], map[*Term]*Term{b: nv})
			d := tSub(body, mk("mget", "", mt, lv, nv), flt)
			if hasLV(d, L) {
				return nil
			}
			total = polyAdd(total, polyMul(u.g, asPoly(d)), 1)
		}
		b := subst(mkPoly(total, flt), c.sub)
		v := tAdd(staticGet(s.entry, nv, mt), tSum(dom, b, c.v, flt), flt)
		return mk("mmap", nv.aux, nil, s.entry, v)
	}
	return nil
}

func finCount(rec *LoopRecord) int {
	n := 0
	for _, s := range rec.slots {
		if s.class == "fin" {
			n++
		}
	}
	return n
}

// nextOf is the next value of a slot as one term over its current state.
func (c *loopClose) nextOf(s *slot, full bool) *Term {
	lv := s.lv
	var cs []gval
	for _, t := range c.rec.trans {
		n := t.next[s]
		if s.class == "fin" {
			n = t.to[s]
		}
		if s.class == "own" {
			n = subst(n, map[*Term]*Term{s.lvo: s.lv})
		}
		if c.early {
			// only the iterations that complete matter
			cs = append(cs, gval{c.transGuard(t, true), n})
			continue
		}
		if n == lv {
			continue
		}
		if s.class == "fin" && n == t.from[s] {
			continue
		}
		cs = append(cs, gval{c.transGuard(t, full), n})
	}
	if len(cs) == 0 {
		return lv
	}
	if c.early {
		return combine(cs, nil, s.typ)
	}
	return combine(cs, lv, s.typ)
}

// A component of the loop state: a slot, or one field of a struct slot.
type foldComp struct {
	s    *slot
	path []int
	lv   *Term
	typ  types.Type
}

func (q *foldComp) of(v *Term) *Term {
	typ := q.s.typ
	for _, f := range q.path {
		st, _ := isStruct(typ)
		typ = st.Field(f).Type()
		v = tField(v, f, typ)
	}
	return v
}

// comps splits the value of a slot into components and gives the value put
// together from them.
func (s *slot) comps() ([]*foldComp, *Term) {
	if s.parts != nil {
		return s.parts, s.whole
	}
	var split func(lv *Term, typ types.Type, path []int) *Term
	split = func(lv *Term, typ types.Type, path []int) *Term {
		st, ok := (*types.Struct)(nil), false
		if typ != nil {
			st, ok = isStruct(typ)
		}
		if !ok || st.NumFields() == 0 {
			s.parts = append(s.parts, &foldComp{s, append([]int{}, path...), lv, typ})
			return lv
		}
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			t := st.Field(i).Type()
			fs[i] = split(mk("lv", s.lv.aux+"#"+strconv.Itoa(i), t), t, append(path, i))
		}
		return tStruct(typ, fs)
	}
	s.whole = split(s.lv, s.typ, nil)
	return s.parts, s.whole
}

// fold builds the canonical term for a loop result that has no closed form.
func (c *loopClose) fold(op string, leave *Term, s *slot, full bool) *Term {
	if s == nil {
		return c.foldComp(op, leave, nil, full)
	}
	parts, whole := s.comps()
	if len(parts) == 1 {
		return c.foldComp(op, leave, parts[0], full)
	}
	m := map[*Term]*Term{}
	for _, q := range parts {
		m[q.lv] = c.foldComp(op, leave, q, full)
	}
	return subst(whole, m)
}

func (c *loopClose) foldComp(op string, leave *Term, s *foldComp, full bool) *Term {
	rec := c.rec
	var need []*foldComp
	in := map[*foldComp]bool{}
	nexts := map[*foldComp]*Term{}
	open := map[*Term]*Term{} // slots in terms of their components
	comp := map[*Term]*foldComp{}
	for _, o := range rec.slots {
		if o.class != "sym" && o.class != "own" && o.class != "fin" {
			continue
		}
		parts, whole := o.comps()
		for _, q := range parts {
			comp[q.lv] = q
		}
		if whole != o.lv {
			open[o.lv] = whole
		}
		open[o.lvo] = whole
	}
	whole := map[*slot]*Term{}
	next := func(q *foldComp) *Term {
		n, ok := whole[q.s]
		if !ok {
			n = subst(c.nextOf(q.s, full), open)
			whole[q.s] = n
		}
		return q.of(n)
	}
	add := func(t *Term) {
		t.any(func(y *Term) bool {
			if q := comp[y]; q != nil && !in[q] {
				in[q] = true
				need = append(need, q)
			}
			return false
		})
	}
	if s != nil {
		in[s] = true
		need = append(need, s)
	}
	if leave != nil {
		leave = subst(leave, open)
		add(leave)
	}
	for i := 0; i < len(need); i++ {
		n := next(need[i])
		nexts[need[i]] = n
		add(n)
	}
	if s != nil && nexts[s] == s.lv {
		return s.of(s.s.entry) // never changed
	}
	first := 0
	if s != nil {
		first = 1
	}
	rest := need[first:]
	ent := func(q *foldComp) *Term { return c.entryOf(q.of(q.s.entry), q.typ) }
	sort.SliceStable(rest, func(i, j int) bool { return ent(rest[i]).id < ent(rest[j]).id })
	m := map[*Term]*Term{}
	for k, v := range c.sub {
		m[k] = v
	}
	for i, q := range need {
		m[q.lv] = mk("sv", c.v.aux+"."+strconv.Itoa(i), q.typ)
	}
	dom := rec.dom
	if dom == nil {
		dom = mk("nodom", "", nil)
	}
	args := []*Term{dom}
	if leave != nil {
		args = append(args, subst(leave, m))
	} else {
		args = append(args, tNil)
	}
	for _, q := range need {
		args = append(args, ent(q), subst(nexts[q], m))
	}
	var typ types.Type
	if s != nil {
		typ = s.typ
	} else if op == "kx" {
		typ = types.Typ[types.Int]
	}
	if op == "fin" && leave == nil && len(need) == 1 {
		return tFin(c.v, typ, args)
	}
	return mk(op, c.v.aux, typ, args...)
}

// entryOf is the value a slot starts with; a new map that the loop leaves
// alone is its contents.
func (c *loopClose) entryOf(ent *Term, typ types.Type) *Term {
	if typ == nil {
		return ent
	}
	if isSlice(typ) && isEmptyList(ent) {
		return tNil
	}
	if isMap(typ) && ent.op == "alloc" && c.rec.entry != nil {
		for _, o := range c.rec.slots {
			if o.addr == mcont(ent) {
				return ent
			}
		}
		return c.rec.entry.reify(ent, 0)
	}
	return ent
}

// tFin is the fold of a single variable; a fold over a concatenation is the
// fold over its second part starting from the fold over the first.
func tFin(v *Term, typ types.Type, args []*Term) *Term {
	if d := keysOf(args[0]); d != args[0] {
		args = append([]*Term{d}, args[1:]...)
	}
	if a, b, n, base := concatSplit(args[0], v, args[3]); base != nil {
		first := tFin(v, typ, []*Term{n, args[1], args[2], a})
		return tFin(v, typ, []*Term{tLen(b), args[1], first, base})
	}
	// entering the same constant under the keys of several lists: in any order
	if k, c := constEntry(v.aux, args[1], args[3]); c != nil && args[2].op == "fin" && len(args[2].args) == 4 {
		in := args[2]
		if k2, c2 := constEntry(in.aux, in.args[1], in.args[3]); c2 == c {
			if args[0] == in.args[0] && k == k2 && v.aux == in.aux {
				return in
			}
			if args[0].id < in.args[0].id || args[0] == in.args[0] && k.id < k2.id {
				first := tFin(v, typ, []*Term{args[0], args[1], in.args[2], args[3]})
				return tFin(bvOf(in), in.typ, []*Term{in.args[0], in.args[1], first, in.args[3]})
			}
		}
	}
	// keys that are surely present
	if sv := svOf(v.aux, args[3]); sv != nil && args[1] == tNil && growing(args[3], sv) {
		m := map[*Term]*Term{}
		args[3].any(func(t *Term) bool {
			switch {
			case t.op == "has" && t.args[0] == sv && surelyHas(args[2], args[0], v, t.args[1]):
				m[t] = tTrue
			case t.op == "mset" && t.args[0] == sv && t.args[2].op == "mget" && t.args[2].args[0] == sv && t.args[2].args[1] == t.args[1] && surelyHas(args[2], args[0], v, t.args[1]):
				m[t] = sv
			}
			return false
		})
		if len(m) > 0 {
			if n := subst(args[3], m); n != args[3] {
				if n == sv {
					return args[2]
				}
				return tFin(v, typ, []*Term{args[0], args[1], args[2], n})
			}
		}
	}
	return mk("fin", v.aux, typ, args...)
}

// svOf finds the state of the fold over v within its step.
func svOf(aux string, step *Term) *Term {
	var r *Term
	step.any(func(t *Term) bool {
		if t.op == "sv" && t.aux == aux+".0" {
			r = t
		}
		return r != nil
	})
	return r
}

// growing: t is the map sv, possibly with entries added.
func growing(t, sv *Term) bool {
	switch {
	case t == sv:
		return true
	case t.op == "mset":
		return growing(t.args[0], sv)
	case t.op == "cases":
		for i := 1; i < len(t.args); i += 2 {
			if !growing(t.args[i], sv) {
				return false
			}
		}
		return true
	case t.op == "fin" && len(t.args) == 4 && t.args[1] == tNil:
		in := svOf(t.aux, t.args[3])
		return growing(t.args[2], sv) && (in == nil || growing(t.args[3], in))
	}
	return false
}

// surelyHas: the map has an entry under k, whatever v in [0,dom) k mentions.
func surelyHas(c, dom, v, k *Term) bool {
	switch {
	case c.op == "mset":
		return c.args[1] == k || surelyHas(c.args[0], dom, v, k)
	case c.op == "mmap":
		return surelyHas(c.args[0], dom, v, k)
	case c.op == "cases":
		for i := 1; i < len(c.args); i += 2 {
			if !surelyHas(c.args[i], dom, v, k) {
				return false
			}
		}
		return true
	case c.op == "fin" && len(c.args) == 4 && c.args[1] == tNil:
		sv := svOf(c.aux, c.args[3])
		if sv == nil || !growing(c.args[3], sv) {
			return false
		}
		if c.args[0] == dom {
			step := subst(c.args[3], map[*Term]*Term{bvOf(c): v})
			if surelyHas(step, dom, v, k) {
				return true
			}
		}
		return surelyHas(c.args[2], dom, v, k)
	}
	return false
}

// constEntry recognises a fold that enters the constant c under key k.
func constEntry(aux string, leave, step *Term) (k, c *Term) {
	if leave != tNil || step.op != "mset" || step.args[0].op != "sv" || step.args[0].aux != aux+".0" {
		return nil, nil
	}
	k, c = step.args[1], step.args[2]
	own := func(t *Term) bool { return t.op == "bv" || t.op == "sv" }
	if k.contains(step.args[0]) || c.any(own) {
		return nil, nil
	}
	return k, c
}

// concatSplit looks for an element access of a concatenation X++Y that the
// domain ranges over; it returns the body over X, Y, the size of X and the
// body over Y.
func concatSplit(dom, v, body *Term) (bodyX, y, n, bodyY *Term) {
	if dom.op != "poly" || !body.contains(v) {
		return
	}
	var s *Term
	body.any(func(t *Term) bool {
		if t.op == "iaddr" && t.args[1] == v && t.args[0].op == "appS" && tLen(t.args[0]) == dom {
			s = t.args[0]
		}
		return s != nil
	})
	if s == nil {
		return
	}
	x, y := s.args[0], s.args[1]
	if isEmptyList(x) {
		return
	}
	for x.op == "appS" && isEmptyList(x.args[0]) {
		x = x.args[1]
	}
	n = tLen(x)
	bodyX = subst(body, map[*Term]*Term{s: x})
	bodyY = subst(body, map[*Term]*Term{mk("iaddr", "", nil, s, v): tIaddr(y, v), v: tAdd(v, n, false)})
	if bodyX.contains(s) || bodyY.contains(s) {
		return nil, nil, nil, nil
	}
	return bodyX, y, n, bodyY
}

// flatSplit turns what is gathered over the elements of a concatenation of
// lists into a concatenation of what is gathered over each. It returns the
// concatenation (with a bound variable of its own), the list per member and
// the condition on members.
func flatSplit(dom, v, body, g *Term, lt types.Type) (f, inner, gf *Term) {
	find := func(t *Term) (s *Term) {
		t.any(func(t *Term) bool {
			if t.op == "iaddr" && t.args[1] == v && t.args[0].op == "flat" && isEmptyList(t.args[0].args[0]) && tLen(t.args[0]) == dom {
				s = t.args[0]
			}
			return s != nil
		})
		return
	}
	if f = find(body); f == nil {
		if f = find(g); f == nil {
			return nil, nil, nil
		}
	}
	top := maxBV(f, body, g, v)
	i, j := bv(top+1), bv(top+2)
	list := instBV(f.args[2], bvOf(f), i)
	gf = instBV(f.args[3], bvOf(f), i)
	m := instBV(f.args[1], bvOf(f), i)
	var n, elem, gi *Term
	if list.op == "comp" && isEmptyList(list.args[0]) {
		n, elem, gi = list.args[1], instBV(list.args[2], bvOf(list), j), instBV(list.args[3], bvOf(list), j)
	} else if list.op == "app" && isEmptyList(list.args[0]) {
		n, elem, gi = cInt(1), list.args[1], cInt(1)
	} else {
		return nil, nil, nil
	}
	at := mk("iaddr", "", nil, f, v)
	sub := map[*Term]*Term{}
	ok := true
	collect := func(t *Term) {
		t.any(func(t *Term) bool {
			if t.op != "init" || addrRoot(t.args[0]) != f {
				return false
			}
			path := []int{}
			a := t.args[0]
			for a.op == "faddr" {
				path = append([]int{atoi(a.aux)}, path...)
				a = a.args[0]
			}
			if a != at {
				return false
			}
			e := elem
			for _, k := range path {
				e = tField(e, k, nil)
			}
			if e == nil {
				ok = false
			} else {
				sub[t] = e
			}
			return false
		})
	}
	collect(body)
	collect(g)
	if !ok {
		return nil, nil, nil
	}
	b2, g2 := subst(body, sub), subst(g, sub)
	if b2.contains(v) || g2.contains(v) {
		return nil, nil, nil
	}
	f = mk("flat", i.aux, f.typ, f.args[0], m, list, gf)
	return f, mk("comp", j.aux, lt, tNil, n, b2, tMul(g2, gi, false)), gf
}

// leaveState rebuilds the state in which the loop is left.
func (x *Exec) leaveState(rec *LoopRecord, ex *LoopExit, entry *State, head []Lit, sub map[*Term]*Term, free int, implied bool) (*State, bool) {
	L := rec.name
	n := ex.st.clone()
	n.f = entry.f.clone()
	n.trail = entry.trail
	n.carry = entry.carry
	addLit := func(c *Term, val, implied bool) bool {
		if v, ok := n.f.decide(c); ok {
			return v == val
		}
		for _, l := range x.loops[:len(x.loops)-1] {
			if !c.dependsOn(l.name) && !l.noHoist {
				panic(&splitReq{l, c})
			}
		}
		if !n.f.assume(c, val) {
			return false
		}
		n.push(Lit{c, val, implied})
		return true
	}
	for i, l := range head {
		if !addLit(l.c, l.val, i == free) {
			return nil, false
		}
	}
	for _, l := range ex.lits {
		if !addLit(subst(l.c, sub), l.val, implied) {
			return nil, false
		}
	}
	for _, a := range sortedAddrs(n.heap) {
		v := n.heap[a]
		if a.dependsOn(L) {
			r := addrRoot(a)
			if a.op == "mcont" {
				r = a.args[0]
			}
			if !(r.op == "alloc" && r.dependsOn(L)) {
				delete(n.heap, a)
				if r.dependsOn(L) && r.typ != nil && isSlice(r.typ) && a.op != "mcont" {
					// written on the way out
					b := subst(a, sub)
					addrTypes[b] = addrTypes[a]
					n.heap[b] = subst(v, sub)
				}
				continue
			}
		}
		if v.dependsOn(L) {
			n.heap[a] = subst(v, sub)
		}
	}
	for t, q := range n.hq {
		if t.dependsOn(L) {
			r := addrRoot(t)
			if !(r.op == "alloc" && r.dependsOn(L)) {
				delete(n.hq, t)
				continue
			}
		}
		if q.n.dependsOn(L) || q.body.dependsOn(L) {
			n.hq[t] = &qwrite{subst(q.n, sub), q.v, subst(q.body, sub)}
		}
	}
	if ex.kind == "normal" || ex.kind == "normalret" {
		x.quantified(rec, n, sub)
	} else {
		// the cells written before the loop is left early
		for _, t := range rec.trans {
			for _, a := range sortedAddrs(t.st.heap) {
				if !a.dependsOn(L) || a.op == "mcont" || addrRoot(a).dependsOn(L) {
					continue
				}
				if tm, _ := template(a); tm != nil && !tm.dependsOn(L) {
					n.hq[tm] = &qwrite{cInt(0), bv(1), mk("scatter", scatterID(rec), addrTypes[a], subst(a, sub))}
				}
			}
		}
	}
	// events: those of completed iterations come before the exit path's
	n.ev = entry.ev
	n.event(&Event{kind: "loop", rec: rec, fn: rec.fn, pos: rec.pos})
	for _, ev := range ex.events {
		n.event(ev)
	}
	n.loops = &loopNode{n.loops, rec, ex, nil}
	return n, true
}

// scatterID keeps what one loop has written in an unknown manner apart from
// what another has.
func scatterID(rec *LoopRecord) string { return rec.fn.String() + "@" + posString(rec.pos) }

// quantified records the element writes a[k] of all iterations.
func (x *Exec) quantified(rec *LoopRecord, n *State, sub map[*Term]*Term) {
	if rec.dom == nil || rec.dom.op == "mapdom" {
		return
	}
	L := rec.name
	addrs := map[*Term]bool{}
	var order []*Term
	for _, t := range rec.trans {
		for _, a := range sortedAddrs(t.st.heap) {
			if !a.dependsOn(L) || addrs[a] || a.op == "mcont" {
				continue
			}
			if r := addrRoot(a); r.dependsOn(L) {
				continue
			}
			addrs[a] = true
			order = append(order, a)
		}
	}
	for _, a := range order {
		tm, idx := template(a)
		if tm == nil || tm.dependsOn(L) {
			continue
		}
		if idx != rec.k {
			n.hq[tm] = &qwrite{rec.dom, bv(1), mk("scatter", scatterID(rec), addrTypes[a], a)}
			continue
		}
		// with finite states or state-dependent values the cells are opaque
		var cs []gval
		ok := true
		common := map[Lit]int{}
		for _, t := range rec.trans {
			for _, l := range t.lits {
				common[l]++
			}
		}
		nb := 0
		for _, t := range rec.trans {
			var l []Lit
			for _, y := range t.lits {
				if common[y] < len(rec.trans) {
					l = append(l, y)
				}
			}
			g := guardOf(l)
			v, wrote := t.st.heap[a]
			if !wrote {
				continue
			}
			v = t.st.settle(v, L)
			if hasLV(v, L) || polyHasLV(g, L) {
				ok = false
			}
			cs = append(cs, gval{g, v})
			if m := maxBV(v, mkPoly(g, false)); m > nb {
				nb = m
			}
		}
		if m := maxBV(rec.dom); m > nb {
			nb = m
		}
		ty := addrTypes[a]
		var dflt *Term
		if ty != nil {
			dflt = rec.entry.load(a, ty)
			if m := maxBV(dflt); m > nb {
				nb = m
			}
		}
		v := bv(nb + 1)
		body := mk("scatter", scatterID(rec), ty, a)
		if ok {
			body = subst(combine(cs, dflt, ty), map[*Term]*Term{rec.k: v})
		}
		for b := range n.heap {
			if t2, _ := template(b); t2 == tm {
				delete(n.heap, b)
			}
		}
		n.hq[tm] = &qwrite{rec.dom, v, body}
	}
}

// flatEvents lists every event on a path including those of its loops.
func flatEvents(st *State) []*Event {
	var r []*Event
	seen := map[*LoopRecord]bool{}
	var stack []*LoopRecord
	// own: the list is built by the loops themselves, starting from nothing
	var own func(s *Term, busy map[*slot]bool) bool
	own = func(s *Term, busy map[*slot]bool) bool {
		s = sliceBase(s)
		if isFreshSlice(st, s) {
			return true
		}
		if s.op != "lv" {
			return false
		}
		for _, lr := range stack {
			for _, sl := range lr.slots {
				if sl.lv != s || busy[sl] {
					if sl.lv == s {
						return true
					}
					continue
				}
				busy[sl] = true
				if !own(sl.entry, busy) {
					return false
				}
				for _, t := range lr.trans {
					if v := t.next[sl]; v == nil || !own(v, busy) {
						return false
					}
				}
				return true
			}
		}
		return false
	}
	var rec func(l []*Event)
	rec = func(l []*Event) {
		for _, e := range l {
			if e.kind == "loop" {
				if !seen[e.rec] {
					seen[e.rec] = true
					stack = append(stack, e.rec)
					rec(e.rec.events)
					stack = stack[:len(stack)-1]
				}
				continue
			}
			if e.kind == "append" && len(stack) > 0 && own(e.addr, map[*slot]bool{}) {
				continue
			}
			r = append(r, e)
		}
	}
	rec(st.events())
	return r
}

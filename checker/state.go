package main

// Abstract machine state: memory cells by symbolic address, path facts, the
// decisions taken and the effects recorded.

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Lit is a condition known on a path; a free one follows from those before it.
type Lit struct {
	c    *Term
	val  bool
	free bool
}

func (l Lit) String() string {
	if l.val {
		return l.c.String()
	}
	return "!" + l.c.String()
}

type litNode struct {
	prev *litNode
	lit  Lit
	n    int
}

type Event struct {
	kind string // store, mapwrite, append, panic:*, call, ext, errval, token, decode, skip, defaults
	addr *Term
	val  *Term
	args []*Term
	ret  []*Term // results of a call
	ins  ssa.Instruction
	fn   *ssa.Function
	pos  token.Pos
	note string
	rec  *LoopRecord
}
type evNode struct {
	prev *evNode
	e    *Event
	n    int
}

type loopNode struct {
	prev *loopNode
	rec  *LoopRecord
	exit *LoopExit
	k    *Term
}

type qwrite struct {
	n    *Term // bound
	v    *Term // bound variable
	body *Term
}

type State struct {
	x     *Exec
	heap  map[*Term]*Term
	hq    map[*Term]*qwrite
	fresh map[*Term]bool
	f     *Facts
	trail *litNode
	ev    *evNode
	loops *loopNode
	carry *carry
}

// carry lists the elements one iteration of a loop writes, as a term in the
// iteration's number: what a later iteration reads may be among them.
type carry struct {
	up     *carry
	L      string
	k      *Term
	writes []*Term
}

// wildcard is the address without the indices in it.
func wildcard(a *Term) *Term {
	switch a.op {
	case "faddr", "init":
		return mk(a.op, a.aux, nil, wildcard(a.args[0]))
	case "iaddr":
		return mk("iaddr", "", nil, wildcard(a.args[0]), mk("wild", "", nil))
	}
	return a
}

// rows are the elements on the way to an address that differ between any two
// iterations.
func (c *carry) rows(a *Term) (l []*Term) {
	for ; a.op == "faddr" || a.op == "init" || a.op == "iaddr"; a = a.args[0] {
		if a.op != "iaddr" || a.args[0].dependsOn(c.L) || !a.args[1].dependsOn(c.L) {
			continue
		}
		if e := a.args[1]; !tSub(e, c.k, false).dependsOn(c.L) || !tAdd(e, c.k, false).dependsOn(c.L) {
			l = append(l, a)
		}
	}
	return
}

// hits tells whether an earlier iteration may have written the address.
func (c *carry) hits(a *Term) bool {
	w := wildcard(a)
	rows := c.rows(a)
next:
	for _, b := range c.writes {
		if wildcard(b) != w {
			continue
		}
		for _, x := range c.rows(b) {
			for _, y := range rows {
				if x == y {
					continue next
				}
			}
		}
		return true
	}
	return false
}

// add notes an element write; it tells whether that was not known yet.
func (c *carry) add(a *Term) bool {
	if tm, _ := template(a); tm == nil && wildcard(a) == a {
		return false
	}
	if r := addrRoot(a); r.op == "alloc" && r.dependsOn(c.L) || hasLV(r, c.L) {
		return false
	}
	for _, b := range c.writes {
		if a == b {
			return false
		}
	}
	c.writes = append(c.writes, a)
	return true
}

func newState(x *Exec) *State {
	return &State{x: x, heap: map[*Term]*Term{}, hq: map[*Term]*qwrite{}, fresh: map[*Term]bool{}, f: newFacts()}
}

func (s *State) clone() *State {
	n := *s
	n.heap = make(map[*Term]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.hq = make(map[*Term]*qwrite, len(s.hq))
	for k, v := range s.hq {
		n.hq[k] = v
	}
	n.fresh = make(map[*Term]bool, len(s.fresh))
	for k := range s.fresh {
		n.fresh[k] = true
	}
	n.f = s.f.clone()
	return &n
}

func (s *State) push(l Lit) {
	n := 1
	if s.trail != nil {
		n = s.trail.n + 1
	}
	s.trail = &litNode{s.trail, l, n}
}

func litsSince(t, base *litNode) []Lit {
	var r []Lit
	for ; t != nil && t != base; t = t.prev {
		r = append(r, t.lit)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) lits() []Lit { return litsSince(s.trail, nil) }

func (s *State) event(e *Event) {
	n := 1
	if s.ev != nil {
		n = s.ev.n + 1
	}
	if e.ins != nil && e.pos == token.NoPos {
		e.pos = instrPos(e.ins)
	}
	s.ev = &evNode{s.ev, e, n}
}

func (s *State) events() []*Event { return eventsSince(s.ev, nil) }

func eventsSince(t, base *evNode) []*Event {
	var r []*Event
	for ; t != nil && t != base; t = t.prev {
		r = append(r, t.e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func instrPos(i ssa.Instruction) token.Pos {
	p := i.Pos()
	if p == token.NoPos && i.Block() != nil {
		for _, j := range i.Block().Instrs {
			if j.Pos() != token.NoPos {
				p = j.Pos()
			}
			if j == i && p != token.NoPos {
				break
			}
		}
	}
	return p
}

func (s *State) isFresh(root *Term) bool {
	return s.fresh[root] || root.op == "mapval" || root.op == "ref"
}

// ------------------------------------------------------------------ memory

// template replaces the innermost index of an address by a wildcard.
func template(a *Term) (*Term, *Term) {
	switch a.op {
	case "faddr":
		t, i := template(a.args[0])
		if t == nil {
			return nil, nil
		}
		return mk("faddr", a.aux, nil, t), i
	case "iaddr":
		return mk("iaddr", "", nil, a.args[0], mk("wild", "", nil)), a.args[1]
	}
	return nil, nil
}

// valueAt finds the value of a memory cell inside an immutable list.
func (s *State) valueAt(a *Term) *Term {
	switch a.op {
	case "faddr":
		if v := s.valueAt(a.args[0]); v != nil {
			return tField(v, atoi(a.aux), nil)
		}
	case "iaddr":
		return listAt(a.args[0], a.args[1], s)
	case "ref":
		return a.args[0]
	}
	return nil
}

func sortedAddrs(m map[*Term]*Term) []*Term {
	var l []*Term
	for k := range m {
		l = append(l, k)
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	return l
}

func (s *State) load(a *Term, typ types.Type) *Term {
	if st, ok := isStruct(typ); ok {
		fs := make([]*Term, st.NumFields())
		for i := range fs {
			fa := tFaddr(a, i)
			label(fa, st.Field(i).Name())
			fs[i] = s.load(fa, st.Field(i).Type())
		}
		return tStruct(typ, fs)
	}
	if v, ok := s.heap[a]; ok {
		return v
	}
	tm, idx := template(a)
	if tm == nil {
		return s.carried(a, typ, s.loadOld(a, typ))
	}
	// another element of the same container may have been stored
	var unsure []*Term
	for _, b := range sortedAddrs(s.heap) {
		if t2, j := template(b); t2 == tm && j != idx {
			v, known := s.f.decide(tEqInt(idx, j))
			if known && !v {
				continue
			}
			if known && v {
				return s.heap[b]
			}
			unsure = append(unsure, b)
		}
	}
	var r *Term
	if q, ok := s.hq[tm]; ok {
		r = s.qread(q, idx, typ)
	} else {
		r = s.loadOld(a, typ)
	}
	r = s.carried(a, typ, r)
	for _, b := range unsure {
		r = mk("mayalias", "", typ, a, b, s.heap[b], r)
	}
	return r
}

// carried is the value unless an earlier iteration may have overwritten it.
func (s *State) carried(a *Term, typ types.Type, v *Term) *Term {
	for c := s.carry; c != nil; c = c.up {
		if c.hits(a) {
			return mk("carried", c.L, typ, a)
		}
	}
	return v
}

// loadOld is what a cell holds that has not been stored to.
func (s *State) loadOld(a *Term, typ types.Type) *Term {
	if v := s.valueAt(a); v != nil {
		return v
	}
	r := addrRoot(a)
	if s.fresh[r] {
		return tZero(typ)
	}
	if r.op == "global" {
		if v := tableOf(r.aux); v != nil {
			for _, f := range fieldPath(a) {
				v = tField(v, f, nil)
			}
			if v != nil {
				return v
			}
		}
	}
	if r.op == "global" && !s.x.globalStored[r.aux] {
		return tZero(typ)
	}
	return tInit(a, typ)
}

func (s *State) qread(q *qwrite, idx *Term, typ types.Type) *Term {
	v, known := s.f.decide(tLe0(tAdd(tSub(idx, q.n, false), cInt(1), false)))
	if !known || !v {
		if idx.op != "bv" && idx.op != "first" && idx.op != "filt" {
			return mk("qsel", q.v.aux, typ, q.n, q.body, idx)
		}
	}
	return instBV(q.body, q.v, idx)
}

func label(fa *Term, name string) {
	if _, ok := faddrLabels[fa]; !ok {
		faddrLabels[fa] = name
	}
}

func (s *State) store(a, v *Term, typ types.Type) {
	if st, ok := isStruct(typ); ok {
		for i := 0; i < st.NumFields(); i++ {
			fa := tFaddr(a, i)
			label(fa, st.Field(i).Name())
			s.store(fa, tField(v, i, st.Field(i).Type()), st.Field(i).Type())
		}
		return
	}
	// a store through an undecided index forgets other elements
	if tm, idx := template(a); tm != nil {
		for _, b := range sortedAddrs(s.heap) {
			if t2, j := template(b); t2 == tm && j != idx {
				v2, known := s.f.decide(tEqInt(idx, j))
				if known && v2 {
					s.heap[b] = v
					return
				}
				if !known {
					s.heap[b] = mk("mayalias", "", typ, b, a, v, s.heap[b])
				}
			}
		}
	}
	addrTypes[a] = typ
	s.heap[a] = v
}

// clear forgets everything stored under a root (a re-executed allocation).
func (s *State) clear(root *Term) {
	for k := range s.heap {
		if addrRoot(k) == root || (k.op == "mcont" && k.args[0] == root) {
			delete(s.heap, k)
		}
	}
	for k := range s.hq {
		if addrRoot(k) == root {
			delete(s.hq, k)
		}
	}
}

// ------------------------------------------------------------------ maps

var mEmpty = mk("mempty", "", nil)

func mcont(m *Term) *Term { return mk("mcont", "", nil, m) }

func (s *State) content(m *Term) *Term {
	if m == tNil {
		return mEmpty
	}
	if c, ok := s.heap[mcont(m)]; ok {
		return c
	}
	if m.op == "mapval" {
		return m.args[0]
	}
	if s.fresh[m] {
		return mEmpty
	}
	return m
}

type getRes struct {
	st  *State
	val *Term
	ok  bool
}

// mapGet looks a key up in a map content, splitting on what is undecided.
func (x *Exec) mapGet(st *State, c, k *Term, typ types.Type) []getRes {
	switch c.op {
	case "mempty":
		return []getRes{{st, zeroOr(typ), false}}
	case "lvo":
		if k.op == "mkey" && strings.HasPrefix(c.aux, k.aux+"|") && isOwnSlot(c.aux[len(k.aux)+1:]) {
			return x.mapGet(st, c.args[0], k, typ)
		}
	case "mset", "mdel":
		var r []getRes
		for _, b := range x.fork(st, tEq(c.args[1], k, nil)) {
			if b.val {
				if c.op == "mset" {
					r = append(r, getRes{b.st, c.args[2], true})
				} else {
					r = append(r, getRes{b.st, zeroOr(typ), false})
				}
			} else {
				r = append(r, x.mapGet(b.st, c.args[0], k, typ)...)
			}
		}
		return r
	case "mmap": // mmap(D, val): keys of D with computed values
		var r []getRes
		for _, g := range x.mapGet(st, c.args[0], k, nil) {
			if g.ok {
				r = append(r, getRes{g.st, instBV(c.args[1], bvOf(c), k), true})
			} else {
				r = append(r, getRes{g.st, zeroOr(typ), false})
			}
		}
		return r
	case "mover": // mover(base, D, val, guard): keys of D satisfying guard over base
		var r []getRes
		for _, g := range x.mapGet(st, c.args[1], k, nil) {
			if !g.ok {
				r = append(r, x.mapGet(g.st, c.args[0], k, typ)...)
				continue
			}
			gd := instBV(c.args[3], bvOf(c), k)
			for _, b := range x.forkPoly(g.st, gd) {
				if b.val {
					r = append(r, getRes{b.st, instBV(c.args[2], bvOf(c), k), true})
				} else {
					r = append(r, x.mapGet(b.st, c.args[0], k, typ)...)
				}
			}
		}
		return r
	}
	var r []getRes
	for _, b := range x.fork(st, tHas(c, k)) {
		if b.val {
			r = append(r, getRes{b.st, staticGet(c, k, typ), true})
		} else {
			r = append(r, getRes{b.st, zeroOr(typ), false})
		}
	}
	return r
}

// forkPoly splits on an indicator polynomial (a boolean formula).
func (x *Exec) forkPoly(st *State, g *Term) []branch {
	if r, ok := g.ratVal(); ok {
		return []branch{{st, r.Sign() != 0}}
	}
	var ind *Term
	g.any(func(t *Term) bool {
		if t.op == "ind" && (ind == nil || t.id < ind.id) {
			ind = t
		}
		return false
	})
	if ind == nil {
		return x.fork(st, tEqInt(g, cInt(1)))
	}
	var r []branch
	for _, b := range x.fork(st, condOfInd(ind)) {
		v := int64(0)
		if b.val {
			v = 1
		}
		r = append(r, x.forkPoly(b.st, subst(g, map[*Term]*Term{ind: cInt(v)}))...)
	}
	return r
}

// ------------------------------------------------------------------ splitting

type branch struct {
	st  *State
	val bool
}

type splitReq struct {
	loop *LoopCtx
	cond *Term
}

// byCases spells out a comparison of a value chosen by cases with a constant.
func byCases(c *Term) *Term {
	if c.op == "not" {
		if p := byCases(c.args[0]); p != nil {
			return mkPoly(polyAdd(polyConst(big.NewRat(1, 1)), asPoly(p), -1), false)
		}
		return nil
	}
	if c.op != "eq" || c.args[0].op != "cases" && c.args[1].op != "cases" {
		return nil
	}
	a, b := c.args[0], c.args[1]
	if a.op != "cases" {
		a, b = b, a
	}
	if !b.isConst() {
		return nil
	}
	p, all := &Poly{}, &Poly{}
	for i := 0; i+1 < len(a.args); i += 2 {
		g := asPoly(a.args[i])
		all = polyAdd(all, g, 1)
		p = polyAdd(p, polyMul(g, indPos(mkEq(a.args[i+1], b))), 1)
	}
	if mkPoly(all, false) != cInt(1) {
		return nil
	}
	return mkPoly(p, false)
}

func (x *Exec) fork(st *State, c *Term) []branch {
	if v, ok := st.f.decide(c); ok {
		return []branch{{st, v}}
	}
	if p := byCases(c); p != nil {
		return x.forkPoly(st, p)
	}
	for _, l := range x.loops {
		if !c.dependsOn(l.name) && !l.noHoist {
			panic(&splitReq{l, c})
		}
	}
	x.forks++
	if x.forks > x.maxForks {
		panic(undecided("path budget exhausted"))
	}
	t := st.clone()
	var r []branch
	if t.f.assume(c, true) {
		t.push(Lit{c: c, val: true})
		r = append(r, branch{t, true})
	}
	if st.f.assume(c, false) {
		st.push(Lit{c: c, val: false})
		r = append(r, branch{st, false})
	}
	return r
}

type undecidedErr struct{ msg string }

func undecided(format string, a ...any) *undecidedErr {
	return &undecidedErr{fmt.Sprintf(format, a...)}
}

func describe(l []Lit) string {
	var s []string
	n := 0
	for _, x := range l {
		t := x.String()
		if n += len(t); n > 4000 && os.Getenv("VERIF_DEBUG") == "" {
			s = append(s, "…")
			break
		}
		s = append(s, t)
	}
	return strings.Join(s, " ∧ ")
}

func zeroOr(t types.Type) *Term {
	if t == nil {
		return tNil
	}
	return tZero(t)
}

// fieldPath lists the fields an address selects from its root.
func fieldPath(a *Term) []int {
	if a.op != "faddr" {
		return nil
	}
	return append(fieldPath(a.args[0]), atoi(a.aux))
}

package main

// C15: the outcome of Evaluate does not depend on map iteration order, time,
// randomness or scheduling.
//
// Every value in the body of a range over a map is given a level: the same in
// all iterations (lvInv), determined by the key and element of the iteration
// (lvOwn), or possibly dependent on the iterations before (lvState). The
// effects of the body must commute.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	checks["C15"] = checkDef{checkC15, "interprocedural dataflow analysis of every range over a map in the call graph of Evaluate (commuting effects), with a check of every call that leaves the module"}
}

const (
	lvInv = iota
	lvOwn
	lvState
)

type dcls struct {
	lv    int
	key   string // not empty: an injective function of the iteration's key
	fresh bool   // memory made in this iteration
}

func (a dcls) join(b dcls) dcls {
	r := dcls{lv: max(a.lv, b.lv), fresh: a.fresh && b.fresh}
	if a.key == b.key {
		r.key = a.key
	}
	return r
}

type dloop struct {
	r       *Report
	p       *PT
	fn      *ssa.Function
	blocks  map[*ssa.BasicBlock]bool
	header  *ssa.BasicBlock
	next    *ssa.Next
	mapsW   map[string]bool // key types of maps that are written
	cellsW  map[string]bool
	impure  bool
	freshLv int
	changed bool
	final   bool
	effects int
	consts  map[string]string // constant stored, by target type
	bad     string
	badPos  token.Pos
	stack   []*ssa.Function
	frames  map[string]*dframe
}

type dframe struct {
	l      *dloop
	fn     *ssa.Function
	top    bool
	vals   map[ssa.Value]dcls
	params map[ssa.Value]dcls
	cond   int // level of the conditions the frame runs under
	conds  int // level of its own conditions
}

func (l *dloop) fail(pos token.Pos, format string, a ...any) {
	if l.final && l.bad == "" {
		l.bad = fmt.Sprintf(format, a...)
		l.badPos = pos
	}
}

func (f *dframe) in(b *ssa.BasicBlock) bool { return !f.top || f.l.blocks[b] }

func (f *dframe) inLoop(v ssa.Value) bool {
	ins, ok := v.(ssa.Instruction)
	return ok && ins.Block() != nil && f.in(ins.Block())
}

func (f *dframe) get(v ssa.Value) dcls {
	switch v.(type) {
	case *ssa.Const, *ssa.Function, *ssa.Global, *ssa.Builtin:
		return dcls{}
	}
	if c, ok := f.params[v]; ok {
		return c
	}
	if f.inLoop(v) {
		return f.vals[v]
	}
	return dcls{}
}

func (f *dframe) set(v ssa.Value, c dcls) {
	old, ok := f.vals[v]
	if ok {
		// only upwards
		n := dcls{lv: max(c.lv, old.lv), key: c.key, fresh: c.fresh && old.fresh}
		if old.key != c.key {
			n.key = ""
		}
		c = n
	}
	if !ok || c != old {
		f.vals[v] = c
		f.l.changed = true
	}
}

func (f *dframe) join(vs ...ssa.Value) dcls {
	r := dcls{}
	for _, v := range vs {
		if v != nil {
			r.lv = max(r.lv, f.get(v).lv)
		}
	}
	return r
}

// root follows an address to the memory it is part of.
func rootOf(v ssa.Value) ssa.Value {
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			v = a.X
		case *ssa.IndexAddr:
			v = a.X
		case *ssa.Slice:
			v = a.X
		case *ssa.ChangeType:
			v = a.X
		default:
			return v
		}
	}
}

func (f *dframe) isFresh(addr ssa.Value) bool {
	v := rootOf(addr)
	switch v.(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		return f.inLoop(v)
	}
	return f.get(v).fresh
}

func elemKey(t types.Type) string { return typeKey(t.Underlying()) }

// overlaps: a store of a value of type a may change a load of type b.
func overlaps(w map[string]bool, t types.Type) bool {
	if len(w) == 0 {
		return false
	}
	if w[elemKey(t)] {
		return true
	}
	if s, ok := isStruct(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			if overlaps(w, s.Field(i).Type()) {
				return true
			}
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		return overlaps(w, a.Elem())
	}
	return false
}

func addStored(w map[string]bool, t types.Type) {
	w[elemKey(t)] = true
	if s, ok := isStruct(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			addStored(w, s.Field(i).Type())
		}
	}
	if a, ok := t.Underlying().(*types.Array); ok {
		addStored(w, a.Elem())
	}
}

// collect lists the types of memory the loop may write, callees included.
func (l *dloop) collect(fn *ssa.Function, blocks map[*ssa.BasicBlock]bool, seen map[*ssa.Function]bool) {
	local := func(addr ssa.Value) bool {
		v := rootOf(addr)
		switch v.(type) {
		case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
			return blocks == nil || blocks[v.(ssa.Instruction).Block()]
		}
		return false
	}
	for _, b := range fn.Blocks {
		if blocks != nil && !blocks[b] {
			continue
		}
		for _, ins := range b.Instrs {
			switch i := ins.(type) {
			case *ssa.Store:
				if !local(i.Addr) {
					addStored(l.cellsW, i.Val.Type())
					l.impure = true
				}
			case *ssa.MapUpdate:
				if !local(i.Map) {
					l.mapsW[elemKey(i.Map.Type())] = true
					l.impure = true
				}
			}
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			if bi, ok := c.Common().Value.(*ssa.Builtin); ok {
				switch bi.Name() {
				case "delete", "clear":
					if t := c.Common().Args[0]; !local(t) {
						l.mapsW[elemKey(t.Type())] = true
						l.impure = true
					}
				case "copy", "append":
					if t := c.Common().Args[0]; !local(t) && isSlice(t.Type()) {
						addStored(l.cellsW, elemType(t.Type()))
					}
				}
				continue
			}
			for g := range l.p.callees[c] {
				if !seen[g] && len(g.Blocks) > 0 && l.p.inRepo(g) {
					seen[g] = true
					l.collect(g, nil, seen)
				}
			}
		}
	}
}

// run analyses the instructions of a frame until nothing changes.
func (f *dframe) run() {
	l := f.l
	for {
		l.changed = false
		f.once()
		if !l.changed {
			return
		}
	}
}

func (f *dframe) once() {
	l := f.l
	// the conditions
	conds := lvInv
	for _, b := range f.fn.Blocks {
		if !f.in(b) || len(b.Instrs) == 0 {
			continue
		}
		if i, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If); ok {
			if f.top && b == l.header {
				continue
			}
			conds = max(conds, f.get(i.Cond).lv)
		}
	}
	if conds > f.conds {
		f.conds = conds
		l.changed = true
	}
	for _, b := range f.fn.Blocks {
		if !f.in(b) {
			continue
		}
		for _, ins := range b.Instrs {
			f.instr(ins)
		}
	}
}

// guard is the level of the conditions on which b is executed in an iteration.
func (f *dframe) guard(b *ssa.BasicBlock) int {
	lv := f.cond
	for _, c := range f.control(b) {
		lv = max(lv, f.get(c).lv)
	}
	return lv
}

func ifOf(b *ssa.BasicBlock) *ssa.If {
	if len(b.Instrs) == 0 {
		return nil
	}
	i, _ := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	return i
}

// flows: b can be reached from a within one iteration, not passing avoid.
func (f *dframe) flows(a, b, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		for _, s := range x.Succs {
			if s == b {
				return true
			}
			if seen[s] || s == avoid || !f.in(s) || f.top && s == f.l.header {
				continue
			}
			seen[s] = true
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(a)
}

// ends: the iteration can end, from a on, without passing avoid.
func (f *dframe) ends(a, avoid *ssa.BasicBlock) bool {
	seen := map[*ssa.BasicBlock]bool{a: true}
	var rec func(x *ssa.BasicBlock) bool
	rec = func(x *ssa.BasicBlock) bool {
		if len(x.Succs) == 0 {
			return true
		}
		for _, s := range x.Succs {
			if s == avoid || seen[s] {
				continue
			}
			if !f.in(s) || f.top && s == f.l.header {
				return true
			}
			seen[s] = true
			if rec(s) {
				return true
			}
		}
		return false
	}
	return rec(a)
}

// control lists the conditions that decide whether b is executed.
func (f *dframe) control(b *ssa.BasicBlock) []ssa.Value {
	var l []ssa.Value
	for _, d := range f.fn.Blocks {
		i := ifOf(d)
		if i == nil || !f.in(d) || d == b || f.top && d == f.l.header {
			continue
		}
		if f.flows(d, b, nil) && f.ends(d, b) {
			l = append(l, i.Cond)
		}
	}
	return l
}

// deciding lists the conditions that decide how b is entered.
func (f *dframe) deciding(b *ssa.BasicBlock) []ssa.Value {
	var l []ssa.Value
	if len(b.Preds) < 2 {
		return nil
	}
	dom := b.Idom()
	for _, d := range f.fn.Blocks {
		i := ifOf(d)
		if i == nil || !f.in(d) || d == b || f.top && d == f.l.header {
			continue
		}
		if (dom == nil || dom.Dominates(d)) && f.flows(d, b, nil) {
			l = append(l, i.Cond)
		}
	}
	return l
}

func (f *dframe) instr(ins ssa.Instruction) {
	l := f.l
	switch i := ins.(type) {
	case *ssa.Phi:
		if f.top && i.Block() == l.header {
			c := dcls{}
			for k, e := range i.Edges {
				if l.blocks[i.Block().Preds[k]] && e != ssa.Value(i) {
					c.lv = lvState
				}
			}
			f.set(i, c)
			return
		}
		var c dcls
		for k, e := range i.Edges {
			if k == 0 {
				c = f.get(e)
			} else {
				c = c.join(f.get(e))
			}
		}
		for _, d := range f.deciding(i.Block()) {
			c.lv = max(c.lv, f.get(d).lv)
		}
		f.set(i, c)
	case *ssa.Extract:
		if i.Tuple == ssa.Value(l.next) && f.top {
			switch i.Index {
			case 0:
				f.set(i, dcls{})
			case 1:
				f.set(i, dcls{lv: lvOwn, key: "k"})
			default:
				f.set(i, dcls{lv: lvOwn})
			}
			return
		}
		if call, ok := i.Tuple.(*ssa.Call); ok {
			if rs := f.results(call); rs != nil {
				f.set(i, rs[i.Index])
				return
			}
		}
		f.set(i, dcls{lv: f.get(i.Tuple).lv})
	case *ssa.Next:
		if i != l.next {
			f.set(i, dcls{lv: max(f.get(i.Iter).lv, l.reads(i.Iter.(*ssa.Range).X.Type(), dcls{}))})
		}
	case *ssa.ChangeType:
		f.set(i, f.get(i.X))
	case *ssa.MakeInterface, *ssa.ChangeInterface:
		f.set(i.(ssa.Value), f.get(*ins.Operands(nil)[0]))
	case *ssa.Convert:
		c := f.get(i.X)
		if !isString(i.X.Type()) || !isString(i.Type()) {
			c.key = ""
		}
		c.fresh = false
		f.set(i, c)
	case *ssa.BinOp:
		c := f.join(i.X, i.Y)
		if i.Op == token.ADD && isString(i.Type()) {
			a, b := f.get(i.X), f.get(i.Y)
			if k, ok := i.Y.(*ssa.Const); ok && a.key != "" {
				c.key = a.key + "+" + k.Value.ExactString()
			} else if k, ok := i.X.(*ssa.Const); ok && b.key != "" {
				c.key = k.Value.ExactString() + "+" + b.key
			}
		}
		f.set(i, c)
	case *ssa.UnOp:
		if i.Op != token.MUL {
			f.set(i, f.join(i.X))
			return
		}
		c := dcls{lv: f.get(i.X).lv}
		if f.isFresh(i.X) {
			c.lv = max(c.lv, l.freshLv)
		} else if overlaps(l.cellsW, i.Type()) {
			c.lv = lvState
		}
		f.set(i, c)
	case *ssa.Lookup:
		c := f.join(i.X, i.Index)
		if isMap(i.X.Type()) {
			if f.isFresh(i.X) {
				c.lv = max(c.lv, l.freshLv)
			} else {
				c.lv = max(c.lv, l.reads(i.X.Type(), f.get(i.Index)))
			}
		}
		f.set(i, c)
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		f.set(i.(ssa.Value), dcls{fresh: true})
	case *ssa.Slice:
		c := f.join(i.X, i.Low, i.High, i.Max)
		c.fresh = f.isFresh(i.X)
		f.set(i, c)
	case *ssa.FieldAddr:
		c := f.join(i.X)
		c.fresh = f.isFresh(i.X)
		f.set(i, c)
	case *ssa.IndexAddr:
		c := f.join(i.X, i.Index)
		c.fresh = f.isFresh(i.X)
		f.set(i, c)
	case *ssa.Store:
		if f.isFresh(i.Addr) {
			f.freshStore(i.Addr, i.Val, i.Block())
			return
		}
		f.effect(ins, elemKey(i.Val.Type()), f.get(i.Addr), dcls{}, i.Val)
	case *ssa.MapUpdate:
		if f.isFresh(i.Map) {
			f.freshStore(i.Map, i.Key, i.Block())
			f.freshStore(i.Map, i.Value, i.Block())
			return
		}
		f.effect(ins, elemKey(i.Map.Type()), f.get(i.Map), f.get(i.Key), i.Value)
	case *ssa.Call:
		rs := f.call(i)
		if len(rs) == 1 {
			f.set(i, rs[0])
		} else {
			c := dcls{}
			for _, r := range rs {
				c.lv = max(c.lv, r.lv)
			}
			f.set(i, c)
		}
	case *ssa.Defer, *ssa.Go, *ssa.Send, *ssa.Select:
		l.fail(ins.Pos(), "the effect of %T in the loop is not understood", ins)
	case *ssa.Range, *ssa.If, *ssa.Jump, *ssa.Return, *ssa.Panic, *ssa.DebugRef, *ssa.RunDefers:
		if v, ok := ins.(ssa.Value); ok {
			var ops []*ssa.Value
			c := dcls{}
			for _, o := range ins.Operands(ops) {
				if *o != nil {
					c.lv = max(c.lv, f.get(*o).lv)
				}
			}
			f.set(v, c)
		}
	default:
		if v, ok := ins.(ssa.Value); ok {
			c := dcls{}
			for _, o := range ins.Operands(nil) {
				if *o != nil {
					c.lv = max(c.lv, f.get(*o).lv)
				}
			}
			f.set(v, c)
		}
	}
}

// reads is the level of looking up key k in a map of type t.
func (l *dloop) reads(t types.Type, k dcls) int {
	if !l.mapsW[elemKey(t)] {
		return lvInv
	}
	if k.key != "" {
		if w, ok := l.consts["key "+elemKey(t)]; !ok || w == k.key {
			return lvOwn
		}
	}
	return lvState
}

// freshStore: v is written, in block b, to memory made in this iteration.
func (f *dframe) freshStore(addr, v ssa.Value, b *ssa.BasicBlock) {
	n := f.get(v).lv
	for _, c := range f.control(b) {
		n = max(n, f.get(c).lv)
	}
	switch r := rootOf(addr).(type) {
	case *ssa.Alloc, *ssa.MakeMap, *ssa.MakeSlice:
		// of this frame: nobody sees it who has not called it
		if !f.inLoop(r) {
			n = max(n, f.cond)
		}
	default:
		n = max(n, f.cond)
	}
	if n > f.l.freshLv {
		f.l.freshLv = n
		f.l.changed = true
	}
}

// effect checks a write to memory that outlives the iteration.
func (f *dframe) effect(ins ssa.Instruction, typ string, base, key dcls, v ssa.Value) {
	l := f.l
	if !l.final {
		if key.key != "" {
			k := "key " + typ
			if w, ok := l.consts[k]; !ok {
				l.consts[k] = key.key
			} else if w != key.key {
				l.consts[k] = "various"
			}
		}
		return
	}
	l.effects++
	where := "an element"
	if _, ok := ins.(*ssa.Store); ok {
		where = "memory"
	}
	if f.guard(ins.Block()) == lvState {
		l.fail(ins.Pos(), "whether %s is written depends on the entries visited before", where)
		return
	}
	if key.key != "" && base.lv == lvInv && l.consts["key "+typ] == key.key {
		if f.get(v).lv == lvState {
			l.fail(ins.Pos(), "the value written depends on the entries visited before")
		}
		return
	}
	if c, ok := v.(*ssa.Const); ok {
		s := "nil"
		if c.Value != nil {
			s = c.Value.ExactString()
		}
		if w, ok := l.consts["val "+typ]; (!ok || w == s) && l.consts["key "+typ] == "" {
			l.consts["val "+typ] = s
			return
		}
	}
	l.fail(ins.Pos(), "several entries may write the same %s, and the last one wins", where)
}

// results of a call with several results.
func (f *dframe) results(c *ssa.Call) []dcls { return f.call(c) }

var determPkgs = map[string]bool{
	"math": true, "strings": true, "strconv": true, "fmt": true, "errors": true, "unicode": true, "unicode/utf8": true,
	"bytes": true, "cmp": true, "math/bits": true, "math/cmplx": true, "math/big": true, "regexp": true, "sort": true, "slices": true,
	"encoding/xml": true, "encoding/json": true, "maps": true, "sync": true, "sync/atomic": true, "log": true, "io": true, "text/scanner": true, "iter": true, "html": true, "unicode/utf16": true, "github.com/pkg/errors": true, "container/heap": true, "container/list": true,
}

func pkgPath(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return f.Object().Pkg().Path()
	}
	if f.Pkg != nil {
		return f.Pkg.Pkg.Path()
	}
	if f.Parent() != nil {
		return pkgPath(f.Parent())
	}
	return ""
}

// pureExternal: writes nothing its caller can see.
func pureExternal(f *ssa.Function) bool {
	switch p := pkgPath(f); p {
	case "math", "strings", "strconv", "errors", "github.com/pkg/errors", "unicode", "unicode/utf8", "cmp", "math/bits", "math/cmplx":
		return true
	case "fmt":
		return strings.HasPrefix(f.Name(), "Sprint") || f.Name() == "Errorf"
	case "":
		return f.Name() == "Error"
	}
	return false
}

func (f *dframe) call(c *ssa.Call) []dcls {
	l := f.l
	com := c.Common()
	n := com.Signature().Results().Len()
	all := func(lv int) []dcls {
		r := make([]dcls, n)
		for i := range r {
			r[i].lv = lv
		}
		return r
	}
	lv := f.join(com.Args...).lv
	if com.IsInvoke() {
		lv = max(lv, f.get(com.Value).lv)
	}
	if bi, ok := com.Value.(*ssa.Builtin); ok {
		switch bi.Name() {
		case "len", "cap":
			t := com.Args[0].Type()
			if isMap(t) && l.mapsW[elemKey(t)] && !f.isFresh(com.Args[0]) {
				lv = lvState
			}
		case "append":
			// its result is followed, and what it holds is what was appended
			if f.isFresh(com.Args[0]) {
				f.freshStore(com.Args[0], com.Args[len(com.Args)-1], c.Block())
			}
			r := all(lv)
			r[0].fresh = f.isFresh(com.Args[0])
			if k, ok := com.Args[0].(*ssa.Const); ok && k.IsNil() {
				r[0].fresh = true
				r[0].lv = max(lv, f.get(com.Args[1]).lv)
			}
			return r
		case "copy":
			if f.isFresh(com.Args[0]) {
				f.freshStore(com.Args[0], com.Args[1], c.Block())
			} else {
				l.fail(c.Pos(), "copy in the loop writes memory that outlives the iteration")
			}
		case "delete":
			if !f.isFresh(com.Args[0]) {
				if k := f.get(com.Args[1]); k.key == "" || f.guard(c.Block()) == lvState {
					l.fail(c.Pos(), "which entries are deleted depends on the entries visited before")
				} else if l.final {
					l.effects++
				}
			}
		case "clear":
			l.fail(c.Pos(), "clear in a loop over a map")
		}
		if n == 0 {
			return nil
		}
		return all(lv)
	}
	var callees []*ssa.Function
	for g := range l.p.callees[c] {
		callees = append(callees, g)
	}
	if g := com.StaticCallee(); g != nil && len(callees) == 0 {
		callees = append(callees, g)
	}
	if len(callees) == 0 {
		if com.IsInvoke() && com.Method.Name() == "Error" {
			return all(lv)
		}
		l.fail(c.Pos(), "a call in the loop cannot be resolved")
		return all(lvState)
	}
	res := make([]dcls, n)
	first := true
	for _, g := range callees {
		var rs []dcls
		switch {
		case len(g.Blocks) > 0 && l.p.inRepo(g):
			rs = f.inline(c, g)
		case pureExternal(g):
			rs = all(lv)
		default:
			fresh := true
			for _, a := range com.Args {
				if a.Type() != nil && refs(a.Type()) && !f.isFresh(a) {
					fresh = false
				}
			}
			if !fresh {
				l.fail(c.Pos(), "%s may write memory that outlives the iteration", g.Name())
			}
			rs = all(lv)
		}
		for i := range res {
			if first {
				res[i] = rs[i]
			} else {
				res[i] = res[i].join(rs[i])
			}
		}
		first = false
	}
	return res
}

func refs(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return false
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refs(u.Field(i).Type()) {
				return true
			}
		}
		return false
	}
	return true
}

func (f *dframe) inline(c *ssa.Call, g *ssa.Function) []dcls {
	l := f.l
	n := g.Signature.Results().Len()
	com := c.Common()
	args := com.Args
	var ps []dcls
	lv := lvInv
	if com.IsInvoke() {
		v := f.get(com.Value)
		ps = append(ps, v)
	}
	for _, a := range args {
		x := f.get(a)
		if refs(a.Type()) {
			x.fresh = f.isFresh(a)
		}
		ps = append(ps, x)
	}
	for _, x := range ps {
		lv = max(lv, x.lv)
	}
	coarse := func() []dcls {
		if l.impure {
			lv = lvState
		}
		r := make([]dcls, n)
		for i := range r {
			r[i].lv = max(lv, lvOwn)
		}
		return r
	}
	for _, s := range l.stack {
		if s == g {
			return coarse()
		}
	}
	if len(l.stack) > 12 || len(ps) != len(g.Params) {
		if l.impure {
			l.fail(c.Pos(), "the effect of calling %s in the loop is not understood", g.Name())
		}
		return coarse()
	}
	key := fmt.Sprintf("%p/%p/%v/%d", c, g, ps, f.guard(c.Block()))
	fr := l.frames[key]
	if fr == nil {
		fr = &dframe{l: l, fn: g, vals: map[ssa.Value]dcls{}, params: map[ssa.Value]dcls{}, cond: f.guard(c.Block())}
		for i, q := range g.Params {
			fr.params[q] = ps[i]
		}
		var b []ssa.Value
		if mc, ok := com.Value.(*ssa.MakeClosure); ok {
			b = mc.Bindings
		}
		for i, fv := range g.FreeVars {
			if i < len(b) {
				x := f.get(b[i])
				x.fresh = f.isFresh(b[i])
				fr.params[fv] = x
			} else {
				fr.params[fv] = dcls{lv: f.get(com.Value).lv}
			}
		}
		l.frames[key] = fr
	}
	l.stack = append(l.stack, g)
	changed := l.changed
	if !l.final {
		fr.run()
	} else {
		fr.once()
	}
	l.changed = changed
	l.stack = l.stack[:len(l.stack)-1]
	res := make([]dcls, n)
	first := true
	rets := 0
	for _, b := range g.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			rets++
			for i, v := range r.Results {
				x := fr.get(v)
				if refs(v.Type()) && fr.isFresh(v) {
					x.fresh = true
				}
				if first {
					res[i] = x
				} else {
					res[i] = res[i].join(x)
				}
			}
			first = false
		}
	}
	for i := range res {
		if rets > 1 { // which return it is
			res[i].lv = max(res[i].lv, fr.conds)
		}
	}
	return res
}

// ------------------------------------------------------------------ the loop

func naturalLoop(h *ssa.BasicBlock) map[*ssa.BasicBlock]bool {
	in := map[*ssa.BasicBlock]bool{h: true}
	var work []*ssa.BasicBlock
	for _, p := range h.Preds {
		if h.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if in[b] {
			continue
		}
		in[b] = true
		work = append(work, b.Preds...)
	}
	return in
}

func checkMapRange(r *Report, p *PT, next *ssa.Next, rng *ssa.Range) {
	fn := next.Parent()
	h := next.Block()
	l := &dloop{r: r, p: p, fn: fn, header: h, next: next, blocks: naturalLoop(h),
		mapsW: map[string]bool{}, cellsW: map[string]bool{}, consts: map[string]string{}, frames: map[string]*dframe{}}
	l.stack = []*ssa.Function{fn}
	l.collect(fn, l.blocks, map[*ssa.Function]bool{})
	f := &dframe{l: l, fn: fn, top: true, vals: map[ssa.Value]dcls{}, params: map[ssa.Value]dcls{}}
	// the keys under which maps are written decide what can be read back
	for i := 0; i < 4; i++ {
		f.vals = map[ssa.Value]dcls{}
		f.conds = lvInv
		l.frames = map[string]*dframe{}
		f.run()
	}
	l.final = true
	f.once()
	f.phis()
	f.exits()
	key := trimMod(fn.String()) + ":range"
	pos := posString(rng.Pos())
	if l.badPos.IsValid() {
		pos = posString(l.badPos)
	}
	r.check(l.bad == "", key, pos, "%s ranges over a map, and %s", trimMod(fn.String()), l.bad)
}

// phis: values carried from one iteration to the next.
func (f *dframe) phis() {
	l := f.l
	for _, ins := range l.header.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		ok = f.commutes(phi)
		for k, e := range phi.Edges {
			if !l.blocks[l.header.Preds[k]] || e == ssa.Value(phi) {
				continue
			}
			l.effects++
			if ok {
				continue
			}
			if !f.sorted(phi, e) {
				l.fail(phi.Pos(), "the value of %s after the loop depends on the order of the entries", phiName(phi))
			}
		}
	}
}

func phiName(p *ssa.Phi) string {
	if p.Comment != "" {
		return p.Comment
	}
	return p.Name()
}

// commutes: the updates of phi give the same in any order.
func (f *dframe) commutes(phi *ssa.Phi) bool {
	type leaf struct {
		v        ssa.Value
		from, to *ssa.BasicBlock
	}
	var leaves []leaf
	seen := map[*ssa.Phi]bool{}
	var split func(v ssa.Value, from, to *ssa.BasicBlock)
	split = func(v ssa.Value, from, to *ssa.BasicBlock) {
		if i, ok := v.(*ssa.Phi); ok && i != phi && f.inLoop(i) && i.Block() != f.l.header {
			if f.get(i).lv > lvOwn {
				if !seen[i] {
					seen[i] = true
					for k, e := range i.Edges {
						split(e, i.Block().Preds[k], i.Block())
					}
				}
				return
			}
		}
		leaves = append(leaves, leaf{v, from, to})
	}
	for k, e := range phi.Edges {
		if b := f.l.header.Preds[k]; f.l.blocks[b] {
			split(e, b, f.l.header)
		}
	}
	// the conditions on the state under which a leaf is chosen
	stateConds := func(l leaf) []ssa.Value {
		var r []ssa.Value
		cs := f.control(l.from)
		if i := ifOf(l.from); i != nil && l.from != f.l.header && l.from.Succs[0] != l.from.Succs[1] {
			cs = append(cs, i.Cond)
		}
		for _, c := range cs {
			if f.get(c).lv == lvState {
				r = append(r, c)
			}
		}
		return r
	}
	group := ""
	use := func(g string) bool {
		if group == "" || group == g {
			group = g
			return true
		}
		return false
	}
	own := func(v ssa.Value) bool { return f.get(v).lv <= lvOwn }
	// or, and: one branch on the flag itself keeps it
	if isBool(phi.Type()) {
		for _, keep := range []bool{true, false} {
			ok := true
			for _, l := range leaves {
				cs := stateConds(l)
				for _, c := range cs {
					ok = ok && c == ssa.Value(phi)
				}
				side, known := f.side(phi, l.from, l.to)
				switch c, isC := l.v.(*ssa.Const); {
				case l.v == ssa.Value(phi):
				case isC && c.Value != nil && constant.BoolVal(c.Value) == keep:
				case len(cs) > 0 && known && side != keep && own(l.v):
				default:
					ok = false
				}
			}
			if ok {
				return true
			}
		}
	}
	var arith func(v ssa.Value) bool
	arith = func(v ssa.Value) bool {
		if v == ssa.Value(phi) {
			return true
		}
		switch i := v.(type) {
		case *ssa.BinOp:
			if !f.inLoop(v) || isString(i.Type()) || isFloat(i.Type()) {
				return false
			}
			op := map[token.Token]string{token.ADD: "sum", token.SUB: "sum", token.MUL: "product", token.OR: "or", token.AND: "and", token.XOR: "xor"}[i.Op]
			if op == "" || !use(op) {
				return false
			}
			return own(i.Y) && arith(i.X) || i.Op != token.SUB && own(i.X) && arith(i.Y)
		case *ssa.Call:
			n := ""
			if b, ok := i.Call.Value.(*ssa.Builtin); ok {
				n = b.Name()
			} else if g := i.Call.StaticCallee(); g != nil && pkgPath(g) == "math" {
				n = strings.ToLower(g.Name())
			}
			if n != "min" && n != "max" || !use(n) {
				return false
			}
			st := 0
			for _, a := range i.Call.Args {
				if !own(a) {
					if !arith(a) {
						return false
					}
					st++
				}
			}
			return st == 1
		}
		return false
	}
	for _, l := range leaves {
		if l.v == ssa.Value(phi) {
			continue
		}
		cs := stateConds(l)
		if len(cs) == 0 {
			if c, ok := l.v.(*ssa.Const); ok {
				s := "nil"
				if c.Value != nil {
					s = c.Value.ExactString()
				}
				if !use("const " + s) {
					return false
				}
				continue
			}
			if !arith(l.v) {
				return false
			}
			continue
		}
		// if x > m { m = x }
		if len(cs) != 1 || !own(l.v) {
			return false
		}
		cmp, ok := cs[0].(*ssa.BinOp)
		if !ok || !(same(cmp.X, l.v) && cmp.Y == ssa.Value(phi) || same(cmp.Y, l.v) && cmp.X == ssa.Value(phi)) {
			return false
		}
		switch cmp.Op {
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
		default:
			return false
		}
		if !use("choice " + cmp.Name()) {
			return false
		}
	}
	return true
}

func same(a, b ssa.Value) bool { return a == b }

// side tells on which side of a condition on phi itself the edge lies.
func (f *dframe) side(phi *ssa.Phi, from, to *ssa.BasicBlock) (side, known bool) {
	for d := from; d != nil && f.l.blocks[d] && d != f.l.header; d = d.Idom() {
		i := ifOf(d)
		if i == nil || i.Cond != ssa.Value(phi) || d.Succs[0] == d.Succs[1] {
			continue
		}
		if d == from {
			return d.Succs[0] == to, true
		}
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(from) {
				return k == 0, true
			}
		}
	}
	return false, false
}

// sorted: entries are collected in a list that is sorted before it is used.
func (f *dframe) sorted(phi *ssa.Phi, v ssa.Value) bool {
	if !isSlice(phi.Type()) {
		return false
	}
	seen := map[ssa.Value]bool{}
	var rec func(v ssa.Value) bool
	rec = func(v ssa.Value) bool {
		if v == ssa.Value(phi) || seen[v] {
			return true
		}
		switch i := v.(type) {
		case *ssa.Call:
			b, ok := i.Call.Value.(*ssa.Builtin)
			return ok && b.Name() == "append" && f.guard(i.Block()) <= lvOwn && rec(i.Call.Args[0]) && f.get(i.Call.Args[1]).lv <= lvOwn && f.l.freshLv <= lvOwn
		case *ssa.Phi:
			if !f.inLoop(v) || i.Block() == f.l.header {
				return false
			}
			seen[v] = true
			for _, e := range i.Edges {
				if !rec(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	if !rec(v) {
		return false
	}
	// after the loop
	var sorts []ssa.Instruction
	var uses []ssa.Instruction
	for _, u := range *phi.Referrers() {
		if f.l.blocks[u.Block()] {
			continue
		}
		if isSort(u, phi) {
			sorts = append(sorts, u)
		} else {
			uses = append(uses, u)
		}
	}
	for _, u := range uses {
		if c, ok := u.(*ssa.Call); ok {
			if b, ok := c.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" {
				continue
			}
		}
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() {
				for _, i := range s.Block().Instrs {
					if i == s {
						ok = true
						break
					}
					if i == u {
						break
					}
				}
			} else if s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		// wrapped for sort.Sort(sort.StringSlice(x))
		if !ok {
			return false
		}
	}
	return true
}

func isSort(u ssa.Instruction, list ssa.Value) bool {
	c, ok := u.(*ssa.Call)
	if !ok || c.Call.StaticCallee() == nil || len(c.Call.Args) == 0 || c.Call.Args[0] != list {
		return false
	}
	g := c.Call.StaticCallee()
	name := g.Name()
	if i := strings.IndexByte(name, '['); i >= 0 {
		name = name[:i]
	}
	switch pkgPath(g) {
	case "sort":
		return name == "Strings" || name == "Ints" || name == "Float64s"
	case "slices":
		return name == "Sort"
	}
	return false
}

// exits: leaving the loop before all entries were visited.
func (f *dframe) exits() {
	l := f.l
	type exit struct{ from, to *ssa.BasicBlock }
	var values, errs []exit
	for b := range l.blocks {
		for k, s := range b.Succs {
			if l.blocks[s] || b == l.header && k == 1 {
				continue
			}
			if failing(b, s) {
				errs = append(errs, exit{b, s})
			} else {
				values = append(values, exit{b, s})
			}
		}
	}
	state := func(e exit) bool {
		lv := f.guard(e.from)
		if i := ifOf(e.from); i != nil {
			lv = max(lv, f.get(i.Cond).lv)
		}
		return lv == lvState
	}
	for _, e := range append(append([]exit{}, values...), errs...) {
		if state(e) {
			l.fail(e.from.Instrs[len(e.from.Instrs)-1].Pos(), "whether the loop is left early depends on the entries visited before")
		}
	}
	if len(values) == 0 {
		return
	}
	pos := values[0].from.Instrs[0].Pos()
	if len(errs) > 0 {
		l.fail(pos, "it may be left early both with an error and without one")
	}
	if l.effects > 0 {
		l.fail(pos, "it is left early, after effects of only some of the entries")
	}
	// what is used after the loop must be the same whichever entry it was
	var outs []string
	for _, e := range values {
		var vs []string
		val := func(v ssa.Value) {
			if c, ok := v.(*ssa.Const); ok {
				s := "nil"
				if c.Value != nil {
					s = c.Value.ExactString()
				}
				vs = append(vs, s)
				return
			}
			if f.get(v).lv != lvInv {
				l.fail(pos, "which entry it is left at decides what is used afterwards")
			}
			vs = append(vs, v.Name())
		}
		for _, ins := range e.to.Instrs {
			if phi, ok := ins.(*ssa.Phi); ok {
				for k, p := range e.to.Preds {
					if p == e.from {
						val(phi.Edges[k])
					}
				}
			}
		}
		// blocks only reached through this exit
		var own func(b *ssa.BasicBlock)
		seen := map[*ssa.BasicBlock]bool{}
		own = func(b *ssa.BasicBlock) {
			if seen[b] || l.blocks[b] {
				return
			}
			seen[b] = true
			for _, ins := range b.Instrs {
				if _, ok := ins.(*ssa.Phi); ok {
					continue
				}
				if r, ok := ins.(*ssa.Return); ok {
					for _, v := range r.Results {
						val(v)
					}
					continue
				}
				for _, o := range ins.Operands(nil) {
					if *o != nil && f.inLoop(*o) && f.get(*o).lv != lvInv {
						l.fail(pos, "which entry it is left at decides what is used afterwards")
					}
				}
			}
			for _, s := range b.Succs {
				own(s)
			}
		}
		own(e.to)
		outs = append(outs, fmt.Sprint(e.to.Index*boolInt(len(e.to.Preds) > 1), vs))
	}
	for _, o := range outs[1:] {
		if o != outs[0] {
			l.fail(pos, "it is left early in different ways")
		}
	}
}

func boolInt(b bool) int {
	if b {
		return 1
	}
	return 0
}

// failing: from s on (reached from b), the function only returns errors.
func failing(b, s *ssa.BasicBlock) bool {
	sig := s.Parent().Signature.Results()
	if sig.Len() == 0 || !isError(sig.At(sig.Len()-1).Type()) {
		return false
	}
	nonNil := map[ssa.Value]bool{}
	for d := b; d != nil; d = d.Idom() {
		i, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok {
			continue
		}
		c, ok := i.Cond.(*ssa.BinOp)
		if !ok || c.Op != token.NEQ && c.Op != token.EQL {
			continue
		}
		v := c.X
		if k, ok := v.(*ssa.Const); ok && k.IsNil() {
			v = c.Y
		} else if k, ok := c.Y.(*ssa.Const); !ok || !k.IsNil() {
			continue
		}
		t := d.Succs[0]
		if c.Op == token.EQL {
			t = d.Succs[1]
		}
		if t == s && d == b || t.Dominates(s) && len(t.Preds) == 1 {
			nonNil[v] = true
		}
	}
	var isErr func(v ssa.Value) bool
	isErr = func(v ssa.Value) bool {
		if nonNil[v] {
			return true
		}
		switch i := v.(type) {
		case *ssa.MakeInterface:
			return true
		case *ssa.UnOp:
			_, ok := i.X.(*ssa.Global)
			return ok && i.Op == token.MUL
		case *ssa.Call:
			if g := i.Call.StaticCallee(); g != nil {
				p := pkgPath(g)
				return g.Name() == "Errorf" || strings.HasSuffix(p, "errors") && (g.Name() == "New" || g.Name() == "Wrap" || g.Name() == "Wrapf")
			}
		case *ssa.Phi:
			for _, e := range i.Edges {
				if !isErr(e) {
					return false
				}
			}
			return true
		}
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var rec func(b *ssa.BasicBlock) bool
	rec = func(b *ssa.BasicBlock) bool {
		if seen[b] {
			return true
		}
		seen[b] = true
		if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			return isErr(r.Results[len(r.Results)-1])
		}
		for _, t := range b.Succs {
			if !rec(t) {
				return false
			}
		}
		return true
	}
	return rec(s)
}

// ------------------------------------------------------------------ the check

func checkC15(r *Report) {
	p, _ := evaluateEffects(r)
	ranges := 0
	for _, f := range p.order {
		name := trimMod(f.String())
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				pos := posString(instrPos(ins))
				switch i := ins.(type) {
				case *ssa.Go:
					r.check(false, name+":go", pos, "%s starts a goroutine", name)
				case *ssa.Select:
					r.check(false, name+":select", pos, "%s selects between channels", name)
				case *ssa.Send:
					r.check(false, name+":send", pos, "%s sends to a channel", name)
				case *ssa.UnOp:
					if i.Op == token.ARROW {
						r.check(false, name+":recv", pos, "%s receives from a channel", name)
					}
				case *ssa.Convert:
					if bt, ok := i.Type().Underlying().(*types.Basic); ok && bt.Kind() == types.Uintptr {
						if xt, ok := i.X.Type().Underlying().(*types.Basic); ok && xt.Kind() == types.UnsafePointer {
							r.check(false, name+":address", pos, "%s uses an address as a number", name)
						}
					}
				case *ssa.Next:
					if rng, ok := i.Iter.(*ssa.Range); ok && isMap(rng.X.Type()) {
						ranges++
						checkMapRange(r, p, i, rng)
					}
				}
				c, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil || p.inRepo(g) {
					continue
				}
				checkExternal(r, name, pos, c, g)
			}
		}
	}
	r.extra["map_ranges"] = ranges
	r.extra["rule"] = "no call whose result may differ between runs; the effects of the iterations of a range over a map commute"
	r.minOb = 30
}

func checkExternal(r *Report, name, pos string, c ssa.CallInstruction, g *ssa.Function) {
	pkg := pkgPath(g)
	full := pkg + "." + g.Name()
	if pkg == "" {
		return // error methods, wrappers
	}
	gn := g.Name()
	if i := strings.IndexByte(gn, '['); i >= 0 {
		gn = gn[:i]
	}
	if pkg == "maps" && (gn == "Keys" || gn == "Values" || gn == "All") {
		ok := false
		if v, isV := c.(*ssa.Call); isV && v.Referrers() != nil {
			ok = len(*v.Referrers()) > 0
			for _, u := range *v.Referrers() {
				x, isC := u.(*ssa.Call)
				if _, isD := u.(*ssa.DebugRef); isD {
					continue
				}
				if !isC || x.Call.StaticCallee() == nil || pkgPath(x.Call.StaticCallee()) != "slices" || !strings.HasPrefix(x.Call.StaticCallee().Name(), "Sorted[") && x.Call.StaticCallee().Name() != "Sorted" {
					ok = false
				}
			}
		}
		r.check(ok, name+":"+full, pos, "%s uses the entries of a map in the order maps.%s gives them", name, gn)
		return
	}
	if pkg == "fmt" {
		for _, a := range c.Common().Args {
			if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.String && strings.Contains(constant.StringVal(k.Value), "%p") {
				r.check(false, name+":"+full, pos, "%s formats an address", name)
				return
			}
		}
	}
	if pkg == "reflect" && !strings.HasPrefix(gn, "Map") && gn != "Pointer" && gn != "UnsafePointer" && gn != "Select" {
		r.check(true, name+":"+full, pos, "")
		return
	}
	r.check(determPkgs[pkg], name+":"+full, pos, "%s calls %s, whose result may differ between runs", name, full)
}

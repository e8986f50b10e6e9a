package main

// Inclusion-based, field-sensitive points-to analysis from chosen entry
// points, with symbolic objects for everything the entry points receive.
// Each memory write is attributed to the regions it can reach.

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type pobj struct {
	root string // "" for memory allocated by the analysed calls
	typ  types.Type
	key  string
	box  bool // contents of an interface value
}

type ptarget struct {
	o    *pobj
	path string
}
type pset map[ptarget]bool

type nodeKey struct {
	v   ssa.Value
	sub string
}
type cellKey struct {
	o    *pobj
	path string
}

type pwrite struct {
	root string
	path string
	ins  ssa.Instruction
	fn   *ssa.Function
	what string
	typ  types.Type
}

type PT struct {
	nodes    map[nodeKey]pset
	cells    map[cellKey]pset
	objs     map[string]*pobj
	reach    map[*ssa.Function]bool
	order    []*ssa.Function
	rets     map[*ssa.Function][]map[string]pset
	changed  bool
	writes   map[ssa.Instruction]map[string]pwrite
	typeRoot map[string]string // type key -> region
	calls    int
	unknown  map[string]bool
	callees  map[ssa.CallInstruction]map[*ssa.Function]bool
	fwd      map[fwdKey][]fwdVal
	private  map[*ssa.Alloc]map[ssa.Instruction]bool
}

type fwdKey struct {
	load *ssa.UnOp
	leaf string
}

// fwdVal: component sub of v; v nil stands for the zero value.
type fwdVal struct {
	v   ssa.Value
	sub string
}

// place resolves an address within a local variable.
func place(v ssa.Value) (*ssa.Alloc, string) {
	path := ""
	for {
		switch a := v.(type) {
		case *ssa.FieldAddr:
			path = fmt.Sprintf(".%d", a.Field) + path
			v = a.X
		case *ssa.Alloc:
			return a, path
		default:
			return nil, ""
		}
	}
}

// leaks lists the instructions that let the variable's address be used for
// anything but loads, stores and being returned.
func (p *PT) leaks(a *ssa.Alloc) map[ssa.Instruction]bool {
	if r, ok := p.private[a]; ok {
		return r
	}
	r := map[ssa.Instruction]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		for _, u := range *v.Referrers() {
			switch i := u.(type) {
			case *ssa.FieldAddr:
				walk(i)
			case *ssa.UnOp, *ssa.DebugRef, *ssa.Return:
			case *ssa.Store:
				if i.Val == v {
					r[u] = true
				}
			default:
				r[u] = true
			}
		}
	}
	walk(a)
	p.private[a] = r
	return r
}

// leaked: the variable's address may be known elsewhere at ins.
func (p *PT) leaked(a *ssa.Alloc, ins ssa.Instruction) bool {
	l := p.leaks(a)
	if len(l) == 0 {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, n int) bool
	back = func(b *ssa.BasicBlock, n int) bool {
		for n--; n >= 0; n-- {
			if l[b.Instrs[n]] {
				return true
			}
			if b.Instrs[n] == a {
				return false
			}
		}
		for _, q := range b.Preds {
			if !seen[q] {
				seen[q] = true
				if back(q, len(q.Instrs)) {
					return true
				}
			}
		}
		return false
	}
	for n, i := range ins.Block().Instrs {
		if i == ins {
			return back(ins.Block(), n)
		}
	}
	return true
}

// forward finds the values a load of a private variable can yield: the stores
// that reach it.
func (p *PT) forward(load *ssa.UnOp, leaf string) []fwdVal {
	k := fwdKey{load, leaf}
	if r, ok := p.fwd[k]; ok {
		return r
	}
	p.fwd[k] = nil
	a, path := place(load.X)
	if a == nil || p.leaked(a, load) {
		return nil
	}
	path += leaf
	r := []fwdVal{}
	seen := map[*ssa.BasicBlock]bool{}
	var back func(b *ssa.BasicBlock, n int) bool
	back = func(b *ssa.BasicBlock, n int) bool {
		for n--; n >= 0; n-- {
			switch i := b.Instrs[n].(type) {
			case *ssa.Alloc:
				if i == a {
					r = append(r, fwdVal{})
					return true
				}
			case *ssa.Store:
				if o, q := place(i.Addr); o == a {
					if q == path || strings.HasPrefix(path, q) && (path[len(q)] == '.' || path[len(q)] == '[') {
						r = append(r, fwdVal{i.Val, path[len(q):]})
						return true
					}
					if strings.HasPrefix(q, path) {
						return false // stored in parts
					}
				}
			}
		}
		for _, q := range b.Preds {
			if !seen[q] {
				seen[q] = true
				if !back(q, len(q.Instrs)) {
					return false
				}
			}
		}
		return true
	}
	for n, i := range load.Block().Instrs {
		if i == load && back(load.Block(), n) {
			p.fwd[k] = r
		}
	}
	return p.fwd[k]
}

func newPT() *PT {
	return &PT{nodes: map[nodeKey]pset{}, cells: map[cellKey]pset{}, objs: map[string]*pobj{}, reach: map[*ssa.Function]bool{},
		rets: map[*ssa.Function][]map[string]pset{}, writes: map[ssa.Instruction]map[string]pwrite{}, typeRoot: map[string]string{}, unknown: map[string]bool{},
		callees: map[ssa.CallInstruction]map[*ssa.Function]bool{}, fwd: map[fwdKey][]fwdVal{}, private: map[*ssa.Alloc]map[ssa.Instruction]bool{}}
}

func (p *PT) obj(root string, typ types.Type, key string) *pobj {
	k := root + "\x00" + key
	if typ != nil {
		k += "\x00" + typeKey(typ)
	}
	if o, ok := p.objs[k]; ok {
		return o
	}
	o := &pobj{root: root, typ: typ, key: key}
	p.objs[k] = o
	return o
}

// leaves lists the pointer-carrying components of a type.
func leaves(t types.Type) []string {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		var r []string
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range leaves(u.Field(i).Type()) {
				r = append(r, fmt.Sprintf(".%d%s", i, l))
			}
		}
		return r
	case *types.Array:
		var r []string
		for _, l := range leaves(u.Elem()) {
			r = append(r, "[]"+l)
		}
		return r
	case *types.Tuple:
		var r []string
		for i := 0; i < u.Len(); i++ {
			for _, l := range leaves(u.At(i).Type()) {
				r = append(r, fmt.Sprintf("#%d%s", i, l))
			}
		}
		return r
	case *types.Pointer, *types.Map, *types.Slice, *types.Interface, *types.Signature, *types.Chan:
		return []string{""}
	}
	return nil
}

func leafType(t types.Type, sub string) types.Type {
	for sub != "" {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			n, rest := 0, sub[1:]
			j := 0
			for j < len(rest) && rest[j] >= '0' && rest[j] <= '9' {
				n = n*10 + int(rest[j]-'0')
				j++
			}
			if n >= u.NumFields() {
				return nil
			}
			t, sub = u.Field(n).Type(), rest[j:]
		case *types.Array:
			t, sub = u.Elem(), strings.TrimPrefix(sub, "[]")
		case *types.Slice:
			t, sub = u.Elem(), strings.TrimPrefix(sub, "[]")
		case *types.Map:
			if strings.HasPrefix(sub, "[k]") {
				t, sub = u.Key(), sub[3:]
			} else {
				t, sub = u.Elem(), strings.TrimPrefix(sub, "[v]")
			}
		default:
			return nil
		}
	}
	return t
}

func (p *PT) regionOf(root string, t types.Type) string {
	if r, ok := p.typeRoot[typeKey(t)]; ok {
		return r
	}
	return root
}

// symVal is the value of a pointer-like input of the given region.
func (p *PT) symVal(root string, t types.Type) pset {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return pset{{p.obj(p.regionOf(root, u.Elem()), u.Elem(), "sym"), ""}: true}
	case *types.Map, *types.Slice:
		return pset{{p.obj(p.regionOf(root, t), t, "sym"), ""}: true}
	case *types.Interface:
		o := p.obj(root, t, "symiface")
		return pset{{o, ""}: true}
	case *types.Signature, *types.Chan:
		return pset{{p.obj(root, t, "symfunc"), ""}: true}
	}
	return nil
}

func (p *PT) node(k nodeKey) pset { return p.nodes[k] }

func (p *PT) add(k nodeKey, s pset) {
	d := p.nodes[k]
	if d == nil {
		d = pset{}
		p.nodes[k] = d
	}
	for t := range s {
		if !d[t] {
			d[t] = true
			p.changed = true
		}
	}
}

func (p *PT) addCell(k cellKey, s pset) {
	d := p.cells[k]
	if d == nil {
		d = pset{}
		p.cells[k] = d
	}
	for t := range s {
		if !d[t] {
			d[t] = true
			p.changed = true
		}
	}
}

func (p *PT) readCell(o *pobj, path string, t types.Type) pset {
	r := pset{}
	for x := range p.cells[cellKey{o, path}] {
		r[x] = true
	}
	if o.root != "" {
		root := o.root
		if o.typ != nil { // the region may change on the way to the component
			root = p.regionAt(o, path)
		}
		for x := range p.symVal(root, t) {
			r[x] = true
		}
	}
	return r
}

// regionAt is the region of a component of an object.
func (p *PT) regionAt(o *pobj, path string) string {
	root := o.root
	t := o.typ
	if t == nil {
		return root
	}
	for i := 0; i <= len(path); i++ {
		if i == len(path) || path[i] == '.' || path[i] == '[' {
			if lt := leafType(t, path[:i]); lt != nil {
				if r, ok := p.typeRoot[typeKey(lt)]; ok {
					root = r
				}
			}
		}
	}
	return root
}

func (p *PT) val(v ssa.Value, sub string) pset {
	switch v := v.(type) {
	case *ssa.Const, *ssa.Builtin:
		return nil
	case *ssa.Global:
		return pset{{p.obj("global", v.Type().(*types.Pointer).Elem(), "g:"+v.RelString(nil)), ""}: true}
	case *ssa.Function:
		return pset{{p.fnObj(v), ""}: true}
	}
	return p.nodes[nodeKey{v, sub}]
}

var fnOf = map[*pobj]ssa.Value{}

func (p *PT) fnObj(v ssa.Value) *pobj {
	var key string
	switch f := v.(type) {
	case *ssa.Function:
		key = "fn:" + f.String()
	case *ssa.MakeClosure:
		key = fmt.Sprintf("clo:%s@%d", f.Fn.String(), f.Pos())
	}
	o := p.obj("", nil, key)
	fnOf[o] = v
	return o
}

func (p *PT) site(ins ssa.Instruction, typ types.Type, what string) *pobj {
	b := ins.Block()
	idx := 0
	for i, j := range b.Instrs {
		if j == ins {
			idx = i
		}
	}
	return p.obj("", typ, fmt.Sprintf("%s:%s:%d.%d", what, b.Parent().String(), b.Index, idx))
}

func (p *PT) enter(fn *ssa.Function) {
	if fn == nil || p.reach[fn] || fn.Blocks == nil {
		return
	}
	p.reach[fn] = true
	p.order = append(p.order, fn)
	p.changed = true
}

// entry makes fn an entry point; params are symbolic inputs of the given regions.
func (p *PT) entry(fn *ssa.Function, regions func(i int, t types.Type) string) {
	p.enter(fn)
	for i, q := range fn.Params {
		r := regions(i, q.Type())
		for _, l := range leaves(q.Type()) {
			p.add(nodeKey{q, l}, p.symVal(r, leafType(q.Type(), l)))
		}
	}
}

func (p *PT) solve() {
	for n := 0; n < 400; n++ {
		p.changed = false
		for i := 0; i < len(p.order); i++ {
			p.pass(p.order[i])
		}
		if !p.changed {
			return
		}
	}
	panic(undecided("points-to analysis does not stabilise"))
}

func (p *PT) write(ins ssa.Instruction, fn *ssa.Function, tg pset, suffix string, what string) {
	for t := range tg {
		if t.o.root == "" {
			continue
		}
		r := p.regionAt(t.o, t.path+suffix)
		if p.writes[ins] == nil {
			p.writes[ins] = map[string]pwrite{}
		}
		k := r + "|" + what
		if _, ok := p.writes[ins][k]; !ok {
			p.writes[ins][k] = pwrite{r, t.path + suffix, ins, fn, what, t.o.typ}
			p.changed = true
		}
	}
}

func (p *PT) copyVal(dst ssa.Value, dsub string, src ssa.Value, ssub string, t types.Type) {
	for _, l := range leaves(t) {
		p.add(nodeKey{dst, dsub + l}, p.val(src, ssub+l))
	}
}

func (p *PT) loadTo(dst ssa.Value, dsub string, tg pset, suffix string, t types.Type) {
	for _, l := range leaves(t) {
		lt := leafType(t, l)
		for x := range tg {
			p.add(nodeKey{dst, dsub + l}, p.readCell(x.o, x.path+suffix+l, lt))
		}
	}
}

func (p *PT) storeFrom(tg pset, suffix string, src ssa.Value, ssub string, t types.Type) {
	for _, l := range leaves(t) {
		s := p.val(src, ssub+l)
		for x := range tg {
			p.addCell(cellKey{x.o, x.path + suffix + l}, s)
		}
	}
}

// boxed: an interface value points to a box object holding the dynamic value.
func (p *PT) box(ins ssa.Instruction, typ types.Type) *pobj {
	o := p.site(ins, typ, "box")
	o.box = true
	return o
}

func (p *PT) unboxTo(dst ssa.Value, dsub string, tg pset, at types.Type) {
	if isIface(at) {
		for x := range tg {
			if x.o.box && x.o.typ != nil && !types.AssignableTo(x.o.typ, at) {
				continue
			}
			p.add(nodeKey{dst, dsub}, pset{x: true})
		}
		return
	}
	for x := range tg {
		if x.o.box {
			if types.Identical(x.o.typ, at) {
				p.loadTo(dst, dsub, pset{x: true}, "", at)
			}
			continue
		}
		if x.o.root != "" { // symbolic interface
			for _, l := range leaves(at) {
				p.add(nodeKey{dst, dsub + l}, p.symVal(x.o.root, leafType(at, l)))
			}
		}
	}
}

func (p *PT) pass(fn *ssa.Function) {
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			p.instr(fn, ins)
		}
	}
}

func (p *PT) instr(fn *ssa.Function, ins ssa.Instruction) {
	switch i := ins.(type) {
	case *ssa.Alloc:
		p.add(nodeKey{i, ""}, pset{{p.site(i, i.Type().Underlying().(*types.Pointer).Elem(), "alloc"), ""}: true})
	case *ssa.MakeMap:
		p.add(nodeKey{i, ""}, pset{{p.site(i, i.Type(), "map"), ""}: true})
	case *ssa.MakeSlice:
		p.add(nodeKey{i, ""}, pset{{p.site(i, i.Type(), "slice"), ""}: true})
	case *ssa.MakeChan:
		p.add(nodeKey{i, ""}, pset{{p.site(i, i.Type(), "chan"), ""}: true})
	case *ssa.Phi:
		for _, e := range i.Edges {
			p.copyVal(i, "", e, "", i.Type())
		}
	case *ssa.ChangeType:
		p.copyVal(i, "", i.X, "", i.Type())
	case *ssa.ChangeInterface:
		p.copyVal(i, "", i.X, "", i.Type())
	case *ssa.Convert:
		if len(leaves(i.Type())) > 0 {
			p.copyVal(i, "", i.X, "", i.Type())
			if isString(i.X.Type()) {
				p.add(nodeKey{i, ""}, pset{{p.site(i, i.Type(), "slice"), ""}: true})
			}
		}
	case *ssa.SliceToArrayPointer:
		p.copyVal(i, "", i.X, "", i.Type())
	case *ssa.FieldAddr:
		for x := range p.val(i.X, "") {
			p.add(nodeKey{i, ""}, pset{{x.o, fmt.Sprintf("%s.%d", x.path, i.Field)}: true})
		}
	case *ssa.IndexAddr:
		for x := range p.val(i.X, "") {
			p.add(nodeKey{i, ""}, pset{{x.o, x.path + "[]"}: true})
		}
	case *ssa.Field:
		p.copyVal(i, "", i.X, fmt.Sprintf(".%d", i.Field), i.Type())
	case *ssa.Index:
		if _, ok := i.X.Type().Underlying().(*types.Array); ok {
			p.copyVal(i, "", i.X, "[]", i.Type())
		}
	case *ssa.Slice:
		if c, ok := i.Max.(*ssa.Const); ok && c.Value != nil && c.Int64() == 0 {
			return // no element can be reached through it
		}
		p.copyVal(i, "", i.X, "", i.Type())
	case *ssa.UnOp:
		if i.Op == token.MUL {
			for _, l := range leaves(i.Type()) {
				vs := p.forward(i, l)
				if vs == nil {
					lt := leafType(i.Type(), l)
					for x := range p.val(i.X, "") {
						p.add(nodeKey{i, l}, p.readCell(x.o, x.path+l, lt))
					}
				}
				for _, v := range vs {
					if v.v != nil {
						p.add(nodeKey{i, l}, p.val(v.v, v.sub))
					}
				}
			}
		} else if i.Op == token.ARROW {
			p.loadTo(i, "", p.val(i.X, ""), "[]", i.Type())
		}
	case *ssa.Store:
		p.write(i, fn, p.val(i.Addr, ""), "", "assignment")
		p.storeFrom(p.val(i.Addr, ""), "", i.Val, "", i.Val.Type())
	case *ssa.MapUpdate:
		mt := i.Map.Type().Underlying().(*types.Map)
		p.write(i, fn, p.val(i.Map, ""), "", "map assignment")
		p.storeFrom(p.val(i.Map, ""), "[v]", i.Value, "", mt.Elem())
		p.storeFrom(p.val(i.Map, ""), "[k]", i.Key, "", mt.Key())
	case *ssa.Lookup:
		if mt, ok := i.X.Type().Underlying().(*types.Map); ok {
			sub := ""
			if i.CommaOk {
				sub = "#0"
			}
			p.loadTo(i, sub, p.val(i.X, ""), "[v]", mt.Elem())
		}
	case *ssa.Range:
		p.add(nodeKey{i, ""}, p.val(i.X, ""))
	case *ssa.Next:
		if r, ok := i.Iter.(*ssa.Range); ok && !i.IsString {
			mt := r.X.Type().Underlying().(*types.Map)
			p.loadTo(i, "#1", p.val(i.Iter, ""), "[k]", mt.Key())
			p.loadTo(i, "#2", p.val(i.Iter, ""), "[v]", mt.Elem())
		}
	case *ssa.Extract:
		p.copyVal(i, "", i.Tuple, fmt.Sprintf("#%d", i.Index), i.Type())
	case *ssa.MakeInterface:
		o := p.box(i, i.X.Type())
		p.storeFrom(pset{{o, ""}: true}, "", i.X, "", i.X.Type())
		p.add(nodeKey{i, ""}, pset{{o, ""}: true})
	case *ssa.TypeAssert:
		sub := ""
		if i.CommaOk {
			sub = "#0"
		}
		p.unboxTo(i, sub, p.val(i.X, ""), i.AssertedType)
	case *ssa.MakeClosure:
		f := i.Fn.(*ssa.Function)
		p.add(nodeKey{i, ""}, pset{{p.fnObj(i), ""}: true})
		for j, fv := range f.FreeVars {
			p.copyVal(fv, "", i.Bindings[j], "", fv.Type())
		}
	case *ssa.Send:
		p.write(i, fn, p.val(i.Chan, ""), "", "channel send")
		p.storeFrom(p.val(i.Chan, ""), "[]", i.X, "", i.X.Type())
	case *ssa.Return:
		r := p.rets[fn]
		if r == nil {
			r = make([]map[string]pset, len(i.Results))
			for j := range r {
				r[j] = map[string]pset{}
			}
			p.rets[fn] = r
		}
		for j, v := range i.Results {
			for _, l := range leaves(v.Type()) {
				d := r[j][l]
				if d == nil {
					d = pset{}
					r[j][l] = d
				}
				for t := range p.val(v, l) {
					if !d[t] {
						d[t] = true
						p.changed = true
					}
				}
			}
		}
	case ssa.CallInstruction:
		p.call(fn, i)
	}
}

func (p *PT) bind(fn *ssa.Function, ins ssa.CallInstruction, callee *ssa.Function, args []ssa.Value, recv pset) {
	p.enter(callee)
	if p.callees[ins] == nil {
		p.callees[ins] = map[*ssa.Function]bool{}
	}
	p.callees[ins][callee] = true
	params := callee.Params
	if recv != nil && len(params) > 0 {
		p.unboxParam(params[0], recv)
		params = params[1:]
	}
	for j, q := range params {
		if j < len(args) {
			p.copyVal(q, "", args[j], "", q.Type())
		}
	}
	v := ins.Value()
	if v == nil {
		return
	}
	rs := p.rets[callee]
	for j, m := range rs {
		sub := ""
		if len(rs) > 1 {
			sub = fmt.Sprintf("#%d", j)
		}
		for l, s := range m {
			p.add(nodeKey{v, sub + l}, s)
		}
	}
}

func (p *PT) unboxParam(q *ssa.Parameter, recv pset) { p.unboxTo(q, "", recv, q.Type()) }

func (p *PT) call(fn *ssa.Function, ins ssa.CallInstruction) {
	cc := ins.Common()
	if cc.IsInvoke() {
		recv := p.val(cc.Value, "")
		done := map[*ssa.Function]bool{}
		bind := func(t types.Type) {
			m := theProg.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name())
			if m == nil || m.Blocks == nil {
				return
			}
			if !p.inRepo(m) {
				return
			}
			if !done[m] {
				done[m] = true
				p.bind(fn, ins, m, cc.Args, recv)
			}
		}
		for x := range recv {
			if x.o.box {
				bind(x.o.typ)
				continue
			}
			for _, t := range repoTypes() {
				for _, tt := range []types.Type{t, types.NewPointer(t)} {
					if it, ok := cc.Value.Type().Underlying().(*types.Interface); ok && types.Implements(tt, it) {
						bind(tt)
					}
				}
			}
		}
		return
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		p.builtin(fn, ins, f)
		return
	case *ssa.Function:
		if p.inRepo(f) {
			p.bind(fn, ins, f, cc.Args, nil)
		} else {
			p.external(fn, ins, f)
		}
		return
	}
	for x := range p.val(cc.Value, "") {
		switch f := fnOf[x.o].(type) {
		case *ssa.Function:
			if p.inRepo(f) {
				p.bind(fn, ins, f, cc.Args, nil)
			} else {
				p.external(fn, ins, f)
			}
		case *ssa.MakeClosure:
			p.bind(fn, ins, f.Fn.(*ssa.Function), cc.Args, nil)
		default:
			// a function value received from outside: any function of the
			// repository with that signature
			for _, g := range addressTaken() {
				if types.Identical(g.Signature, cc.Signature()) {
					p.bind(fn, ins, g, cc.Args, nil)
					for _, fv := range g.FreeVars {
						for _, l := range leaves(fv.Type()) {
							p.add(nodeKey{fv, l}, p.symVal(x.o.root, leafType(fv.Type(), l)))
						}
					}
				}
			}
		}
	}
}

func (p *PT) inRepo(f *ssa.Function) bool {
	if f.Blocks == nil {
		return false
	}
	if f.Pkg != nil {
		return isRepoPkg(f.Pkg.Pkg.Path())
	}
	if o := f.Origin(); o != nil && o.Pkg != nil {
		return isRepoPkg(o.Pkg.Pkg.Path())
	}
	return f.Object() == nil || f.Object().Pkg() == nil || isRepoPkg(f.Object().Pkg().Path())
}

var repoTypesCache []types.Type

func repoTypes() []types.Type {
	if repoTypesCache == nil {
		for _, pk := range theProg.AllPackages() {
			if pk.Pkg == nil || !isRepoPkg(pk.Pkg.Path()) {
				continue
			}
			var names []string
			for n := range pk.Members {
				names = append(names, n)
			}
			sort.Strings(names)
			for _, n := range names {
				if t, ok := pk.Members[n].(*ssa.Type); ok && !isIface(t.Type()) {
					repoTypesCache = append(repoTypesCache, t.Type())
				}
			}
		}
	}
	return repoTypesCache
}

var addrTakenCache []*ssa.Function

func addressTaken() []*ssa.Function {
	if addrTakenCache != nil {
		return addrTakenCache
	}
	seen := map[*ssa.Function]bool{}
	for _, pk := range theProg.AllPackages() {
		if pk.Pkg == nil || !isRepoPkg(pk.Pkg.Path()) {
			continue
		}
		forEachFunc(pk, func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					var callee ssa.Value
					if c, ok := ins.(ssa.CallInstruction); ok && !c.Common().IsInvoke() {
						callee = c.Common().Value
					}
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Function); ok && !seen[g] && ssa.Value(g) != callee {
							seen[g] = true
							addrTakenCache = append(addrTakenCache, g)
						}
					}
				}
			}
		})
	}
	return addrTakenCache
}

func (p *PT) builtin(fn *ssa.Function, ins ssa.CallInstruction, f *ssa.Builtin) {
	cc := ins.Common()
	v := ins.Value()
	switch f.Name() {
	case "append":
		et := elemType(v.Type())
		base := p.val(cc.Args[0], "")
		if sl, ok := cc.Args[0].(*ssa.Slice); !ok || sl.Max == nil || sl.Max != sl.High { // capped at its length: copied
			p.write(ins, fn, base, "[]", "append")
		}
		o := p.site(ins, v.Type(), "app")
		dst := pset{{o, ""}: true}
		for x := range base {
			dst[x] = true
		}
		p.add(nodeKey{v, ""}, dst)
		for _, l := range leaves(et) {
			lt := leafType(et, l)
			for _, src := range []pset{base, p.val(cc.Args[1], "")} {
				for x := range src {
					s := p.readCell(x.o, x.path+"[]"+l, lt)
					for d := range dst {
						p.addCell(cellKey{d.o, d.path + "[]" + l}, s)
					}
				}
			}
		}
	case "copy":
		p.write(ins, fn, p.val(cc.Args[0], ""), "[]", "copy")
		et := elemType(cc.Args[0].Type())
		for _, l := range leaves(et) {
			lt := leafType(et, l)
			for x := range p.val(cc.Args[1], "") {
				s := p.readCell(x.o, x.path+"[]"+l, lt)
				for d := range p.val(cc.Args[0], "") {
					p.addCell(cellKey{d.o, d.path + "[]" + l}, s)
				}
			}
		}
	case "delete", "clear":
		p.write(ins, fn, p.val(cc.Args[0], ""), "", f.Name())
	case "ssa:wrapnilchk":
		p.copyVal(v, "", cc.Args[0], "", v.Type())
	}
}

// Packages whose functions leave memory they are passed alone.
var purePkgs = map[string]bool{"strconv": true, "math": true, "errors": true, "strings": true, "unicode": true, "unicode/utf8": true, "cmp": true,
	"github.com/pkg/errors": true, "reflect": true, "math/bits": true, "math/big": false, "fmt": true}

var pureFuncs = map[string]bool{"maps.Clone": true, "maps.Keys": true, "maps.Values": true, "maps.Equal": true, "slices.Contains": true, "slices.Index": true,
	"slices.IndexFunc": true, "slices.ContainsFunc": true, "slices.Clone": true, "slices.Equal": true, "slices.Max": true, "slices.Min": true, "slices.Sorted": true, "slices.Collect": true,
	"sort.Search": true, "sort.SearchStrings": true, "slices.MaxFunc": true, "slices.MinFunc": true, "sort.StringsAreSorted": true, "sort.SliceIsSorted": true, "sort.SearchInts": true,
	"github.com/google/shlex.Split": true, "github.com/mattn/go-shellwords.Parse": true, "github.com/kballard/go-shellquote.Split": true}

func (p *PT) external(fn *ssa.Function, ins ssa.CallInstruction, f *ssa.Function) {
	cc := ins.Common()
	name := fullName(f)
	pkg := ""
	if o := f.Object(); o != nil && o.Pkg() != nil {
		pkg = o.Pkg().Path()
	}
	base := name
	if j := strings.Index(base, "["); j >= 0 {
		base = base[:j]
	}
	pure := (purePkgs[pkg] || pureFuncs[base]) && f.Signature.Recv() == nil && !strings.HasPrefix(base, "fmt.F") && !strings.HasPrefix(base, "fmt.Sscan") && !strings.HasPrefix(base, "fmt.Scan")
	if pkg == "reflect" || strings.HasPrefix(base, "(reflect.") {
		pure = !strings.Contains(base, ".Set") && !strings.Contains(base, "Append")
	}
	// callbacks run
	for _, a := range cc.Args {
		for x := range p.val(a, "") {
			switch g := fnOf[x.o].(type) {
			case *ssa.Function:
				if p.inRepo(g) {
					p.bindUnknown(ins, g, cc.Args)
				}
			case *ssa.MakeClosure:
				p.bindUnknown(ins, g.Fn.(*ssa.Function), cc.Args)
			}
		}
	}
	if !pure {
		for _, a := range cc.Args {
			if a.Type() == nil {
				continue
			}
			switch a.Type().Underlying().(type) {
			case *types.Pointer, *types.Map, *types.Slice:
				p.write(ins, fn, p.val(a, ""), "", "call of "+name)
			case *types.Interface:
				for x := range p.val(a, "") {
					if x.o.box {
						switch x.o.typ.Underlying().(type) {
						case *types.Pointer, *types.Map, *types.Slice:
							p.write(ins, fn, p.readCell(x.o, "", x.o.typ), "", "call of "+name)
						}
					} else {
						p.write(ins, fn, pset{x: true}, "", "call of "+name)
					}
				}
			}
		}
	}
	// results: fresh memory, or anything reachable from the arguments
	v := ins.Value()
	if v == nil {
		return
	}
	for _, l := range leaves(v.Type()) {
		var lt types.Type
		if tp, ok := v.Type().(*types.Tuple); ok {
			j := atoi(strings.TrimLeft(strings.SplitN(strings.SplitN(l[1:], ".", 2)[0], "[", 2)[0], "#"))
			lt = leafType(tp.At(j).Type(), l[1+len(fmt.Sprint(j)):])
		} else {
			lt = leafType(v.Type(), l)
		}
		if lt == nil {
			continue
		}
		if isIface(lt) && types.Identical(lt, types.Universe.Lookup("error").Type()) {
			continue
		}
		out := pset{{p.site(ins, lt, "ext"+l), ""}: true}
		for _, a := range cc.Args {
			for _, al := range leaves(a.Type()) {
				for x := range p.val(a, al) {
					switch {
					case strings.HasSuffix(base, ".Clone") || strings.HasSuffix(base, ".Sorted") || strings.HasSuffix(base, ".Collect"):
						// shallow copy: same contents, new container
						for _, s := range []string{"[v]", "[k]", "[]"} {
							ct := leafType(lt, s)
							if ct == nil {
								continue
							}
							for _, cl := range leaves(ct) {
								for d := range out {
									if d.o.root == "" {
										p.addCell(cellKey{d.o, s + cl}, p.readCell(x.o, x.path+s+cl, leafType(ct, cl)))
									}
								}
							}
						}
					case types.Identical(lt, a.Type()) || isIface(lt):
						out[x] = true
					}
				}
			}
		}
		p.add(nodeKey{v, l}, out)
	}
}

// bindUnknown: a callback run by library code; its parameters may be any
// element reachable from the call's other arguments.
func (p *PT) bindUnknown(ins ssa.CallInstruction, g *ssa.Function, args []ssa.Value) {
	p.enter(g)
	for _, q := range g.Params {
		for _, l := range leaves(q.Type()) {
			lt := leafType(q.Type(), l)
			for _, a := range args {
				for _, al := range leaves(a.Type()) {
					for x := range p.val(a, al) {
						if fnOf[x.o] != nil {
							continue
						}
						for _, s := range []string{"[]", "[v]", "[k]", ""} {
							p.add(nodeKey{q, l}, p.readCell(x.o, x.path+s+l, lt))
						}
						if types.Identical(a.Type(), q.Type()) {
							p.add(nodeKey{q, l}, pset{x: true})
						}
					}
				}
			}
		}
	}
}

package main

// Package-level tables: variables that only the package initialisation
// writes, whose contents nothing changes afterwards, are evaluated once and
// read as constants.

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

var tables map[string]*Term

// tableOf is the constant value of a package-level variable, or nil.
func tableOf(name string) *Term {
	if tables == nil {
		tables = map[string]*Term{} // also stops recursion
		t := map[string]*Term{}
		for _, p := range theProg.AllPackages() {
			if p.Pkg != nil && isRepoPkg(p.Pkg.Path()) {
				evalInit(p, t)
			}
		}
		tables = t
	}
	return tables[name]
}

// plainData: values of the type hold no memory that could be shared.
func plainData(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Signature:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !plainData(u.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

// readOnly: outside the initialisation the variable is only read.
func readOnly(g *ssa.Global) bool {
	t := g.Type().(*types.Pointer).Elem()
	switch u := t.Underlying().(type) {
	case *types.Map:
		if !plainData(u.Elem()) || !plainData(u.Key()) {
			return false
		}
	case *types.Slice:
		if !plainData(u.Elem()) {
			return false
		}
	case *types.Array:
		return false
	default:
		if !plainData(t) {
			return false
		}
	}
	ok := true
	reads := func(v ssa.Value) { // uses of the map or slice itself
		for _, u := range *v.Referrers() {
			switch i := u.(type) {
			case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
			case *ssa.IndexAddr:
				var addr func(a ssa.Value)
				addr = func(a ssa.Value) {
					for _, w := range *a.Referrers() {
						switch j := w.(type) {
						case *ssa.FieldAddr:
							addr(j)
						case *ssa.UnOp, *ssa.DebugRef:
						default:
							ok = false
						}
					}
				}
				addr(i)
			case *ssa.Call:
				if b, isB := i.Call.Value.(*ssa.Builtin); !isB || b.Name() != "len" {
					ok = false
				}
			default:
				ok = false
			}
		}
	}
	for _, p := range theProg.AllPackages() {
		if p.Pkg == nil || !isRepoPkg(p.Pkg.Path()) {
			continue
		}
		forEachFunc(p, func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if *op != ssa.Value(g) {
							continue
						}
						switch i := ins.(type) {
						case *ssa.DebugRef:
						case *ssa.UnOp:
							if i.Op != token.MUL {
								ok = false
								continue
							}
							if !plainData(t) {
								reads(i)
							}
						case *ssa.Store:
							if i.Addr != ssa.Value(g) || f != g.Pkg.Func("init") {
								ok = false
							}
						default:
							ok = false
						}
					}
				}
			}
		})
	}
	return ok
}

// evalInit evaluates the straight-line part of a package's initialisation.
func evalInit(p *ssa.Package, out map[string]*Term) {
	fn := p.Func("init")
	if fn == nil {
		return
	}
	var gs []*ssa.Global
	for _, m := range p.Members {
		if g, ok := m.(*ssa.Global); ok && readOnly(g) {
			gs = append(gs, g)
		}
	}
	if len(gs) == 0 {
		return
	}
	x := newExec()
	st := newState(x)
	fr := &frame{fn: fn, ctx: "init", loops: naturalLoops(fn)}
	tainted := map[ssa.Value]bool{}
	stores := map[*ssa.Global]int{}
	env := map[ssa.Value]*Term{}
	for _, b := range fn.Blocks {
		it := &item{blk: b, env: env, st: st}
		for _, ins := range b.Instrs {
			ok := func() (ok bool) {
				defer func() {
					if e := recover(); e != nil {
						if _, und := e.(*undecidedErr); !und {
							panic(e)
						}
						ok = false
					}
				}()
				switch i := ins.(type) {
				case *ssa.Jump, *ssa.If, *ssa.Return, *ssa.Phi, *ssa.DebugRef:
					return false
				case *ssa.Call:
					if bi, isB := i.Call.Value.(*ssa.Builtin); !isB || bi.Name() != "len" {
						return false
					}
				}
				rs := x.instr(fr, it, ins)
				if len(rs) != 1 || rs[0].st != st {
					return false
				}
				if v, isV := ins.(ssa.Value); isV && rs[0].val != nil {
					env[v] = rs[0].val
				}
				return true
			}()
			switch i := ins.(type) {
			case *ssa.Store:
				if g, isG := i.Addr.(*ssa.Global); isG {
					stores[g]++
					if tainted[i.Val] {
						stores[g] = 2
					}
				}
				if !ok {
					taint(tainted, i.Addr)
				}
			case *ssa.MapUpdate:
				if !ok {
					taint(tainted, i.Map)
				}
			}
		}
	}
	for _, g := range gs {
		a := mk("global", g.RelString(nil), g.Type())
		t := g.Type().(*types.Pointer).Elem()
		if stores[g] != 1 {
			continue
		}
		v := st.heap[a]
		if _, isS := isStruct(t); isS {
			v = st.load(a, t)
		}
		if v == nil {
			continue
		}
		if v = constValue(st, v, t); v != nil {
			out[a.aux] = v
		}
	}
}

func taint(m map[ssa.Value]bool, v ssa.Value) {
	for v != nil && !m[v] {
		m[v] = true
		switch i := v.(type) {
		case *ssa.FieldAddr:
			v = i.X
		case *ssa.IndexAddr:
			v = i.X
		case *ssa.Alloc:
			for _, u := range *i.Referrers() {
				if s, ok := u.(*ssa.Slice); ok {
					m[s] = true
				}
			}
			return
		default:
			return
		}
	}
}

// constValue makes a value independent of the state it was built in.
func constValue(st *State, v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Map:
		if v == tNil {
			return nil
		}
		c := st.content(v)
		for l := c; l != mEmpty; l = l.args[0] {
			if l.op != "mset" || !l.args[1].isConst() || !closed(l.args[2]) {
				return nil
			}
		}
		return mk("mapval", "", t, c)
	case *types.Slice:
		if v.op != "slice" {
			return nil
		}
		n, ok := tLen(v).intVal()
		if !ok || n > 64 {
			return nil
		}
		l := tNil
		for i := int64(0); i < n; i++ {
			e := st.load(tIaddr(v, cInt(i)), u.Elem())
			if !closed(e) {
				return nil
			}
			l = mk("app", "", t, l, e)
		}
		return l
	}
	if !closed(v) {
		return nil
	}
	return v
}

func closed(v *Term) bool {
	return !v.any(func(t *Term) bool {
		switch t.op {
		case "alloc", "init", "global", "opaque", "mayalias", "slice":
			return true
		}
		return false
	})
}

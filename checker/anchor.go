package main

// Anchors: functions of the repository are found by the types they take and
// return, never by name.

import (
	"golang.org/x/tools/go/ssa"
)

// calleesOf lists the functions f mentions (calls, closures, values).
func calleesOf(f *ssa.Function) []*ssa.Function {
	var l []*ssa.Function
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			for _, op := range ins.Operands(nil) {
				if op == nil || *op == nil {
					continue
				}
				if g, ok := (*op).(*ssa.Function); ok {
					l = append(l, g)
				}
			}
		}
	}
	return append(l, f.AnonFuncs...)
}

func reachable(f *ssa.Function) map[*ssa.Function]bool {
	seen := map[*ssa.Function]bool{}
	var walk func(g *ssa.Function)
	walk = func(g *ssa.Function) {
		for _, c := range calleesOf(g) {
			if !seen[c] {
				seen[c] = true
				walk(c)
			}
		}
	}
	walk(f)
	return seen
}

// outermost keeps the candidates the others are helpers of: those from which
// the others are reached but not the other way round, and among mutually
// recursive ones the one called from elsewhere in the package.
func outermost(l []*ssa.Function) []*ssa.Function {
	if len(l) < 2 {
		return l
	}
	reach := map[*ssa.Function]map[*ssa.Function]bool{}
	cand := map[*ssa.Function]bool{}
	for _, f := range l {
		reach[f] = reachable(f)
		cand[f] = true
	}
	var keep []*ssa.Function
	for _, f := range l {
		ok := true
		for _, g := range l {
			if g != f && reach[g][f] && !reach[f][g] {
				ok = false
			}
		}
		if ok {
			keep = append(keep, f)
		}
	}
	if len(keep) < 2 {
		return keep
	}
	var called []*ssa.Function
	for _, f := range keep {
		outside := false
		forEachFunc(f.Package(), func(g *ssa.Function) {
			if cand[g] || g.Parent() != nil && cand[g.Parent()] || g.Package() == specPkg {
				return
			}
			for _, c := range calleesOf(g) {
				if c == f {
					outside = true
				}
			}
		})
		if outside {
			called = append(called, f)
		}
	}
	if len(called) > 0 {
		return called
	}
	return keep
}

package main

// Comparison of a repository function with its reference: both are analysed
// by the same abstract interpreter; the reference is evaluated under the path
// facts of every outcome of the implementation, and the abstract results (in
// canonical form) must coincide.

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type runner func(x *Exec, st *State) []Outcome

type pairOpt struct {
	hook  func(x *Exec)
	pre   func(x *Exec, st *State) bool // assumptions on the parameters
	post  func(st *State, o Outcome) []*Term
	skip  func(o Outcome) bool // outcomes outside the property
	spost func(st *State, o Outcome) []*Term
	// noErr: only compare outcomes in which the implementation returns nil
	heap *State // memory both start from
	pos  token.Pos
	min  int
	alts []runner // other formulations of the same reference
	only string   // "errors": compare only whether an error is returned
}

func runFn(fn *ssa.Function, args []*Term, ctx string) runner {
	return func(x *Exec, st *State) []Outcome { return x.run(fn, args, nil, st, ctx) }
}

func errOf(o Outcome) (*Term, int) {
	for i := len(o.ret) - 1; i >= 0; i-- {
		t := o.ret[i]
		if t == nil {
			continue
		}
		if i == len(o.ret)-1 {
			return t, i
		}
	}
	return nil, -1
}

// simp rewrites a term under path facts.
func simp(f *Facts, t *Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil || t.isConst() {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if len(t.args) > 0 {
			ch := false
			na := make([]*Term, len(t.args))
			for i, a := range t.args {
				na[i] = rec(a)
				if na[i] != a {
					ch = true
				}
			}
			if ch {
				r = rebuild(t, na)
			}
		}
		r = known1(f, r)
		memo[t] = r
		return r
	}
	return rec(t)
}

func known1(f *Facts, t *Term) *Term {
	switch t.op {
	case "ind":
		if v, ok := f.decide(condOfInd(t)); ok {
			if v {
				return cInt(1)
			}
			return cInt(0)
		}
	case "comp", "flat":
		if v, ok := f.decide(tLe0(tLen(t))); ok && v {
			return tNil
		}
	case "not", "le0", "eq0", "eq", "fcmp", "has", "implements":
		if v, ok := f.decide(t); ok {
			return cBool(v)
		}
	}
	if v, ok := f.val[t]; ok && v.isConst() && v != t {
		return v
	}
	// integer value known exactly
	if r, ok := f.rng[t]; ok && r.hasLo && r.hasHi && r.lo == r.hi {
		return cInt(r.lo)
	}
	if v, ok := f.truth[t]; ok {
		return cBool(v)
	}
	return t
}

// sameTerm compares two abstract values under path facts.
func sameTerm(f *Facts, a, b *Term) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	a, b = alpha(simp(f, a)), alpha(simp(f, b))
	if a == b {
		return true
	}
	if a.op == b.op && a.aux == b.aux && len(a.args) == len(b.args) && a.op != "poly" && len(a.args) > 0 {
		switch a.op {
		case "struct", "iface", "ref", "mapval", "mset", "app", "list", "mmap", "mover":
			for i := range a.args {
				if !sameTerm(f, a.args[i], b.args[i]) {
					return false
				}
			}
			return true
		}
	}
	return false
}

// isErrType: the last result of the function is an error.
func returnsError(sig *types.Signature) bool {
	n := sig.Results().Len()
	return n > 0 && isError(sig.Results().At(n-1).Type())
}

type pair struct{ impl, spec Outcome }

// compare decides the obligation "impl and spec agree" under key.
func compare(r *Report, key, what string, withErr bool, impl, spec runner, opt pairOpt) int {
	x := newExec()
	if opt.hook != nil {
		opt.hook(x)
	}
	st := newState(x)
	st.inherit(opt.heap)
	if opt.pre != nil && !opt.pre(x, st) {
		r.undecided(key, posString(opt.pos), "the assumptions of %s contradict each other", key)
		return 0
	}
	pos := posString(opt.pos)
	outs := impl(x, st)
	r.covered(x)
	r.paths += len(outs)
	if len(outs) == 0 {
		r.undecided(key, pos, "%s: no abstract outcome", what)
		return 0
	}
	against := func(spec runner) (n, good int, bads []string) {
		for _, o := range outs {
			if opt.skip != nil && opt.skip(o) {
				continue
			}
			g, bad := compareOne(key, withErr, spec, opt, o)
			n += g + len(bad)
			if len(bad) > 0 {
				// once more, with what the path finds out known from the start
				if g2, ok := again(key, withErr, impl, spec, opt, o); ok {
					g, bad = g2, nil
				}
			}
			good += g
			bads = append(bads, bad...)
		}
		return
	}
	if i := atoi(os.Getenv("VERIF_ALT")); i > 0 && i <= len(opt.alts) {
		spec = opt.alts[i-1] // to see what one of them lacks
	}
	n, good, bads := against(spec)
	for _, alt := range opt.alts {
		if len(bads) == 0 {
			break
		}
		if n2, g2, b2 := against(alt); len(b2) == 0 && n2 > 0 {
			n, good, bads = n2, g2, nil
		}
	}
	for i := 0; i < good; i++ {
		r.check(true, key, pos, "")
	}
	for _, m := range bads {
		r.check(false, key, pos, "%s %s", what, m)
	}
	if os.Getenv("VERIF_DEBUG") != "" {
		println(key, "outcomes", len(outs), "compared", n)
	}
	if n < opt.min || n == 0 {
		r.undecided(key, pos, "%s: only %d outcomes could be compared", what, n)
	}
	return n
}

// again repeats the analysis of the implementation for the inputs of one of
// its outcomes.
func again(key string, withErr bool, impl, spec runner, opt pairOpt, o Outcome) (int, bool) {
	x := newExec()
	if opt.hook != nil {
		opt.hook(x)
	}
	st := newState(x)
	st.inherit(opt.heap)
	if opt.pre != nil && !opt.pre(x, st) {
		return 0, false
	}
	for _, l := range o.st.lits() {
		if !st.f.assume(l.c, l.val) {
			return 0, false
		}
	}
	n := 0
	for _, q := range impl(x, st) {
		if opt.skip != nil && opt.skip(q) {
			continue
		}
		good, bad := compareOne(key, withErr, spec, opt, q)
		if len(bad) > 0 {
			return 0, false
		}
		n += good
	}
	return n, n > 0
}

// compareOne compares one outcome with the reference for the same inputs.
func compareOne(key string, withErr bool, spec runner, opt pairOpt, o Outcome) (good int, bads []string) {
	y := newExec()
	if opt.hook != nil {
		opt.hook(y)
	}
	s0 := newState(y)
	s0.inherit(opt.heap)
	s0.f = o.st.f.clone()
	// no outcome: contradictory facts, the path of the implementation is infeasible
	for _, s := range spec(y, s0) {
		bad := ""
		if withErr {
			e, _ := errOf(o)
			se, _ := errOf(s)
			f := s.st.f
			ef := func(t *Term) (isNil, known bool) {
				if t == tNil {
					return true, true
				}
				return f.decide(tEq(t, tNil, errT))
			}
			in, ik := ef(e)
			sn, sk := ef(se)
			switch {
			case ik && sk && in != sn:
				if in {
					bad = "reports success where an error is required"
				} else {
					bad = "returns an error where success is required"
				}
			case ik && sk && !in: // both fail
				good++
				continue
			case !ik && !sk && sameTerm(f, e, se):
			case ik && sk && in:
			case ik != sk && sameTerm(f, e, se):
			default:
				bad = "returns the error " + e.String() + " instead of " + se.String()
			}
			if bad == "" && opt.only == "errors" {
				good++
				continue
			}
		}
		if bad == "" {
			var a, b []*Term
			ost := o.st.clone()
			ost.f = s.st.f
			if opt.post != nil {
				a = opt.post(ost, o)
			} else {
				for i, t := range o.ret {
					if withErr && i == len(o.ret)-1 {
						break
					}
					a = append(a, ost.reify(t, 0))
				}
			}
			if opt.spost != nil {
				b = opt.spost(s.st, s)
			} else {
				for i, t := range s.ret {
					if withErr && i == len(s.ret)-1 {
						break
					}
					b = append(b, s.st.reify(t, 0))
				}
			}
			if len(a) != len(b) {
				bad = "has another number of results than its reference"
			}
			for i := range a {
				if bad == "" && !sameTerm(s.st.f, a[i], b[i]) {
					bad = "gives " + cut(a[i].String()) + " where " + cut(b[i].String()) + " is required"
					debugPair(key, s.st.f, a[i], b[i])
				}
			}
		}
		if bad == "" {
			good++
		} else {
			if os.Getenv("VERIF_DEBUG") == "3" {
				if l := s0lits(o, s); len(l) > 1 { // the last two facts contradict each other
					debugPair(key, newFacts(), l[len(l)-2].c, l[len(l)-1].c)
				}
			}
			bads = append(bads, fmt.Sprintf("%s (when %s)", bad, cut(describe(s0lits(o, s)))))
		}
	}
	return
}

// inherit copies memory and facts of an earlier run.
func (st *State) inherit(o *State) {
	if o == nil {
		return
	}
	for a, v := range o.heap {
		st.heap[a] = v
	}
	for a, v := range o.hq {
		st.hq[a] = v
	}
	for a, v := range o.fresh {
		st.fresh[a] = v
	}
	st.f = o.f.clone()
}

func s0lits(o, s Outcome) []Lit { return append(append([]Lit{}, o.st.lits()...), s.st.lits()...) }

func cut(s string) string {
	if len(s) > 400 {
		return s[:400] + "…"
	}
	return s
}

// funcsWhere lists the functions and methods of package evaluation with a
// given parameter and result shape.
func funcsWhere(p *ssa.Package, ok func(f *ssa.Function, sig *types.Signature) bool) []*ssa.Function {
	var l []*ssa.Function
	forEachFunc(p, func(f *ssa.Function) {
		if f.Synthetic != "" || f.Parent() != nil || f.Blocks == nil || strings.HasPrefix(f.Name(), "zzSpec") {
			return
		}
		if ok(f, f.Signature) {
			l = append(l, f)
		}
	})
	return l
}

// paramOf returns the index (in fn.Params) of the only parameter of a type.
func paramOf(fn *ssa.Function, t types.Type) int {
	r := -1
	for i, p := range fn.Params {
		if types.Identical(types.Unalias(p.Type()), types.Unalias(t)) {
			if r >= 0 {
				return -1
			}
			r = i
		}
	}
	return r
}

func specFn(name string) *ssa.Function {
	if specPkg == nil {
		return nil
	}
	return specPkg.Func(name)
}

// specAlts are the other formulations of a reference: name2, name3, ...
func specAlts(name string, mkr func(name string) runner) (l []runner) {
	for i := 2; specFn(name+strconv.Itoa(i)) != nil; i++ {
		l = append(l, mkr(name+strconv.Itoa(i)))
	}
	return
}

func debugPair(key string, f *Facts, a, b *Term) {
	if os.Getenv("VERIF_DEBUG") == "" {
		return
	}
	a, b = alpha(simp(f, a)), alpha(simp(f, b))
	if os.Getenv("VERIF_DEBUG") == "2" {
		println(key, "\n  impl", a.String(), "\n  spec", b.String())
		return
	}
	// the innermost places in which they differ
	n := 0
	seen := map[[2]*Term]bool{}
	lim := func(t *Term) string {
		s := t.String()
		if n := limit(); len(s) > n {
			s = s[:n] + "…"
		}
		return s
	}
	var rec func(a, b *Term, path string)
	rec = func(a, b *Term, path string) {
		if a == b || seen[[2]*Term{a, b}] || n > 6 {
			return
		}
		seen[[2]*Term{a, b}] = true
		if a.op == b.op && a.aux == b.aux && len(a.args) == len(b.args) && len(a.args) > 0 && a.op != "poly" {
			for i := range a.args {
				rec(a.args[i], b.args[i], path+"/"+a.op+"."+strconv.Itoa(i))
			}
			return
		}
		if a.op == "poly" || b.op == "poly" {
			var oa, ob []mono
			in := func(m mono, l []mono) bool {
				for _, y := range l {
					if y.key == m.key && y.coef.Cmp(m.coef) == 0 {
						return true
					}
				}
				return false
			}
			pa, pb := asPoly(a).m, asPoly(b).m
			for _, y := range pa {
				if !in(y, pb) {
					oa = append(oa, y)
				}
			}
			for _, y := range pb {
				if !in(y, pa) {
					ob = append(ob, y)
				}
			}
			if len(oa) == len(ob) && len(oa) < 4 {
				done := true
				for i := range oa {
					if len(oa[i].fac) != len(ob[i].fac) || oa[i].coef.Cmp(ob[i].coef) != 0 {
						done = false
					}
				}
				if done {
					for i := range oa {
						cancel := func(x, y []factor) (r []factor) {
						next:
							for _, f := range x {
								for _, g := range y {
									if f == g {
										continue next
									}
								}
								r = append(r, f)
							}
							sort.SliceStable(r, func(i, j int) bool { return r[i].exp < r[j].exp || r[i].exp == r[j].exp && r[i].atom.op < r[j].atom.op })
							return
						}
						fa, fb := cancel(oa[i].fac, ob[i].fac), cancel(ob[i].fac, oa[i].fac)
						for j := range fa {
							if fa[j].exp != fb[j].exp {
								println(key, path, "exponents differ", fa[j].exp, fb[j].exp)
							}
							rec(fa[j].atom, fb[j].atom, path+"/mono."+strconv.Itoa(i)+"."+strconv.Itoa(j))
						}
					}
					return
				}
			}
		}
		n++
		println(key, path, "\n  impl", lim(a), "\n  spec", lim(b))
	}
	rec(a, b, "")
}

func limit() int {
	if n := atoi(os.Getenv("VERIF_LIM")); n > 0 {
		return n
	}
	return 600
}

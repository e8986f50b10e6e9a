package main

// Error discipline (C04, C10, C17): a call that returned an error must not be
// followed by a successful result.

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type atomSite struct {
	atom *Term
	e    *Event
}

func errAtoms(l []*Event) []atomSite {
	var r []atomSite
	for _, e := range l {
		for _, t := range e.ret {
			if t != nil && t.typ != nil && isError(t.typ) && !t.isConst() {
				r = append(r, atomSite{t, e})
			}
		}
	}
	return r
}

func knownNil(st *State, t *Term) bool {
	if t == tNil {
		return true
	}
	v, ok := st.f.decide(tEq(t, tNil, types.Universe.Lookup("error").Type()))
	return ok && v
}

func knownNonNil(st *State, t *Term) bool {
	if t == tNil {
		return false
	}
	v, ok := st.f.decide(tEq(t, tNil, types.Universe.Lookup("error").Type()))
	return ok && !v
}

type errBad struct {
	e   *Event
	why string
}

// unhandled lists the calls that may have failed although the outcome is a
// success.
func unhandled(o Outcome, ignore func(e *Event) bool) []errBad {
	var bad []errBad
	add := func(s atomSite, why string) {
		if ignore == nil || !ignore(s.e) {
			bad = append(bad, errBad{s.e, why})
		}
	}
	var scan func(l []*Event, st *State, why string)
	seen := map[*LoopRecord]bool{}
	// an error that is what the function returns counts as reported
	isRet := func(a *Term) bool {
		for _, r := range o.ret {
			if r == a {
				return true
			}
		}
		return false
	}
	scan = func(l []*Event, st *State, why string) {
		for _, s := range errAtoms(l) {
			if !knownNil(st, s.atom) && !isRet(s.atom) {
				add(s, why)
			}
		}
		for _, e := range l {
			if e.kind == "loop" && !seen[e.rec] {
				seen[e.rec] = true
				for _, t := range e.rec.trans {
					scan(t.events, t.st, "an iteration continues although the call may have failed")
				}
			}
		}
	}
	// events of loop exit paths are judged under the facts inside the loop
	inExit := map[*Event]*State{}
	for n := o.st.loops; n != nil; n = n.prev {
		for _, e := range n.exit.events {
			inExit[e] = n.exit.st
		}
	}
	for _, e := range o.st.events() {
		st := o.st
		if s, ok := inExit[e]; ok {
			st = s
		}
		scan([]*Event{e}, st, "the call may have failed on a path that returns a nil error")
	}
	return bad
}

// succeeds: the outcome may return a nil error.
func succeeds(o Outcome) bool {
	for _, r := range o.ret {
		if r != nil && (r.typ != nil && isError(r.typ) || r == o.ret[len(o.ret)-1]) && knownNonNil(o.st, r) {
			return false
		}
	}
	return true
}

// checkErrors applies the rule to every outcome of a function.
func checkErrors(r *Report, name string, fn *ssa.Function, outs []Outcome, ignore func(e *Event) bool) {
	pos := posString(fn.Pos())
	if len(outs) == 0 {
		r.undecided(name, pos, "%s has no abstract outcome", name)
		return
	}
	sites := map[ssa.Instruction]bool{}
	flagged := map[ssa.Instruction]bool{}
	for _, o := range outs {
		for _, s := range errAtoms(flatEvents(o.st)) {
			if ignore == nil || !ignore(s.e) {
				sites[s.e.ins] = true
			}
		}
		if !succeeds(o) {
			continue
		}
		for _, b := range unhandled(o, ignore) {
			flagged[b.e.ins] = true
			r.fail(name+":"+callName(b.e), posString(b.e.pos), "%s: error of %s: %s", name, callName(b.e), b.why)
		}
	}
	for s := range sites {
		if flagged[s] {
			r.ob++
		} else {
			r.check(true, name+":"+posString(instrPos(s)), "", "")
		}
	}
}

func callName(e *Event) string {
	if e.note != "" {
		return trimMod(e.note)
	}
	return e.kind
}

// hookOpaque makes calls of a function an uninterpreted function of the
// argument values.
func hookOpaque(x *Exec, f *ssa.Function, kind string) {
	if f == nil {
		return
	}
	name := fullName(f)
	x.hooks[name] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		var ra []*Term
		for _, a := range args {
			ra = append(ra, st.reify(a, 0))
		}
		r := opaqueResults(kind, name, f.Signature, ra)
		st.event(&Event{kind: kind, note: name, args: ra, ret: r, ins: ins, fn: ins.Parent()})
		return []Outcome{{st: st, ret: r}}
	}
}

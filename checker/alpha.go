package main

// Bound variables.  Binders carry the number of their variable in aux; the
// numbering is made canonical (one more than the largest binder inside), so
// that equal values are the same term whatever else surrounded them.

import (
	"strconv"
	"strings"
)

// binder returns the number a term binds, or 0.
func binder(t *Term) int {
	switch t.op {
	case "sum":
		return atoi(t.aux[:len(t.aux)-1])
	case "first", "flat", "comp", "mmap", "mover", "fin", "finx", "kx", "lexit", "qsel", "filt":
		return atoi(t.aux)
	}
	return 0
}

// scoped tells whether the i-th argument of a binder is inside its scope.
func scoped(t *Term, i int) bool {
	switch t.op {
	case "sum", "first", "mmap", "qsel", "filt":
		return i == 1
	case "flat", "comp", "mover":
		return i >= 2
	case "fin", "finx", "kx", "lexit":
		return i == 1 || i >= 3 && i%2 == 1
	}
	return false
}

// freeIn: bv v occurs free in t.
func freeIn(t, v *Term) bool {
	n := atoi(v.aux)
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if t == v {
			return true
		}
		if len(t.args) == 0 || seen[t] {
			return false
		}
		seen[t] = true
		b := binder(t) == n
		for i, a := range t.args {
			if b && scoped(t, i) {
				continue
			}
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func maxBinder(memo map[*Term]int, t *Term) int {
	if t == nil || len(t.args) == 0 {
		return 0
	}
	if n, ok := memo[t]; ok {
		return n
	}
	n := binder(t)
	for _, a := range t.args {
		if m := maxBinder(memo, a); m > n {
			n = m
		}
	}
	memo[t] = n
	return n
}

var (
	alphaMemo  = map[*Term]*Term{}
	binderMemo = map[*Term]int{}
)

// alpha renumbers the binders of a closed term.
func alpha(t *Term) *Term {
	memo, mb := alphaMemo, binderMemo
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if t == nil || len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		for i, a := range t.args {
			na[i] = rec(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if k := binder(t); k > 0 {
			m := 0
			for i, a := range na {
				if scoped(t, i) {
					if n := maxBinder(mb, a); n > m {
						m = n
					}
				}
			}
			if m+1 != k {
				for i, a := range na {
					if scoped(t, i) {
						na[i] = renumber(a, k, m+1)
					}
				}
				aux := strconv.Itoa(m + 1)
				if t.op == "sum" {
					aux += t.aux[len(t.aux)-1:]
				}
				r = rebuild(mk(t.op, aux, t.typ, t.args...), na)
				ch = false
			}
		}
		if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func renumber(t *Term, from, to int) *Term {
	m := map[*Term]*Term{bv(from): bv(to)}
	p := strconv.Itoa(from) + "."
	t.any(func(y *Term) bool {
		if y.op == "sv" && strings.HasPrefix(y.aux, p) {
			m[y] = mk("sv", strconv.Itoa(to)+"."+y.aux[len(p):], y.typ)
		}
		return false
	})
	return subst(t, m)
}

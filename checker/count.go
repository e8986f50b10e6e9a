package main

// Counting facts: linear combinations of sums over one common domain, related
// pointwise.  If the summand of one is everywhere at most that of another,
// the bound of the one carries over to the other; a sum of non-negative terms
// known to be zero makes every term zero.

import (
	"sort"
)

type sumBody struct {
	dom  *Term
	body *Poly
	ok   bool
	atom []*Term // indicators in the body
}

var sumBodies = map[*Term]*sumBody{}
var countVar = mk("bvx", "", nil)

func bodyOf(t *Term) *sumBody {
	if b, ok := sumBodies[t]; ok {
		return b
	}
	b := &sumBody{body: &Poly{}}
	sumBodies[t] = b
	p := asPoly(t)
	// the domain is that of the first sum
	for _, m := range p.m {
		if len(m.fac) == 1 && m.fac[0].exp == 1 && m.fac[0].atom.op == "sum" {
			b.dom = m.fac[0].atom.args[0]
			break
		}
	}
	if b.dom == nil {
		return b
	}
	size := domSize(b.dom)
	for _, m := range p.m {
		if len(m.fac) != 1 || m.fac[0].exp != 1 || !m.coef.IsInt() {
			return b
		}
		a := m.fac[0].atom
		switch {
		case a == size:
			b.body = polyAdd(b.body, polyConst(m.coef), 1)
		case a.op == "sum" && a.aux[len(a.aux)-1] == 'I' && a.args[0] == b.dom:
			x := subst(a.args[1], map[*Term]*Term{bv(atoi(a.aux[:len(a.aux)-1])): countVar})
			b.body = polyAdd(b.body, polyMul(polyConst(m.coef), asPoly(x)), 1)
		default:
			return b
		}
	}
	seen := map[*Term]bool{}
	for _, m := range b.body.m {
		if !m.coef.IsInt() {
			return b
		}
		for _, f := range m.fac {
			if f.atom.op != "ind" {
				return b
			}
			if !seen[f.atom] {
				seen[f.atom] = true
				b.atom = append(b.atom, f.atom)
			}
		}
	}
	b.ok = true
	return b
}

// assignments enumerates the consistent truth values of the indicators.
func assignments(atoms []*Term) []map[*Term]bool {
	type group struct {
		x    *Term
		list []*Term
		full bool
	}
	var gs []*group
	by := map[*Term]*group{}
	seen := map[*Term]bool{}
	for _, a := range atoms {
		if seen[a] {
			continue
		}
		seen[a] = true
		if a.aux == "enum" {
			g := by[a.args[0]]
			if g == nil {
				g = &group{x: a.args[0]}
				by[a.args[0]] = g
				gs = append(gs, g)
			}
			g.list = append(g.list, a)
			continue
		}
		gs = append(gs, &group{list: []*Term{a}})
	}
	n := 1
	for _, g := range gs {
		n *= len(g.list) + 1
		if n > 2048 {
			return nil
		}
		if g.x != nil {
			if d := enumDomain(g.x); d != nil && len(d) == len(g.list) {
				g.full = true
			}
		}
	}
	res := []map[*Term]bool{{}}
	for _, g := range gs {
		var next []map[*Term]bool
		for _, r := range res {
			for i := -1; i < len(g.list); i++ {
				if i < 0 && g.full {
					continue
				}
				c := make(map[*Term]bool, len(r)+len(g.list))
				for k, v := range r {
					c[k] = v
				}
				for j, a := range g.list {
					c[a] = i == j
				}
				next = append(next, c)
			}
		}
		res = next
	}
	return res
}

func evalBody(p *Poly, as map[*Term]bool) int64 {
	s := int64(0)
	for _, m := range p.m {
		v := m.coef.Num().Int64()
		for _, f := range m.fac {
			if !as[f.atom] {
				v = 0
				break
			}
		}
		s += v
	}
	return s
}

// countInterval bounds a combination of sums through the facts about other
// combinations over the same domain.
func (f *Facts) countInterval(st *Term) irange {
	b := bodyOf(st)
	if !b.ok {
		return irange{}
	}
	type fact struct {
		b *sumBody
		r irange
		t *Term
	}
	var fs []fact
	atoms := append([]*Term{}, b.atom...)
	for t, r := range f.rng {
		if t == st || t.op != "poly" && t.op != "sum" {
			continue
		}
		c := bodyOf(t)
		if !c.ok || c.dom != b.dom {
			continue
		}
		fs = append(fs, fact{c, r, t})
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].t.id < fs[j].t.id })
	for _, c := range fs {
		atoms = append(atoms, c.b.atom...)
	}
	as := assignments(atoms)
	if as == nil {
		atoms, fs = b.atom, nil
		if as = assignments(atoms); as == nil {
			return irange{}
		}
	}
	// a sum of terms of one sign that is zero: every term is zero
	for _, c := range fs {
		zero := c.r.hasLo && c.r.hasHi && c.r.lo == 0 && c.r.hi == 0
		leZero, geZero := c.r.hasHi && c.r.hi <= 0, c.r.hasLo && c.r.lo >= 0
		if !zero && !leZero && !geZero {
			continue
		}
		pos, neg := false, false
		for _, a := range as {
			if v := evalBody(c.b.body, a); v > 0 {
				pos = true
			} else if v < 0 {
				neg = true
			}
		}
		if leZero && !neg || geZero && !pos {
			var keep []map[*Term]bool
			for _, a := range as {
				if evalBody(c.b.body, a) == 0 {
					keep = append(keep, a)
				}
			}
			as = keep
		}
	}
	for i, c := range fs {
		ge, le := true, true
		for _, a := range as {
			v := evalBody(c.b.body, a)
			ge, le = ge && v >= 0, le && v <= 0
		}
		if ge {
			c.r.meet(irange{lo: 0, hasLo: true})
		}
		if le {
			c.r.meet(irange{hi: 0, hasHi: true})
		}
		c.r.tighten()
		fs[i].r = c.r
	}
	var r irange
	ge, le := true, true
	for _, a := range as {
		v := evalBody(b.body, a)
		if v < 0 {
			ge = false
		}
		if v > 0 {
			le = false
		}
	}
	if ge {
		r.meet(irange{lo: 0, hasLo: true})
	}
	if le {
		r.meet(irange{hi: 0, hasHi: true})
	}
	for _, c := range fs {
		d := [4]bool{true, true, true, true} // b-c>=0, b-c<=0, b+c>=0, b+c<=0
		for _, a := range as {
			x, y := evalBody(b.body, a), evalBody(c.b.body, a)
			if x-y < 0 {
				d[0] = false
			}
			if x-y > 0 {
				d[1] = false
			}
			if x+y < 0 {
				d[2] = false
			}
			if x+y > 0 {
				d[3] = false
			}
		}
		if d[0] && c.r.hasLo {
			r.meet(irange{lo: c.r.lo, hasLo: true})
		}
		if d[1] && c.r.hasHi {
			r.meet(irange{hi: c.r.hi, hasHi: true})
		}
		if d[2] && c.r.hasHi {
			r.meet(irange{lo: -c.r.hi, hasLo: true})
		}
		if d[3] && c.r.hasLo {
			r.meet(irange{hi: -c.r.lo, hasHi: true})
		}
	}
	return r
}

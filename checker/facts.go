package main

// Path facts: the abstract domain of branch conditions (constants and excluded
// constants, integer intervals on linear forms, possible float orderings,
// truth of opaque atoms).  decide/assume are exact table lookups.

import (
	"go/constant"
	"go/types"
	"math/big"
	"sort"
)

type irange struct {
	lo, hi       int64
	hasLo, hasHi bool
	ne           []int64
}

type Facts struct {
	truth map[*Term]bool
	val   map[*Term]*Term
	ne    map[*Term][]*Term
	rng   map[*Term]irange
	ford  map[*Term]int
}

func newFacts() *Facts {
	return &Facts{map[*Term]bool{}, map[*Term]*Term{}, map[*Term][]*Term{}, map[*Term]irange{}, map[*Term]int{}}
}

func (f *Facts) clone() *Facts {
	n := newFacts()
	for k, v := range f.truth {
		n.truth[k] = v
	}
	for k, v := range f.val {
		n.val[k] = v
	}
	for k, v := range f.ne {
		n.ne[k] = v[:len(v):len(v)]
	}
	for k, v := range f.rng {
		v.ne = v.ne[:len(v.ne):len(v.ne)]
		n.rng[k] = v
	}
	for k, v := range f.ford {
		n.ford[k] = v
	}
	return n
}

var enumCache = map[string][]int64{}

// enumDomain returns the declared constants of a repo-defined integer type:
// values of such a type are assumed to be one of them.
func enumDomain(x *Term) []int64 {
	if x.op == "ord" {
		return []int64{oLT, oEQ, oGT, oUN}
	}
	if x.typ == nil {
		return nil
	}
	n, ok := types.Unalias(x.typ).(*types.Named)
	if !ok || !isInt(n) || n.Obj().Pkg() == nil || !isRepoPkg(n.Obj().Pkg().Path()) {
		return nil
	}
	k := typeKey(n)
	if d, ok := enumCache[k]; ok {
		return d
	}
	set := map[int64]bool{}
	sc := n.Obj().Pkg().Scope()
	for _, nm := range sc.Names() {
		if c, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(c.Type(), n) {
			if v, ok := constant.Int64Val(c.Val()); ok {
				set[v] = true
			}
		}
	}
	var d []int64
	for v := range set {
		d = append(d, v)
	}
	sort.Slice(d, func(i, j int) bool { return d[i] < d[j] })
	if len(d) < 2 {
		d = nil
	}
	enumCache[k] = d
	return d
}

func (f *Facts) rangeOfShape(s *Term) irange {
	r, ok := f.rng[s]
	if ok {
		return r
	}
	return atomRange(s)
}

func atomRange(s *Term) irange {
	switch s.op {
	case "len", "k", "cap":
		return irange{lo: 0, hasLo: true}
	case "bv":
		return irange{lo: 0, hasLo: true}
	case "ind":
		return irange{lo: 0, hi: 1, hasLo: true, hasHi: true}
	case "sum":
		if len(s.aux) > 0 && s.aux[len(s.aux)-1] == 'I' && nonneg(s.args[1]) {
			return irange{lo: 0, hasLo: true}
		}
	case "rem":
		if n, ok := s.args[1].intVal(); ok && n > 0 {
			if nonneg(s.args[0]) {
				return irange{lo: 0, hi: n - 1, hasLo: true, hasHi: true}
			}
			return irange{lo: 1 - n, hi: n - 1, hasLo: true, hasHi: true}
		}
	case "filt", "first":
		return irange{lo: 0, hasLo: true}
	case "ext":
		switch s.aux {
		case "strings.Index", "strings.LastIndex", "strings.IndexByte", "strings.LastIndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndexAny":
			return irange{lo: -1, hasLo: true}
		case "strings.Count":
			return irange{lo: 0, hasLo: true}
		}
	}
	if d := enumDomain(s); d != nil {
		r := irange{lo: d[0], hi: d[len(d)-1], hasLo: true, hasHi: true}
		j := 0
		for v := r.lo; v <= r.hi; v++ {
			if j < len(d) && d[j] == v {
				j++
				continue
			}
			r.ne = append(r.ne, v)
		}
		return r
	}
	return irange{}
}

func nonneg(t *Term) bool {
	if r, ok := t.ratVal(); ok {
		return r.Sign() >= 0
	}
	if t.op == "poly" {
		for _, m := range t.poly.m {
			if m.coef.Sign() < 0 {
				return false
			}
			for _, x := range m.fac {
				if !nonneg(x.atom) {
					return false
				}
			}
		}
		return true
	}
	r := atomRange(t)
	return r.hasLo && r.lo >= 0
}

// interval of an integer polynomial
func (f *Facts) interval(p *Poly) irange {
	sh, c := splitConst(p)
	if len(sh.m) == 0 {
		v := c.Num().Int64()
		return irange{lo: v, hi: v, hasLo: true, hasHi: true}
	}
	neg := false
	if sh.m[len(sh.m)-1].coef.Sign() < 0 {
		sh = polyAdd(&Poly{}, sh, -1)
		neg = true
	}
	st := mkPoly(sh, false)
	r := f.rangeOfShape(st)
	r.meet(f.countInterval(st))
	if len(sh.m) > 1 || len(sh.m[0].fac) > 1 || sh.m[0].coef.Cmp(big.NewRat(1, 1)) != 0 {
		r.meet(f.monoInterval(sh))
		// through a known bound of a sub-sum
		if len(sh.m) > 2 {
			for t, tr := range f.rng {
				if t.op != "poly" || t == st || len(t.poly.m) >= len(sh.m) {
					continue
				}
				var ratio *big.Rat
				for _, m := range sh.m {
					if m.key == t.poly.m[0].key {
						ratio = new(big.Rat).Quo(m.coef, t.poly.m[0].coef)
					}
				}
				if ratio == nil || !ratio.IsInt() {
					continue
				}
				rest := polyAdd(sh, polyMul(t.poly, polyConst(ratio)), -1)
				if len(rest.m) != len(sh.m)-len(t.poly.m) {
					continue
				}
				r.meet(f.monoInterval(rest).plus(tr.times(ratio.Num().Int64())))
			}
		}
	}
	r.tighten()
	cv := c.Num().Int64()
	if neg {
		r = irange{lo: -r.hi, hi: -r.lo, hasLo: r.hasHi, hasHi: r.hasLo}
	}
	r.lo += cv
	r.hi += cv
	r.ne = nil
	return r
}

// tighten moves the bounds past excluded values.
func (r *irange) tighten() {
	for ch := true; ch; {
		ch = false
		for _, n := range r.ne {
			if r.hasLo && n == r.lo {
				r.lo++
				ch = true
			}
			if r.hasHi && n == r.hi {
				r.hi--
				ch = true
			}
		}
	}
}

func (r *irange) meet(s irange) {
	if s.hasLo && (!r.hasLo || s.lo > r.lo) {
		r.hasLo, r.lo = true, s.lo
	}
	if s.hasHi && (!r.hasHi || s.hi < r.hi) {
		r.hasHi, r.hi = true, s.hi
	}
}

func (r irange) plus(s irange) irange {
	return irange{lo: r.lo + s.lo, hi: r.hi + s.hi, hasLo: r.hasLo && s.hasLo, hasHi: r.hasHi && s.hasHi}
}

func (r irange) times(k int64) irange {
	if k < 0 {
		return irange{lo: r.hi * k, hi: r.lo * k, hasLo: r.hasHi, hasHi: r.hasLo}
	}
	return irange{lo: r.lo * k, hi: r.hi * k, hasLo: r.hasLo, hasHi: r.hasHi}
}

// monoInterval bounds a polynomial term by term.
func (f *Facts) monoInterval(sh *Poly) irange {
	s := irange{hasLo: true, hasHi: true}
	for _, m := range sh.m {
		if len(m.fac) == 0 && m.coef.IsInt() {
			v := m.coef.Num().Int64()
			s = s.plus(irange{lo: v, hi: v, hasLo: true, hasHi: true})
			continue
		}
		if len(m.fac) != 1 || m.fac[0].exp != 1 || !m.coef.IsInt() {
			all := true
			for _, x := range m.fac {
				if !nonneg(x.atom) {
					all = false
				}
			}
			if all && m.coef.Sign() > 0 {
				s.hasHi = false
			} else if all {
				s.hasLo = false
			} else {
				s.hasLo, s.hasHi = false, false
			}
			continue
		}
		s = s.plus(f.rangeOfShape(m.fac[0].atom).times(m.coef.Num().Int64()))
	}
	return s
}

func shapeOf(p *Poly) (*Term, int64, bool) {
	sh, c := splitConst(p)
	neg := false
	if sh.m[len(sh.m)-1].coef.Sign() < 0 {
		sh = polyAdd(&Poly{}, sh, -1)
		neg = true
	}
	return mkPoly(sh, false), c.Num().Int64(), neg
}

func (f *Facts) decide(c *Term) (bool, bool) {
	switch c {
	case tTrue:
		return true, true
	case tFalse:
		return false, true
	}
	switch c.op {
	case "not":
		v, ok := f.decide(c.args[0])
		return !v, ok
	case "le0":
		r := f.interval(asPoly(c.args[0]))
		if r.hasHi && r.hi <= 0 {
			return true, true
		}
		if r.hasLo && r.lo > 0 {
			return false, true
		}
		return false, false
	case "eq0":
		p := asPoly(c.args[0])
		r := f.interval(p)
		if (r.hasHi && r.hi < 0) || (r.hasLo && r.lo > 0) {
			return false, true
		}
		if r.hasHi && r.hasLo && r.lo == 0 && r.hi == 0 {
			return true, true
		}
		s, k, _ := shapeOf(p)
		for _, n := range f.rangeOfShape(s).ne {
			if n+k == 0 {
				return false, true
			}
		}
		return false, false
	case "fcmp":
		m := f.fordOf(c.args[0], c.args[1])
		k := atoi(c.aux)
		if m&^k == 0 {
			return true, true
		}
		if m&k == 0 {
			return false, true
		}
		return false, false
	case "eq":
		a, b := c.args[0], c.args[1]
		if b.isConst() {
			if v, ok := f.val[a]; ok {
				return v == b, true
			}
			for _, n := range f.ne[a] {
				if n == b {
					return false, true
				}
			}
			if a.op == "dyn" && b != tNil {
				// a value of a sealed interface cannot hold other types
			}
			return false, false
		}
		va, ok1 := f.val[a]
		vb, ok2 := f.val[b]
		if ok1 && ok2 {
			return va == vb, true
		}
		if ok1 {
			return f.decide(mkEq(b, va))
		}
		if ok2 {
			return f.decide(mkEq(a, vb))
		}
	case "implements":
		if v, ok := f.val[c.args[0]]; ok {
			if v == tNil {
				return false, true
			}
			if t := v.typeVal(); t != nil {
				if it, ok := typeByKey[c.aux].Underlying().(*types.Interface); ok {
					return types.Implements(t, it), true
				}
			}
		}
	}
	v, ok := f.truth[c]
	return v, ok
}

func (f *Facts) fordOf(a, b *Term) int {
	o := mk("ord", "", nil, a, b)
	if m, ok := f.ford[o]; ok {
		return m
	}
	return 15
}

// assume adds c == val; false means the path is infeasible.
func (f *Facts) assume(c *Term, val bool) bool {
	if v, ok := f.decide(c); ok {
		return v == val
	}
	switch c.op {
	case "not":
		return f.assume(c.args[0], !val)
	case "le0":
		s, k, neg := shapeOf(asPoly(c.args[0]))
		r := f.rangeOfShape(s)
		// value = ±s + k
		if neg == val { // val: -s+k<=0 → s>=k ; !val && !neg: s+k>=1 → s>=1-k
			lo := k
			if !neg {
				lo = 1 - k
			}
			if !r.hasLo || lo > r.lo {
				r.hasLo, r.lo = true, lo
			}
		} else { // val && !neg: s<=-k ; !val && neg: -s+k>=1 → s<=k-1
			hi := -k
			if neg {
				hi = k - 1
			}
			if !r.hasHi || hi < r.hi {
				r.hasHi, r.hi = true, hi
			}
		}
		return f.setRange(s, r)
	case "eq0":
		s, k, neg := shapeOf(asPoly(c.args[0]))
		v := -k
		if neg {
			v = k
		}
		r := f.rangeOfShape(s)
		if val {
			r.lo, r.hi, r.hasLo, r.hasHi = v, v, true, true
		} else {
			r.ne = append(r.ne[:len(r.ne):len(r.ne)], v)
		}
		return f.setRange(s, r)
	case "fcmp":
		k := atoi(c.aux)
		if !val {
			k = 15 ^ k
		}
		m := f.fordOf(c.args[0], c.args[1]) & k
		f.ford[mk("ord", "", nil, c.args[0], c.args[1])] = m
		return m != 0
	case "eq":
		a, b := c.args[0], c.args[1]
		if b.isConst() {
			if val {
				f.val[a] = b
			} else {
				f.ne[a] = append(f.ne[a][:len(f.ne[a]):len(f.ne[a])], b)
			}
			return true
		}
	}
	f.truth[c] = val
	return true
}

func (f *Facts) setRange(s *Term, r irange) bool {
	for ch := true; ch; {
		ch = false
		for _, n := range r.ne {
			if r.hasLo && n == r.lo {
				r.lo++
				ch = true
			}
			if r.hasHi && n == r.hi {
				r.hi--
				ch = true
			}
		}
		if r.hasLo && r.hasHi && r.lo > r.hi {
			return false
		}
	}
	f.rng[s] = r
	return true
}

package main

// Hash-consed value terms.  A term names the value an SSA register or a memory
// cell holds as a function of the analysed entry point's inputs (the Herbrand
// domain of value numbering), kept in a normal form so that differently
// written computations of the same value get the same term.

import (
	"fmt"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	op   string
	aux  string
	args []*Term
	id   int
	typ  types.Type
	poly *Poly // for op "poly"
	flt  bool  // for op "poly": floating point
	fn   any   // *ssa.Function for op "fn"/"closure"
}

var (
	internTab = map[string]*Term{}
	termCount int
)

func mk(op, aux string, typ types.Type, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte(0)
	b.WriteString(aux)
	for _, a := range args {
		b.WriteByte(0)
		b.WriteString(strconv.Itoa(a.id))
	}
	key := b.String()
	if t, ok := internTab[key]; ok {
		if t.typ == nil {
			t.typ = typ
		}
		return t
	}
	termCount++
	t := &Term{op: op, aux: aux, args: args, id: termCount, typ: typ}
	internTab[key] = t
	return t
}

// ---------------------------------------------------------------- constants

func cInt(n int64) *Term      { return mk("const", "i:"+strconv.FormatInt(n, 10), nil) }
func cBig(r *big.Rat) *Term   { return mk("const", "i:"+r.Num().String(), nil) }
func cFloat(r *big.Rat) *Term { return mk("const", "f:"+r.RatString(), nil) }
func cStr(s string) *Term     { return mk("const", "s:"+s, nil) }
func cBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

var (
	tTrue  = mk("const", "b:true", nil)
	tFalse = mk("const", "b:false", nil)
	tNil   = mk("const", "nil", nil)
)

func (t *Term) isConst() bool { return t.op == "const" }
func (t *Term) intVal() (int64, bool) {
	if t.op == "const" && strings.HasPrefix(t.aux, "i:") {
		n, err := strconv.ParseInt(t.aux[2:], 10, 64)
		return n, err == nil
	}
	return 0, false
}
func (t *Term) strVal() (string, bool) {
	if t.op == "const" && strings.HasPrefix(t.aux, "s:") {
		return t.aux[2:], true
	}
	return "", false
}
func (t *Term) ratVal() (*big.Rat, bool) {
	if t.op == "const" && (strings.HasPrefix(t.aux, "i:") || strings.HasPrefix(t.aux, "f:")) {
		r, ok := new(big.Rat).SetString(t.aux[2:])
		return r, ok
	}
	return nil, false
}
func (t *Term) isFloatConst() bool { return t.op == "const" && strings.HasPrefix(t.aux, "f:") }

// ---------------------------------------------------------------- polynomials

type factor struct {
	atom *Term
	exp  int
}
type mono struct {
	coef *big.Rat
	fac  []factor
	key  string
}
type Poly struct{ m []mono }

func monoKey(f []factor) string {
	var b strings.Builder
	for _, x := range f {
		fmt.Fprintf(&b, "%d^%d.", x.atom.id, x.exp)
	}
	return b.String()
}

func polyConst(r *big.Rat) *Poly {
	if r.Sign() == 0 {
		return &Poly{}
	}
	return &Poly{m: []mono{{coef: r}}}
}

func asPoly(t *Term) *Poly {
	if t.op == "poly" {
		return t.poly
	}
	if r, ok := t.ratVal(); ok {
		return polyConst(r)
	}
	f := []factor{{t, 1}}
	return &Poly{m: []mono{{coef: big.NewRat(1, 1), fac: f, key: monoKey(f)}}}
}

func polyNorm(in []mono) *Poly {
	by := map[string]*mono{}
	var keys []string
	for _, m := range in {
		m := m
		if e, ok := by[m.key]; ok {
			e.coef = new(big.Rat).Add(e.coef, m.coef)
		} else {
			by[m.key] = &m
			keys = append(keys, m.key)
		}
	}
	sort.Strings(keys)
	p := &Poly{}
	for _, k := range keys {
		if by[k].coef.Sign() != 0 && !negligible(by[k].coef) {
			p.m = append(p.m, *by[k])
		}
	}
	return p
}

// negligible drops the residue of cancelling two float constants that differ
// only by rounding.
func negligible(r *big.Rat) bool {
	if r.IsInt() {
		return false
	}
	f, _ := r.Float64()
	return f < 1e-18 && f > -1e-18 && f != 0 && r.Denom().BitLen() > 100
}

func polyAdd(a, b *Poly, sb int64) *Poly {
	l := append([]mono{}, a.m...)
	s := big.NewRat(sb, 1)
	for _, m := range b.m {
		m.coef = new(big.Rat).Mul(m.coef, s)
		l = append(l, m)
	}
	return polyNorm(l)
}

func isIndicator(t *Term) bool { return t.op == "ind" }

func mulFactors(a, b []factor) ([]factor, bool) {
	ex := map[*Term]int{}
	var l []*Term
	for _, x := range append(append([]factor{}, a...), b...) {
		if _, ok := ex[x.atom]; !ok {
			l = append(l, x.atom)
		}
		ex[x.atom] += x.exp
	}
	sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
	var r []factor
	enum := map[*Term]*Term{}
	for _, t := range l {
		if ex[t] == 0 {
			continue
		}
		e := ex[t]
		if isIndicator(t) {
			e = 1
			if t.aux == "enum" {
				if o, ok := enum[t.args[0]]; ok && o != t {
					return nil, false // two different values of one variable
				}
				enum[t.args[0]] = t
			}
		}
		r = append(r, factor{t, e})
	}
	return r, true
}

func polyMul(a, b *Poly) *Poly {
	var l []mono
	for _, x := range a.m {
		for _, y := range b.m {
			f, ok := mulFactors(x.fac, y.fac)
			if !ok {
				continue
			}
			l = append(l, mono{coef: new(big.Rat).Mul(x.coef, y.coef), fac: f, key: monoKey(f)})
		}
	}
	return polyNorm(l)
}

func coefKey(r *big.Rat, flt bool) string {
	if !flt || (r.IsInt() && r.Num().BitLen() < 60) {
		return r.RatString()
	}
	f, _ := r.Float64()
	return strconv.FormatFloat(f, 'e', 11, 64)
}

func mkPoly(p *Poly, flt bool) *Term {
	if len(p.m) == 0 {
		if flt {
			return cFloat(new(big.Rat))
		}
		return cInt(0)
	}
	if len(p.m) == 1 {
		m := p.m[0]
		if len(m.fac) == 0 {
			if flt {
				return cFloat(m.coef)
			}
			return cBig(m.coef)
		}
		if len(m.fac) == 1 && m.fac[0].exp == 1 && m.coef.Cmp(big.NewRat(1, 1)) == 0 {
			return m.fac[0].atom
		}
	}
	var b strings.Builder
	if flt {
		b.WriteString("F")
	} else {
		b.WriteString("I")
	}
	seen := map[*Term]bool{}
	var args []*Term
	for _, m := range p.m {
		b.WriteString(coefKey(m.coef, flt))
		b.WriteByte('*')
		b.WriteString(m.key)
		b.WriteByte('+')
		for _, f := range m.fac {
			if !seen[f.atom] {
				seen[f.atom] = true
				args = append(args, f.atom)
			}
		}
	}
	t := mk("poly", b.String(), nil, args...)
	if t.poly == nil {
		t.poly = p
		t.flt = flt
	}
	return t
}

func tAdd(a, b *Term, flt bool) *Term { return mkPoly(polyAdd(asPoly(a), asPoly(b), 1), flt) }
func tSub(a, b *Term, flt bool) *Term { return mkPoly(polyAdd(asPoly(a), asPoly(b), -1), flt) }
func tMul(a, b *Term, flt bool) *Term { return mkPoly(polyMul(asPoly(a), asPoly(b)), flt) }
func tNeg(a *Term, flt bool) *Term    { return mkPoly(polyAdd(&Poly{}, asPoly(a), -1), flt) }

func tInv(a *Term) *Term {
	p := asPoly(a)
	if len(p.m) == 0 {
		return mk("inv0", "", nil)
	}
	if len(p.m) == 1 {
		m := p.m[0]
		var f []factor
		ok := true
		for _, x := range m.fac {
			if isIndicator(x.atom) {
				ok = false
			}
			f = append(f, factor{x.atom, -x.exp})
		}
		if ok {
			return mkPoly(&Poly{m: []mono{{coef: new(big.Rat).Inv(m.coef), fac: f, key: monoKey(f)}}}, true)
		}
	}
	lead := p.m[len(p.m)-1].coef
	c := new(big.Rat).Inv(lead)
	monic := mkPoly(polyMul(p, polyConst(c)), true)
	iv := mk("inv", "", nil, monic)
	return tMul(cFloat(c), iv, true)
}
func tDiv(a, b *Term) *Term { return tMul(a, tInv(b), true) }

// tIte is the arithmetic if-then-else over an indicator.
func tIteNum(g *Poly, a, b *Term, flt bool) *Term {
	one := polyConst(big.NewRat(1, 1))
	return mkPoly(polyAdd(polyMul(g, asPoly(a)), polyMul(polyAdd(one, g, -1), asPoly(b)), 1), flt)
}

// ---------------------------------------------------------------- strings

func tCat(parts ...*Term) *Term {
	var l []*Term
	for _, p := range parts {
		if p.op == "cat" {
			l = append(l, p.args...)
		} else {
			l = append(l, p)
		}
	}
	var r []*Term
	for _, p := range l {
		if s, ok := p.strVal(); ok {
			if s == "" {
				continue
			}
			if len(r) > 0 {
				if s0, ok := r[len(r)-1].strVal(); ok {
					r[len(r)-1] = cStr(s0 + s)
					continue
				}
			}
		}
		r = append(r, p)
	}
	switch len(r) {
	case 0:
		return cStr("")
	case 1:
		return r[0]
	}
	return mk("cat", "", types.Typ[types.String], r...)
}

// ---------------------------------------------------------------- walking

// String prints a term, up to a bound: terms share parts, and written out in
// full they can be exponentially long.
func (t *Term) String() string {
	printBudget = 3000
	if os.Getenv("VERIF_DEBUG") != "" {
		printBudget = 100000
	}
	return t.str(0)
}

var printBudget int

func shortName(s string) string {
	if i := strings.LastIndex(s, "/"); i >= 0 && !strings.Contains(s, "\x00") {
		// keep a leading * or (
		pre := ""
		for len(s) > 0 && (s[0] == '*' || s[0] == '(' || s[0] == '[' || s[0] == ']') {
			pre += s[:1]
			s = s[1:]
			i--
		}
		if i >= 0 {
			return pre + s[i+1:]
		}
		return pre + s
	}
	return s
}

func (t *Term) str(d int) string {
	printBudget--
	if d > 24 || printBudget < 0 {
		return "…"
	}
	join := func(l []*Term) string {
		var s []string
		for _, a := range l {
			s = append(s, a.str(d+1))
		}
		return strings.Join(s, ", ")
	}
	switch t.op {
	case "const":
		if strings.HasPrefix(t.aux, "s:") {
			return strconv.Quote(t.aux[2:])
		}
		if strings.HasPrefix(t.aux, "f:") {
			r, _ := t.ratVal()
			f, _ := r.Float64()
			return strconv.FormatFloat(f, 'g', -1, 64) + "f"
		}
		return strings.TrimPrefix(strings.TrimPrefix(t.aux, "i:"), "b:")
	case "poly":
		var s []string
		for _, m := range t.poly.m {
			var x []string
			f, _ := m.coef.Float64()
			if f != 1 || len(m.fac) == 0 {
				x = append(x, strconv.FormatFloat(f, 'g', 6, 64))
			}
			for _, fc := range m.fac {
				if fc.exp == 1 {
					x = append(x, fc.atom.str(d+1))
				} else {
					x = append(x, fmt.Sprintf("%s^%d", fc.atom.str(d+1), fc.exp))
				}
			}
			s = append(s, strings.Join(x, "·"))
		}
		return "(" + strings.Join(s, " + ") + ")"
	case "param":
		return t.aux
	case "init":
		return "*" + t.args[0].str(d+1)
	case "faddr":
		return t.args[0].str(d+1) + "." + fieldLabel(t)
	case "iaddr":
		return t.args[0].str(d+1) + "[" + t.args[1].str(d+1) + "]"
	case "field":
		return t.args[0].str(d+1) + "." + t.aux
	}
	if len(t.args) == 0 {
		if t.aux == "" {
			return t.op
		}
		return t.op + "{" + shortName(t.aux) + "}"
	}
	if t.aux == "" {
		return t.op + "(" + join(t.args) + ")"
	}
	return t.op + "{" + shortName(t.aux) + "}(" + join(t.args) + ")"
}

var faddrLabels = map[*Term]string{}

func fieldLabel(t *Term) string {
	if l, ok := faddrLabels[t]; ok {
		return l
	}
	return "#" + t.aux
}

// any reports whether some subterm satisfies f.
func (t *Term) any(f func(*Term) bool) bool {
	seen := map[*Term]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if f(t) {
			return true
		}
		for _, a := range t.args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) contains(x *Term) bool { return t.any(func(y *Term) bool { return y == x }) }

var loopDepMemo = map[[2]any]bool{}

// dependsOn reports whether t mentions an iteration-local name of the loop.
func (t *Term) dependsOn(loop string) bool {
	k := [2]any{t.id, loop}
	if v, ok := loopDepMemo[k]; ok {
		return v
	}
	v := false
	switch t.op {
	case "k", "mkey", "more":
		v = t.aux == loop || strings.HasPrefix(t.aux, loop+"|")
	case "lv", "lvo", "alloc", "fresh":
		v = strings.HasPrefix(t.aux, loop+"|")
	}
	if !v {
		for _, a := range t.args {
			if a.dependsOn(loop) {
				v = true
				break
			}
		}
	}
	loopDepMemo[k] = v
	return v
}

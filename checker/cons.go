package main

// Smart constructors for structured and boolean terms, substitution.

import (
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- types

var typeByKey = map[string]types.Type{}

func typeKey(t types.Type) string {
	k := types.TypeString(t, func(p *types.Package) string { return p.Path() })
	if _, ok := typeByKey[k]; !ok {
		typeByKey[k] = t
	}
	return k
}

func tType(t types.Type) *Term { return mk("const", "T:"+typeKey(t), nil) }
func (t *Term) typeVal() types.Type {
	if t.op == "const" && strings.HasPrefix(t.aux, "T:") {
		return typeByKey[t.aux[2:]]
	}
	return nil
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isStruct(t types.Type) (*types.Struct, bool) {
	s, ok := t.Underlying().(*types.Struct)
	return s, ok
}
func isIface(t types.Type) bool { _, ok := t.Underlying().(*types.Interface); return ok }
func isMap(t types.Type) bool   { _, ok := t.Underlying().(*types.Map); return ok }
func isSlice(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

// ---------------------------------------------------------------- structs

func tStruct(typ types.Type, fields []*Term) *Term {
	// eta: a struct of all fields of one symbolic value is that value
	if len(fields) > 0 {
		var base *Term
		ok := true
		for i, f := range fields {
			var b *Term
			if f.op == "field" && f.aux == strconv.Itoa(i) {
				b = f.args[0]
			} else if f.op == "init" && f.args[0].op == "faddr" && f.args[0].aux == strconv.Itoa(i) {
				b = mk("init", "", typ, f.args[0].args[0])
			} else {
				ok = false
				break
			}
			if base == nil {
				base = b
			} else if base != b {
				ok = false
				break
			}
		}
		if ok && base != nil && base.typ != nil && types.Identical(base.typ.Underlying(), typ.Underlying()) {
			return base
		}
	}
	return mk("struct", typeKey(typ.Underlying()), typ, fields...)
}

func tField(x *Term, i int, typ types.Type) *Term {
	switch x.op {
	case "struct":
		return x.args[i]
	case "init":
		return tInit(tFaddr(x.args[0], i), typ)
	case "zero":
		return tZero(typ)
	case "mget":
		// a map of structs is one map per field
		if c := mapValues(x.args[0], func(v *Term) *Term { return tField(v, i, typ) }); c != nil && c.op == "fin" {
			return staticGet(c, x.args[1], typ)
		}
	}
	return mk("field", strconv.Itoa(i), typ, x)
}

// mapValues applies f to the values a map is built from; nil unless every
// entry is known and no entry depends on the map built so far.
func mapValues(c *Term, f func(v *Term) *Term) *Term {
	var rec func(c, sv *Term) *Term
	rec = func(c, sv *Term) *Term {
		switch {
		case c == mEmpty || c == tNil || sv != nil && c == sv:
			return c
		case c.op == "mset":
			b := rec(c.args[0], sv)
			if b == nil || sv != nil && (c.args[1].contains(sv) || c.args[2].contains(sv)) {
				return nil
			}
			return mk("mset", "", nil, b, c.args[1], f(c.args[2]))
		case c.op == "cases":
			var cs []gval
			for i := 0; i+1 < len(c.args); i += 2 {
				b := rec(c.args[i+1], sv)
				if b == nil || sv != nil && c.args[i].contains(sv) {
					return nil
				}
				cs = append(cs, gval{asPoly(c.args[i]), b})
			}
			return combine(cs, nil, nil)
		case c.op == "fin" && len(c.args) == 4 && c.args[1] == tNil && sv == nil:
			in := svOf(c.aux, c.args[3])
			base := rec(c.args[2], nil)
			if base == nil || in == nil {
				return nil
			}
			step := rec(c.args[3], in)
			if step == nil {
				return nil
			}
			return tFin(bvOf(c), nil, []*Term{c.args[0], c.args[1], base, step})
		}
		return nil
	}
	return rec(c, nil)
}

// tHas is the condition that a map has a key.
func tHas(c, k *Term) *Term {
	if c.op == "fin" {
		// the values do not matter
		if e := mapValues(c, func(*Term) *Term { return tNil }); e != nil {
			c = e
		}
	}
	return mk("has", "", nil, c, k)
}

func tZero(typ types.Type) *Term {
	switch u := typ.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return cStr("")
		case u.Info()&types.IsFloat != 0:
			return cFloat(new(big.Rat))
		case u.Info()&types.IsInteger != 0:
			return cInt(0)
		}
		return tNil
	case *types.Struct:
		var f []*Term
		for i := 0; i < u.NumFields(); i++ {
			f = append(f, tZero(u.Field(i).Type()))
		}
		return tStruct(typ, f)
	case *types.Array:
		return mk("zero", typeKey(typ), typ)
	}
	return tNil
}

// ---------------------------------------------------------------- memory names

func tFaddr(b *Term, i int) *Term { return mk("faddr", strconv.Itoa(i), nil, b) }
func tIaddr(b, i *Term) *Term {
	if b.op == "slice" {
		return tIaddr(b.args[0], tAdd(b.args[1], i, false))
	}
	return mk("iaddr", "", nil, b, i)
}
func tInit(a *Term, typ types.Type) *Term {
	if v := staticAt(a, typ); v != nil {
		return v
	}
	return mk("init", "", typ, a)
}

func addrRoot(a *Term) *Term {
	for a.op == "faddr" || a.op == "iaddr" {
		a = a.args[0]
	}
	return a
}

// staticAt resolves an address inside an immutable list value.
func staticAt(a *Term, typ types.Type) *Term {
	switch a.op {
	case "faddr":
		if v := staticAt(a.args[0], nil); v != nil {
			i, _ := strconv.Atoi(a.aux)
			return tField(v, i, typ)
		}
	case "iaddr":
		return listAt(a.args[0], a.args[1], nil)
	case "ref":
		return a.args[0]
	}
	return nil
}

// listAt returns the element of a list value, or nil if the list is symbolic
// or the position cannot be decided.
func listAt(s, i *Term, st *State) *Term {
	switch s.op {
	case "app":
		n := tLen(s.args[0])
		d := tSub(i, n, false)
		if v, ok := d.intVal(); ok {
			if v == 0 {
				return s.args[1]
			}
			if v < 0 {
				return listElem(s.args[0], i, st)
			}
			return nil
		}
		if st != nil {
			if v, ok := st.f.decide(tEqInt(d, cInt(0))); ok && v {
				return s.args[1]
			}
			if v, ok := st.f.decide(tLe0(tAdd(d, cInt(1), false))); ok && v {
				return listElem(s.args[0], i, st)
			}
		}
	case "appS":
		n := tLen(s.args[0])
		if v, ok := n.intVal(); ok && v == 0 {
			return listElem(s.args[1], i, st)
		}
		d := tSub(i, n, false)
		if st != nil {
			if v, ok := st.f.decide(tLe0(tAdd(d, cInt(1), false))); ok {
				if v {
					return listElem(s.args[0], i, st)
				}
				return listElem(s.args[1], d, st)
			}
		}
	case "comp":
		// comp(base, N, body, guard)
		if v, ok := tLen(s.args[0]).intVal(); ok && v == 0 {
			idx := i
			if s.args[3] != cInt(1) {
				idx = mk("filt", s.aux, types.Typ[types.Int], s.args[1], s.args[3], i)
			}
			return instBV(s.args[2], bvOf(s), idx)
		}
	}
	return nil
}

func listElem(s, i *Term, st *State) *Term {
	if v := listAt(s, i, st); v != nil {
		return v
	}
	if s.op == "app" || s.op == "appS" || s.op == "comp" || s.op == "const" {
		return nil
	}
	var et types.Type
	if s.typ != nil {
		if sl, ok := s.typ.Underlying().(*types.Slice); ok {
			et = sl.Elem()
		}
	}
	if et == nil {
		return nil
	}
	a := tIaddr(s, i)
	if st != nil {
		return st.load(a, et)
	}
	return tInit(a, et)
}

func tLen(s *Term) *Term {
	switch s.op {
	case "const":
		if v, ok := s.strVal(); ok {
			return cInt(int64(len(v)))
		}
		if s == tNil {
			return cInt(0)
		}
	case "slice":
		return s.args[2]
	case "app":
		return tAdd(tLen(s.args[0]), cInt(1), false)
	case "appS":
		return tAdd(tLen(s.args[0]), tLen(s.args[1]), false)
	case "comp":
		return tAdd(tLen(s.args[0]), tSum(s.args[1], s.args[3], bvOf(s), false), false)
	case "flat":
		return tAdd(tLen(s.args[0]), tSum(s.args[1], tMul(s.args[3], tLen(s.args[2]), false), bvOf(s), false), false)
	}
	return mk("len", "", types.Typ[types.Int], s)
}

// ---------------------------------------------------------------- bound variables

func bv(n int) *Term { return mk("bv", strconv.Itoa(n), types.Typ[types.Int]) }
func maxBV(ts ...*Term) int {
	m := 0
	for _, t := range ts {
		t.any(func(x *Term) bool {
			if x.op == "bv" {
				n, _ := strconv.Atoi(x.aux)
				if n > m {
					m = n
				}
			}
			return false
		})
	}
	return m
}

// binders carry their bound variable's number in aux
func bvOf(t *Term) *Term {
	n, _ := strconv.Atoi(t.aux)
	return bv(n)
}
func instBV(body, v, x *Term) *Term { return subst(body, map[*Term]*Term{v: x}) }

// tSum is the sum over # in [0,N) (or over the keys of map content N) of body.
// v is the bound variable.
// keysOf is the domain without what the map holds: only its keys matter.
func keysOf(dom *Term) *Term {
	if dom.op != "mapdom" {
		return dom
	}
	if c := dom.args[0]; c.op == "fin" {
		if e := mapValues(c, func(*Term) *Term { return tNil }); e != nil {
			return mk("mapdom", "", nil, e)
		}
	}
	return dom
}

func tSum(dom, body, v *Term, flt bool) *Term {
	dom = keysOf(dom)
	if a, y, n, b := concatSplit(dom, v, body); b != nil {
		return tAdd(tSum(n, a, v, flt), tSum(tLen(y), b, v, flt), flt)
	}
	if d, b, g, w := unfilter(dom, v, body); d != nil {
		return tSum(d, mkPoly(polyMul(asPoly(g), asPoly(b)), flt), w, flt)
	}
	p := asPoly(body)
	res := &Poly{}
	one := big.NewRat(1, 1)
	for _, m := range p.m {
		var in, out []factor
		for _, f := range m.fac {
			if freeIn(f.atom, v) {
				in = append(in, f)
			} else {
				out = append(out, f)
			}
		}
		var s *Term
		if len(in) == 0 {
			s = domSize(dom)
			if flt {
				s = tConvF(s)
			}
		} else {
			b := mkPoly(&Poly{m: []mono{{coef: one, fac: in, key: monoKey(in)}}}, flt)
			kind := "I"
			if flt {
				kind = "F"
			}
			s = mk("sum", v.aux+kind, nil, dom, b)
		}
		c := &Poly{m: []mono{{coef: m.coef, fac: out, key: monoKey(out)}}}
		res = polyAdd(res, polyMul(c, asPoly(s)), 1)
	}
	return mkPoly(res, flt)
}

// unfilter turns a body over the elements of a filtered list into one over
// all elements: it returns the domain, the body, the filter and the variable.
func unfilter(dom, v, body *Term) (d, b, g, w *Term) {
	var f *Term
	body.any(func(t *Term) bool {
		if t.op == "filt" && t.args[2] == v && f == nil {
			f = t
		}
		return f != nil
	})
	if f == nil || alpha(tSum(f.args[0], f.args[1], bvOf(f), false)) != alpha(domSize(dom)) {
		return
	}
	w = bv(maxBV(dom, body, v) + 1)
	nb := subst(body, map[*Term]*Term{f: w})
	if freeIn(nb, v) {
		return nil, nil, nil, nil
	}
	return f.args[0], nb, instBV(f.args[1], bvOf(f), w), w
}

func domSize(dom *Term) *Term {
	if dom.op == "mapdom" {
		return mk("len", "", types.Typ[types.Int], dom.args[0])
	}
	return dom
}

// tConvF converts an integer term to float64, linearly.
func tConvF(t *Term) *Term {
	if r, ok := t.ratVal(); ok {
		return cFloat(r)
	}
	if t.op == "poly" {
		res := &Poly{}
		for _, m := range t.poly.m {
			x := polyConst(m.coef)
			for _, f := range m.fac {
				a := asPoly(tConvF(f.atom))
				for i := 0; i < f.exp; i++ {
					x = polyMul(x, a)
				}
			}
			res = polyAdd(res, x, 1)
		}
		return mkPoly(res, true)
	}
	if t.op == "ind" {
		return t
	}
	if t.op == "sum" && strings.HasSuffix(t.aux, "I") {
		v := bv(atoi(strings.TrimSuffix(t.aux, "I")))
		return tSum(t.args[0], tConvF(t.args[1]), v, true)
	}
	return mk("conv", "float64", types.Typ[types.Float64], t)
}

func basicByName(n string) *types.Basic {
	for _, b := range types.Typ {
		if b.Name() == n {
			return b
		}
	}
	return nil
}

func intSize(b *types.Basic) (bits int, signed bool) {
	return int(types.SizesFor("gc", "amd64").Sizeof(b)) * 8, b.Info()&types.IsUnsigned == 0
}

// composes: converting a to b and then to c is converting a to c.
func composes(a, b, c *types.Basic) bool {
	isI := func(x *types.Basic) bool { return x.Info()&types.IsInteger != 0 }
	if isI(a) && isI(b) {
		an, as := intSize(a)
		bn, bs := intSize(b)
		if as == bs && an <= bn || !as && bs && an < bn {
			return true // b holds every a
		}
		if isI(c) {
			cn, _ := intSize(c)
			return bn >= cn // arithmetic modulo 2^n
		}
	}
	return a.Kind() == types.Float32 && b.Kind() == types.Float64
}

func atoi(s string) int { n, _ := strconv.Atoi(s); return n }

func tConv(x *Term, from, to types.Type) *Term {
	fb, ok1 := from.Underlying().(*types.Basic)
	tb, ok2 := to.Underlying().(*types.Basic)
	if !ok1 || !ok2 {
		return mk("conv", typeKey(to.Underlying()), to, x)
	}
	if fb.Kind() == tb.Kind() {
		return x
	}
	fb, tb = types.Typ[fb.Kind()], types.Typ[tb.Kind()]
	fi, ti := fb.Info(), tb.Info()
	if fi&types.IsString != 0 && ti&types.IsString != 0 {
		return x
	}
	if r, ok := x.ratVal(); ok {
		switch {
		case ti&types.IsFloat != 0:
			return cFloat(r)
		case ti&types.IsInteger != 0 && r.IsInt():
			return cBig(r)
		}
	}
	// a conversion that follows one that kept the value is one conversion
	if x.op == "conv" && len(x.args) == 1 {
		if a, b, ok := strings.Cut(x.aux, ">"); ok && b == fb.Name() {
			if ab := basicByName(a); ab != nil && composes(ab, fb, tb) {
				return tConv(x.args[0], ab, to)
			}
		}
	}
	if fi&types.IsInteger != 0 && tb.Kind() == types.Float64 && fb.Kind() == types.Int {
		return tConvF(x)
	}
	return mk("conv", fb.Name()+">"+tb.Name(), to, x)
}

// ---------------------------------------------------------------- booleans

func tNot(x *Term) *Term {
	switch x {
	case tTrue:
		return tFalse
	case tFalse:
		return tTrue
	}
	if x.op == "not" {
		return x.args[0]
	}
	if x.op == "fcmp" {
		return tFcmpMask(15^atoi(x.aux), x.args[0], x.args[1])
	}
	return mk("not", "", nil, x)
}

const (
	oLT = 1
	oEQ = 2
	oGT = 4
	oUN = 8
)

// tFcmpMask: the float ordering of a and b is one of the set mask.
func tFcmpMask(mask int, a, b *Term) *Term {
	ra, ok1 := a.ratVal()
	rb, ok2 := b.ratVal()
	if ok1 && ok2 {
		var o int
		switch ra.Cmp(rb) {
		case -1:
			o = oLT
		case 0:
			o = oEQ
		default:
			o = oGT
		}
		return cBool(mask&o != 0)
	}
	if mask == 0 {
		return tFalse
	}
	if mask == 15 {
		return tTrue
	}
	if ok1 || (!ok2 && a.id > b.id) {
		a, b = b, a
		m := mask & (oEQ | oUN)
		if mask&oLT != 0 {
			m |= oGT
		}
		if mask&oGT != 0 {
			m |= oLT
		}
		mask = m
	}
	return mk("fcmp", strconv.Itoa(mask), nil, a, b)
}

// sign-normalised integer polynomial: leading (last) non-constant coefficient positive
func splitConst(p *Poly) (shape *Poly, c *big.Rat) {
	c = new(big.Rat)
	shape = &Poly{}
	for _, m := range p.m {
		if len(m.fac) == 0 {
			c = m.coef
		} else {
			shape.m = append(shape.m, m)
		}
	}
	return
}

// tLe0: integer p <= 0
func tLe0(p *Term) *Term {
	if r, ok := p.ratVal(); ok {
		return cBool(r.Sign() <= 0)
	}
	sh, c := splitConst(asPoly(p))
	if sh.m[len(sh.m)-1].coef.Sign() < 0 {
		q := tSub(cInt(1), p, false)
		return tNot(tLe0(q))
	}
	s := mkPoly(sh, false)
	low := new(big.Rat)
	if !nonneg(s) {
		r := atomRange(s)
		if !r.hasLo {
			return mk("le0", "", nil, p)
		}
		low.SetInt64(r.lo)
	}
	switch new(big.Rat).Add(c, low).Sign() { // what p is at least
	case 1:
		return tFalse
	case 0:
		return tEqInt(p, cInt(0))
	}
	return mk("le0", "", nil, p)
}

func tEqInt(a, b *Term) *Term {
	p := tSub(a, b, false)
	if r, ok := p.ratVal(); ok {
		return cBool(r.Sign() == 0)
	}
	sh, c := splitConst(asPoly(p))
	if sh.m[len(sh.m)-1].coef.Sign() < 0 {
		p, c = tNeg(p, false), new(big.Rat).Neg(c)
		sh, _ = splitConst(asPoly(p))
	}
	if s := mkPoly(sh, false); c.Sign() > 0 && nonneg(s) {
		return tFalse
	} else if r := atomRange(s); r.hasLo && new(big.Rat).Add(c, cRat(r.lo)).Sign() > 0 {
		return tFalse
	}
	return mk("eq0", "", nil, p)
}

func tDyn(x *Term) *Term {
	switch x.op {
	case "iface":
		return mk("const", "T:"+x.aux, nil)
	case "newerr":
		return mk("const", "T:error", nil)
	}
	if x == tNil {
		return tNil
	}
	return mk("dyn", "", nil, x)
}

func neverNil(x *Term) bool {
	switch x.op {
	case "alloc", "faddr", "iaddr", "closure", "fn", "newerr", "iface", "slice", "app", "global":
		return true
	}
	return false
}

// tEq builds a == b for values of type typ.
func tEq(a, b *Term, typ types.Type) *Term {
	if typ != nil && isInt(typ) {
		return tEqInt(a, b)
	}
	if typ != nil && isFloat(typ) {
		return tFcmpMask(oEQ, a, b)
	}
	if typ != nil && isBool(typ) {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return tNot(b)
		}
		if b == tFalse {
			return tNot(a)
		}
	}
	if a == b {
		if typ != nil && isIface(typ) && a.op == "iface" {
			return tEq(a.args[0], b.args[0], typeByKey[a.aux])
		}
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tFalse
	}
	if a.isConst() {
		a, b = b, a
	}
	if b == tNil {
		if neverNil(a) {
			return tFalse
		}
		if typ != nil && isIface(typ) {
			return mk("eq", "", nil, tDyn(a), tNil)
		}
		return mk("eq", "", nil, a, tNil)
	}
	if typ != nil && isIface(typ) {
		if a.op == "iface" && b.op == "iface" {
			if a.aux != b.aux {
				return tFalse
			}
			return tEq(a.args[0], b.args[0], typeByKey[a.aux])
		}
		return mkEq(a, b)
	}
	if typ != nil {
		if s, ok := isStruct(typ); ok && s.NumFields() == 1 {
			return tEq(tField(a, 0, s.Field(0).Type()), tField(b, 0, s.Field(0).Type()), s.Field(0).Type())
		}
	}
	if a.op == "alloc" && b.op == "alloc" {
		return tFalse
	}
	return mkEq(a, b)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.isConst() && b.isConst() {
		return tFalse
	}
	if a.isConst() || (!b.isConst() && a.id > b.id) {
		a, b = b, a
	}
	switch b {
	case tTrue:
		return a
	case tFalse:
		return tNot(a)
	}
	return mk("eq", "", nil, a, b)
}

func tIsType(x *Term, t types.Type) *Term {
	if isIface(t) {
		d := tDyn(x)
		if d.isConst() {
			if d == tNil {
				return tFalse
			}
			if ct := d.typeVal(); ct != nil {
				return cBool(types.Implements(ct, t.Underlying().(*types.Interface)))
			}
		}
		return mk("implements", typeKey(t), nil, d)
	}
	return mkEq(tDyn(x), tType(t))
}

// ---------------------------------------------------------------- indicators

// indPoly returns the {0,1}-valued polynomial of a boolean term.
func indPoly(c *Term, val bool) *Poly {
	one := polyConst(big.NewRat(1, 1))
	p := indPos(c)
	if val {
		return p
	}
	return polyAdd(one, p, -1)
}

func indAtom(kind string, args ...*Term) *Poly {
	return asPoly(mk("ind", kind, nil, args...))
}

func indEnum(x, v *Term) *Poly {
	if dom := enumDomain(x); dom != nil {
		if iv, ok := v.intVal(); ok && iv == dom[len(dom)-1] {
			p := polyConst(big.NewRat(1, 1))
			for _, d := range dom[:len(dom)-1] {
				p = polyAdd(p, indAtom("enum", x, cInt(d)), -1)
			}
			return p
		}
	}
	return indAtom("enum", x, v)
}

func indPos(c *Term) *Poly {
	switch c {
	case tTrue:
		return polyConst(big.NewRat(1, 1))
	case tFalse:
		return &Poly{}
	}
	switch c.op {
	case "not":
		return indPoly(c.args[0], false)
	case "eq":
		if c.args[1].isConst() {
			return indEnum(c.args[0], c.args[1])
		}
	case "eq0":
		sh, k := splitConst(asPoly(c.args[0]))
		if len(sh.m) == 1 && sh.m[0].coef.Cmp(big.NewRat(1, 1)) == 0 {
			s := mkPoly(sh, false)
			return indEnum(s, cBig(new(big.Rat).Neg(k)))
		}
	case "fcmp":
		o := mk("ord", "", nil, c.args[0], c.args[1])
		p := &Poly{}
		for _, b := range []int{oLT, oEQ, oGT, oUN} {
			if atoi(c.aux)&b != 0 {
				p = polyAdd(p, indEnum(o, cInt(int64(b))), 1)
			}
		}
		return p
	case "andp": // conjunction given as polynomial term
		return asPoly(c.args[0])
	}
	return indAtom("bool", c)
}

// condOfInd is the boolean term of an indicator atom.
func condOfInd(t *Term) *Term {
	if t.aux == "bool" {
		return t.args[0]
	}
	x, v := t.args[0], t.args[1]
	if x.op == "ord" {
		n, _ := v.intVal()
		return tFcmpMask(int(n), x.args[0], x.args[1])
	}
	if _, ok := v.intVal(); ok {
		return tEqInt(x, v)
	}
	return mkEq(x, v)
}

// ---------------------------------------------------------------- substitution

func subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(t *Term) *Term
	rec = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		ch := false
		na := make([]*Term, len(t.args))
		var inner map[*Term]*Term
		if k := binder(t); k > 0 {
			if v := bv(k); m[v] != nil { // shadowed inside
				inner = map[*Term]*Term{}
				for x, y := range m {
					if x != v {
						inner[x] = y
					}
				}
			}
		}
		for i, a := range t.args {
			if inner != nil && scoped(t, i) {
				na[i] = a
				if len(inner) > 0 {
					na[i] = subst(a, inner)
				}
			} else {
				na[i] = rec(a)
			}
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return rec(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "poly":
		mp := map[*Term]*Term{}
		for i, x := range t.args {
			mp[x] = a[i]
		}
		var all []mono
		for _, m := range t.poly.m {
			simple := true
			for _, f := range m.fac {
				if n := mp[f.atom]; n != f.atom && (n.op == "poly" || n.isConst() || n.op == "inv") {
					simple = false
				}
			}
			if simple {
				// atoms replaced by atoms
				fs := make([]factor, len(m.fac))
				for i, f := range m.fac {
					fs[i] = factor{mp[f.atom], f.exp}
				}
				if f, ok := mulFactors(fs, nil); ok {
					all = append(all, mono{coef: m.coef, fac: f, key: monoKey(f)})
				}
				continue
			}
			x := polyConst(m.coef)
			for _, f := range m.fac {
				n := mp[f.atom]
				e := f.exp
				if e < 0 {
					n = tInv(n)
					e = -e
				}
				for i := 0; i < e; i++ {
					x = polyMul(x, asPoly(n))
				}
			}
			all = append(all, x.m...)
		}
		return mkPoly(polyNorm(all), t.flt)
	case "inv":
		return tInv(a[0])
	case "cat":
		return tCat(a...)
	case "not":
		return tNot(a[0])
	case "le0":
		return tLe0(a[0])
	case "eq0":
		return tEqInt(a[0], cInt(0))
	case "eq":
		if a[0].op == "const" || a[1].op == "const" || a[0] == a[1] {
			return mkEq(a[0], a[1])
		}
		return mkEq(a[0], a[1])
	case "fcmp":
		return tFcmpMask(atoi(t.aux), a[0], a[1])
	case "field":
		return tField(a[0], atoi(t.aux), t.typ)
	case "struct":
		return tStruct(t.typ, a)
	case "init":
		return tInit(a[0], t.typ)
	case "iaddr":
		return tIaddr(a[0], a[1])
	case "faddr":
		r := mk("faddr", t.aux, t.typ, a...)
		if l, ok := faddrLabels[t]; ok {
			faddrLabels[r] = l
		}
		return r
	case "len":
		return tLen(a[0])
	case "dyn":
		return tDyn(a[0])
	case "unbox":
		return tUnbox(a[0], typeByKey[t.aux])
	case "acc":
		return tAcc(t.aux, a[0], t.typ)
	case "conv":
		if t.aux == "float64" {
			return tConvF(a[0])
		}
		return mk("conv", t.aux, t.typ, a...)
	case "ind":
		if t.aux == "bool" {
			return mkPoly(indPos(a[0]), false)
		}
		x, v := a[0], a[1]
		if x.isConst() {
			return cInt(map[bool]int64{true: 1, false: 0}[x == v])
		}
		if x.op == "ord" {
			n, _ := v.intVal()
			return mkPoly(indPos(tFcmpMask(int(n), x.args[0], x.args[1])), false)
		}
		return mkPoly(indPos(condOfInd(mk("ind", "enum", nil, x, v))), false)
	case "ord":
		// keep the canonical argument order
		return mk("ord", "", nil, a...)
	case "sum":
		k := t.aux[len(t.aux)-1:]
		v := bv(atoi(t.aux[:len(t.aux)-1]))
		if n := maxBV(a[0]); n >= atoi(v.aux) {
			return mk(t.op, t.aux, t.typ, a...)
		}
		return tSum(a[0], a[1], v, k == "F")
	case "mget":
		return staticGet(a[0], a[1], t.typ)
	case "has":
		return tHas(a[0], a[1])
	case "substr":
		return tSubstr(a[0], a[1], a[2])
	case "fin":
		if len(a) == 4 {
			return tFin(bvOf(t), t.typ, a)
		}
	case "mapdom":
		return mk("mapdom", "", nil, a...)
	case "cases":
		var cs []gval
		for i := 0; i+1 < len(a); i += 2 {
			cs = append(cs, gval{asPoly(a[i]), a[i+1]})
		}
		return combine(cs, nil, t.typ)
	}
	r := mk(t.op, t.aux, t.typ, a...)
	if r.fn == nil {
		r.fn = t.fn
	}
	return r
}

func staticGet(c, k *Term, typ types.Type) *Term {
	switch c.op {
	case "mset":
		if c.args[1] == k {
			return c.args[2]
		}
	case "mmap":
		return instBV(c.args[1], bvOf(c), k)
	}
	return mk("mget", "", typ, c, k)
}

func tUnbox(x *Term, t types.Type) *Term {
	if x.op == "iface" && x.aux == typeKey(t) {
		return x.args[0]
	}
	return mk("unbox", typeKey(t), t, x)
}

// tAcc is the result of a Value accessor, by the contract checked as C08.
func tAcc(name string, v *Term, typ types.Type) *Term {
	want := map[string]types.BasicKind{"Float64": types.Float64, "Int64": types.Int64, "Bool": types.Bool, "String": types.String, "Float32": types.Float32}
	if v.op == "struct" && len(v.args) == 1 && v.args[0].op == "iface" {
		if b, ok := typeByKey[v.args[0].aux].(*types.Basic); ok && b.Kind() == want[name] {
			return v.args[0].args[0]
		}
	}
	return mk("acc", name, typ, v)
}

func cRat(n int64) *big.Rat { return new(big.Rat).SetInt64(n) }

func tSubstr(s, lo, hi *Term) *Term {
	if lo == cInt(0) && hi == tLen(s) {
		return s
	}
	return mk("substr", "", types.Typ[types.String], s, lo, hi)
}

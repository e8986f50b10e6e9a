package main

// Custom XML decoders (C02, C03, C04).  Token, DecodeElement and Skip are
// given abstract semantics; everything else of an UnmarshalXML is analysed.

import (
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var errT = types.Universe.Lookup("error").Type()

func xmlHooks(x *Exec) {
	site := func(st *State, kind string) *Term {
		n := 0
		for e := st.ev; e != nil; e = e.prev {
			if e.e.kind == kind {
				n++
			}
		}
		var ks []*Term
		for _, l := range x.loops {
			ks = append(ks, mk("k", l.name, types.Typ[types.Int]))
		}
		return mk("site", kind+strconv.Itoa(n), nil, ks...)
	}
	x.hooks["(*encoding/xml.Decoder).Token"] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		s := site(st, "token")
		tt := ins.Common().StaticCallee().Signature.Results().At(0).Type()
		tok := mk("xtok", "", tt, s)
		err := mk("xerr", "token", errT, s)
		st.event(&Event{kind: "token", note: "Decoder.Token", args: args, ret: []*Term{tok, err}, ins: ins, fn: ins.Parent()})
		return []Outcome{{st: st, ret: []*Term{tok, err}}}
	}
	x.hooks["(*encoding/xml.Decoder).Skip"] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		err := mk("xerr", "skip", errT, site(st, "skip"))
		st.event(&Event{kind: "skip", note: "Decoder.Skip", args: args, ret: []*Term{err}, ins: ins, fn: ins.Parent()})
		return []Outcome{{st: st, ret: []*Term{err}}}
	}
	x.hooks["(*encoding/xml.Decoder).DecodeElement"] = func(x *Exec, st *State, ins ssa.CallInstruction, args []*Term) []Outcome {
		err := mk("xerr", "decode", errT, site(st, "decode"))
		startT := ins.Common().StaticCallee().Signature.Params().At(1).Type().(*types.Pointer).Elem()
		var start *Term
		if args[2] == tNil {
			start = tNil
		} else {
			start = st.load(args[2], startT)
		}
		ev := &Event{kind: "decode", note: "Decoder.DecodeElement", args: args, ret: []*Term{err}, val: start, ins: ins, fn: ins.Parent()}
		st.event(ev)
		d := tDyn(args[1])
		if v, ok := st.f.val[d]; ok {
			d = v
		}
		pt := d.typeVal()
		if pt == nil {
			panic(undecided("DecodeElement into a value of unknown type %s at %s", args[1], posString(ins.Pos())))
		}
		p, ok := pt.Underlying().(*types.Pointer)
		if !ok {
			panic(undecided("DecodeElement into a non-pointer %s at %s", pt, posString(ins.Pos())))
		}
		addr := tUnbox(args[1], pt)
		ev.addr = addr
		dec := mk("decoded", typeKey(p.Elem()), p.Elem(), start)
		if prior := st.load(addr, p.Elem()); !x.decodesAfresh(addr, prior, p.Elem()) {
			// DecodeElement keeps what the element does not mention
			dec = mk("decodedonto", typeKey(p.Elem()), p.Elem(), start, prior)
		}
		st.store(addr, dec, p.Elem())
		return []Outcome{{st: st, ret: []*Term{err}}}
	}
}

// decodesAfresh: nothing of an earlier child is left in the variable a child
// is decoded into.  The receiver's own fields are single children, which
// occur once in a valid document.
func (x *Exec) decodesAfresh(addr, prior *Term, t types.Type) bool {
	if r := addrRoot(addr); r.op == "param" {
		return true
	}
	switch t.Underlying().(type) {
	case *types.Basic:
		return true // always overwritten
	case *types.Map:
		if prior.op == "alloc" {
			return len(x.loops) == 0 || strings.HasPrefix(prior.aux, x.loops[len(x.loops)-1].name+"|")
		}
	}
	return sameVal(prior, tZero(t), t)
}

// delegating reports whether a decoder passes its start element on to
// DecodeElement instead of reading tokens itself.
func delegating(fn *ssa.Function) bool {
	dec, tok := false, false
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if f := c.Common().StaticCallee(); f != nil {
					switch f.String() {
					case "(*encoding/xml.Decoder).DecodeElement":
						dec = true
					case "(*encoding/xml.Decoder).Token":
						tok = true
					}
				}
			}
		}
	}
	return dec && !tok
}

// ---- C02: what each child and attribute goes to

type childSlot struct {
	field string // Go field
	elem  string // Go type decoded
	rep   bool   // appended
	iface bool   // the field holds an interface
}

// decoderChildren and decoderAttrs: the schema children and attributes each
// custom decoder is responsible for.  "@G" stands for every element of the
// schema group selected by function G.
var decoderChildren = map[string]map[string]string{
	"Alternate":         {"@GetContinuousDistributionType": "Distribution"},
	"Apply":             {"Extension": "Extensions+", "@GetExpression": "Expressions+"},
	"ChildParent":       {"Extension": "Extensions+", "FieldColumnPair": "FieldColumnPairs+", "@GetTable": "Table"},
	"CompoundPredicate": {"Extension": "Extensions+", "@GetPredicate": "Predicates+"},
	"DefineFunction":    {"Extension": "Extensions+", "ParameterField": "ParameterFields+", "@GetExpression": "Expression"},
	"DerivedField":      {"Extension": "Extensions+", "Value": "Values+", "@GetExpression": "Expression"},
	"InlineTable":       {"Extension": "Extensions+", "row:Row": "Rows+"},
	"Node": {"Extension": "Extensions+", "Node": "Nodes+", "ScoreDistribution": "ScoreDistributions+", "Partition": "Partition",
		"@GetPredicate": "Predicate", "@GetEmbeddedModel": "EmbeddedModel"},
	"PMML": {"Extension": "Extensions+", "Header": "Header", "DataDictionary": "DataDictionary", "TransformationDictionary": "TransformationDictionary",
		"MiningBuildTask": "MiningBuildTask", "@GetModelElement": "Models+"},
	"Segment": {"Extension": "Extensions+", "@GetPredicate": "Predicates+", "@GetModelElement": "Models+"},
}

// conversions: string (verbatim, converted to the named string type),
// ptr (pointer to the text), float (64-bit number), yesno.
var decoderAttrs = map[string]map[string]string{
	"Alternate":         {},
	"Apply":             {"defaultValue": "DefaultValue ptr", "function": "Function", "invalidValueTreatment": "InvalidValueTreatment", "mapMissingTo": "MapMissingTo ptr"},
	"ChildParent":       {"childField": "ChildField", "isRecursive": "IsRecursive yesno", "parentField": "ParentField", "parentLevelField": "ParentLevelField"},
	"CompoundPredicate": {"booleanOperator": "BooleanOperator"},
	"DefineFunction":    {"dataType": "DataType", "name": "Name", "optype": "OpType"},
	"DerivedField":      {"dataType": "DataType", "displayName": "DisplayName", "name": "Name", "optype": "OpType"},
	"InlineTable":       {},
	"Node":              {"defaultChild": "DefaultChild", "id": "ID", "recordCount": "RecordCount float", "score": "Score"},
	"PMML":              {"version": "Version"},
	"Segment":           {"id": "Id"},
}

const otherName = "#unrecognised"

func childTable(g *goldenData, typ string) map[string]childSlot {
	r := map[string]childSlot{}
	for k, v := range decoderChildren[typ] {
		rep := strings.HasSuffix(v, "+")
		f := strings.TrimSuffix(v, "+")
		if strings.HasPrefix(k, "@") {
			for _, el := range g.Groups[k[1:]] {
				r[el] = childSlot{f, el, rep, true}
			}
			continue
		}
		el, ty, ok := strings.Cut(k, ":")
		if !ok {
			ty = el
		}
		r[el] = childSlot{f, ty, rep, false}
	}
	return r
}

func structField(t types.Type, name string) (int, types.Type) {
	s, ok := isStruct(t)
	if !ok {
		return -1, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i, s.Field(i).Type()
		}
	}
	return -1, nil
}

// customDecoders lists the UnmarshalXML methods of package models.
func customDecoders() []*ssa.Function {
	var r []*ssa.Function
	forEachFunc(modPkg, func(f *ssa.Function) {
		if f.Name() == "UnmarshalXML" && f.Signature.Recv() != nil && f.Synthetic == "" {
			r = append(r, f)
		}
	})
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

func recvType(f *ssa.Function) types.Type {
	t := f.Signature.Recv().Type()
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

type decoderRun struct {
	fn    *ssa.Function
	typ   types.Type
	name  string
	recv  *Term
	start *Term
	outs  []Outcome
	x     *Exec
	recs  []*LoopRecord // every loop on some path
}

func runDecoder(r *Report, fn *ssa.Function) *decoderRun {
	x := newExec()
	xmlHooks(x)
	args := paramTerms(fn)
	d := &decoderRun{fn: fn, typ: recvType(fn), recv: args[0], start: args[2], x: x}
	d.name = typeName(d.typ)
	d.outs = x.run(fn, args, nil, newState(x), "e")
	r.covered(x)
	r.paths += len(d.outs)
	for u := range x.unsupported {
		r.undecided(d.name+":unsupported", posString(fn.Pos()), "%s uses %s", d.name, u)
	}
	seen := map[string]bool{}
	var walk func(l []*Event)
	walk = func(l []*Event) {
		for _, e := range l {
			if e.kind == "loop" {
				if !seen[e.rec.name] {
					seen[e.rec.name] = true
					d.recs = append(d.recs, e.rec)
					for _, t := range e.rec.trans {
						walk(t.events)
					}
					for _, ex := range e.rec.exits {
						walk(ex.events)
					}
				}
			}
		}
	}
	for _, o := range d.outs {
		walk(o.st.events())
	}
	return d
}

func hasKind(l []*Event, kinds ...string) bool {
	for _, e := range l {
		for _, k := range kinds {
			if e.kind == k {
				return true
			}
		}
	}
	return false
}

func startType(fn *ssa.Function) types.Type { return fn.Signature.Params().At(1).Type() }

func xmlType(fn *ssa.Function, name string) types.Type {
	n := types.Unalias(startType(fn)).(*types.Named)
	return n.Obj().Pkg().Scope().Lookup(name).Type()
}

// localName: the term of Name.Local of a start element.
func localName(el *Term, startT types.Type) *Term {
	s, _ := isStruct(startT)
	nt := s.Field(0).Type()
	ns, _ := isStruct(nt)
	return tField(tField(el, 0, nt), 1, ns.Field(1).Type())
}

// headState: the abstract state at the head of the loop.
func headState(rec *LoopRecord, from map[*slot]*Term) *State {
	h := rec.entry.clone()
	for _, s := range rec.slots {
		if s.addr != nil {
			h.heap[s.addr] = s.value(from, rec.k)
		}
	}
	return h
}

// same compares two values up to the struct expansion of decoded values.
func sameVal(a, b *Term, t types.Type) bool {
	if a == b {
		return true
	}
	if s, ok := isStruct(t); ok {
		for i := 0; i < s.NumFields(); i++ {
			if !sameVal(tField(a, i, s.Field(i).Type()), tField(b, i, s.Field(i).Type()), s.Field(i).Type()) {
				return false
			}
		}
		return true
	}
	return false
}

func (d *decoderRun) fields() []*types.Var {
	s, ok := isStruct(d.typ)
	if !ok {
		return nil
	}
	var r []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		r = append(r, s.Field(i))
	}
	return r
}

// changedFields lists the fields of the receiver that differ between two
// states; the loop whose iteration separates them is L.
func (d *decoderRun) changedFields(before, after *State, L string) map[string][2]*Term {
	ch := map[string][2]*Term{}
	for i, f := range d.fields() {
		a := tFaddr(d.recv, i)
		b, n := before.load(a, f.Type()), after.load(a, f.Type())
		n = after.settle(n, L)
		if !sameVal(b, n, f.Type()) {
			ch[f.Name()] = [2]*Term{b, n}
		}
	}
	return ch
}

func changedList(ch map[string][2]*Term) string {
	var l []string
	for f := range ch {
		l = append(l, f)
	}
	sort.Strings(l)
	return strings.Join(l, ", ")
}

func checkC02(r *Report) {
	g := readGolden()
	r.minOb = 150
	seen := map[string]bool{}
	for _, fn := range customDecoders() {
		name := typeName(recvType(fn))
		seen[name] = true
		pos := posString(fn.Pos())
		guarded(r, name, func() {
			d := runDecoder(r, fn)
			switch {
			case delegating(fn):
				d.checkDelegating(r)
			case name == "Row":
				d.checkRow(r)
			case decoderChildren[name] == nil:
				r.undecided(name, pos, "custom decoder of %s is not described by the schema table", name)
			default:
				d.checkChildren(r, childTable(g, name))
				d.checkAttrs(r, "", decoderAttrs[name])
			}
		})
	}
	for name := range decoderChildren {
		if !seen[name] {
			// decoded by reflection: C05 compares its bindings
			if t := modType(name); t != nil {
				r.fail(name, posString(token.NoPos), "%s has lost its custom decoder although some of its children have no binding", name)
			}
		}
	}
}

func (d *decoderRun) checkChildren(r *Report, table map[string]childSlot) {
	pos := posString(d.fn.Pos())
	startT := xmlType(d.fn, "StartElement")
	endT := xmlType(d.fn, "EndElement")
	var rec *LoopRecord
	var recs []*LoopRecord
	for _, l := range d.recs {
		if hasKind(l.events, "token") {
			recs = append(recs, l)
		}
	}
	if len(recs) == 0 {
		r.undecided(d.name+":loop", pos, "%s.UnmarshalXML has no loop that reads tokens", d.name)
		return
	}
	names := append(sortedKeys(table), otherName)
	for _, rec = range recs {
		for _, el := range names {
			handled := 0
			good := true
			for _, t := range rec.trans {
				var tok *Term
				for _, e := range t.events {
					if e.kind == "token" {
						tok = e.ret[0]
					}
				}
				if tok == nil {
					continue
				}
				f := t.st.f.clone()
				f.assume(tIsType(tok, endT), false)
				if el == otherName {
					// the token is no start element, or one of another name
					if v, ok := f.decide(tIsType(tok, startT)); ok && v {
						loc := localName(tUnbox(tok, startT), startT)
						if v, ok := f.val[loc]; ok {
							if s, _ := v.strVal(); table[s].field != "" {
								continue
							}
						}
					}
				} else {
					if !f.assume(tIsType(tok, startT), true) {
						continue
					}
					if !f.assume(tEq(localName(tUnbox(tok, startT), startT), cStr(el), types.Typ[types.String]), true) {
						continue
					}
				}
				handled++
				ch := d.changedFields(headState(rec, t.from), t.st, rec.name)
				at := pos
				for _, e := range t.events {
					if e.kind == "decode" {
						at = posString(e.pos)
					}
				}
				if el == otherName {
					if len(ch) > 0 {
						// a path shared with a known name is judged there
						loc := localName(tUnbox(tok, startT), startT)
						if _, ok := f.val[loc]; !ok || table[mustStr(f.val[loc])].field == "" {
							good = false
							r.fail(d.name+":other", at, "%s: a child outside the schema (%s) changes %s", d.name, describe(t.lits), changedList(ch))
						}
					}
					continue
				}
				cs := table[el]
				_, ft := structField(d.typ, cs.field)
				if ft == nil {
					good = false
					r.fail(d.name+":"+el, pos, "%s has no field %s", d.name, cs.field)
					continue
				}
				c, ok := ch[cs.field]
				if !ok {
					good = false
					r.fail(d.name+":"+el, at, "%s: child <%s> is not stored in %s (path: %s)", d.name, el, cs.field, describe(t.lits))
					continue
				}
				if len(ch) > 1 {
					good = false
					r.fail(d.name+":"+el, at, "%s: child <%s> changes %s", d.name, el, changedList(ch))
					continue
				}
				if !d.storedAs(c[0], c[1], cs, ft, tUnbox(tok, startT)) {
					good = false
					how := "assigned"
					if cs.rep {
						how = "appended"
					}
					r.fail(d.name+":"+el, at, "%s: child <%s> should be decoded as %s and %s to %s, which becomes %s", d.name, el, cs.elem, how, cs.field, c[1])
				}
			}
			if good {
				r.check(handled > 0 || el == otherName, d.name+":"+el, pos, "%s: no path of the decoder handles child <%s>", d.name, el)
			}
		}
	}
	// nothing changes once the own end element was read
	for _, o := range d.outs {
		if !succeeds(o) {
			continue
		}
		for n := o.st.loops; n != nil; n = n.prev {
			if n.exit == nil || !hasKind(n.rec.events, "token") {
				continue
			}
			from := n.exit.from
			ch := d.changedFields(headState(n.rec, from), n.exit.st, n.rec.name)
			r.check(len(ch) == 0, d.name+":end", pos, "%s: %s changes when the decoder finishes", d.name, changedList(ch))
		}
		after := false
		for _, e := range o.st.events() {
			if e.kind == "loop" && hasKind(e.rec.events, "token") {
				after = true
			}
			if after && e.kind == "store" && addrRoot(e.addr) == d.recv && hasNoLoop(o.st, e) {
				r.fail(d.name+":end", posString(e.pos), "%s: the decoder stores to %s after its last child", d.name, e.addr)
			}
		}
	}
}

func hasNoLoop(st *State, e *Event) bool {
	for n := st.loops; n != nil; n = n.prev {
		if n.exit != nil {
			for _, y := range n.exit.events {
				if y == e {
					return false
				}
			}
		}
	}
	return true
}

func mustStr(t *Term) string { s, _ := t.strVal(); return s }

// storedAs: the field went from old to new by storing the child decoded from
// the given start element.
func (d *decoderRun) storedAs(old, now *Term, cs childSlot, ft types.Type, start *Term) bool {
	et := modType(cs.elem)
	if et == nil {
		return false
	}
	isElem := func(v *Term, t types.Type) bool {
		dec := mk("decoded", typeKey(et), et, start)
		switch {
		case cs.iface:
			return v.op == "iface" && v.aux == typeKey(types.NewPointer(et)) && v.args[0].op == "ref" && sameVal(v.args[0].args[0], dec, et)
		default:
			if p, ok := t.Underlying().(*types.Pointer); ok {
				if v == mk("decoded", typeKey(t), t, start) {
					return types.Identical(p.Elem(), et)
				}
				return v.op == "ref" && sameVal(v.args[0], dec, et)
			}
			return types.Identical(t, et) && sameVal(v, dec, et)
		}
	}
	if !cs.rep {
		return isElem(now, ft)
	}
	sl, ok := ft.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	if now.op != "app" || len(now.args) != 2 || now.args[0] != old {
		return false
	}
	return isElem(now.args[1], sl.Elem())
}

// checkAttrs: the loop over the attributes stores each one in its field.
func (d *decoderRun) checkAttrs(r *Report, prefix string, attrs map[string]string) {
	pos := posString(d.fn.Pos())
	st, _ := isStruct(startType(d.fn))
	ai := -1
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == "Attr" {
			ai = i
		}
	}
	list := tField(d.start, ai, st.Field(ai).Type())
	attrT := st.Field(ai).Type().Underlying().(*types.Slice).Elem()
	as, _ := isStruct(attrT)
	ns, _ := isStruct(as.Field(0).Type())
	var recs []*LoopRecord
	for _, l := range d.recs {
		if !hasKind(l.events, "token") && l.dom == tLen(list) {
			recs = append(recs, l)
		}
	}
	if len(recs) == 0 && len(attrs) > 0 {
		r.undecided(d.name+":attrs", pos, "%s.UnmarshalXML has no loop over its attributes", d.name)
		return
	}
	names := append(sortedKeys(attrs), otherName)
	for _, el := range names {
		handled := false
		good := true
		for _, rec := range recs {
			idx := rec.k
			val := rec.entry.load(tFaddr(tIaddr(list, idx), 1), as.Field(1).Type())
			loc := rec.entry.load(tFaddr(tFaddr(tIaddr(list, idx), 0), 1), ns.Field(1).Type())
			feasible := func(f *Facts) (*Facts, bool) {
				f = f.clone()
				if el == otherName {
					if v, ok := f.val[loc]; ok && attrs[mustStr(v)] != "" {
						return nil, false
					}
					return f, true
				}
				return f, f.assume(tEq(loc, cStr(el), types.Typ[types.String]), true)
			}
			fieldOf, conv, _ := strings.Cut(attrs[el], " ")
			for _, t := range rec.trans {
				f, ok := feasible(t.st.f)
				if !ok {
					continue
				}
				ch := d.changedFields(headState(rec, t.from), t.st, rec.name)
				if el == otherName {
					if len(ch) > 0 {
						good = false
						r.fail(prefix+d.name+":attr:other", pos, "%s: an attribute outside the schema (%s) changes %s", d.name, describe(t.lits), changedList(ch))
					}
					continue
				}
				key := prefix + d.name + ":@" + el
				_, ft := structField(d.typ, fieldOf)
				if ft == nil {
					good = false
					r.fail(key, pos, "%s has no field %s", d.name, fieldOf)
					continue
				}
				c, ok := ch[fieldOf]
				if !ok {
					// an empty attribute may be ignored
					if v, known := f.decide(tEq(val, cStr(""), types.Typ[types.String])); known && v {
						continue
					}
					if v, known := f.decide(tLe0(tLen(val))); known && v {
						continue
					}
					// the same conversion of two values may leave the field unchanged
					if conv == "yesno" && yesnoOK(f, val, headState(rec, t.from).load(tFaddr(d.recv, fieldIndex(d.typ, fieldOf)), ft)) {
						handled = true
						continue
					}
					good = false
					r.fail(key, pos, "%s: attribute %s is not stored in %s (path: %s)", d.name, el, fieldOf, describe(t.lits))
					continue
				}
				if len(ch) > 1 {
					good = false
					r.fail(key, pos, "%s: attribute %s changes %s", d.name, el, changedList(ch))
					continue
				}
				handled = true
				okv := false
				switch conv {
				case "":
					okv = c[1] == val
				case "ptr":
					okv = c[1].op == "ref" && c[1].args[0] == val
				case "float":
					okv = c[1].op == "res" && c[1].aux == "0" && c[1].args[0].op == "ext" && c[1].args[0].aux == "strconv.ParseFloat" &&
						c[1].args[0].args[0] == val && c[1].args[0].args[1] == cInt(64)
				case "yesno":
					okv = yesnoOK(f, val, c[1])
				}
				if !okv {
					good = false
					r.fail(key, pos, "%s: attribute %s should be stored in %s, which becomes %s (path: %s)", d.name, el, fieldOf, c[1], describe(t.lits))
				}
			}
			for _, ex := range rec.exits {
				if ex.kind == "normal" || ex.kind == "normalret" {
					continue
				}
				f, ok := feasible(ex.st.f)
				if !ok {
					continue
				}
				key := prefix + d.name + ":@" + el
				// leaving the attribute loop early is right only for a failed conversion
				failed := false
				for _, a := range errAtoms(ex.events) {
					if knownNonNil(ex.st, a.atom) {
						failed = true
					}
				}
				if conv == "yesno" && el != otherName {
					y, ok1 := f.decide(tEq(val, cStr("yes"), types.Typ[types.String]))
					n, ok2 := f.decide(tEq(val, cStr("no"), types.Typ[types.String]))
					failed = ok1 && ok2 && !y && !n
				}
				if !failed {
					good = false
					r.fail(key, pos, "%s: attribute %s ends the decoding of the attributes (path: %s)", d.name, el, describe(ex.lits))
				}
			}
		}
		if good {
			r.check(handled || el == otherName, prefix+d.name+":@"+el, pos, "%s: no path stores attribute %s", d.name, el)
		}
	}
}

func fieldIndex(t types.Type, name string) int { i, _ := structField(t, name); return i }

func yesnoOK(f *Facts, val, now *Term) bool {
	s := types.Typ[types.String]
	if y, ok := f.decide(tEq(val, cStr("yes"), s)); ok && y {
		return now == tTrue
	}
	if n, ok := f.decide(tEq(val, cStr("no"), s)); ok && n {
		return now == tFalse
	}
	return now == tEq(val, cStr("yes"), s)
}

// checkRow: every child element becomes the entry of its name.
func (d *decoderRun) checkRow(r *Report) {
	pos := posString(d.fn.Pos())
	startT := xmlType(d.fn, "StartElement")
	n := 0
	for _, rec := range d.recs {
		if !hasKind(rec.events, "token") {
			continue
		}
		for _, t := range rec.trans {
			var tok *Term
			for _, e := range t.events {
				if e.kind == "token" {
					tok = e.ret[0]
				}
			}
			if tok == nil {
				continue
			}
			before, after := headState(rec, t.from).content(d.recv), t.st.content(d.recv)
			is, known := t.st.f.decide(tIsType(tok, startT))
			if known && !is {
				r.check(before == after, "Row:other", pos, "Row: a token that is no child changes the row")
				continue
			}
			el := tUnbox(tok, startT)
			st := types.Typ[types.String]
			dec := mk("decoded", typeKey(st), st, el)
			n++
			r.check(after.op == "mset" && after.args[0] == before && after.args[1] == localName(el, startT) &&
				after.args[2] == mk("iface", typeKey(st), after.args[2].typ, dec), "Row:child", pos,
				"Row: a child is not stored, as its text, under its own name: the row becomes %s", after)
		}
	}
	r.check(n > 0, "Row:loop", pos, "Row: no path stores a child")
}

// checkDelegating: the whole element goes to DecodeElement, into the receiver.
func (d *decoderRun) checkDelegating(r *Report) {
	pos := posString(d.fn.Pos())
	for _, o := range d.outs {
		n := 0
		for _, e := range flatEvents(o.st) {
			if e.kind != "decode" {
				continue
			}
			n++
			r.check(e.addr == d.recv, d.name+":target", posString(e.pos), "%s: the element is decoded into %s, not into the receiver", d.name, e.addr)
			pt := tDyn(e.args[1]).typeVal()
			if pt != nil {
				r.check(theProg.MethodSets.MethodSet(pt).Lookup(d.fn.Pkg.Pkg, "UnmarshalXML") == nil, d.name+":type", posString(e.pos), "%s: decoding through %s calls this decoder again", d.name, pt)
				el := pt.Underlying().(*types.Pointer).Elem()
				r.check(types.Identical(el.Underlying(), d.typ.Underlying()), d.name+":shape", posString(e.pos), "%s is decoded through %s, which has other fields", d.name, el)
			}
			r.check(sameVal(e.val, d.start, startType(d.fn)), d.name+":start", posString(e.pos), "%s: the element is decoded from %s, not from its own start element", d.name, e.val)
		}
		r.check(n == 1, d.name+":once", pos, "%s: DecodeElement is called %d times", d.name, n)
	}
}

// ---- C03: token protocol

type tokState struct {
	pending *Term // start element not consumed yet
	last    *Term
	bad     string
	pos     token.Pos
}

// protocol follows the token events of one path.
func protocol(l []*Event, stOf func(e *Event) *State, startT types.Type) (s tokState) {
	for _, e := range l {
		switch e.kind {
		case "token":
			if s.pending != nil {
				s.bad, s.pos = "reads the next token although the child it read was neither decoded nor skipped", e.pos
				return
			}
			s.last = e.ret[0]
			st := stOf(e)
			if knownNonNil(st, e.ret[1]) {
				s.last = nil
				continue
			}
			if v, ok := st.f.decide(tIsType(s.last, startT)); !ok || v {
				s.pending = tUnbox(s.last, startT)
			}
			s.pos = e.pos
		case "decode":
			if s.pending == nil {
				s.bad, s.pos = "calls DecodeElement without a child that is still to be consumed", e.pos
				return
			}
			if !sameVal(e.val, s.pending, startT) {
				s.bad, s.pos = "calls DecodeElement with another start element than the one it read", e.pos
				return
			}
			s.pending = nil
		case "skip":
			if s.pending == nil {
				s.bad, s.pos = "calls Skip without a child that is still to be consumed", e.pos
				return
			}
			s.pending = nil
		case "loop":
			if hasKind(e.rec.events, "token", "decode", "skip") {
				// judged on its own; it must begin and end between children
				if s.pending != nil {
					s.bad, s.pos = "enters a loop over tokens with a child that is still to be consumed", e.pos
					return
				}
			}
		}
	}
	return
}

func checkC03(r *Report) {
	r.minOb = 60
	for _, fn := range customDecoders() {
		name := typeName(recvType(fn))
		pos := posString(fn.Pos())
		guarded(r, name, func() {
			d := runDecoder(r, fn)
			if delegating(fn) {
				d.checkDelegating(r)
				for _, o := range d.outs {
					r.check(!hasKind(flatEvents(o.st), "token", "skip"), name+":only", pos, "%s: the decoder both delegates its element and reads tokens of it", name)
				}
				return
			}
			startT, endT := xmlType(fn, "StartElement"), xmlType(fn, "EndElement")
			for _, rec := range d.recs {
				if !hasKind(rec.events, "token", "decode", "skip") {
					continue
				}
				for _, t := range rec.trans {
					s := protocol(t.events, func(*Event) *State { return t.st }, startT)
					if s.bad == "" && s.pending != nil {
						s.bad = "goes on to the next token although a child was neither decoded nor skipped"
					}
					if s.bad == "" && s.last != nil {
						if v, ok := t.st.f.decide(tIsType(s.last, endT)); !ok || v {
							s.bad = "goes on reading after its own end element"
						}
					}
					r.check(s.bad == "", name+":iteration", posString(s.pos), "%s %s (path: %s)", name, s.bad, describe(t.lits))
				}
			}
			for _, o := range d.outs {
				if !succeeds(o) {
					r.ob++
					r.done++
					continue
				}
				in := map[*Event]*State{}
				for n := o.st.loops; n != nil; n = n.prev {
					if n.exit != nil {
						for _, e := range n.exit.events {
							in[e] = n.exit.st
						}
					}
				}
				stOf := func(e *Event) *State {
					if s := in[e]; s != nil {
						return s
					}
					return o.st
				}
				s := protocol(o.st.events(), stOf, startT)
				if s.bad == "" && s.pending != nil {
					s.bad = "returns nil although a child was neither decoded nor skipped"
				}
				if s.bad == "" {
					end := false
					if s.last != nil {
						for _, e := range o.st.events() {
							if e.kind == "token" && e.ret[0] == s.last {
								v, ok := stOf(e).f.decide(tIsType(s.last, endT))
								end = ok && v
							}
						}
					}
					if !end {
						s.bad = "returns nil without having read its own end element"
					}
				}
				r.check(s.bad == "", name+":return", posString(s.pos), "%s %s", name, s.bad)
			}
		})
	}
}

// ---- C04: errors of the decoder

func checkC04(r *Report) {
	r.minOb = 40
	for _, fn := range customDecoders() {
		name := typeName(recvType(fn))
		guarded(r, name, func() {
			d := runDecoder(r, fn)
			checkErrors(r, name, fn, d.outs, nil)
			// a failed child is not kept in a repeated or interface field
			for _, rec := range d.recs {
				for _, ex := range rec.exits {
					for _, e := range ex.events {
						if e.kind != "decode" || !knownNonNil(ex.st, e.ret[0]) {
							continue
						}
						for f, c := range d.changedFields(headState(rec, ex.from), ex.st, rec.name) {
							if addrRoot(e.addr) == d.recv && e.addr == tFaddr(d.recv, fieldIndex(d.typ, f)) {
								continue
							}
							r.fail(name+":kept", posString(e.pos), "%s: %s becomes %s although decoding the child failed", name, f, c[1])
						}
						r.ob++
						r.done++
					}
				}
			}
			if a := decoderAttrs[name]; a["isRecursive"] != "" {
				d.checkAttrs(r, "attr:", map[string]string{"isRecursive": a["isRecursive"], "childField": a["childField"], "parentField": a["parentField"], "parentLevelField": a["parentLevelField"]})
			}
		})
	}
}

func init() {
	checks["C02"] = checkDef{checkC02, "abstract interpretation of the decoders: effect of one iteration of the token and attribute loops per element and attribute name"}
	checks["C03"] = checkDef{checkC03, "typestate analysis of the token protocol on every path of the decoders"}
	checks["C04"] = checkDef{checkC04, "path-sensitive error-flow analysis of the decoders"}
}

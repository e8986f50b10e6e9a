package main

// C01, C05, C06: tables.

import (
	"encoding/json"
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
)

type goldenData struct {
	Groups map[string][]string          // Get* function -> element names
	Tags   map[string]map[string]string // struct -> effective "name,kind" -> Go field path
	Consts map[string]map[string]string // named type -> constant -> value
}

func goldenPath() string { return filepath.Join(verifDir, "spec", "golden.json") }

func readGolden() *goldenData {
	b, err := os.ReadFile(goldenPath())
	if err != nil {
		panic(undecided("%v", err))
	}
	g := &goldenData{}
	if err := json.Unmarshal(b, g); err != nil {
		panic(undecided("%v", err))
	}
	return g
}

var groupFuncs = []string{"GetModelElement", "GetPredicate", "GetExpression", "GetEmbeddedModel", "GetContinuousDistributionType", "GetTable"}

func golden() {
	g := &goldenData{Groups: map[string][]string{}, Tags: map[string]map[string]string{}, Consts: map[string]map[string]string{}}
	for _, f := range groupFuncs {
		fn := modPkg.Func(f)
		x := newExec()
		outs := x.run(fn, paramTerms(fn), nil, newState(x), "e")
		for _, o := range outs {
			if v, ok := o.st.f.val[mk("param", fn.Params[0].Name(), nil)]; ok {
				s, _ := v.strVal()
				g.Groups[f] = append(g.Groups[f], s)
			}
		}
		sort.Strings(g.Groups[f])
	}
	for _, n := range modPkg.Pkg.Scope().Names() {
		o := modPkg.Pkg.Scope().Lookup(n)
		if !o.Exported() {
			continue
		}
		switch o := o.(type) {
		case *types.TypeName:
			if st, ok := isStruct(o.Type()); ok {
				b, _ := xmlBindings(st)
				for k, f := range b {
					if strings.HasPrefix(f, "RawPredicateValue") || f == "Predicate" {
						delete(b, k) // compiled state, or a group without an element name
					}
				}
				if len(b) > 0 && !customDecoded(o.Type()) {
					g.Tags[n] = b
				}
			}
		case *types.Const:
			t := typeName(o.Type())
			if g.Consts[t] == nil {
				g.Consts[t] = map[string]string{}
			}
			g.Consts[t][n] = constant.StringVal(o.Val())
		}
	}
	b, _ := json.MarshalIndent(g, "", " ")
	os.WriteFile(goldenPath(), append(b, '\n'), 0o644)
}

// customDecoded reports whether the type has an UnmarshalXML of its own, which
// makes encoding/xml ignore its tags (C02 checks those decoders), unless that
// method hands the value on under a type without the method.
func customDecoded(t types.Type) bool {
	ms := types.NewMethodSet(types.NewPointer(t))
	sel := ms.Lookup(nil, "UnmarshalXML")
	if sel == nil {
		return false
	}
	return !delegating(theProg.MethodValue(sel))
}

func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Name()
	}
	return t.String()
}

// xmlBindings computes the bindings encoding/xml derives from a struct type:
// "name,kind" -> field path, with the package's shadowing rules for embedded
// structs; clashes at equal depth are reported.
func xmlBindings(st *types.Struct) (map[string]string, []string) {
	type bind struct {
		path  string
		depth int
	}
	all := map[string][]bind{}
	var walk func(st *types.Struct, pre string, depth int)
	walk = func(st *types.Struct, pre string, depth int) {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			tag := reflect.StructTag(st.Tag(i)).Get("xml")
			if tag == "-" {
				continue
			}
			if f.Anonymous() && tag == "" {
				t := f.Type()
				if p, ok := t.Underlying().(*types.Pointer); ok {
					t = p.Elem()
				}
				if es, ok := isStruct(t); ok {
					walk(es, pre+f.Name()+".", depth+1)
				}
				continue
			}
			if !f.Exported() {
				continue
			}
			parts := strings.Split(tag, ",")
			name := parts[0]
			if j := strings.LastIndex(name, " "); j >= 0 {
				name = name[j+1:]
			}
			kind := "element"
			for _, p := range parts[1:] {
				switch p {
				case "attr", "chardata", "cdata", "innerxml", "comment", "any":
					if kind == "element" {
						kind = p
					} else {
						kind += "," + p
					}
				}
			}
			if name == "" && kind == "element" || name == "" && kind == "attr" {
				name = f.Name()
			}
			if f.Name() == "XMLName" {
				kind = "xmlname"
			}
			k := name + "," + kind
			all[k] = append(all[k], bind{pre + f.Name(), depth})
		}
	}
	walk(st, "", 0)
	r := map[string]string{}
	var clash []string
	for k, l := range all {
		sort.Slice(l, func(i, j int) bool { return l[i].depth < l[j].depth })
		if len(l) > 1 && l[0].depth == l[1].depth {
			clash = append(clash, fmt.Sprintf("%s bound by both %s and %s", k, l[0].path, l[1].path))
			continue
		}
		r[k] = l[0].path
	}
	sort.Strings(clash)
	return r, clash
}

func sortedKeys[V any](m map[string]V) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

func init() {
	checks["C01"] = checkDef{checkC01, "abstract interpretation of the element-name dispatch, compared with the schema groups"}
	checks["C05"] = checkDef{checkC05, "type-checked program query: effective encoding/xml bindings against a frozen schema table"}
	checks["C06"] = checkDef{checkC06, "type-checked program query: constant values against a frozen schema table"}
}

func checkC01(r *Report) {
	g := readGolden()
	r.minOb = 45
	for _, name := range groupFuncs {
		fn := modPkg.Func(name)
		if fn == nil {
			r.undecided(name, "", "function models.%s not found", name)
			continue
		}
		pos := posString(fn.Pos())
		guarded(r, name, func() {
			for _, el := range g.Groups[name] {
				x := newExec()
				outs := x.run(fn, []*Term{cStr(el)}, nil, newState(x), "e")
				r.covered(x)
				r.paths += len(outs)
				ok := len(outs) > 0
				what := "no result"
				want := modType(el)
				for _, o := range outs {
					v, okv := o.ret[0], o.ret[1]
					what = fmt.Sprintf("%s(%q) returns (%s, %s), not a new *%s and true", name, el, v, okv, el)
					if want == nil || okv != tTrue || v.op != "iface" || v.aux != typeKey(types.NewPointer(want)) {
						ok = false
						break
					}
					p := v.args[0]
					if p.op != "alloc" || !o.st.isFresh(p) {
						ok = false
						what = fmt.Sprintf("%s(%q) does not return a newly allocated value", name, el)
						break
					}
				}
				r.check(ok, name+":"+el, pos, "%s", what)
			}
			x := newExec()
			arg := mk("param", "name", types.Typ[types.String])
			outs := x.run(fn, []*Term{arg}, nil, newState(x), "o")
			r.covered(x)
			r.paths += len(outs)
			inGroup := map[*Term]bool{}
			for _, el := range g.Groups[name] {
				inGroup[cStr(el)] = true
			}
			for _, o := range outs {
				if v, ok := o.st.f.val[arg]; ok {
					if inGroup[v] {
						continue
					}
					r.check(o.ret[1] == tFalse && o.ret[0] == tNil, name+":"+v.String(), pos, "%s(%s) returns (%s, %s) although %s is not in its schema group", name, v, o.ret[0], o.ret[1], v)
					continue
				}
				// the path taken by names outside the group
				ne := map[*Term]bool{}
				for _, n := range o.st.f.ne[arg] {
					ne[n] = true
				}
				only := true
				for _, l := range o.st.lits() {
					c := l.c
					for c.op == "not" {
						c = c.args[0]
					}
					if !(c.op == "eq" && c.args[0] == arg && c.args[1].isConst()) {
						only = false
					}
				}
				r.check(o.ret[1] == tFalse && o.ret[0] == tNil, name+":other", pos, "%s returns (%s, %s) for a name outside its schema group when %s", name, o.ret[0], o.ret[1], describe(o.st.lits()))
				_ = only
			}
		})
	}
}

func checkC05(r *Report) {
	g := readGolden()
	r.minOb = 500
	sc := modPkg.Pkg.Scope()
	for _, tn := range sortedKeys(g.Tags) {
		o := sc.Lookup(tn)
		if o == nil {
			r.undecided(tn, "", "type models.%s not found", tn)
			continue
		}
		pos := posString(o.Pos())
		st, ok := isStruct(o.Type())
		if !ok {
			r.undecided(tn, pos, "models.%s is not a struct", tn)
			continue
		}
		if customDecoded(o.Type()) {
			continue // since rewritten to a custom decoder: C02
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if it, ok := f.Type().Underlying().(*types.Interface); ok && it.NumMethods() > 0 && f.Exported() && !f.Anonymous() {
				r.check(reflect.StructTag(st.Tag(i)).Get("xml") == "-", tn+"."+f.Name()+":group", pos, "models.%s.%s holds any element of the group %s, which no tag can bind: it stays nil for every document", tn, f.Name(), f.Type())
			}
		}
		b, clash := xmlBindings(st)
		for _, c := range clash {
			r.check(false, tn+":clash", pos, "models.%s: %s, so encoding/xml binds neither", tn, c)
		}
		for _, k := range sortedKeys(g.Tags[tn]) {
			want := g.Tags[tn][k]
			got := b[k]
			if got == "" {
				got = "no field"
			}
			r.check(got == want, tn+":"+k, pos, "models.%s: the schema's %s must be stored in field %s but is bound to %s", tn, k, want, got)
		}
		// a field of the schema table bound to another name
		rev := map[string]string{}
		for k, f := range g.Tags[tn] {
			rev[f] = k
		}
		for _, k := range sortedKeys(b) {
			f := b[k]
			if w, ok := rev[f]; ok {
				r.check(w == k, tn+"."+f, pos, "models.%s.%s is bound to %s instead of %s", tn, f, k, w)
			}
		}
	}
	// attributes that a custom decoder reads itself
	for _, fn := range customDecoders() {
		name := typeName(recvType(fn))
		if delegating(fn) || len(decoderAttrs[name]) == 0 {
			continue
		}
		guarded(r, name, func() { runDecoder(r, fn).checkAttrs(r, "attr:", decoderAttrs[name]) })
	}
	r.extra["structs"] = len(g.Tags)
}

func checkC06(r *Report) {
	g := readGolden()
	r.minOb = 200
	sc := modPkg.Pkg.Scope()
	for _, tn := range sortedKeys(g.Consts) {
		for _, cn := range sortedKeys(g.Consts[tn]) {
			o, ok := sc.Lookup(cn).(*types.Const)
			if !ok {
				r.undecided(cn, "", "constant models.%s not found", cn)
				continue
			}
			v := ""
			if o.Val().Kind() == constant.String {
				v = constant.StringVal(o.Val())
			}
			pos := posString(o.Pos())
			r.check(v == g.Consts[tn][cn], cn, pos, "models.%s is %q, the schema says %q", cn, v, g.Consts[tn][cn])
			r.check(typeName(o.Type()) == tn, cn+":type", pos, "models.%s has type %s instead of %s", cn, o.Type(), tn)
		}
	}
	// two constants of one enumeration never share a value
	by := map[string]map[string]string{}
	for _, n := range sc.Names() {
		o, ok := sc.Lookup(n).(*types.Const)
		if !ok || !o.Exported() || o.Val().Kind() != constant.String {
			continue
		}
		t := typeName(o.Type())
		if by[t] == nil {
			by[t] = map[string]string{}
		}
		v := constant.StringVal(o.Val())
		prev, dup := by[t][v]
		r.check(!dup, n+":unique", posString(o.Pos()), "models.%s and models.%s of type %s share the value %q", n, prev, t, v)
		by[t][v] = n
	}
	r.extra["enumerations"] = len(g.Consts)
}

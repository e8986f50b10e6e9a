package main

// C08: conversions of evaluation.Value, per Go type of what it holds.

import (
	"go/types"
)

var valueKinds = []struct {
	name string
	typ  types.Type
}{
	{"Int", types.Typ[types.Int]}, {"Int8", types.Typ[types.Int8]}, {"Int16", types.Typ[types.Int16]},
	{"Int32", types.Typ[types.Int32]}, {"Int64", types.Typ[types.Int64]},
	{"Uint", types.Typ[types.Uint]}, {"Uint8", types.Typ[types.Uint8]}, {"Uint16", types.Typ[types.Uint16]},
	{"Uint32", types.Typ[types.Uint32]}, {"Uint64", types.Typ[types.Uint64]},
	{"Float32", types.Typ[types.Float32]}, {"Float64", types.Typ[types.Float64]},
	{"String", types.Typ[types.String]}, {"Bool", types.Typ[types.Bool]}, {"Any", nil},
}

func checkC08(r *Report) {
	r.minOb = 75
	for _, a := range []string{"Float64", "Float32", "Int64", "Bool", "Raw", "String"} {
		m := methodOf(evType("Value"), a)
		for _, k := range valueKinds {
			get, want := specFn("Get"+a+k.name), specFn("Want"+a+k.name)
			if get == nil || want == nil {
				continue // String of anything but text is not part of the property
			}
			key := a + ":" + k.name
			k := k
			guarded(r, key, func() {
				args := paramTerms(get)
				compare(r, key, "Value."+a+" of "+k.name, false, runFn(get, args, "e"), runFn(want, args, "s"), pairOpt{
					hook: func(x *Exec) { x.rawAcc = true },
					pos:  m.Pos(), min: 1,
					pre: func(x *Exec, st *State) bool {
						ok := true
						if k.name == "Any" {
							for _, o := range valueKinds {
								if o.typ != nil {
									ok = st.f.assume(tIsType(args[0], o.typ), false) && ok
								}
							}
						}
						return ok
					},
				})
			})
		}
	}
}

func init() {
	checks["C08"] = checkDef{checkC08, "abstract interpretation of every conversion for every dynamic type, compared with Go's own conversion"}
}

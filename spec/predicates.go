// Package verifspec holds reference versions of /repo's functions.  It is
// never compiled or run: the analyser loads it next to /repo's packages and
// compares abstract results.
package verifspec

import (
	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

func cmpF(op models.SimplePredicateOperator, a, b float64) bool {
	switch op {
	case models.SimplePredicateOperatorEqual:
		return a == b
	case models.SimplePredicateOperatorNotEqual:
		return a != b
	case models.SimplePredicateOperatorLessThan:
		return a < b
	case models.SimplePredicateOperatorLessOrEqual:
		return a <= b
	case models.SimplePredicateOperatorGreaterThan:
		return a > b
	case models.SimplePredicateOperatorGreaterOrEqual:
		return a >= b
	}
	return false
}

func cmpI(op models.SimplePredicateOperator, a, b int64) bool {
	switch op {
	case models.SimplePredicateOperatorEqual:
		return a == b
	case models.SimplePredicateOperatorNotEqual:
		return a != b
	case models.SimplePredicateOperatorLessThan:
		return a < b
	case models.SimplePredicateOperatorLessOrEqual:
		return a <= b
	case models.SimplePredicateOperatorGreaterThan:
		return a > b
	case models.SimplePredicateOperatorGreaterOrEqual:
		return a >= b
	}
	return false
}

func tf(b bool, T, F int) int {
	if b {
		return T
	}
	return F
}

// Simple: a simple predicate whose literal was compiled for data type dt.
func Simple(p *models.SimplePredicate, in evaluation.DataRow, dt models.DataType, T, F, U int) int {
	v, ok := in[string(p.Field)]
	if !ok || v.Raw() == nil {
		switch p.Operator {
		case models.SimplePredicateOperatorIsMissing:
			return T
		case models.SimplePredicateOperatorIsNotMissing:
			return F
		}
		return U
	}
	switch p.Operator {
	case models.SimplePredicateOperatorIsMissing:
		return F
	case models.SimplePredicateOperatorIsNotMissing:
		return T
	}
	switch dt {
	case models.DataTypeDouble, models.DataTypeFloat:
		return tf(cmpF(p.Operator, v.Float64(), p.RawPredicateValue.(float64)), T, F)
	case models.DataTypeInteger:
		return tf(cmpI(p.Operator, v.Int64(), p.RawPredicateValue.(int64)), T, F)
	}
	switch p.Operator {
	case models.SimplePredicateOperatorEqual:
		return tf(v.Raw() == p.RawPredicateValue, T, F)
	case models.SimplePredicateOperatorNotEqual:
		return tf(v.Raw() != p.RawPredicateValue, T, F)
	}
	return F
}

// Set: a set predicate whose members were compiled for data type dt.
func Set(p *models.SimpleSetPredicate, in evaluation.DataRow, T, F, U int) int {
	v, ok := in[string(p.Field)]
	if !ok || v.Raw() == nil {
		return U
	}
	found := false
	for _, m := range p.RawPredicateValues {
		if MemberEqual(v, m) {
			found = true
		}
	}
	switch p.BooleanOperator {
	case models.SimpleSetPredicateOperatorIsIn:
		return tf(found, T, F)
	case models.SimpleSetPredicateOperatorIsNotIn:
		return tf(!found, T, F)
	}
	return F
}

// MemberEqual compares in the type of the compiled member.
func MemberEqual(v evaluation.Value, m interface{}) bool {
	switch x := m.(type) {
	case float64:
		return v.Float64() == x
	case int64:
		return v.Int64() == x
	}
	return v.Raw() == m
}

// Pred stands for the predicate evaluator itself (members of a compound).
func Pred(p models.Predicate, in evaluation.DataRow, types map[models.FieldName]models.DataType) int {
	return 0
}

// Compound: three-valued logic over the members.
func Compound(p *models.CompoundPredicate, in evaluation.DataRow, types map[models.FieldName]models.DataType, T, F, U int) int {
	if p.BooleanOperator == models.CompoundPredicateOperatorSurrogate {
		for _, m := range p.Predicates {
			if r := Pred(m, in, types); r != U {
				return r
			}
		}
		return U
	}
	nT, nF, nU := 0, 0, 0
	for _, m := range p.Predicates {
		switch Pred(m, in, types) {
		case T:
			nT++
		case F:
			nF++
		case U:
			nU++
		}
	}
	switch p.BooleanOperator {
	case models.CompoundPredicateOperatorAnd:
		if nF > 0 {
			return F
		}
		if nU > 0 {
			return U
		}
		return T
	case models.CompoundPredicateOperatorOr:
		if nT > 0 {
			return T
		}
		if nU > 0 {
			return U
		}
		return F
	case models.CompoundPredicateOperatorXor:
		if nU > 0 {
			return U
		}
		if nT%2 == 1 {
			return T
		}
		return F
	}
	return F
}

// Compound2: results counted by value.
func Compound2(p *models.CompoundPredicate, in evaluation.DataRow, types map[models.FieldName]models.DataType, T, F, U int) int {
	n := make(map[int]int)
	for _, m := range p.Predicates {
		r := Pred(m, in, types)
		if p.BooleanOperator == models.CompoundPredicateOperatorSurrogate && r != U {
			return r
		}
		n[r]++
	}
	switch p.BooleanOperator {
	case models.CompoundPredicateOperatorAnd:
		if n[F] > 0 {
			return F
		}
		if n[U] > 0 {
			return U
		}
		return T
	case models.CompoundPredicateOperatorOr:
		if n[T] > 0 {
			return T
		}
		if n[U] > 0 {
			return U
		}
		return F
	case models.CompoundPredicateOperatorXor:
		if n[U] > 0 {
			return U
		}
		if n[T]%2 != 0 {
			return T
		}
		return F
	case models.CompoundPredicateOperatorSurrogate:
		return U
	}
	return F
}

// Compound3: flags and a parity.
func Compound3(p *models.CompoundPredicate, in evaluation.DataRow, types map[models.FieldName]models.DataType, T, F, U int) int {
	anyT, anyF, anyU, odd := false, false, false, false
	for _, m := range p.Predicates {
		r := Pred(m, in, types)
		if p.BooleanOperator == models.CompoundPredicateOperatorSurrogate && r != U {
			return r
		}
		switch r {
		case T:
			anyT = true
			odd = !odd
		case F:
			anyF = true
		case U:
			anyU = true
		}
	}
	switch p.BooleanOperator {
	case models.CompoundPredicateOperatorAnd:
		if anyF {
			return F
		}
		if anyU {
			return U
		}
		return T
	case models.CompoundPredicateOperatorOr:
		if anyT {
			return T
		}
		if anyU {
			return U
		}
		return F
	case models.CompoundPredicateOperatorXor:
		if anyU {
			return U
		}
		if odd {
			return T
		}
		return F
	case models.CompoundPredicateOperatorSurrogate:
		return U
	}
	return F
}

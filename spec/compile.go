package verifspec

import (
	"errors"
	"strconv"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// Literal: a predicate literal in the declared type of its field.
func Literal(dt models.DataType, s string) (interface{}, error) {
	switch dt {
	case models.DataTypeBoolean:
		return strconv.ParseBool(s)
	case models.DataTypeDouble, models.DataTypeFloat:
		return strconv.ParseFloat(s, 64)
	case models.DataTypeInteger:
		return strconv.ParseInt(s, 10, 64)
	case models.DataTypeString:
		return s, nil
	}
	return nil, errors.New("no literals of this type")
}

// CompileSimple returns the compiled literal of a simple predicate.
func CompileSimple(types map[models.FieldName]models.DataType, p *models.SimplePredicate) (interface{}, error) {
	dt, ok := types[p.Field]
	if !ok {
		return nil, errors.New("undeclared field")
	}
	if p.Operator == models.SimplePredicateOperatorIsMissing || p.Operator == models.SimplePredicateOperatorIsNotMissing {
		return p.RawPredicateValue, nil
	}
	return Literal(dt, p.Value)
}

// CompileSet returns the compiled members of a set predicate.
func CompileSet(types map[models.FieldName]models.DataType, p *models.SimpleSetPredicate) ([]interface{}, error) {
	dt, ok := types[p.Field]
	if !ok {
		return nil, errors.New("undeclared field")
	}
	a := models.ArrayType{Type: models.ArrayTypeTypeString, RawValue: p.Array.RawValue}
	words, err := a.Strings()
	if err != nil {
		return nil, err
	}
	var l []interface{}
	for _, w := range words {
		v, err := Literal(dt, w)
		if err != nil {
			return nil, err
		}
		l = append(l, v)
	}
	return l, nil
}

// CompilePredicate stands for the predicate compiler (members of a compound).
func CompilePredicate(types map[models.FieldName]models.DataType, p models.Predicate) error {
	return nil
}

// CompileCompound compiles every member.
func CompileCompound(types map[models.FieldName]models.DataType, p *models.CompoundPredicate) error {
	for _, m := range p.Predicates {
		if err := CompilePredicate(types, m); err != nil {
			return err
		}
	}
	return nil
}

// TreeTypes: the declared types a tree's predicates are compiled with.
func TreeTypes(dd *models.DataDictionary, td *models.TransformationDictionary, m *models.TreeModel) map[models.FieldName]models.DataType {
	t := map[models.FieldName]models.DataType{}
	for _, f := range dd.DataFields {
		t[f.Name] = f.DataType
	}
	for _, f := range td.DerivedFields {
		t[models.FieldName(f.Name)] = f.DataType
	}
	for _, f := range m.LocalTransformations.DerivedFields {
		t[models.FieldName(f.Name)] = f.DataType
	}
	return t
}

// MiningTypes: the same for a mining model, whose predicates also see what
// its segments output.
func MiningTypes(dd *models.DataDictionary, td *models.TransformationDictionary, m *models.MiningModel) map[models.FieldName]models.DataType {
	t := map[models.FieldName]models.DataType{}
	for _, f := range dd.DataFields {
		t[f.Name] = f.DataType
	}
	for _, f := range td.DerivedFields {
		t[models.FieldName(f.Name)] = f.DataType
	}
	for _, f := range m.LocalTransformations.DerivedFields {
		t[models.FieldName(f.Name)] = f.DataType
	}
	for _, s := range m.Segmentation.Segments {
		for _, e := range s.Models {
			for _, f := range SegmentOutputs(e) {
				if _, ok := t[f.Name]; !ok && f.DataType != "" {
					t[f.Name] = f.DataType
				}
			}
		}
	}
	return t
}

// SegmentOutputs lists the declared outputs of a segment's model.
func SegmentOutputs(e models.ModelElement) []models.OutputField {
	switch v := e.(type) {
	case *models.MiningModel:
		return v.Output.Fields
	case *models.RegressionModel:
		return v.Output.Fields
	}
	return nil
}

// CompileSegments: what a mining model must compile.
func CompileSegments(m *models.MiningModel) error {
	for _, s := range m.Segmentation.Segments {
		if len(s.Models) != 1 {
			return errors.New("not one model")
		}
		for _, p := range s.Predicates {
			if err := CompilePredicate(nil, p); err != nil {
				return err
			}
		}
		if _, err := evaluation.NewModel(nil, nil, s.Models[0]); err != nil {
			return err
		}
	}
	return nil
}

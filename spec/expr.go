package verifspec

import (
	"errors"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// Apply: the built-in functions.
func Apply(a *models.Apply, in evaluation.DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (evaluation.Value, error) {
	none := evaluation.NewValue(nil)
	n := len(a.Expressions)
	switch a.Function {
	case "sum":
		s := 0.0
		for _, e := range a.Expressions {
			v, err := evaluation.HandleExpression(e, in, dd, td, lt, ms)
			if err != nil {
				return none, err
			}
			s += v.Float64()
		}
		return evaluation.NewValue(s), nil
	case "+", "-", "*", "/":
		if n != 2 {
			return none, errors.New("spec")
		}
		x, err := evaluation.HandleExpression(a.Expressions[0], in, dd, td, lt, ms)
		if err != nil {
			return none, err
		}
		y, err := evaluation.HandleExpression(a.Expressions[1], in, dd, td, lt, ms)
		if err != nil {
			return none, err
		}
		if x.Raw() == nil || y.Raw() == nil {
			return none, nil
		}
		switch a.Function {
		case "+":
			return evaluation.NewValue(x.Float64() + y.Float64()), nil
		case "-":
			return evaluation.NewValue(x.Float64() - y.Float64()), nil
		case "*":
			return evaluation.NewValue(x.Float64() * y.Float64()), nil
		}
		return evaluation.NewValue(x.Float64() / y.Float64()), nil
	case "isMissing", "isNotMissing":
		if n != 1 {
			return none, errors.New("spec")
		}
		x, err := evaluation.HandleExpression(a.Expressions[0], in, dd, td, lt, ms)
		if err != nil {
			return none, err
		}
		return evaluation.NewValue((x.Raw() == nil) == (a.Function == "isMissing")), nil
	case "if":
		if n != 3 {
			return none, errors.New("spec")
		}
		c, err := evaluation.HandleExpression(a.Expressions[0], in, dd, td, lt, ms)
		if err != nil {
			return none, err
		}
		if c.Bool() {
			return evaluation.HandleExpression(a.Expressions[1], in, dd, td, lt, ms)
		}
		return evaluation.HandleExpression(a.Expressions[2], in, dd, td, lt, ms)
	}
	return none, errors.New("spec")
}

func FieldRef(f *models.FieldRef, in evaluation.DataRow) (evaluation.Value, error) {
	return in[string(f.Field)], nil
}

func Constant(c *models.Constant) (evaluation.Value, error) {
	if c.DataType != models.DataTypeDouble {
		return evaluation.NewValue(nil), errors.New("spec")
	}
	x, err := strconv.ParseFloat(c.Value, 64)
	if err != nil {
		return evaluation.NewValue(nil), err
	}
	return evaluation.NewValue(x), nil
}

// local part of a column's qualified name
func local(s string) string { return s[strings.LastIndex(s, ":")+1:] }

func MapValues(e *models.MapValues, in evaluation.DataRow) (evaluation.Value, error) {
	cols := map[string]evaluation.Value{}
	for _, p := range e.FieldColumnPairs {
		if v, ok := in[p.Field]; ok {
			cols[local(p.Column)] = v
		}
	}
	for _, t := range e.InlineTables {
		for _, row := range t.Rows {
			out, ok := row[local(e.OutputColumn)]
			if !ok {
				continue
			}
			match := true
			for _, p := range e.FieldColumnPairs {
				v, ok := cols[local(p.Column)]
				if !ok || row[local(p.Column)] != v.String() {
					match = false
					break
				}
			}
			if match {
				return evaluation.NewValue(out), nil
			}
		}
	}
	if e.DefaultValue != nil {
		v, err := Literal(e.DataType, *e.DefaultValue)
		if err != nil {
			return evaluation.NewValue(nil), err
		}
		return evaluation.NewValue(v), nil
	}
	if len(e.FieldColumnPairs) == 1 {
		if v, ok := cols[local(e.FieldColumnPairs[0].Column)]; ok {
			return v, nil
		}
	}
	return evaluation.NewValue(nil), errors.New("spec")
}

func Unsupported(e models.Expression) (evaluation.Value, error) {
	return evaluation.NewValue(nil), errors.New("spec")
}

// Input: the row a model is evaluated on.
func Input(in evaluation.DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (evaluation.DataRow, error) {
	var todo []models.DerivedField
	if td != nil {
		for _, f := range td.DerivedFields {
			if _, ok := in[f.Name]; !ok {
				todo = append(todo, f)
			}
		}
	}
	todo = append(todo, lt.DerivedFields...)
	row := evaluation.DataRow{}
	for k, v := range in {
		row[k] = v
	}
	for _, f := range todo {
		v, err := evaluation.HandleExpression(f.Expression, row, dd, td, lt, ms)
		if err != nil {
			return nil, err
		}
		if f.OpType == models.OpTypeContinuous && v.Raw() != nil {
			v = evaluation.NewValue(v.Float64())
		}
		row[f.Name] = v
	}
	return row, nil
}

// Input2: the two lists of derived fields in turn.
func Input2(in evaluation.DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (evaluation.DataRow, error) {
	row := evaluation.DataRow{}
	for k, v := range in {
		row[k] = v
	}
	if td != nil {
		for _, f := range td.DerivedFields {
			if _, ok := in[f.Name]; ok {
				continue
			}
			v, err := evaluation.HandleExpression(f.Expression, row, dd, td, lt, ms)
			if err != nil {
				return nil, err
			}
			if f.OpType == models.OpTypeContinuous && v.Raw() != nil {
				v = evaluation.NewValue(v.Float64())
			}
			row[f.Name] = v
		}
	}
	for _, f := range lt.DerivedFields {
		v, err := evaluation.HandleExpression(f.Expression, row, dd, td, lt, ms)
		if err != nil {
			return nil, err
		}
		if f.OpType == models.OpTypeContinuous && v.Raw() != nil {
			v = evaluation.NewValue(v.Float64())
		}
		row[f.Name] = v
	}
	return row, nil
}

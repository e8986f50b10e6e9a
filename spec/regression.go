package verifspec

import (
	"errors"
	"math"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// Link is the declared normalization of a regression score.
func Link(m models.RegressionNormalizationMethod, y float64) (float64, error) {
	switch m {
	case models.RegressionNormalizationMethodNone, "":
		return y, nil
	case models.RegressionNormalizationMethodSoftmax, models.RegressionNormalizationMethodLogit:
		return 1 / (1 + math.Exp(-y)), nil
	case models.RegressionNormalizationMethodExp:
		return math.Exp(y), nil
	case models.RegressionNormalizationMethodCloglog:
		return 1 - math.Exp(-math.Exp(y)), nil
	case models.RegressionNormalizationMethodCauchit:
		return 0.5 + math.Atan(y)/math.Pi, nil
	}
	return 0, errors.New("spec")
}

// Linear: intercept plus every coefficient times its input.
func Linear(t models.RegressionTable, in evaluation.DataRow) (float64, error) {
	y := t.Intercept
	for _, p := range t.NumericPredictor {
		v, ok := in[p.Name]
		if !ok || v.Raw() == nil {
			return 0, errors.New("spec")
		}
		y += p.Coefficient * v.Float64()
	}
	return y, nil
}

// RegressionOut is what a regression model outputs on a prepared row.
func RegressionOut(m *models.RegressionModel, in evaluation.DataRow) (evaluation.DataRow, error) {
	if len(m.RegressionTables) != 1 || len(m.Output.Fields) != 1 {
		return nil, errors.New("spec")
	}
	y, err := Linear(m.RegressionTables[0], in)
	if err != nil {
		return nil, err
	}
	p, err := Link(m.RegressionNormalizationMethod, y)
	if err != nil {
		return nil, err
	}
	return evaluation.DataRow{string(m.Output.Fields[0].Name): evaluation.NewValue(p)}, nil
}

// BinaryOut: a classification with two output fields.
func BinaryOut(m *models.RegressionModel, in evaluation.DataRow) (evaluation.DataRow, error) {
	preds := make([]float64, len(m.RegressionTables))
	rest := 1.0
	for i, t := range m.RegressionTables {
		if len(t.NumericPredictor) == 0 {
			continue
		}
		y, err := Linear(t, in)
		if err != nil {
			return nil, err
		}
		p, err := Link(m.RegressionNormalizationMethod, y)
		if err != nil {
			return nil, err
		}
		preds[i] = p
		rest -= p
	}
	out := evaluation.DataRow{}
	for i, t := range m.RegressionTables {
		p := preds[i]
		if len(t.NumericPredictor) == 0 {
			p = rest
		}
		for _, o := range m.Output.Fields {
			if t.TargetCategory == o.Value {
				out[string(o.Name)] = evaluation.NewValue(p)
			}
		}
	}
	return out, nil
}

// MultiOut: a classification with any other number of output fields.
func MultiOut(m *models.RegressionModel, in evaluation.DataRow) (evaluation.DataRow, error) {
	fields := map[string]string{}
	for _, o := range m.Output.Fields {
		fields[o.Value] = string(o.Name)
	}
	scores := make([]float64, len(m.RegressionTables))
	names := make([]string, len(m.RegressionTables))
	for i, t := range m.RegressionTables {
		y, err := Linear(t, in)
		if err != nil {
			return nil, err
		}
		scores[i] = y
		names[i] = fields[t.TargetCategory]
	}
	out := evaluation.DataRow{}
	for i, n := range names {
		if n == "" {
			continue
		}
		total := 0.0
		switch m.RegressionNormalizationMethod {
		case models.RegressionNormalizationMethodSoftmax:
			for _, y := range scores {
				total += math.Exp(y)
			}
			out[n] = evaluation.NewValue(math.Exp(scores[i]) / total)
		case models.RegressionNormalizationMethodSimplemax:
			for _, y := range scores {
				total += y
			}
			out[n] = evaluation.NewValue(scores[i] / total)
		default:
			return nil, errors.New("spec")
		}
	}
	return out, nil
}

// Regression evaluates a constructed model on the caller's row.
func Regression(m *models.RegressionModel, dd *models.DataDictionary, td *models.TransformationDictionary, in evaluation.DataRow) (evaluation.DataRow, error) {
	row, err := evaluation.HandleInput(in, dd, td, &m.LocalTransformations, &m.MiningSchema)
	if err != nil {
		return nil, err
	}
	switch m.FunctionName {
	case models.MiningFunctionRegression:
		return RegressionOut(m, row)
	case models.MiningFunctionClassification:
		if len(m.Output.Fields) == 2 {
			return BinaryOut(m, row)
		}
		return MultiOut(m, row)
	}
	return nil, errors.New("spec")
}

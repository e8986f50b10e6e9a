package verifspec

import (
	"errors"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// Impute is the row a mining model prepares: the caller's, with declared
// replacements for what is missing.
func Impute(m *models.MiningModel, in evaluation.DataRow) evaluation.DataRow {
	repl := map[string]evaluation.Value{}
	for _, f := range m.MiningSchema.MiningFields {
		if f.MissingValueReplacement != nil {
			repl[string(f.Name)] = evaluation.NewValue(*f.MissingValueReplacement)
		}
	}
	row := evaluation.DataRow{}
	for k, v := range in {
		row[k] = v
	}
	for k, v := range repl {
		if old, ok := row[k]; !ok || old.Raw() == nil {
			row[k] = v
		}
	}
	return row
}

// Impute2 is Impute starting from the replacements.
func Impute2(m *models.MiningModel, in evaluation.DataRow) evaluation.DataRow {
	repl := map[string]evaluation.Value{}
	for _, f := range m.MiningSchema.MiningFields {
		if f.MissingValueReplacement != nil {
			repl[string(f.Name)] = evaluation.NewValue(*f.MissingValueReplacement)
		}
	}
	row := evaluation.DataRow{}
	for k, v := range repl {
		row[k] = v
	}
	for k, v := range in {
		if _, ok := repl[k]; ok && v.Raw() == nil {
			continue
		}
		row[k] = v
	}
	return row
}

// Segment models are built from the segments' model elements.
func segmentModels(m *models.MiningModel) []evaluation.Model {
	var l []evaluation.Model
	for _, s := range m.Segmentation.Segments {
		x, _ := evaluation.NewModel(nil, nil, s.Models[0])
		l = append(l, x)
	}
	return l
}

// applies: every predicate of segment i is true (T).
func applies(m *models.MiningModel, i int, row evaluation.DataRow, types map[models.FieldName]models.DataType, T int) bool {
	for _, p := range m.Segmentation.Segments[i].Predicates {
		if Pred(p, row, types) != T {
			return false
		}
	}
	return true
}

func First(m *models.MiningModel, row evaluation.DataRow, types map[models.FieldName]models.DataType, T, F, U int) (evaluation.DataRow, error) {
	for i, s := range segmentModels(m) {
		if applies(m, i, row, types, T) {
			return s.Evaluate(row)
		}
	}
	return nil, errors.New("spec")
}

func Chain(m *models.MiningModel, row evaluation.DataRow, types map[models.FieldName]models.DataType, T, F, U int) (evaluation.DataRow, error) {
	last := evaluation.DataRow{}
	for i, s := range segmentModels(m) {
		for k, v := range last {
			row[k] = v
		}
		if !applies(m, i, row, types, T) {
			continue
		}
		out, err := s.Evaluate(row)
		if err != nil {
			return nil, err
		}
		last = out
	}
	return last, nil
}

// Chain2 is Chain with each segment's results joined to the row at once.
func Chain2(m *models.MiningModel, row evaluation.DataRow, types map[models.FieldName]models.DataType, T, F, U int) (evaluation.DataRow, error) {
	last := evaluation.DataRow{}
	for i, s := range segmentModels(m) {
		if !applies(m, i, row, types, T) {
			continue
		}
		out, err := s.Evaluate(row)
		if err != nil {
			return nil, err
		}
		for k, v := range out {
			row[k] = v
		}
		last = out
	}
	return last, nil
}

// Total adds up the segments' scores.
func Total(m *models.MiningModel, row evaluation.DataRow, types map[models.FieldName]models.DataType, T int) (map[models.FieldName]float64, int, error) {
	total := map[models.FieldName]float64{}
	for _, f := range m.Output.Fields {
		total[f.Name] = 0
	}
	for _, t := range m.Targets.Targets {
		total[t.Field] = 0
	}
	n := 0
	for i, s := range segmentModels(m) {
		if !applies(m, i, row, types, T) {
			continue
		}
		n++
		out, err := s.Evaluate(row)
		if err != nil {
			return nil, 0, err
		}
		for k, v := range total {
			key := "score"
			if m.FunctionName == models.MiningFunctionClassification {
				key = string(k)
			}
			if x, ok := out[key]; ok {
				total[k] = v + x.Float64()
			}
		}
	}
	return total, n, nil
}

func rescale(m *models.MiningModel, total map[models.FieldName]float64) evaluation.DataRow {
	for _, t := range m.Targets.Targets {
		if t.RescaleFactor != nil {
			total[t.Field] = total[t.Field] * *t.RescaleFactor
		}
		if t.RescaleConstant != nil {
			total[t.Field] = total[t.Field] + *t.RescaleConstant
		}
	}
	out := evaluation.DataRow{}
	for k, v := range total {
		out[string(k)] = evaluation.NewValue(v)
	}
	return out
}

func Sum(m *models.MiningModel, row evaluation.DataRow, types map[models.FieldName]models.DataType, T, F, U int) (evaluation.DataRow, error) {
	total, _, err := Total(m, row, types, T)
	if err != nil {
		return nil, err
	}
	return rescale(m, total), nil
}

func Average(m *models.MiningModel, row evaluation.DataRow, types map[models.FieldName]models.DataType, T, F, U int) (evaluation.DataRow, error) {
	total, n, err := Total(m, row, types, T)
	if err != nil {
		return nil, err
	}
	if n == 0 {
		return nil, errors.New("spec")
	}
	for k, v := range total {
		total[k] = v / float64(n)
	}
	return rescale(m, total), nil
}

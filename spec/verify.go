package verifspec

import (
	"errors"
	"math"
	"strconv"
	"strings"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

// Agrees: a prediction matches what the verification row expects.
func Agrees(want, got evaluation.Value, zero float64) bool {
	if _, err := strconv.ParseFloat(want.String(), 64); err != nil {
		return got.String() == want.String()
	}
	w, g := want.Float64(), got.Float64()
	return math.Abs(w) <= zero && math.Abs(g) <= zero || math.Abs(w-g) <= 1e-5*math.Abs(w)
}

// columns are the verification columns by name: what goes in, what is expected.
func columns(mv *models.ModelVerification) (ins, outs map[string]string, zero map[string]float64, err error) {
	ins, outs, zero = map[string]string{}, map[string]string{}, map[string]float64{}
	for _, f := range mv.VerificationFields.Fields {
		if !strings.HasPrefix(f.Column, "data:") {
			err = errors.New("spec")
			return
		}
		col := f.Column[len("data:"):]
		if f.Precision == nil {
			ins[col] = string(f.Field)
			continue
		}
		outs[col] = string(f.Field)
		zero[col] = 1e-16
		if f.ZeroThreshold != nil {
			zero[col] = *f.ZeroThreshold
		}
	}
	return
}

// Verification decides whether a model passes its verification data.
func Verification(m evaluation.Model, mv *models.ModelVerification) error {
	if mv == nil {
		return nil
	}
	ins, outs, zero, err := columns(mv)
	if err != nil {
		return err
	}
	for _, r := range mv.InlineTable.Rows {
		row := evaluation.DataRow{}
		for col, v := range r {
			if f, ok := ins[col]; ok {
				row[f] = evaluation.NewValue(v)
			}
		}
		out, err := m.Evaluate(row)
		if err != nil {
			return errors.New("spec")
		}
		for col, v := range r {
			f, ok := outs[col]
			if !ok {
				continue
			}
			got, ok := out[f]
			if !ok || !Agrees(evaluation.NewValue(v), got, zero[col]) {
				return errors.New("spec")
			}
		}
	}
	return nil
}

// Verification2 goes through the columns, not the cells.
func Verification2(m evaluation.Model, mv *models.ModelVerification) error {
	if mv == nil {
		return nil
	}
	ins, outs, zero, err := columns(mv)
	if err != nil {
		return err
	}
	for _, r := range mv.InlineTable.Rows {
		row := evaluation.DataRow{}
		for col, f := range ins {
			if v, ok := r[col]; ok {
				row[f] = evaluation.NewValue(v)
			}
		}
		out, err := m.Evaluate(row)
		if err != nil {
			return err
		}
		for col, f := range outs {
			v, ok := r[col]
			if !ok {
				continue
			}
			got, ok := out[f]
			if !ok || !Agrees(evaluation.NewValue(v), got, zero[col]) {
				return errors.New("spec")
			}
		}
	}
	return nil
}

func VerifyTree(m *evaluation.TreeModel, x *models.TreeModel) error {
	return Verification(m, x.ModelVerification)
}

func VerifyMining(m *evaluation.MiningModel, x *models.MiningModel) error {
	return Verification(m, x.ModelVerification)
}

func VerifyRegression(m *evaluation.RegressionModel, x *models.RegressionModel) error {
	return Verification(m, x.ModelVerification)
}

func VerifyTree2(m *evaluation.TreeModel, x *models.TreeModel) error {
	return Verification2(m, x.ModelVerification)
}

func VerifyMining2(m *evaluation.MiningModel, x *models.MiningModel) error {
	return Verification2(m, x.ModelVerification)
}

func VerifyRegression2(m *evaluation.RegressionModel, x *models.RegressionModel) error {
	return Verification2(m, x.ModelVerification)
}

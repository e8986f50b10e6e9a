package verifspec

import (
	"strconv"

	"github.com/flukeish/pmml/models"
	"github.com/mattn/go-shellwords"
)

// Two calls on one array: both must give the same list, or both fail.

func GetStrings(kind models.ArrayTypeType, n *int, raw string) (x []string, okx bool, y []string, oky bool) {
	at := models.ArrayType{Type: kind, N: n, RawValue: raw}
	x, err := at.Strings()
	okx = err == nil
	if !okx {
		x = nil
	}
	y, err = at.Strings()
	oky = err == nil
	if !oky {
		y = nil
	}
	return
}

func WantStrings(kind models.ArrayTypeType, n *int, raw string) (x []string, okx bool, y []string, oky bool) {
	if kind != models.ArrayTypeTypeString {
		return
	}
	words, err := shellwords.Parse(raw)
	if err != nil {
		return
	}
	return words, true, words, true
}

func GetInt64s(kind models.ArrayTypeType, n *int, raw string) (x []int64, okx bool, y []int64, oky bool) {
	at := models.ArrayType{Type: kind, N: n, RawValue: raw}
	x, err := at.Int64s()
	okx = err == nil
	if !okx {
		x = nil
	}
	y, err = at.Int64s()
	oky = err == nil
	if !oky {
		y = nil
	}
	return
}

func WantInt64s(kind models.ArrayTypeType, n *int, raw string) (x []int64, okx bool, y []int64, oky bool) {
	if kind != models.ArrayTypeTypeInt {
		return
	}
	words, err := shellwords.Parse(raw)
	if err != nil {
		return
	}
	l := []int64{}
	for _, w := range words {
		v, err := strconv.ParseInt(w, 10, 64)
		if err != nil {
			return
		}
		l = append(l, v)
	}
	return l, true, l, true
}

func GetFloat64s(kind models.ArrayTypeType, n *int, raw string) (x []float64, okx bool, y []float64, oky bool) {
	at := models.ArrayType{Type: kind, N: n, RawValue: raw}
	x, err := at.Float64s()
	okx = err == nil
	if !okx {
		x = nil
	}
	y, err = at.Float64s()
	oky = err == nil
	if !oky {
		y = nil
	}
	return
}

func WantFloat64s(kind models.ArrayTypeType, n *int, raw string) (x []float64, okx bool, y []float64, oky bool) {
	if kind != models.ArrayTypeTypeReal {
		return
	}
	words, err := shellwords.Parse(raw)
	if err != nil {
		return
	}
	l := []float64{}
	for _, w := range words {
		v, err := strconv.ParseFloat(w, 64)
		if err != nil {
			return
		}
		l = append(l, v)
	}
	return l, true, l, true
}

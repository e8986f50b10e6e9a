package verifspec

import (
	"errors"
	"strconv"

	"github.com/flukeish/pmml/evaluation"
	"github.com/flukeish/pmml/models"
)

type types = map[models.FieldName]models.DataType

// Child is the outcome of a child node (uninterpreted): its scores and
// whether it is true, false or unknown.
func Child(n models.Node, row evaluation.DataRow) ([]Dist, int) { panic("hooked") }

// Test is the value of a node's predicate (uninterpreted).
func Test(n models.Node, row evaluation.DataRow) int { panic("hooked") }

// target is the name of the (last) target field.
func target(m *models.TreeModel) models.FieldName {
	var name models.FieldName
	for _, f := range m.MiningSchema.MiningFields {
		if f.UsageType == models.FieldUsageTypeTarget {
			name = f.Name
		}
	}
	return name
}

// Declared is the distribution a node declares.
func Declared(n models.Node) []Dist {
	total := 0.0
	for _, s := range n.ScoreDistributions {
		total += float64(s.RecordCount)
	}
	var l []Dist
	for _, s := range n.ScoreDistributions {
		share := float64(s.RecordCount) / total
		c, p := share, share
		if s.Confidence != nil {
			c = float64(*s.Confidence)
		}
		if s.Probability != nil {
			p = float64(*s.Probability)
		}
		l = append(l, mkDist(s.Value, c, p, float64(s.RecordCount)))
	}
	return l
}

// Own is what a node predicts by itself.
func Own(n models.Node, m *models.TreeModel, dd *models.DataDictionary) []Dist {
	if len(n.Nodes) > 0 && m.NoTrueChildStrategy == models.NoTrueChildStrategyReturnNullPrediction {
		return nil
	}
	if len(n.ScoreDistributions) > 0 {
		return Declared(n)
	}
	var l []Dist
	if name := target(m); name != "" && m.FunctionName == models.MiningFunctionClassification {
		for _, f := range dd.DataFields {
			if f.Name != name {
				continue
			}
			for _, v := range f.Values {
				if v.Value == n.Score {
					l = append(l, mkDist(v.Value, 1, 1, float64(n.RecordCount)))
				} else {
					l = append(l, mkDist(v.Value, 0, 0, 0))
				}
			}
		}
	}
	if len(l) == 0 {
		l = append(l, mkDist(n.Score, 1, 1, float64(n.RecordCount)))
	}
	return l
}

func NodeNone(n models.Node, m *models.TreeModel, dd *models.DataDictionary, row evaluation.DataRow, T, F, U int) ([]Dist, int) {
	if Test(n, row) != T {
		return nil, F
	}
	for _, c := range n.Nodes {
		if l, r := Child(c, row); r == T {
			return l, T
		}
	}
	return Own(n, m, dd), T
}

func NodeNull(n models.Node, m *models.TreeModel, dd *models.DataDictionary, row evaluation.DataRow, T, F, U int) ([]Dist, int) {
	if p := Test(n, row); p != T {
		return nil, p
	}
	for _, c := range n.Nodes {
		l, r := Child(c, row)
		if r == T {
			return l, T
		}
		if r == U {
			return nil, U
		}
	}
	return Own(n, m, dd), T
}

func NodeLast(n models.Node, m *models.TreeModel, dd *models.DataDictionary, row evaluation.DataRow, T, F, U int) ([]Dist, int) {
	if p := Test(n, row); p != T {
		return nil, p
	}
	for _, c := range n.Nodes {
		l, r := Child(c, row)
		if r == U {
			break
		}
		if r == T {
			return l, T
		}
	}
	return Own(n, m, dd), T
}

func NodeDefault(n models.Node, m *models.TreeModel, dd *models.DataDictionary, row evaluation.DataRow, T, F, U int) ([]Dist, int) {
	p := Test(n, row)
	if p == F {
		return nil, F
	}
	scores := map[string][]Dist{}
	unknown := false
	for _, c := range n.Nodes {
		l, r := Child(c, row)
		scores[c.ID] = l
		if r == U {
			unknown = true
		}
		if r == T && !unknown {
			return l, p
		}
	}
	if !unknown {
		return Own(n, m, dd), p
	}
	l, ok := scores[n.DefaultChild]
	if n.DefaultChild == "" || !ok {
		return nil, U
	}
	var out []Dist
	for _, d := range l {
		k := float64(m.MissingValuePenalty)
		out = append(out, mkDist(d.Value(), d.Conf()*k, d.Prob()*k, d.Count()))
	}
	return out, p
}

func NodeWeighted(n models.Node, m *models.TreeModel, dd *models.DataDictionary, row evaluation.DataRow, T, F, U int) ([]Dist, int) {
	p := Test(n, row)
	if p == F {
		return nil, F
	}
	unknown := false
	total := 0.0
	var weights []float64
	var lists [][]Dist
	for _, c := range n.Nodes {
		l, r := Child(c, row)
		if r != F {
			weights = append(weights, float64(c.RecordCount))
			lists = append(lists, l)
			total += float64(c.RecordCount)
		}
		if r == U {
			unknown = true
		}
		if r == T && !unknown {
			return l, p
		}
	}
	if !unknown {
		return Own(n, m, dd), p
	}
	sums := map[string]Dist{}
	var order []string
	for i, l := range lists {
		w := weights[i] / total
		for _, d := range l {
			s, seen := sums[d.Value()]
			if !seen {
				s = mkDist(d.Value(), 0, 0, 0)
				order = append(order, d.Value())
			}
			sums[d.Value()] = mkDist(s.Value(), s.Conf()+d.Conf()*w, s.Prob()+d.Prob()*w, s.Count()+d.Count())
		}
	}
	var out []Dist
	for _, v := range order {
		out = append(out, sums[v])
	}
	return out, p
}

// gather is what the children of a node give under aggregateNodes: the scores
// to be aggregated, or (done) the node's result.
func gather(n models.Node, m *models.TreeModel, dd *models.DataDictionary, row evaluation.DataRow, T, F, U int) (all []Dist, p int, done bool) {
	p = Test(n, row)
	if p == F {
		return nil, F, true
	}
	unknown := false
	for _, c := range n.Nodes {
		l, r := Child(c, row)
		if r != F {
			all = append(all, l...)
		}
		if r == U {
			unknown = true
		}
		if r == T && !unknown {
			return l, p, true
		}
	}
	if !unknown {
		return Own(n, m, dd), p, true
	}
	return all, p, false
}

func NodeAggregate(n models.Node, m *models.TreeModel, dd *models.DataDictionary, row evaluation.DataRow, T, F, U int) ([]Dist, int) {
	all, p, done := gather(n, m, dd, row, T, F, U)
	if done {
		return all, p
	}
	sums := map[string]Dist{}
	var order []string
	total := 0.0
	for _, d := range all {
		s, seen := sums[d.Value()]
		if !seen {
			s = mkDist(d.Value(), 0, 0, 0)
			order = append(order, d.Value())
		}
		sums[d.Value()] = mkDist(s.Value(), s.Conf(), s.Prob(), s.Count()+d.Count())
		total += d.Count()
	}
	var out []Dist
	for _, v := range order {
		s := sums[v]
		share := s.Count() / total
		out = append(out, mkDist(s.Value(), share, share, s.Count()))
	}
	return out, p
}

// NodeAggregate2 is NodeAggregate with nothing but the counts kept per value.
func NodeAggregate2(n models.Node, m *models.TreeModel, dd *models.DataDictionary, row evaluation.DataRow, T, F, U int) ([]Dist, int) {
	all, p, done := gather(n, m, dd, row, T, F, U)
	if done {
		return all, p
	}
	counts := map[string]float64{}
	var order []string
	total := 0.0
	for _, d := range all {
		if _, seen := counts[d.Value()]; !seen {
			order = append(order, d.Value())
		}
		counts[d.Value()] += d.Count()
		total += d.Count()
	}
	var out []Dist
	for _, v := range order {
		share := counts[v] / total
		out = append(out, mkDist(v, share, share, counts[v]))
	}
	return out, p
}

// best is the value of the greatest probability, the first of several; the
// others say the same in other ways.
func best(l []Dist) string {
	v := ""
	top := 0.0
	for _, d := range l {
		if d.Prob() > top {
			v, top = d.Value(), d.Prob()
		}
	}
	return v
}

func best2(l []Dist) string {
	at := -1
	for i, d := range l {
		if at < 0 {
			if d.Prob() > 0 {
				at = i
			}
		} else if d.Prob() > l[at].Prob() {
			at = i
		}
	}
	if at < 0 {
		return ""
	}
	return l[at].Value()
}

func best3(l []Dist) string {
	v := ""
	top := 0.0
	for _, d := range l {
		if d.Prob() <= top || d.Prob() != d.Prob() {
			continue
		}
		v, top = d.Value(), d.Prob()
	}
	return v
}

func best4(l []Dist) string {
	v := ""
	top := 0.0
	for len(l) > 0 {
		d := l[0]
		l = l[1:]
		if d.Prob() > top {
			v, top = d.Value(), d.Prob()
		}
	}
	return v
}

// Tree is the result row of a tree model.
func Tree(m *models.TreeModel, row evaluation.DataRow, T, F, U int) (evaluation.DataRow, error) {
	l, r := Child(m.Node, row)
	if r != T || len(l) == 0 {
		return nil, nil
	}
	return treeRow(m, l, best(l))
}

func Tree2(m *models.TreeModel, row evaluation.DataRow, T, F, U int) (evaluation.DataRow, error) {
	l, r := Child(m.Node, row)
	if r != T || len(l) == 0 {
		return nil, nil
	}
	return treeRow(m, l, best2(l))
}

func Tree3(m *models.TreeModel, row evaluation.DataRow, T, F, U int) (evaluation.DataRow, error) {
	l, r := Child(m.Node, row)
	if r != T || len(l) == 0 {
		return nil, nil
	}
	return treeRow(m, l, best3(l))
}

func Tree4(m *models.TreeModel, row evaluation.DataRow, T, F, U int) (evaluation.DataRow, error) {
	l, r := Child(m.Node, row)
	if r != T || len(l) == 0 {
		return nil, nil
	}
	return treeRow(m, l, best4(l))
}

func treeRow(m *models.TreeModel, l []Dist, best string) (evaluation.DataRow, error) {
	out := evaluation.DataRow{}
	switch m.FunctionName {
	case models.MiningFunctionClassification:
		out[string(target(m))] = evaluation.NewValue(best)
		for _, d := range l {
			out["probability("+d.Value()+")"] = evaluation.NewValue(d.Prob())
		}
	case models.MiningFunctionRegression:
		x, err := strconv.ParseFloat(l[0].Value(), 64)
		if err != nil {
			return nil, errors.New("spec")
		}
		out["score"] = evaluation.NewValue(x)
	}
	return out, nil
}

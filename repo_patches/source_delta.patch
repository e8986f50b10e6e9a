From 21293e7c2000b216593dddcb58acca2ac8f17bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:03 +0000
Subject: [PATCH 01/32] fix: skip unrecognised child elements in the custom
 decoders

An unknown child left its own end tag in the stream, which the decoder took
for its own: the rest of the element was lost and encoding/xml reported
"did not consume entire element".
---
 models/elements.go | 51 ++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 51 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 2d83fdd..5f7524e 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -171,6 +171,11 @@ func (x *Alternate) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) e
 						return err
 					}
 					x.Distribution = item
+				} else {
+					err = decoder.Skip()
+					if err != nil {
+						return err
+					}
 				}
 			}
 		case xml.EndElement:
@@ -406,6 +411,11 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -959,6 +969,11 @@ func (x *ChildParent) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				item = &InlineTable{}
 			case "TableLocator":
 				item = &TableLocator{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -1256,6 +1271,11 @@ func (x *CompoundPredicate) UnmarshalXML(decoder *xml.Decoder, start xml.StartEl
 					}
 
 					x.Predicates = append(x.Predicates, item)
+				} else {
+					err = decoder.Skip()
+					if err != nil {
+						return err
+					}
 				}
 			}
 
@@ -1771,6 +1791,11 @@ func (x *DefineFunction) UnmarshalXML(decoder *xml.Decoder, start xml.StartEleme
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -1892,6 +1917,11 @@ func (x *DerivedField) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement
 				item = &NormDiscrete{}
 			case "TextIndex":
 				item = &TextIndex{}
+			default:
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 			if item != nil {
@@ -2424,6 +2454,11 @@ func (x *InlineTable) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				}
 
 				x.Rows = append(x.Rows, row)
+			} else {
+				err = decoder.Skip()
+				if err != nil {
+					return err
+				}
 			}
 
 		case xml.EndElement:
@@ -3418,6 +3453,11 @@ func (x *Node) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 						return err
 					}
 					x.EmbeddedModel = item
+				} else {
+					err = decoder.Skip()
+					if err != nil {
+						return err
+					}
 				}
 			}
 
@@ -3791,6 +3831,11 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 					}
 
 					x.Models = append(x.Models, model)
+				} else {
+					err = decoder.Skip()
+					if err != nil {
+						return err
+					}
 				}
 			}
 		case xml.EndElement:
@@ -4538,6 +4583,12 @@ func (x *Segment) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) err
 				}
 
 				x.Models = append(x.Models, model)
+				continue
+			}
+
+			err = decoder.Skip()
+			if err != nil {
+				return err
 			}
 		case xml.EndElement:
 			return nil
-- 
2.43.0


From 1cc0aa34016b0737394b32c8ae9d6e70e8ba1cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 02/32] fix: decode Extension children of PMML, Segment and
 InlineTable

Their Extensions fields are declared but the custom decoders never filled them.
---
 models/elements.go | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 5f7524e..f0768c2 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -2454,6 +2454,14 @@ func (x *InlineTable) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement)
 				}
 
 				x.Rows = append(x.Rows, row)
+			} else if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+
+				x.Extensions = append(x.Extensions, e)
 			} else {
 				err = decoder.Skip()
 				if err != nil {
@@ -3818,6 +3826,13 @@ func (x *PMML) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 				if err != nil {
 					return err
 				}
+			case "Extension":
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+				x.Extensions = append(x.Extensions, e)
 			case "MiningBuildTask":
 				err = decoder.DecodeElement(&x.MiningBuildTask, &tok)
 				if err != nil {
@@ -4564,6 +4579,17 @@ func (x *Segment) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) err
 		}
 		switch tok := token.(type) {
 		case xml.StartElement:
+			if tok.Name.Local == "Extension" {
+				var e Extension
+				err = decoder.DecodeElement(&e, &tok)
+				if err != nil {
+					return err
+				}
+
+				x.Extensions = append(x.Extensions, e)
+				continue
+			}
+
 			pred, ok := GetPredicate(tok.Name.Local)
 			if ok {
 				err = decoder.DecodeElement(pred, &tok)
-- 
2.43.0


From c850435b54f590064bdd09bf5936fee67080d0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:50 +0000
Subject: [PATCH 03/32] fix: bind attributes to the names the PMML schema gives
 them

Apply.invalidValueTreatment, AssociationModel.maxNumberOfItemsPerTA,
BaselineCell.time, CategoricalPredictor.name, NumericInfo.standardDeviation,
OutputField.optype and Value.property were never populated.
---
 models/elements.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/models/elements.go b/models/elements.go
index f0768c2..a62115c 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -342,7 +342,7 @@ type Application struct {
 type Apply struct {
 	DefaultValue          *string                     `xml:"defaultValue,attr"`
 	Function              string                      `xml:"function,attr"`
-	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"returnInvalid,attr" default:"returnInvalid"`
+	InvalidValueTreatment InvalidValueTreatmentMethod `xml:"invalidValueTreatment,attr" default:"returnInvalid"`
 	MapMissingTo          *string                     `xml:"mapMissingTo,attr"`
 
 	Extensions  []Extension `xml:"Extension"`
@@ -362,7 +362,7 @@ func (x *Apply) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error
 			x.DefaultValue = &val
 		case "function":
 			x.Function = attr.Value
-		case "returnInvalid":
+		case "invalidValueTreatment":
 			if attr.Value != "" {
 				x.InvalidValueTreatment = InvalidValueTreatmentMethod(attr.Value)
 			}
@@ -474,7 +474,7 @@ type AssociationModel struct {
 	FunctionName          MiningFunction       `xml:"functionName,attr"`
 	IsScorable            bool                 `xml:"isScorable,attr"`
 	LengthLimit           int                  `xml:"lengthLimit,attr"`
-	MaxNumberOfItemsPerTA int                  `xml:"maxNumberOfItemsTA,attr"`
+	MaxNumberOfItemsPerTA int                  `xml:"maxNumberOfItemsPerTA,attr"`
 	MinimumConfidence     float64              `xml:"minimumConfidence,attr"`
 	MinimumSupport        float64              `xml:"minimumSupport,attr"`
 	ModelName             string               `xml:"modelName,attr"`
@@ -579,7 +579,7 @@ type BaseCumHazardTables struct {
 */
 type BaselineCell struct {
 	CumHazard  float64     `xml:"cumHazard,attr"`
-	Time       float64     `xml:"time"`
+	Time       float64     `xml:"time,attr"`
 	Extensions []Extension `xml:"Extension"`
 }
 
@@ -818,7 +818,7 @@ type BoundaryValues struct {
 */
 type CategoricalPredictor struct {
 	Coefficient RealNumber  `xml:"coefficient,attr"`
-	Name        FieldName   `xml:"fieldName,attr"`
+	Name        FieldName   `xml:"name,attr"`
 	Value       string      `xml:"value,attr"`
 	Extensions  []Extension `xml:"Extension"`
 }
@@ -3554,7 +3554,7 @@ type NumericInfo struct {
 	Mean               Number `xml:"mean,attr"`
 	Median             Number `xml:"median,attr"`
 	Minimum            Number `xml:"minimum,attr"`
-	StandardDeviation  Number `xml:"standardDeviation"`
+	StandardDeviation  Number `xml:"standardDeviation,attr"`
 
 	Extensions []Extension `xml:"Extension"`
 	Quantiles  []Quantile  `xml:"Quantile"`
@@ -3668,7 +3668,7 @@ type OutputField struct {
 	Feature       ResultFeature        `xml:"feature,attr"`
 	IsMultiValued int                  `xml:"isMultiValued,attr"`
 	Name          FieldName            `xml:"name,attr"`
-	OpType        OpType               `xml:"opType,attr"`
+	OpType        OpType               `xml:"optype,attr"`
 	Rank          int                  `xml:"rank,attr"`
 	RankBasis     RankBasis            `xml:"rankBasis,attr"`
 	RankOrder     RankOrder            `xml:"rankOrder,attr"`
@@ -5791,7 +5791,7 @@ const (
 */
 type Value struct {
 	DisplayValue string     `xml:"displayValue,attr"`
-	Valid        ValueValid `xml:"valid,attr"`
+	Valid        ValueValid `xml:"property,attr"`
 	Value        string     `xml:"value,attr"`
 
 	Extensions []Extension `xml:"Extension"`
-- 
2.43.0


From d1b727e1ce4debce21645fbb4f82d4bbf4c6c909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:59 +0000
Subject: [PATCH 04/32] fix: read Array and Constant content as character data

The raw inner XML kept entities and CDATA markers, so Array strings with
&quot; and constants with &amp; did not decode to the text they denote.
---
 models/complexTypes.go | 2 +-
 models/elements.go     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/models/complexTypes.go b/models/complexTypes.go
index 24b06d7..c8091b2 100644
--- a/models/complexTypes.go
+++ b/models/complexTypes.go
@@ -33,7 +33,7 @@ type ArrayType struct {
 	N    *int          `xml:"n,attr"`
 	Type ArrayTypeType `xml:"type,attr"`
 
-	RawValue string `xml:",innerxml"`
+	RawValue string `xml:",chardata"`
 
 	s []string
 	i []int64
diff --git a/models/elements.go b/models/elements.go
index a62115c..8a2fb21 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -1356,7 +1356,7 @@ type ConsequentSequence struct {
 */
 type Constant struct {
 	DataType DataType `xml:"dataType,attr"`
-	Value    string   `xml:",innerxml"`
+	Value    string   `xml:",chardata"`
 }
 
 func (*Constant) expression() {}
-- 
2.43.0


From 70fb9f1bd0e2244dc0b0caf74171fa45743aa5cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:15 +0000
Subject: [PATCH 05/32] fix: Value.Int64 and Value.Float32 convert every
 numeric representation

Int64 returned 0 for float and numeric string values, Float32 returned 0 for
numeric strings, so integer-typed comparisons silently used 0.
---
 evaluation/miningschema.go | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index 7ea215e..ec24ce6 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -30,6 +30,10 @@ func (v Value) Float32() float32 {
 		return float32(f)
 	}
 
+	if _, ok := v.val.(string); ok {
+		return float32(v.Float64())
+	}
+
 	return float32(v.Int64())
 }
 
@@ -95,6 +99,21 @@ func (v Value) Int64() int64 {
 		return int64(f)
 	}
 
+	if f, ok := v.val.(float64); ok {
+		return int64(f)
+	}
+	if f, ok := v.val.(float32); ok {
+		return int64(f)
+	}
+
+	if s, ok := v.val.(string); ok {
+		i, err := strconv.ParseInt(s, 10, 64)
+		if err != nil {
+			return 0
+		}
+		return i
+	}
+
 	return 0
 }
 
-- 
2.43.0


From ed577fc76a0d6b354cb3a3f8425a237d4877577f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:54 +0000
Subject: [PATCH 06/32] fix: leave the caller's input row unmodified

Evaluate wrote derived fields, imputed values and the outputs of chained
segments into the DataRow passed in, so evaluating the same row twice (or
sharing it between models) could change the result.
---
 evaluation/input.go  | 15 +++++++++++++++
 evaluation/mining.go |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/evaluation/input.go b/evaluation/input.go
index e9f99b5..123d70b 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -184,6 +184,10 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 }
 
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
+	if len(lt.DerivedFields) > 0 {
+		in = copyRow(in)
+	}
+
 	for _, df := range lt.DerivedFields {
 		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
 		if err != nil {
@@ -205,6 +209,17 @@ func HandleInput(in DataRow, dd *models.DataDictionary, td *models.Transformatio
 	return in, nil
 }
 
+// copyRow returns a copy of in, so that derived values never end up in the
+// row supplied by the caller.
+func copyRow(in DataRow) DataRow {
+	out := make(DataRow, len(in))
+	for k, v := range in {
+		out[k] = v
+	}
+
+	return out
+}
+
 func validate(in DataRow, ms *models.MiningSchema) error {
 	if ms == nil {
 		return nil
diff --git a/evaluation/mining.go b/evaluation/mining.go
index c153732..0f0ef62 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -211,6 +211,8 @@ func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, erro
 }
 
 func (m *MiningModel) imputeMissingValues(input DataRow) (DataRow, error) {
+	input = copyRow(input)
+
 	for fld, defaultValue := range m.defaultValues {
 		inputVal, ok := input[fld]
 		if !ok || inputVal.Raw() == nil {
-- 
2.43.0


From 990a6f5d11f599cc83a3554238d984b4cc651edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:56 +0000
Subject: [PATCH 07/32] fix: compiling a model no longer changes the shared
 dictionary

Compile appended local derived fields to the caller's TransformationDictionary
and, when called again, added every segment model a second time.
---
 evaluation/mining.go | 13 ++++++++-----
 evaluation/tree.go   |  6 +++---
 2 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 0f0ef62..9485cf2 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -88,21 +88,24 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
-	}
+	td := *m.td
+	td.DerivedFields = make([]models.DerivedField, 0, len(m.td.DerivedFields)+len(m.model.LocalTransformations.DerivedFields))
+	td.DerivedFields = append(td.DerivedFields, m.td.DerivedFields...)
+	td.DerivedFields = append(td.DerivedFields, m.model.LocalTransformations.DerivedFields...)
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range td.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
+	m.segmodels = nil
+
 	for _, seg := range m.model.Segmentation.Segments {
 		if len(seg.Models) != 1 {
 			return fmt.Errorf("unsupported single segment model group size %d", len(seg.Models))
 		}
 
 		segmdl := seg.Models[0]
-		mdl, err := NewModel(m.dd, m.td, segmdl)
+		mdl, err := NewModel(m.dd, &td, segmdl)
 
 		if err != nil {
 			return err
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 7ea71fb..1b5e89f 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -686,11 +686,11 @@ func (m *TreeModel) Compile() error {
 		m.fieldTypes[df.Name] = df.DataType
 	}
 
-	for _, tf := range m.model.LocalTransformations.DerivedFields {
-		m.td.DerivedFields = append(m.td.DerivedFields, tf)
+	for _, df := range m.td.DerivedFields {
+		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-	for _, df := range m.td.DerivedFields {
+	for _, df := range m.model.LocalTransformations.DerivedFields {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
-- 
2.43.0


From 9ca5ba99c4949d9e3e898ccf03de5e8681c9fb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:08 +0000
Subject: [PATCH 08/32] fix: TreeModel.Evaluate no longer writes to the model

The lazily filled outKeys cache made concurrent Evaluate calls race on a map
(fatal error: concurrent map writes).
---
 evaluation/tree.go | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 1b5e89f..820e153 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -18,7 +18,6 @@ type TreeModel struct {
 	fieldTypes map[models.FieldName]models.DataType
 	root       node
 
-	outKeys map[string]string
 	targetField models.FieldName
 }
 
@@ -371,7 +370,6 @@ func NewTreeModel(dd *models.DataDictionary, td *models.TransformationDictionary
 	m.dd = dd
 	m.td = td
 	m.model = model
-	m.outKeys = make(map[string]string)
 
 	err := m.Validate()
 	if err != nil {
@@ -734,12 +732,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 		if m.model.FunctionName == models.MiningFunctionClassification {
 			out[string(m.targetField)] = NewValue(best.value)
 			for _, score := range scores {
-				key, ok := m.outKeys[score.value]
-				if !ok {
-					key = fmt.Sprintf("probability(%s)", score.value)
-					m.outKeys[score.value] = key
-				}
-
+				key := "probability(" + score.value + ")"
 				out[key] = NewValue(score.probability)
 			}
 		} else if m.model.FunctionName == models.MiningFunctionRegression {
-- 
2.43.0


From 95d3108317dccc60f76fffaf1ebfb9151e5f26d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:10 +0000
Subject: [PATCH 09/32] fix: True and False members of a compound predicate are
 not unknown

---
 evaluation/tree.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 820e153..540ccdf 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -619,6 +619,10 @@ func evaluateCompoundPredicate(p *models.CompoundPredicate, input DataRow, field
 	for _, child := range p.Predicates {
 		var val predicateResult
 		switch c := child.(type) {
+		case *models.True:
+			val = t
+		case *models.False:
+			val = f
 		case *models.SimplePredicate:
 			val = evaluateSimplePredicate(c, input, fieldTypes)
 		case *models.CompoundPredicate:
-- 
2.43.0


From 1b3088785edcb14a1164526e5ea3aef3c39a77de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:41 +0000
Subject: [PATCH 10/32] fix: isMissing and isNotMissing predicates

They failed to compile on non-string fields (there is no value to parse),
isNotMissing of an absent field was unknown instead of false, and a value
that is present but nil was not treated as missing.
---
 evaluation/tree.go | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 540ccdf..893abbd 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -418,6 +418,11 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
 
+		if p.Operator == models.SimplePredicateOperatorIsMissing ||
+			p.Operator == models.SimplePredicateOperatorIsNotMissing {
+			return nil
+		}
+
 		pv, err := getRawValue(predicateValueType, p.Value)
 		if err != nil {
 			return err
@@ -517,22 +522,28 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 		return f
 	}
 
-	if p.RawPredicateValue == nil {
-		return f
-	}
-
 	val, ok := input[string(p.Field)]
-	if !ok {
+	if !ok || val.Raw() == nil {
 		if p.Operator == models.SimplePredicateOperatorIsMissing {
 			return t
 		}
 
+		if p.Operator == models.SimplePredicateOperatorIsNotMissing {
+			return f
+		}
+
 		return u
 	}
 
-	switch p.Operator {
-	case models.SimplePredicateOperatorIsNotMissing:
+	if p.Operator == models.SimplePredicateOperatorIsNotMissing {
 		return t
+	}
+
+	if p.RawPredicateValue == nil {
+		return f
+	}
+
+	switch p.Operator {
 	case models.SimplePredicateOperatorEqual:
 		if val.Raw() == p.RawPredicateValue {
 			return t
-- 
2.43.0


From 26434ed289ea50e24566f020d4a7ffc5578feb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 11/32] fix: equal and notEqual compare numeric fields
 numerically

An int 75 or a string "75" never equalled a double field's 75.0, although the
ordering operators on the same field accept them.
---
 evaluation/tree.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 893abbd..dbf9209 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -515,6 +515,19 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 	return n, nil
 }
 
+// rawEqual compares val with a compiled predicate value in the type of the
+// latter, so that a numeric field matches whatever numeric type is supplied.
+func rawEqual(val Value, raw interface{}) bool {
+	switch r := raw.(type) {
+	case float64:
+		return val.Float64() == r
+	case int64:
+		return val.Int64() == r
+	}
+
+	return val.Raw() == raw
+}
+
 //nolint:gocyclo
 func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
 	predicateValueType, ok := fieldTypes[p.Field]
@@ -545,11 +558,11 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 
 	switch p.Operator {
 	case models.SimplePredicateOperatorEqual:
-		if val.Raw() == p.RawPredicateValue {
+		if rawEqual(val, p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorNotEqual:
-		if val.Raw() != p.RawPredicateValue {
+		if !rawEqual(val, p.RawPredicateValue) {
 			return t
 		}
 	case models.SimplePredicateOperatorGreaterOrEqual:
-- 
2.43.0


From f4a9cf96899bcc6e68bdc33386c688d6b444cf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:12 +0000
Subject: [PATCH 12/32] fix: evaluate SimpleSetPredicate

It was a stub that was always false, whatever the field's value and the
operator, so isIn/isNotIn nodes were never reached.
---
 evaluation/tree.go | 50 +++++++++++++++++++++++++++++++++++++++++++++-
 models/elements.go |  2 ++
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index dbf9209..aa041d1 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -429,6 +429,29 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 		}
 
 		p.RawPredicateValue = pv
+	case *models.SimpleSetPredicate:
+		predicateValueType, ok := m.fieldTypes[p.Field]
+		if !ok {
+			return fmt.Errorf("unknown field type for %s", p.Field)
+		}
+
+		array := models.ArrayType{Type: models.ArrayTypeTypeString, RawValue: p.Array.RawValue}
+
+		members, err := array.Strings()
+		if err != nil {
+			return err
+		}
+
+		p.RawPredicateValues = nil
+
+		for _, member := range members {
+			pv, err := getRawValue(predicateValueType, member)
+			if err != nil {
+				return err
+			}
+
+			p.RawPredicateValues = append(p.RawPredicateValues, pv)
+		}
 	case *models.CompoundPredicate:
 		for _, cp := range p.Predicates {
 			err := compilePredicate(m, cp)
@@ -508,7 +531,7 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		}
 	case *models.SimpleSetPredicate:
 		n.test = func(input DataRow) predicateResult {
-			return f
+			return evaluateSimpleSetPredicate(p, input, m.fieldTypes)
 		}
 	}
 
@@ -631,6 +654,31 @@ func evaluateSimplePredicate(p *models.SimplePredicate, input DataRow, fieldType
 }
 
 func evaluateSimpleSetPredicate(p *models.SimpleSetPredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
+	val, ok := input[string(p.Field)]
+	if !ok || val.Raw() == nil {
+		return u
+	}
+
+	found := false
+
+	for _, raw := range p.RawPredicateValues {
+		if rawEqual(val, raw) {
+			found = true
+			break
+		}
+	}
+
+	switch p.BooleanOperator {
+	case models.SimpleSetPredicateOperatorIsIn:
+		if found {
+			return t
+		}
+	case models.SimpleSetPredicateOperatorIsNotIn:
+		if !found {
+			return t
+		}
+	}
+
 	return f
 }
 
diff --git a/models/elements.go b/models/elements.go
index 8a2fb21..98833af 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -4883,6 +4883,8 @@ type SimpleSetPredicate struct {
 
 	Array      Array       `xml:"Array"`
 	Extensions []Extension `xml:"Extension"`
+
+	RawPredicateValues []interface{}
 }
 
 func (*SimpleSetPredicate) predicate() {}
-- 
2.43.0


From 91c4217353d6bb3165bb74385d66c9eeae7e2424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:40 +0000
Subject: [PATCH 13/32] fix: reject tree nodes without a predicate when
 compiling

Such a node compiled to a nil test function and Evaluate panicked.
---
 evaluation/tree.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index aa041d1..f556de5 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -533,6 +533,8 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.test = func(input DataRow) predicateResult {
 			return evaluateSimpleSetPredicate(p, input, m.fieldTypes)
 		}
+	default:
+		return n, fmt.Errorf("unsupported node predicate %T", p)
 	}
 
 	return n, nil
-- 
2.43.0


From fbbed996b851e6c862dda20a2238f1a886b7e3f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 14/32] fix: score tree nodes whose target enumerates no values

A regression tree that declares its target field (and any tree returning a
null prediction) indexed an empty score list and panicked; a classification
tree without enumerated target values predicted the empty string.
---
 evaluation/tree.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index f556de5..2360227 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -119,8 +119,10 @@ func (n node) outputScoreDist() []scoreDist {
 				}
 			}
 		}
-	} else {
-		sd = append(sd, n.score)
+	}
+
+	if len(sd) == 0 {
+		sd = append(sd, scoreDist{n.score.value, 1.0, 1.0, n.score.recordCount})
 	}
 
 	return sd
@@ -803,7 +805,7 @@ func (m *TreeModel) Evaluate(input DataRow) (DataRow, error) {
 
 	scores, result := m.root.evaluate(input)
 
-	if result == t {
+	if result == t && len(scores) > 0 {
 		best := pickBest(scores)
 		out := make(DataRow)
 
-- 
2.43.0


From 6eb8dcd5096d7f218347cab2e1dcd31c81e0e255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:45 +0000
Subject: [PATCH 15/32] fix: a regression tree scores its node's value, not the
 target's first one

With Value elements declared on the continuous target (missing markers, say),
every leaf scored the first declared value.
---
 evaluation/tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 2360227..722d30a 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -107,7 +107,7 @@ func (n node) outputScoreDist() []scoreDist {
 
 	sd := make([]scoreDist, 0, 0)
 
-	if n.m.targetField != "" {
+	if n.m.targetField != "" && n.m.model.FunctionName == models.MiningFunctionClassification {
 		for _, field := range n.m.dd.DataFields {
 			if field.Name == n.m.targetField {
 				for _, val := range field.Values {
-- 
2.43.0


From 193c0de30eaa5f57c9e6a125faea24f73edf3c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:14 +0000
Subject: [PATCH 16/32] fix: the first true child wins and an unknown node is
 not reported as true

lastPrediction and defaultChild picked the last true child, let a true
grandchild hide an unknown node, and treated children without an id as the
default child of nodes that declare none.
---
 evaluation/tree.go | 26 +++++++-------------------
 1 file changed, 7 insertions(+), 19 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index 722d30a..a858415 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -149,29 +149,22 @@ func (n node) evaluateMissingValueStrategyNone(input DataRow) ([]scoreDist, pred
 func (n node) evaluateMissingValueStrategyLastPrediction(input DataRow) ([]scoreDist, predicateResult) {
 	result := n.test(input)
 
-	if result == f {
+	if result == f || result == u {
 		return emptyScoreDist, result
 	}
 
-	unknownValues := false
-	var trueDist []scoreDist
-
 	for _, c := range n.children {
 		score, childResult := c.evaluateMissingValueStrategyLastPrediction(input)
 
 		if childResult == u {
-			unknownValues = true
+			break
 		}
 
 		if childResult == t {
-			trueDist = score
+			return score, childResult
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, t
-	}
-
 	return n.outputScoreDist(), result
 }
 
@@ -184,7 +177,6 @@ func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDi
 
 	childScores := make(map[string][]scoreDist)
 	unknownValues := false
-	var trueDist []scoreDist
 
 	for _, c := range n.children {
 		score, childResult := c.evaluateMissingValueStrategyDefaultChild(input)
@@ -194,18 +186,14 @@ func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDi
 			unknownValues = true
 		}
 
-		if childResult == t {
-			trueDist = score
+		if childResult == t && !unknownValues {
+			return score, result
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, t
-	}
-
 	if unknownValues {
 		defaultScores, ok := childScores[n.defaultChild]
-		if !ok {
+		if !ok || n.defaultChild == "" {
 			return emptyScoreDist, u
 		}
 
@@ -217,7 +205,7 @@ func (n node) evaluateMissingValueStrategyDefaultChild(input DataRow) ([]scoreDi
 			adjustedScores[idx] = score
 		}
 
-		return adjustedScores, t
+		return adjustedScores, result
 	}
 
 	return n.outputScoreDist(), result
-- 
2.43.0


From e3262e6d39e1db616b833c02fa77c72240826111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:32 +0000
Subject: [PATCH 17/32] fix: aggregate unknown children deterministically and
 without false ones

weightedConfidence and aggregateNodes iterated over maps (sums and ties
depended on map order), merged children sharing an id, picked the last true
child, reported unknown nodes as true, and aggregateNodes counted the records
of children whose predicate is false.
---
 evaluation/tree.go | 50 ++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 26 deletions(-)

diff --git a/evaluation/tree.go b/evaluation/tree.go
index a858415..97c7303 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -245,41 +245,38 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 	}
 
 	unknownValues := false
-	var trueDist []scoreDist
-	childRecordCounts := make(map[string]float64)
-	childScores := make(map[string][]scoreDist)
+	childRecordCounts := make([]float64, 0, len(n.children))
+	childScores := make([][]scoreDist, 0, len(n.children))
 	totalRecordCount := 0.0
 
 	for _, c := range n.children {
 		scores, childResult := c.evaluateMissingValueStrategyWeightedConfidence(input)
 
 		if childResult != f {
-			childRecordCounts[c.id] = c.score.recordCount
-			childScores[c.id] = scores
+			childRecordCounts = append(childRecordCounts, c.score.recordCount)
+			childScores = append(childScores, scores)
 			totalRecordCount += c.score.recordCount
 		}
 
 		if childResult == u {
 			unknownValues = true
-		} else if childResult == t {
-			trueDist = scores
+		} else if childResult == t && !unknownValues {
+			return scores, result
 		}
 	}
 
-	if !unknownValues && len(trueDist) > 0 {
-		return trueDist, result
-	}
-
 	if unknownValues {
 		aggScoreMap := make(map[string]scoreDist)
+		values := make([]string, 0, 0)
 
-		for nid, scores := range childScores {
+		for i, scores := range childScores {
 			for _, score := range scores {
 				aggScore, ok := aggScoreMap[score.value]
 				if !ok {
 					aggScore = scoreDist{value: score.value}
+					values = append(values, score.value)
 				}
-				nodeRecordCount := childRecordCounts[nid]
+				nodeRecordCount := childRecordCounts[i]
 
 				aggScore.recordCount += score.recordCount
 				aggScore.probability += score.probability * (nodeRecordCount / totalRecordCount)
@@ -290,11 +287,11 @@ func (n node) evaluateMissingValueStrategyWeightedConfidence(input DataRow) ([]s
 		}
 
 		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
-			aggScores = append(aggScores, aggScore)
+		for _, value := range values {
+			aggScores = append(aggScores, aggScoreMap[value])
 		}
 
-		return aggScores, t
+		return aggScores, result
 	}
 
 	return n.outputScoreDist(), result
@@ -309,25 +306,24 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 
 	childScores := make([]scoreDist, 0, 0)
 	unknownValues := false
-	var trueDist []scoreDist
 
 	for _, c := range n.children {
 		score, childResult := c.evaluateMissingValueStrategyAggregateNodes(input)
-		childScores = append(childScores, score...)
+
+		if childResult != f {
+			childScores = append(childScores, score...)
+		}
 
 		if childResult == u {
 			unknownValues = true
-		} else if childResult == t {
-			trueDist = score
+		} else if childResult == t && !unknownValues {
+			return score, result
 		}
 	}
 
-	if !unknownValues && len(trueDist) != 0 {
-		return trueDist, result
-	}
-
 	if unknownValues {
 		aggScoreMap := make(map[string]scoreDist)
+		values := make([]string, 0, 0)
 
 		recordCount := 0.0
 		for _, sc := range childScores {
@@ -335,6 +331,7 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 
 			if !ok {
 				aggScore.value = sc.value
+				values = append(values, sc.value)
 			}
 
 			aggScore.recordCount += sc.recordCount
@@ -343,13 +340,14 @@ func (n node) evaluateMissingValueStrategyAggregateNodes(input DataRow) ([]score
 		}
 
 		aggScores := make([]scoreDist, 0, 0)
-		for _, aggScore := range aggScoreMap {
+		for _, value := range values {
+			aggScore := aggScoreMap[value]
 			aggScore.probability = aggScore.recordCount / recordCount
 			aggScore.confidence = aggScore.recordCount / recordCount
 			aggScores = append(aggScores, aggScore)
 		}
 
-		return aggScores, t
+		return aggScores, result
 	}
 
 	return n.outputScoreDist(), result
-- 
2.43.0


From 297203c9ac9cee93b14c0bbd7ba7280cddb07be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:33 +0000
Subject: [PATCH 18/32] fix: missingValuePenalty defaults to 1.0 when a
 TreeModel omits it

It defaulted to 0, which zeroed every score reached through defaultChild.
---
 models/elements.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/models/elements.go b/models/elements.go
index 98833af..ade7237 100644
--- a/models/elements.go
+++ b/models/elements.go
@@ -5625,6 +5625,15 @@ type TreeModel struct {
 
 func (*TreeModel) modelElement() {}
 
+// UnmarshalXML implements the xml.Unmarshaler interface.
+func (x *TreeModel) UnmarshalXML(decoder *xml.Decoder, start xml.StartElement) error {
+	type treeModel TreeModel
+
+	x.MissingValuePenalty = 1.0
+
+	return decoder.DecodeElement((*treeModel)(x), &start)
+}
+
 /*
   <xs:element name="Trend_ExpoSmooth">
     <xs:complexType>
-- 
2.43.0


From bd29cc164a5047daabe28cfde10db07a3d2e0605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:07 +0000
Subject: [PATCH 19/32] fix: a continuous derived field of a missing input
 stays missing

It was coerced to 0.
---
 evaluation/input.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index 123d70b..bad1e3e 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -194,7 +194,7 @@ func HandleInput(in DataRow, dd *models.DataDictionary, td *models.Transformatio
 			return nil, err
 		}
 
-		if df.OpType == models.OpTypeContinuous {
+		if df.OpType == models.OpTypeContinuous && expr_val.Raw() != nil {
 			in[df.Name] = NewValue(expr_val.Float64())
 		} else {
 			in[df.Name] = expr_val
-- 
2.43.0


From 76d135daf0a3dcf3da6b78c0e65e4855ead647f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:07 +0000
Subject: [PATCH 20/32] fix: compute the derived fields of
 TransformationDictionary and RegressionModel

Only the local transformations of tree and mining models were evaluated, so
predicates and predictors on other derived fields found them missing.
---
 evaluation/input.go      | 17 +++++++++++++++--
 evaluation/regression.go |  5 +++++
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index bad1e3e..418c9b9 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -184,11 +184,24 @@ func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDiction
 }
 
 func HandleInput(in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (DataRow, error) {
-	if len(lt.DerivedFields) > 0 {
+	var derivedFields []models.DerivedField
+
+	if td != nil {
+		for _, df := range td.DerivedFields {
+			// an enclosing model (or the caller) may have computed it already
+			if _, ok := in[df.Name]; !ok {
+				derivedFields = append(derivedFields, df)
+			}
+		}
+	}
+
+	derivedFields = append(derivedFields, lt.DerivedFields...)
+
+	if len(derivedFields) > 0 {
 		in = copyRow(in)
 	}
 
-	for _, df := range lt.DerivedFields {
+	for _, df := range derivedFields {
 		expr_val, err := HandleExpression(df.Expression, in, dd, td, lt, ms)
 		if err != nil {
 			return nil, err
diff --git a/evaluation/regression.go b/evaluation/regression.go
index 67d9784..22abecf 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -79,6 +79,11 @@ func (m *RegressionModel) normalize(term float64) (float64, error) {
 }
 
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
+	input, err := HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)
+	if err != nil {
+		return nil, err
+	}
+
 	if m.model.FunctionName == "regression" {
 		return m.EvaluateRegression(input)
 	} else if m.model.FunctionName == "classification" && len(m.model.Output.Fields) == 2 {
-- 
2.43.0


From 938bd51314dbfc0c1cf730f053c5871089c2b32f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:41 +0000
Subject: [PATCH 21/32] fix: evaluate regression models without a normalization
 method

Plain linear regression (normalizationMethod none, the schema's default) failed
with 'unrecognized normalization method'.
---
 evaluation/regression.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 22abecf..83003a8 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -64,6 +64,8 @@ func (m *RegressionModel) Verify() error {
 
 func (m *RegressionModel) normalize(term float64) (float64, error) {
 	switch m.model.RegressionNormalizationMethod {
+	case models.RegressionNormalizationMethodNone, "":
+		return term, nil
 	case models.RegressionNormalizationMethodSoftmax:
 		return 1.0 / (1.0 + math.Exp(-term)), nil
 	case models.RegressionNormalizationMethodLogit:
-- 
2.43.0


From 7b4e3df7f2cf53f33525e931e6885cff517f2d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:42 +0000
Subject: [PATCH 22/32] fix: binary classification applies coefficients and the
 link to the whole sum

Every raw input was normalized on its own and added to the intercept, the
coefficients were ignored, and a category without predictors only got the
complement when its table came after the other one.
---
 evaluation/regression.go | 41 ++++++++++++++++++++++++----------------
 1 file changed, 25 insertions(+), 16 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 83003a8..a3500a2 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -132,28 +132,37 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow, error) {
 	out := make(DataRow)
 
+	preds := make([]float64, len(m.model.RegressionTables))
 	finalPred := 1.0
 
-	for _, rtbl := range m.model.RegressionTables {
-		pred := rtbl.Intercept
-
-		if len(rtbl.NumericPredictor) > 0 {
-			for _, np := range rtbl.NumericPredictor {
-				term, ok := input[np.Name]
-				if !ok {
-					return nil, fmt.Errorf("regression missing term %s", np.Name)
-				}
-				normalized, err := m.normalize(term.Float64())
-				if err != nil {
-					return out, err
-				}
-				pred += normalized
+	for i, rtbl := range m.model.RegressionTables {
+		if len(rtbl.NumericPredictor) == 0 {
+			continue
+		}
+
+		y := rtbl.Intercept
+		for _, np := range rtbl.NumericPredictor {
+			term, ok := input[np.Name]
+			if !ok {
+				return nil, fmt.Errorf("regression missing term %s", np.Name)
 			}
-		} else {
-			pred = finalPred
+			y += np.Coefficient * term.Float64()
 		}
 
+		pred, err := m.normalize(y)
+		if err != nil {
+			return out, err
+		}
+
+		preds[i] = pred
 		finalPred = finalPred - pred
+	}
+
+	for i, rtbl := range m.model.RegressionTables {
+		pred := preds[i]
+		if len(rtbl.NumericPredictor) == 0 {
+			pred = finalPred
+		}
 
 		for _, output := range m.model.Output.Fields {
 			if rtbl.TargetCategory == output.Value {
-- 
2.43.0


From 38f622fe8314ed2fe5c5ed79af0e9066243b9daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:02 +0000
Subject: [PATCH 23/32] fix: RegressionModel follows the Validate, Compile,
 Evaluate lifecycle

NewRegressionModel never validated, Evaluate ran on models that were neither
validated nor compiled, and Validate rejected the regression function, the
simplemax method and output fields without a feature that Evaluate supports.
---
 evaluation/regression.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index a3500a2..8786c46 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -23,10 +23,21 @@ func NewRegressionModel(dd *models.DataDictionary, td *models.TransformationDict
 	m.td = td
 	m.model = model
 
+	err := m.Validate()
+	if err != nil {
+		return nil, err
+	}
+
+	err = m.Compile()
+	if err != nil {
+		return nil, err
+	}
+
 	return m, nil
 }
 
 func (m *RegressionModel) Compile() error {
+	m.compiled = true
 
 	return nil
 }
@@ -39,22 +50,27 @@ func (m *RegressionModel) Validate() error {
 	if m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodNone &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodLogit &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSoftmax &&
+		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodSimplemax &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodExp &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodCloglog &&
 		m.model.RegressionNormalizationMethod != models.RegressionNormalizationMethodCauchit {
 		return fmt.Errorf("unsupported regression normalization method %s", m.model.RegressionNormalizationMethod)
 	}
 
-	if m.model.FunctionName != models.MiningFunctionClassification {
+	if m.model.FunctionName != models.MiningFunctionClassification &&
+		m.model.FunctionName != models.MiningFunctionRegression {
 		return fmt.Errorf("unsupported mining function %s", m.model.FunctionName)
 	}
 
 	for _, output := range m.model.Output.Fields {
-		if output.Feature != models.ResultFeatureProbability {
+		if output.Feature != "" &&
+			output.Feature != models.ResultFeaturePredictedValue &&
+			output.Feature != models.ResultFeatureProbability {
 			return fmt.Errorf("unsupported output feature %s", output.Feature)
 		}
 	}
 
+	m.validated = true
 	return nil
 }
 
@@ -81,6 +97,14 @@ func (m *RegressionModel) normalize(term float64) (float64, error) {
 }
 
 func (m *RegressionModel) Evaluate(input DataRow) (DataRow, error) {
+	if !m.validated {
+		return nil, ErrNotValidated
+	}
+
+	if !m.compiled {
+		return nil, ErrNotCompiled
+	}
+
 	input, err := HandleInput(input, m.dd, m.td, &m.model.LocalTransformations, &m.model.MiningSchema)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 7dd37ea2797f2482510236c622db3b697d0a9f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 24/32] fix: a nil predictor value is a missing term, not 0

---
 evaluation/regression.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 8786c46..8320dc0 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -136,7 +136,7 @@ func (m *RegressionModel) EvaluateRegression(input DataRow) (DataRow, error) {
 	y := rtbl.Intercept
 	for _, np := range rtbl.NumericPredictor {
 		term, ok := input[np.Name]
-		if !ok {
+		if !ok || term.Raw() == nil {
 			return nil, fmt.Errorf("regression missing term %s", np.Name)
 		}
 		indVar := term.Float64()
@@ -167,7 +167,7 @@ func (m *RegressionModel) EvaluateBinaryClassification(input DataRow) (DataRow,
 		y := rtbl.Intercept
 		for _, np := range rtbl.NumericPredictor {
 			term, ok := input[np.Name]
-			if !ok {
+			if !ok || term.Raw() == nil {
 				return nil, fmt.Errorf("regression missing term %s", np.Name)
 			}
 			y += np.Coefficient * term.Float64()
@@ -214,7 +214,7 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 
 		for _, np := range rtbl.NumericPredictor {
 			term, ok := input[np.Name]
-			if !ok {
+			if !ok || term.Raw() == nil {
 				return nil, fmt.Errorf("regression missing term %s", np.Name)
 			}
 			indVar := term.Float64()
-- 
2.43.0


From 073b8c55a47d47735f953fbe8158a6260869f029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:04 +0000
Subject: [PATCH 25/32] fix: arithmetic on a missing operand is missing

The operand was silently read as 0.
---
 evaluation/input.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/evaluation/input.go b/evaluation/input.go
index 418c9b9..f603063 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -45,6 +45,9 @@ func handleApplyExpression(apply *models.Apply, in DataRow, dd *models.DataDicti
 		if err != nil {
 			return NewValue(nil), err
 		}
+		if val1.Raw() == nil || val2.Raw() == nil {
+			return NewValue(nil), nil
+		}
 		if apply.Function == "*" {
 			return NewValue(val1.Float64() * val2.Float64()), nil
 		}
-- 
2.43.0


From 633a6cb0d5d19b4ed078de7b8c945f81de275ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:06 +0000
Subject: [PATCH 26/32] fix: average segment scores before applying the
 target's rescaling

rescaleConstant was divided by the number of segments.
---
 evaluation/mining.go | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 9485cf2..9a8ef87 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -151,7 +151,8 @@ func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error)
 	return lastOut, nil
 }
 
-func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
+// sumSegments adds up the scores of the segment models.
+func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64, error) {
 	scoreMap := make(map[models.FieldName]float64)
 
 	for _, field := range m.outputFields {
@@ -183,6 +184,11 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 		}
 	}
 
+	return scoreMap, nil
+}
+
+// rescale applies the target rescaling to the combined scores.
+func (m *MiningModel) rescale(scoreMap map[models.FieldName]float64) DataRow {
 	for _, target := range m.targets {
 		if target.RescaleFactor != nil {
 			scoreMap[target.Field] = scoreMap[target.Field] * *target.RescaleFactor
@@ -197,20 +203,29 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 		out[string(k)] = NewValue(v)
 	}
 
-	return out, nil
+	return out
+}
+
+func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
+	scoreMap, err := m.sumSegments(input)
+	if err != nil {
+		return nil, err
+	}
+
+	return m.rescale(scoreMap), nil
 }
 
 func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, error) {
-	out, err := m.evaluateMultipleModelSum(input)
+	scoreMap, err := m.sumSegments(input)
 	if err != nil {
 		return nil, err
 	}
 
-	for lbl, score := range out {
-		out[lbl] = NewValue(score.Float64() / float64(len(m.model.Segmentation.Segments)))
+	for lbl, score := range scoreMap {
+		scoreMap[lbl] = score / float64(len(m.model.Segmentation.Segments))
 	}
 
-	return out, nil
+	return m.rescale(scoreMap), nil
 }
 
 func (m *MiningModel) imputeMissingValues(input DataRow) (DataRow, error) {
-- 
2.43.0


From c7aeec1b0310a6c8b78cc1caab460b4da62e5d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:29 +0000
Subject: [PATCH 27/32] fix: evaluate only the segments whose predicate is true

Segment predicates were decoded but never consulted: every segment was summed,
averaged or chained, and selectFirst always used the first segment.
---
 evaluation/mining.go | 82 ++++++++++++++++++++++++++++++++++++++------
 evaluation/tree.go   | 41 ++++++++++++----------
 2 files changed, 95 insertions(+), 28 deletions(-)

diff --git a/evaluation/mining.go b/evaluation/mining.go
index 9a8ef87..ed9d20e 100644
--- a/evaluation/mining.go
+++ b/evaluation/mining.go
@@ -97,6 +97,18 @@ func (m *MiningModel) Compile() error {
 		m.fieldTypes[models.FieldName(df.Name)] = df.DataType
 	}
 
+	// a segment's predicate may use what earlier segments of a chain produce
+	for _, seg := range m.model.Segmentation.Segments {
+		for _, segmdl := range seg.Models {
+			for _, field := range segmentOutputs(segmdl) {
+				_, ok := m.fieldTypes[field.Name]
+				if !ok && field.DataType != "" {
+					m.fieldTypes[field.Name] = field.DataType
+				}
+			}
+		}
+	}
+
 	m.segmodels = nil
 
 	for _, seg := range m.model.Segmentation.Segments {
@@ -104,6 +116,13 @@ func (m *MiningModel) Compile() error {
 			return fmt.Errorf("unsupported single segment model group size %d", len(seg.Models))
 		}
 
+		for _, pred := range seg.Predicates {
+			err := compilePredicate(m.fieldTypes, pred)
+			if err != nil {
+				return err
+			}
+		}
+
 		segmdl := seg.Models[0]
 		mdl, err := NewModel(m.dd, &td, segmdl)
 
@@ -119,8 +138,34 @@ func (m *MiningModel) Compile() error {
 	return nil
 }
 
+func segmentOutputs(segmdl models.ModelElement) []models.OutputField {
+	switch v := segmdl.(type) {
+	case *models.MiningModel:
+		return v.Output.Fields
+	case *models.RegressionModel:
+		return v.Output.Fields
+	}
+
+	return nil
+}
+
+// segmentApplies tells whether the predicate of the i-th segment is true.
+func (m *MiningModel) segmentApplies(i int, input DataRow) bool {
+	for _, pred := range m.model.Segmentation.Segments[i].Predicates {
+		if evaluatePredicate(pred, input, m.fieldTypes) != t {
+			return false
+		}
+	}
+
+	return true
+}
+
 func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow, error) {
-	for _, segModel := range m.segmodels {
+	for i, segModel := range m.segmodels {
+		if !m.segmentApplies(i, input) {
+			continue
+		}
+
 		segOut, err := segModel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -135,11 +180,15 @@ func (m *MiningModel) evaluateMultipleModelSelectFirst(input DataRow) (DataRow,
 func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error) {
 	lastOut := make(DataRow)
 
-	for _, segModel := range m.segmodels {
+	for i, segModel := range m.segmodels {
 		for k, v := range lastOut {
 			input[k] = v
 		}
 
+		if !m.segmentApplies(i, input) {
+			continue
+		}
+
 		segOut, err := segModel.Evaluate(input)
 		if err != nil {
 			return nil, err
@@ -151,8 +200,9 @@ func (m *MiningModel) evaluateMultipleModelChain(input DataRow) (DataRow, error)
 	return lastOut, nil
 }
 
-// sumSegments adds up the scores of the segment models.
-func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64, error) {
+// sumSegments adds up the scores of the segment models whose predicate holds
+// and returns how many there are.
+func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64, int, error) {
 	scoreMap := make(map[models.FieldName]float64)
 
 	for _, field := range m.outputFields {
@@ -163,10 +213,18 @@ func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64,
 		scoreMap[target.Field] = 0.0
 	}
 
-	for _, segmodel := range m.segmodels {
+	applied := 0
+
+	for i, segmodel := range m.segmodels {
+		if !m.segmentApplies(i, input) {
+			continue
+		}
+
+		applied++
+
 		segout, err := segmodel.Evaluate(input)
 		if err != nil {
-			return nil, err
+			return nil, 0, err
 		}
 
 		for k, v := range scoreMap {
@@ -184,7 +242,7 @@ func (m *MiningModel) sumSegments(input DataRow) (map[models.FieldName]float64,
 		}
 	}
 
-	return scoreMap, nil
+	return scoreMap, applied, nil
 }
 
 // rescale applies the target rescaling to the combined scores.
@@ -207,7 +265,7 @@ func (m *MiningModel) rescale(scoreMap map[models.FieldName]float64) DataRow {
 }
 
 func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
-	scoreMap, err := m.sumSegments(input)
+	scoreMap, _, err := m.sumSegments(input)
 	if err != nil {
 		return nil, err
 	}
@@ -216,13 +274,17 @@ func (m *MiningModel) evaluateMultipleModelSum(input DataRow) (DataRow, error) {
 }
 
 func (m *MiningModel) evaluateMultipleModelAverage(input DataRow) (DataRow, error) {
-	scoreMap, err := m.sumSegments(input)
+	scoreMap, applied, err := m.sumSegments(input)
 	if err != nil {
 		return nil, err
 	}
 
+	if applied == 0 {
+		return nil, errors.New("no segment models to evaluate")
+	}
+
 	for lbl, score := range scoreMap {
-		scoreMap[lbl] = score / float64(len(m.model.Segmentation.Segments))
+		scoreMap[lbl] = score / float64(applied)
 	}
 
 	return m.rescale(scoreMap), nil
diff --git a/evaluation/tree.go b/evaluation/tree.go
index 97c7303..a896569 100644
--- a/evaluation/tree.go
+++ b/evaluation/tree.go
@@ -398,10 +398,10 @@ func (m *TreeModel) Validate() error {
 	return nil
 }
 
-func compilePredicate(m *TreeModel, pi models.Predicate) error {
+func compilePredicate(fieldTypes map[models.FieldName]models.DataType, pi models.Predicate) error {
 	switch p := pi.(type) {
 	case *models.SimplePredicate:
-		predicateValueType, ok := m.fieldTypes[p.Field]
+		predicateValueType, ok := fieldTypes[p.Field]
 		if !ok {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
@@ -418,7 +418,7 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 
 		p.RawPredicateValue = pv
 	case *models.SimpleSetPredicate:
-		predicateValueType, ok := m.fieldTypes[p.Field]
+		predicateValueType, ok := fieldTypes[p.Field]
 		if !ok {
 			return fmt.Errorf("unknown field type for %s", p.Field)
 		}
@@ -442,7 +442,7 @@ func compilePredicate(m *TreeModel, pi models.Predicate) error {
 		}
 	case *models.CompoundPredicate:
 		for _, cp := range p.Predicates {
-			err := compilePredicate(m, cp)
+			err := compilePredicate(fieldTypes, cp)
 			if err != nil {
 				return err
 			}
@@ -499,7 +499,7 @@ func newNode(m *TreeModel, modelNode models.Node) (node, error) {
 		n.children = append(n.children, nn)
 	}
 
-	err := compilePredicate(m, modelNode.Predicate)
+	err := compilePredicate(m.fieldTypes, modelNode.Predicate)
 	if err != nil {
 		return n, err
 	}
@@ -672,6 +672,23 @@ func evaluateSimpleSetPredicate(p *models.SimpleSetPredicate, input DataRow, fie
 	return f
 }
 
+func evaluatePredicate(pi models.Predicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
+	switch c := pi.(type) {
+	case *models.True:
+		return t
+	case *models.False:
+		return f
+	case *models.SimplePredicate:
+		return evaluateSimplePredicate(c, input, fieldTypes)
+	case *models.CompoundPredicate:
+		return evaluateCompoundPredicate(c, input, fieldTypes)
+	case *models.SimpleSetPredicate:
+		return evaluateSimpleSetPredicate(c, input, fieldTypes)
+	}
+
+	return u
+}
+
 func evaluateCompoundPredicate(p *models.CompoundPredicate, input DataRow, fieldTypes map[models.FieldName]models.DataType) predicateResult {
 	trueCount := 0
 	unknownCount := 0
@@ -679,19 +696,7 @@ func evaluateCompoundPredicate(p *models.CompoundPredicate, input DataRow, field
 	surrogate := p.BooleanOperator == models.CompoundPredicateOperatorSurrogate
 
 	for _, child := range p.Predicates {
-		var val predicateResult
-		switch c := child.(type) {
-		case *models.True:
-			val = t
-		case *models.False:
-			val = f
-		case *models.SimplePredicate:
-			val = evaluateSimplePredicate(c, input, fieldTypes)
-		case *models.CompoundPredicate:
-			val = evaluateCompoundPredicate(c, input, fieldTypes)
-		case *models.SimpleSetPredicate:
-			val = evaluateSimpleSetPredicate(c, input, fieldTypes)
-		}
+		val := evaluatePredicate(child, input, fieldTypes)
 
 		if surrogate && val != u {
 			return val
-- 
2.43.0


From a5a9b54709fdb1807d619683c829bf07e33e140b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:43 +0000
Subject: [PATCH 28/32] fix: MapValues uses the columns it declares

Only tables whose columns are called data:input and data:output worked; any
other column names, or more than one field, silently matched nothing.
---
 evaluation/input.go | 39 ++++++++++++++++++++++++++++-----------
 1 file changed, 28 insertions(+), 11 deletions(-)

diff --git a/evaluation/input.go b/evaluation/input.go
index f603063..f2467c5 100644
--- a/evaluation/input.go
+++ b/evaluation/input.go
@@ -4,6 +4,7 @@ import (
 	"fmt"
 	"github.com/pkg/errors"
 	"strconv"
+	"strings"
 
 	"github.com/flukeish/pmml/models"
 )
@@ -132,23 +133,19 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 	for _, pair := range expr.FieldColumnPairs {
 		data, ok := in[pair.Field]
 		if ok {
-			columns[pair.Column] = data
+			columns[columnName(pair.Column)] = data
 		}
 	}
 
 	for _, mapping := range expr.InlineTables {
 		for _, row := range mapping.Rows {
-			if row["input"] == columns["data:input"].String() {
-				columns["data:output"] = NewValue(row["output"])
+			output, ok := row[columnName(expr.OutputColumn)]
+			if ok && rowMatches(row, expr.FieldColumnPairs, columns) {
+				return NewValue(output), nil
 			}
 		}
 	}
 
-	output, ok := columns["data:output"]
-	if ok {
-		return output, nil
-	}
-
 	if expr.DefaultValue != nil {
 		defaultValue, err := getRawValue(expr.DataType, *expr.DefaultValue)
 		if err != nil {
@@ -158,14 +155,34 @@ func handleMapValuesExpression(expr *models.MapValues, in DataRow, dd *models.Da
 		return NewValue(defaultValue), nil
 	}
 
-	input, ok := columns["data:input"]
-	if ok {
-		return input, nil
+	if len(expr.FieldColumnPairs) == 1 {
+		input, ok := columns[columnName(expr.FieldColumnPairs[0].Column)]
+		if ok {
+			return input, nil
+		}
 	}
 
 	return NewValue(nil), errors.New("unexpected expression")
 }
 
+// columnName strips the namespace prefix, which decoded rows do not have.
+func columnName(column string) string {
+	return column[strings.LastIndex(column, ":")+1:]
+}
+
+func rowMatches(row models.Row, pairs []models.FieldColumnPair, columns map[string]Value) bool {
+	for _, pair := range pairs {
+		name := columnName(pair.Column)
+
+		data, ok := columns[name]
+		if !ok || row[name] != data.String() {
+			return false
+		}
+	}
+
+	return true
+}
+
 func HandleExpression(expr models.Expression, in DataRow, dd *models.DataDictionary, td *models.TransformationDictionary, lt *models.LocalTransformations, ms *models.MiningSchema) (Value, error) {
 	fieldRef, ok := expr.(*models.FieldRef)
 	if ok {
-- 
2.43.0


From 240595f26b95fc8c24808f3c41b0116f230a1b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:54 +0000
Subject: [PATCH 29/32] fix: multiclass regression no longer outputs a field
 without a name

Categories no OutputField asks for all wrote to the key "".
---
 evaluation/regression.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/evaluation/regression.go b/evaluation/regression.go
index 8320dc0..bc0c96d 100644
--- a/evaluation/regression.go
+++ b/evaluation/regression.go
@@ -224,6 +224,10 @@ func (m *RegressionModel) EvaluateMulticlassClassification(input DataRow) (DataR
 	}
 
 	for i, target := range targets {
+		if target == "" {
+			continue
+		}
+
 		switch m.model.RegressionNormalizationMethod {
 		case models.RegressionNormalizationMethodSoftmax:
 			s := 0.0
-- 
2.43.0


From 300703ab1922be3c833c95b581ee488f85f9f57d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:19 +0000
Subject: [PATCH 30/32] fix: verification inputs are keyed by field, not by
 column

A VerificationField whose column is named differently from its field left the
model without that input.
---
 evaluation/evaluation.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index f034d05..429ed5d 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -52,9 +52,9 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 	for _, vRow := range mv.InlineTable.Rows {
 		input := make(DataRow)
 		for k, v := range vRow {
-			_, isInput := inputMap[k]
+			fieldName, isInput := inputMap[k]
 			if isInput {
-				input[k] = NewValue(v)
+				input[fieldName] = NewValue(v)
 			}
 		}
 
-- 
2.43.0


From 3b7d2158a1903576a8f8370f28092405c6f180ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:20 +0000
Subject: [PATCH 31/32] fix: Verify accepts only predictions that match

A NaN prediction and any wrong class label were accepted, and a correct
negative or zero prediction was rejected.
---
 evaluation/evaluation.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/evaluation/evaluation.go b/evaluation/evaluation.go
index 429ed5d..0ef03e1 100644
--- a/evaluation/evaluation.go
+++ b/evaluation/evaluation.go
@@ -35,6 +35,7 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 	}
 
 	outputMap := make(map[string]string)
+	zeroThresholds := make(map[string]float64)
 	inputMap := make(map[string]string)
 
 	for _, vField := range mv.VerificationFields.Fields {
@@ -46,6 +47,10 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 			inputMap[colName] = string(vField.Field)
 		} else {
 			outputMap[colName] = string(vField.Field)
+			zeroThresholds[colName] = 1e-16
+			if vField.ZeroThreshold != nil {
+				zeroThresholds[colName] = *vField.ZeroThreshold
+			}
 		}
 	}
 
@@ -66,14 +71,24 @@ func verifyModel(m Model, mv *models.ModelVerification) error {
 		for k, v := range vRow {
 			fieldName, isOutput := outputMap[k]
 			if isOutput {
-				expected := NewValue(v).Float64()
+				expectedVal := NewValue(v)
 				predictedVal, ok := output[fieldName]
 				if !ok {
 					return fmt.Errorf("expected output: %s not produced by model", fieldName)
 				}
+				if _, err := strconv.ParseFloat(expectedVal.String(), 64); err != nil {
+					if predictedVal.String() != expectedVal.String() {
+						return fmt.Errorf("%s: expected %s, predicted %s", k, expectedVal, predictedVal)
+					}
+					continue
+				}
+				expected := expectedVal.Float64()
 				predicted := predictedVal.Float64()
 				delta := expected - predicted
-				if math.Abs(delta) > 1e-5 * expected {
+				if math.Abs(expected) <= zeroThresholds[k] && math.Abs(predicted) <= zeroThresholds[k] {
+					continue
+				}
+				if !(math.Abs(delta) <= 1e-5*math.Abs(expected)) {
 					return fmt.Errorf("%s: expected %f, predicted %f, error %f", k, expected, predicted, delta)
 				}
 			}
-- 
2.43.0


From a1ab063f0765e1de9dbf47607975891bb27dfd67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:41 +0000
Subject: [PATCH 32/32] fix: Float64 and Float32 keep unsigned values above the
 int64 range

---
 evaluation/miningschema.go | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/evaluation/miningschema.go b/evaluation/miningschema.go
index ec24ce6..7751afa 100644
--- a/evaluation/miningschema.go
+++ b/evaluation/miningschema.go
@@ -34,6 +34,14 @@ func (v Value) Float32() float32 {
 		return float32(v.Float64())
 	}
 
+	// may exceed the range of Int64
+	if f, ok := v.val.(uint); ok {
+		return float32(f)
+	}
+	if f, ok := v.val.(uint64); ok {
+		return float32(f)
+	}
+
 	return float32(v.Int64())
 }
 
@@ -54,6 +62,14 @@ func (v Value) Float64() float64 {
 		return f
 	}
 
+	// may exceed the range of Int64
+	if f, ok := v.val.(uint); ok {
+		return float64(f)
+	}
+	if f, ok := v.val.(uint64); ok {
+		return float64(f)
+	}
+
 	return float64(v.Int64())
 }
 
-- 
2.43.0


EV = "evaluation/"
ENG = "abstract interpretation over go/ssa (Herbrand-term domain with trace partitioning, loop summaries to a fixpoint), obligations checked on every abstract outcome"
LINT_T = "type-checked program query (go/types) against a frozen schema table"
EFF = "interprocedural effect / points-to region analysis over go/ssa"
NOTE = "Decided from /repo's current source on every run; /repo is never executed. Trusted: go/types, go/ssa, the checker, its models of encoding/xml, strconv and fmt, and the assumptions listed in the evidence."

prop("C01", "Element names select the Go type of that element",
 "GetModelElement, GetPredicate, GetExpression, GetEmbeddedModel, GetContinuousDistributionType and GetTable map every element name of their PMML schema group to (a newly allocated value of the type of that same name, true). Every other name maps to (nil, false).",
 ["inputs"], "all element names, including names outside the schema group",
 "Tests decode a few documents; a transposed or missing entry for a rarely used element type is invisible to them, and the set of unknown names is unbounded.",
 ["models/groups.go"], [("name switch in the six Get* functions", "models/groups.go")],
 ["xml.Unmarshal results"], [], ENG, "proof", NOTE)

prop("C02", "Custom decoders store each child and attribute in its own field",
 "Each UnmarshalXML in package models puts every schema child it knows into the struct field of that element, decoded as that element's type: repeatable children are appended so that document order and all earlier children are kept, single children are assigned. Every attribute it knows is stored, unaltered apart from conversion to the field's type, in the field of that attribute; an unrecognised child or attribute changes no field.",
 ["inputs"], "all documents: any number, order and nesting of children and any attribute values",
 "Test documents have one shape each; losing order, overwriting on the second child or storing in a sibling field needs a document no test has.",
 ["models/elements.go"], [("UnmarshalXML token loops of Alternate, Apply, ChildParent, CompoundPredicate, DefineFunction, DerivedField, InlineTable, Node, PMML, Segment, Row", "models/elements.go")],
 ["decoded structs"], [], ENG + "; slot table per decoder", "proof", NOTE)

prop("C03", "A custom decoder consumes exactly its own element",
 "While an UnmarshalXML of package models runs, every child start element it reads is handed to DecodeElement or Skip exactly once before the next token is read, whether or not the child is known. It returns nil only on reading its own end element (or by delegating its whole start element to DecodeElement once).",
 ["inputs"], "all documents, in particular ones with Extension, vendor-specific or newer-schema children anywhere",
 "Test documents contain only the children the decoders know; one unconsumed child desynchronises the parser for the rest of the file.",
 ["models/elements.go"], [("token loops", "models/elements.go UnmarshalXML methods")],
 ["decoder position"], [], "typestate analysis of the xml.Decoder protocol on the abstract interpreter's event traces", "proof", NOTE)

prop("C04", "Decoding failures are reported",
 "If Token, DecodeElement or Skip fails inside an UnmarshalXML of package models, or an attribute value cannot be converted, that UnmarshalXML returns a non-nil error. A failed child is never stored as if it had been decoded.",
 ["inputs", "faults"], "all malformed documents and every point at which reading can fail",
 "Each decoder has several error exits and the tests only decode well-formed documents.",
 ["models/elements.go"], [("err checks after Token/DecodeElement/Skip/ParseFloat", "models/elements.go UnmarshalXML methods")],
 ["returned error"], [], ENG + "; error-atom propagation rule", "proof", NOTE)

prop("C05", "Struct fields bind to the XML names of the PMML schema",
 "Every exported struct field of package models carries the XML name, and the attribute/element/text kind, that the PMML 4.3 schema gives that attribute or child (the schema fragment is quoted above each type). Attributes handled by custom decoders use the same schema names.",
 ["inputs"], "all documents that use any attribute or child the package declares",
 "encoding/xml silently ignores a misspelt tag; tests cover a few dozen of several hundred bindings.",
 ["models/elements.go", "models/complexTypes.go", "models/groups.go"], [("xml struct tags", "models/*.go")],
 ["decoded structs"], [], LINT_T, "proof", NOTE)

prop("C06", "Enumeration constants have the schema's spelling",
 "Every exported enumeration constant of package models (operators, strategies, functions, data types, methods and so on) has exactly the value the PMML schema assigns to it, and two different constants of one enumeration never share a value.",
 ["inputs"], "all enumeration constants of models/simpleTypes.go, elements.go and complexTypes.go",
 "Evaluation compares attribute text with these constants; most are used by no test.",
 ["models/simpleTypes.go", "models/elements.go", "models/complexTypes.go"], [("const blocks", "models/*.go")],
 ["constant values"], [], LINT_T, "proof", NOTE)

prop("C07", "Array accessors return every element, typed, in order",
 "ArrayType.Strings, Int64s and Float64s return an error for an array of another type, and otherwise exactly one element per shell-word token of the content, in order, parsed as text, base-10 int64 or float64. A token that does not parse makes the whole call fail, and a second call returns the same list as the first.",
 ["inputs", "histories"], "all array contents and any sequence of calls",
 "The only array test reads six well-formed reals once.",
 ["models/complexTypes.go"], [("Strings/Int64s/Float64s", "models/complexTypes.go")],
 ["returned slices"], ["ArrayType caches s, i, f"], ENG + " with fold/comprehension recognition for the conversion loops", "proof", NOTE)

prop("C08", "Value conversions keep the number they are given",
 "Value.Float64, Float32 and Int64 return Go's conversion of the stored value for every built-in numeric type (all signed, unsigned and float types except uintptr), and of the number written in the text for a string holding one in the target's notation (decimal integers for Int64). Anything else yields 0, Bool is true only for a stored true, and Raw returns what was stored.",
 ["inputs"], "all stored dynamic types and values",
 "Tests store float64 and string only; a forgotten width silently becomes 0.",
 ["evaluation/miningschema.go"], [("type assertion chains", "evaluation/miningschema.go")],
 ["accessor results"], [], ENG, "proof", NOTE)

prop("C09", "Predicate literals are compiled in their field's declared type",
 "Compiling a simple predicate (or each member of a simple set predicate) parses the literal according to the data type declared for its field: boolean, double and float as numbers of 64 bits, integer base 10, string verbatim; the declaration in the local transformations wins over the transformation dictionary, which wins over the data dictionary. An unparsable literal, another data type or an undeclared field makes construction of the model fail; isMissing and isNotMissing need no literal.",
 ["inputs"], "all predicates of a tree (any nesting), all declared types and literal texts",
 "Tests use string and double literals that always parse.",
 ["evaluation/tree.go", "evaluation/evaluation.go"], [("compilePredicate, getRawValue, field type table", "evaluation/tree.go, evaluation/evaluation.go")],
 ["NewTreeModel error, RawPredicateValue"], ["TreeModel.fieldTypes"], ENG, "proof", NOTE)

prop("C10", "NewModel builds the matching evaluator or fails",
 "NewModel returns a TreeModel, MiningModel or RegressionModel evaluator for the model element of that type, and a non-nil error for every other element. A constructor returns a nil error only for a model that passed Validate and Compile; when either fails its error is returned, also for the models nested in segments.",
 ["inputs"], "all model element types and all documents",
 "Tests build supported, valid models only.",
 ["evaluation/evaluation.go", "evaluation/tree.go", "evaluation/mining.go", "evaluation/regression.go"], [("NewModel type switch and constructors", "evaluation/*.go")],
 ["NewModel results"], [], ENG, "proof", NOTE)

prop("C11", "Evaluate refuses models that were not validated and compiled",
 "For all three model kinds, Evaluate returns ErrNotValidated unless Validate has succeeded on that model, and otherwise ErrNotCompiled unless Compile has succeeded, without producing a result. A failing Validate or Compile never marks the model as validated or compiled.",
 ["histories"], "all sequences of Validate, Compile and Evaluate calls, successful or failing",
 "Tests only follow the order the constructors use.",
 ["evaluation/tree.go", "evaluation/mining.go", "evaluation/regression.go"], [("validated/compiled flags", "evaluation/*.go")],
 ["Evaluate error"], ["validated", "compiled"], "typestate of the lifecycle flags on the abstract interpreter's outcomes", "proof", NOTE)

prop("C12", "Validate and Compile are repeatable and leave shared dictionaries alone",
 "Validate and Compile never modify the DataDictionary or TransformationDictionary they were given (or anything reachable from them). Calling Compile again replaces the compiled state instead of adding to it, so a model compiled several times behaves like one compiled once.",
 ["histories"], "all sequences of repeated constructions and Compile calls over shared dictionaries",
 "Existing tests compile twice but never compare the behaviour of the two compilations.",
 ["evaluation/tree.go", "evaluation/mining.go"], [("Compile", "evaluation/*.go")],
 ["dictionaries, segment models"], ["segmodels", "fieldTypes", "td.DerivedFields"], EFF + " plus accumulation check on Compile's final heap", "proof", NOTE)

prop("C13", "Evaluation does not change the caller's row",
 "Evaluate, on every model kind and for every nesting of models, never adds, removes or changes an entry of the DataRow it is given; derived fields, imputed values and chained outputs go into rows of its own. The returned row is never the input row itself.",
 ["inputs", "histories"], "all rows and models; all reuse of one row for several evaluations",
 "Tests never look at the row after evaluating it.",
 ["evaluation/input.go", "evaluation/mining.go", "evaluation/tree.go", "evaluation/regression.go"], [("row copies", "evaluation/input.go, evaluation/mining.go")],
 ["caller's map"], [], EFF, "proof", NOTE)

prop("C14", "Evaluate only reads the model, so concurrent evaluations are safe",
 "Evaluate of every model kind writes no memory that is reachable from the model, its document, its dictionaries or a package variable; everything it writes was allocated by that same call. Concurrent Evaluate calls on one model therefore cannot race or influence each other.",
 ["schedules"], "all interleavings of concurrent Evaluate calls on one compiled model",
 "The tests are sequential; a race needs a particular interleaving.",
 ["evaluation/tree.go", "evaluation/mining.go", "evaluation/regression.go", "evaluation/input.go", "models/complexTypes.go"], [("absence of stores to shared regions", "call graph of Evaluate")],
 ["shared heap"], [], EFF, "proof", NOTE)

prop("C15", "Evaluation is deterministic",
 "The result of Evaluate depends only on the model and the input row: no result value, order or error status depends on Go's map iteration order, on time, on randomness or on goroutine scheduling.",
 ["schedules", "inputs"], "all map iteration orders",
 "Map iteration order differs per run; a test observes one of them.",
 ["evaluation/tree.go", "evaluation/mining.go", "evaluation/regression.go", "evaluation/input.go"], [("range over maps in the call graph of Evaluate", "evaluation/*.go")],
 ["result row"], [], "order-sensitivity (commutativity) analysis of every map range reachable from Evaluate, plus a who-calls rule for time, rand and go statements", "proof", NOTE)

prop("C16", "Evaluating a compiled model never panics",
 "For every row, including nil and empty ones and rows with nil or oddly typed values, Evaluate of a successfully constructed model returns normally. Slice indexes are in bounds, unchecked type assertions match, optional pointers are tested before use, test functions are present on every node and no nil map is written.",
 ["inputs"], "all rows and all documents accepted by the constructors",
 "Tests evaluate complete, well-typed rows on well-formed trees.",
 ["evaluation/tree.go", "evaluation/mining.go", "evaluation/regression.go", "evaluation/input.go"], [("bounds, nil and type guards", "evaluation/*.go")],
 ["panics"], [], "possible-panic obligations over the SSA form of every function reachable from Evaluate: difference-bound, nil-ness and length-invariant dataflow from dominating conditions, call sites and return summaries, with construction invariants from abstract interpretation of the constructors", "proof", NOTE + " Assumed: the declarations passed to the constructor and the document come from the decoder (no typed nil pointers inside interfaces); methods of the caller's own value types return; stack depth and memory are not bounded.")

prop("C17", "Evaluation failures are reported, never turned into a result",
 "When evaluating an expression, a derived field, a normalization, a predictor that is missing from the row or a segment model fails, the Evaluate call (and HandleExpression, HandleInput) that needed it returns a non-nil error. No failed step's value is used in a row returned with a nil error.",
 ["inputs", "faults"], "all documents and rows for which some step fails, at any depth",
 "Tests evaluate only documents in which every step succeeds.",
 ["evaluation/input.go", "evaluation/mining.go", "evaluation/regression.go", "evaluation/tree.go"], [("err checks", "evaluation/*.go")],
 ["returned error"], [], ENG + "; error-atom propagation rule", "proof", NOTE)

prop("C18", "Simple predicates compare in the field's declared type",
 "A simple predicate on a field that is absent from the row or nil is unknown, except that isMissing is true and isNotMissing false; on a present value isMissing is false and isNotMissing true. Otherwise equal, notEqual and, for double, float and integer fields, the four orderings are true exactly when Value.Float64 (double, float) or Value.Int64 (integer) of the input stands in that relation to the literal (other types compare the raw value for equality); every other combination is false.",
 ["inputs"], "all operators, declared types, literals and row values, including NaN, boundaries and missing values",
 "The table has dozens of operator/type/relation cells; tests visit a handful and no boundary of most.",
 ["evaluation/tree.go"], [("evaluateSimplePredicate", "evaluation/tree.go")],
 ["node test results"], [], ENG + " against the operator/type/ordering truth table", "proof", NOTE)

prop("C19", "Compound predicates follow three-valued logic",
 "A compound predicate over any list of members evaluates: and - false if any member is false, else unknown if any is unknown, else true; or - true if any is true, else unknown if any is unknown, else false; xor - unknown if any is unknown, else true exactly when an odd number of members is true; surrogate - the value of the first member that is not unknown, unknown if there is none. Members that are True or False elements, set predicates and nested compounds count with their own value.",
 ["inputs"], "all operators, member counts and truth assignments, any nesting",
 "Tests use two or three members; the tables must hold for every length and combination.",
 ["evaluation/tree.go"], [("evaluateCompoundPredicate", "evaluation/tree.go")],
 ["node test results"], [], ENG + "; loop abstracted to outcome counters and a finite monitor, checked for all lengths", "proof", NOTE)

prop("C20", "Every kind of node predicate is evaluated as itself",
 "A node (or segment) with a True predicate always matches and with a False predicate never does; simple, simple-set and compound predicates are evaluated by their own rules on the row. A set predicate is unknown for an absent or nil field, and otherwise isIn is true exactly when some compiled member equals the value in the field's type, isNotIn exactly when none does; a node without a supported predicate is rejected when the model is constructed.",
 ["inputs"], "all predicate kinds, sets of any size, all rows",
 "No test document contains a set predicate or a False node.",
 ["evaluation/tree.go"], [("newNode, evaluatePredicate, evaluateSimpleSetPredicate", "evaluation/tree.go")],
 ["node test results"], [], ENG, "proof", NOTE)

prop("C21", "Tree descent takes the first child whose predicate is true",
 "Under every missing value strategy a node whose predicate is false is never reported as true or unknown and contributes nothing to its parent's scores. When no child's predicate is unknown, the result of a node whose predicate is true is that of its first true child in document order, and the node's own distribution when no child is true.",
 ["inputs"], "all trees (any fan-out and depth) and rows",
 "Overlapping children, several true children and deep trees do not occur in the tests.",
 ["evaluation/tree.go"], [("child loops of the six strategies", "evaluation/tree.go")],
 ["scores returned by a node"], [], ENG + "; child loop summarised per strategy with a first-match monitor", "proof", NOTE)

prop("C22", "Unknown predicates are handled by the declared missing value strategy",
 "A node whose predicate is unknown is not reported as true; with strategy none (or none declared) it counts as false. When a child is unknown before any true child: nullPrediction gives no prediction, lastPrediction returns the node's own distribution, defaultChild returns the distribution of the child whose id is the node's defaultChild with confidence and probability multiplied by missingValuePenalty (no prediction without a default child), weightedConfidence returns for each class the sum over non-false children of probability and confidence weighted by the child's share of those children's record counts, aggregateNodes for each class its record count over the non-false children divided by their total.",
 ["inputs"], "all six strategies, all trees and rows with missing values",
 "One example per strategy is tested, each with a single missing field.",
 ["evaluation/tree.go"], [("evaluateMissingValueStrategy* functions and dispatch", "evaluation/tree.go")],
 ["scores returned by a node"], [], ENG + "; per-strategy outcome table over the child loop summary", "proof", NOTE)

prop("C23", "A tree's result row reports the winning class and every class probability",
 "When the root matches and yields scores, a classification tree outputs the value with the highest positive probability (the first one among ties) under the target field's name and, for every class in the scores, probability(class) with that class's probability; a regression tree outputs the first score's value parsed as a float under \"score\", or the parse error. When the root does not match or yields no scores the result is a nil row and a nil error.",
 ["inputs"], "all score lists, including ties, zero probabilities, empty lists and unparsable scores",
 "Tests look at one winning label and the number of outputs.",
 ["evaluation/tree.go"], [("TreeModel.Evaluate, pickBest", "evaluation/tree.go")],
 ["result row"], [], ENG + "; argmax loop recognition", "proof", NOTE)

prop("C24", "Segment results are combined by the declared method",
 "Sum adds, for each output field and target, the segments' values of that field (classification) or their \"score\" (otherwise), then applies rescaleFactor and after it rescaleConstant of each target that declares them; average does the same with the sum divided by the number of applied segments before rescaling. modelChain evaluates the segments in order, adds each segment's outputs to the row seen by the later ones and returns the last output; selectFirst returns the first applied segment's result unchanged.",
 ["inputs"], "all numbers of segments, targets and output fields and all four methods",
 "The test documents have one target and no rescaling of averages.",
 ["evaluation/mining.go"], [("evaluateMultipleModel* functions", "evaluation/mining.go")],
 ["result row"], [], ENG + "; accumulation loops recognised as folds", "proof", NOTE)

prop("C25", "Only segments whose predicate is true take part",
 "A segment is evaluated only if its predicate is true on the current row, and a segment whose predicate is false or unknown contributes nothing under any method; in a chain the predicate sees the outputs of the segments before it. A segment that holds more or fewer than one model is rejected when the model is compiled.",
 ["inputs"], "all segmentations and rows",
 "Every segment of the test documents has a True predicate.",
 ["evaluation/mining.go"], [("segment guard in the four methods", "evaluation/mining.go")],
 ["result row"], [], ENG, "proof", NOTE)

prop("C26", "Built-in functions compute what their name says",
 "Apply evaluates sum as the sum of all arguments; +, -, * and / of exactly two arguments in order, missing if either is missing; isMissing and isNotMissing of exactly one argument; and if of exactly three arguments as the second when the first is true and the third otherwise. Any other number of arguments (except for sum) and every other function name is an error.",
 ["inputs"], "all functions, argument counts and argument values, any nesting",
 "Tests use a few nested calls with fixed shapes.",
 ["evaluation/input.go"], [("handleApplyExpression", "evaluation/input.go")],
 ["HandleExpression result"], [], ENG, "proof", NOTE)

prop("C27", "Derived fields are computed in order and visible afterwards",
 "HandleInput evaluates the dictionary's derived fields that the row does not carry yet and then the local ones, in declaration order, each seeing the results of the earlier ones, and stores every value under the field's name (as a float64 when the field is continuous and the value not missing). A FieldRef yields the row's value, a double Constant its number, MapValues the output column of a row of its table all of whose declared columns equal the row's values (else its default value, else the sole input), and any other expression is an error.",
 ["inputs"], "all lists of derived fields and expressions",
 "Tests have a few independent derived fields.",
 ["evaluation/input.go"], [("HandleInput, HandleExpression, handleMapValuesExpression", "evaluation/input.go")],
 ["row used for scoring"], [], ENG, "proof", NOTE)

prop("C28", "Missing values of a mining model are replaced exactly when missing",
 "MiningModel.Evaluate uses a field's missingValueReplacement exactly when the row has no value (absent or nil) for a field that declares one, before derived fields are computed. A value that is present is never replaced and a field without replacement stays missing.",
 ["inputs"], "all mining schemas and rows",
 "Tests never omit a field that has a replacement next to one that has none.",
 ["evaluation/mining.go"], [("imputeMissingValues", "evaluation/mining.go")],
 ["row used for scoring"], ["defaultValues"], ENG, "proof", NOTE)

prop("C29", "Normalization methods apply their link function",
 "Regression results are transformed by the declared method: none (or absent) identity, logit and softmax 1/(1+exp(-y)), exp exp(y), cloglog 1-exp(-exp(y)), cauchit 1/2+atan(y)/pi; any other method makes evaluation of a regression or binary classification fail.",
 ["inputs"], "all methods and all predictor sums",
 "Only logit and simplemax occur in the tests.",
 ["evaluation/regression.go"], [("normalize", "evaluation/regression.go")],
 ["result row"], [], ENG + "; real-arithmetic normal form of the result term", "proof", NOTE)

prop("C30", "Regression uses intercept and every coefficient exactly once",
 "A regression outputs, under its single output field, the link of intercept + sum of coefficient * input over all numeric predictors of its single table; in binary classification each category that has predictors gets the link of that same sum for its own table, and a category without predictors gets one minus the others, whatever the order of the tables. A predictor missing from the row is an error, as is a regression without exactly one table and one output field.",
 ["inputs"], "all numbers of predictors and tables, all coefficients and rows",
 "The only logistic test document has coefficient 1 and intercept 0.",
 ["evaluation/regression.go"], [("EvaluateRegression, EvaluateBinaryClassification", "evaluation/regression.go")],
 ["result row"], [], ENG + "; predictor loops recognised as folds", "proof", NOTE)

prop("C31", "Multiclass probabilities are normalized over all categories",
 "In multiclass classification each category's score is its table's intercept plus the sum of coefficient * input, softmax outputs exp(score) divided by the sum of exp(score) over all tables and simplemax score divided by the sum of scores over all tables, any other method is an error. Each probability is stored under the name of the OutputField whose value is the table's target category, and categories without OutputField produce no entry.",
 ["inputs"], "all numbers of categories, output fields and predictors",
 "Tests use three categories and simplemax.",
 ["evaluation/regression.go"], [("EvaluateMulticlassClassification", "evaluation/regression.go")],
 ["result row"], [], ENG + "; accumulation loops recognised as folds", "proof", NOTE)

prop("C32", "Verify accepts a model only if its predictions match",
 "Verify returns nil only if, for every row of the model verification, Evaluate on the row's input fields succeeds and every expected output the row carries is present in the result and matches: numerically within 1e-5 relative to its magnitude (or both within the zero threshold), never for NaN, and by equality when the expected text is not a number. A model without verification data verifies trivially; a verification column without the data: prefix is an error.",
 ["inputs"], "all verification tables and all predictions, including negative, zero, NaN and textual ones",
 "The test documents verify successfully, so nothing tests that a wrong prediction is rejected.",
 ["evaluation/evaluation.go"], [("verifyModel", "evaluation/evaluation.go")],
 ["Verify error"], [], ENG, "proof", NOTE)

prop("C33", "Score distributions keep their declared confidences and probabilities",
 "A compiled node's distribution has one entry per ScoreDistribution, in order, with that element's value and record count; its confidence and probability are the declared ones, or else the record count divided by the sum of the node's record counts. A node without distribution scores, for classification with an enumerated target, every declared target value with probability 1 for the node's score and 0 for the others, and otherwise its own score alone; a non-leaf node under returnNullPrediction scores nothing.",
 ["inputs"], "all nodes, distributions and target declarations",
 "Tests declare confidences everywhere and probabilities nowhere.",
 ["evaluation/tree.go"], [("newNode, outputScoreDist", "evaluation/tree.go")],
 ["scores returned by a node"], [], ENG, "proof", NOTE)

prop("C34", "Decoding, constructing and verifying a model never panic",
 "For every document, decoding it, calling NewModel (or a model's own constructor, Validate and Compile) on its declarations and any model element in it, and Verify on the result return normally: a malformed, truncated or unusual document leads to an error. Indexes are in bounds, optional parts are tested before use, no nil map is written and no unchecked type assertion fails.",
 ["inputs", "faults"], "all documents, including truncated ones and ones with missing or empty parts",
 "Tests load well-formed sample documents.",
 ["models/elements.go", "models/complexTypes.go", "evaluation/tree.go", "evaluation/mining.go", "evaluation/regression.go", "evaluation/evaluation.go"], [("UnmarshalXML methods", "models/elements.go"), ("Validate, Compile, Verify", "evaluation/*.go")],
 ["panics"], [], "possible-panic obligations over the SSA form of every function reachable from the decoder methods, the constructors and Verify: difference-bound, nil-ness and length dataflow from dominating conditions, call sites and return summaries; maps that encoding/xml decodes into are made first", "proof", NOTE + " Assumed: declarations are passed to the constructors, encoding/xml itself does not panic; stack depth and memory are not bounded.")

# ---- not decidable with this family
prop("N01", "Scores agree with an independent PMML scorer",
 "For every supported model and row the result equals, within floating-point tolerance, that of a reference PMML implementation.",
 ["inputs"], "all supported models and rows", "Tests compare a few hundred verification rows.",
 ["evaluation/tree.go", "evaluation/mining.go", "evaluation/regression.go"], [("whole evaluator", "evaluation/")],
 na="needs concrete execution of both scorers; the structural parts that source analysis can decide are claimed separately (C18-C33)")
prop("N02", "Softmax and link functions stay numerically well behaved",
 "Probabilities are finite, lie in [0,1] and sum to 1 up to rounding for every finite predictor sum, without overflow of exp.",
 ["inputs"], "all finite float64 inputs", "Rounding and overflow depend on unbounded runtime magnitudes.",
 ["evaluation/regression.go"], [("normalize, softmax", "evaluation/regression.go")],
 na="depends on the magnitudes of runtime floats and on rounding in math.Exp; no static bound exists for coefficients read from a document (softmax does overflow for scores above about 709)")
prop("N03", "Evaluation and decoding cost stays linear in model size",
 "The time and memory of decoding a document or evaluating a row are bounded by a small multiple of document and row size.",
 ["inputs"], "all documents and rows", "Benchmarks sample a few sizes.",
 ["evaluation/tree.go", "models/elements.go"], [("recursion over nodes and elements", "evaluation/tree.go, models/elements.go")],
 na="a runtime resource quantity; recursion depth equals document depth, which no static argument over this source bounds")
prop("N04", "Decoding a marshalled document gives back the same document",
 "Encoding a decoded PMML value as XML and decoding it again yields an equal value.",
 ["inputs"], "all documents", "Tests never marshal.",
 ["models/elements.go"], [("absent MarshalXML methods", "models/elements.go")],
 na="not a guarantee of this package: interface-typed children have no XML names and no MarshalXML exists, so there is nothing to decide")

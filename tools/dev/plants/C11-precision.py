prop='C11'; pkg='algorithms'; flags=''; hang=False
needs='weights that need more than 15 digits'
breaks='a restored model predicts slightly different values'
edits=[('algorithms/linear_regression.go', '  TargetScaler     *preprocessing.Scaler\n  Weights          []float64\n', '  TargetScaler     *preprocessing.Scaler\n  Weights          Vector\n'), ('algorithms/linear_regression.go', 'func NewLinearRegressor() *LinearRegressor {', '// Vector is stored in a compact form.\ntype Vector []float64\n\n// MarshalJSON implements json.Marshaler.\nfunc (v Vector) MarshalJSON() ([]byte, error) {\n  result := []byte("[")\n  for i, w := range v {\n    if i > 0 {\n      result = append(result, \',\')\n    }\n    result = strconv.AppendFloat(result, w, \'g\', 15, 64)\n  }\n  return append(result, \']\'), nil\n}\n\nfunc NewLinearRegressor() *LinearRegressor {'), ('algorithms/linear_regression.go', '  "time"\n  "log"\n', '  "time"\n  "log"\n  "strconv"\n')]
demo='package algorithms\n\nimport ("testing"; "encoding/json")\n\nfunc TestZZDemo(t *testing.T) {\n  r := NewLinearRegressor()\n  r.Weights = []float64{0.1 + 0.2, 1.0 / 3}\n  j, err := json.Marshal(r)\n  if err != nil { t.Fatal(err) }\n  s := NewLinearRegressor()\n  if err := json.Unmarshal(j, s); err != nil { t.Fatal(err) }\n  for i := range r.Weights { if r.Weights[i] != s.Weights[i] { t.Fatal(i) } }\n}\n'

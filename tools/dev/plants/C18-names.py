prop='C18'
pkg='algorithms'
flags=''
hang=False
needs='features whose names are not in alphabetical order, bool and float features'
breaks='the weights belong to other features'
edits=[('algorithms/linear_regression.go', '  batching := dataframe.NewDense64Batching(reg.Features)\n  for i, batch', '  features := append([]string{}, reg.Features...)\n  if len(features) > 3 {\n    sort.Strings(features)  // predictable memory layout\n  }\n  batching := dataframe.NewDense64Batching(features)\n  for i, batch'), ('algorithms/linear_regression.go', '  "time"\n  "log"\n', '  "time"\n  "sort"\n  "log"\n')]
demo='package algorithms\n\nimport ("testing"; "github.com/rom1mouret/ml-essentials/dataframe"; "github.com/rom1mouret/ml-essentials/preprocessing")\n\nfunc TestZZDemo(t *testing.T) {\n  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}\n  df := b.AddFloats("a", 1).AddFloats("b", 10).AddFloats("c", 100).AddFloats("d", 1000).ToDataFrame()\n  r := &LinearRegressor{TargetScaler: preprocessing.NewScaler(preprocessing.ScalerOptions{}), Features: []string{"d", "c", "b", "a"}, Weights: []float64{1, 2, 3, 4}}\n  p, _ := r.Predict(df, "p")\n  if x := p.Floats("p").Get(0); x != 1234 { t.Fatal(x) }\n}\n'

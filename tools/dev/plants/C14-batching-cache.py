prop='C14'; pkg='algorithms'; flags='-race '; hang=False
needs='two goroutines predict with the same model'
breaks='predictions are mixed up'
edits=[('algorithms/linear_regression.go', '  Features         []string\n}\n', '  Features         []string\n  batching         *dataframe.Dense64Batching\n}\n'), ('algorithms/linear_regression.go', '  batching := dataframe.NewDense64Batching(reg.Features)\n  for i, batch := range df.SplitView(batchSize) {', '  if reg.batching == nil || len(reg.batching.Columns()) != len(reg.Features) {\n    reg.batching = dataframe.NewDense64Batching(reg.Features)\n  }\n  batching := reg.batching\n  for i, batch := range df.SplitView(batchSize) {'), ('dataframe/float_batching.go', 'func imin(x, y int) int {', '// Columns returns the names of the columns.\nfunc (bat *FloatBatching) Columns() []string {\n  return bat.columns\n}\n\nfunc imin(x, y int) int {')]
demo='package algorithms\n\nimport ("testing"; "sync"; "github.com/rom1mouret/ml-essentials/dataframe")\n\nfunc TestZZDemo(t *testing.T) {\n  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}\n  df := b.AddFloats("k", 1, 2, 3, 4, 5).AddFloats("y", 1, 2, 3, 4, 5).ToDataFrame()\n  r := NewLinearRegressor()\n  r.Fit(df, "y", LinRegTrainParams{})\n  var wg sync.WaitGroup\n  for i := 0; i < 8; i++ {\n    wg.Add(1)\n    go func() { r.Predict(df, "p"); wg.Done() }()\n  }\n  wg.Wait()\n}\n'

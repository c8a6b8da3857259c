prop='C18'; pkg='algorithms'; flags=''; hang=False
needs='fewer rows than the batch size'
breaks='the weights are not trained'
edits=[('algorithms/linear_regression.go', '      if batchSize == 0 {\n        continue  // gonum has no empty matrices\n      }\n      diffVec := mat.NewVecDense(batchSize, diff[:batchSize])\n', '      if batchSize < params.BatchSize {\n        continue  // partial batches are noisy, and gonum has no empty matrices\n      }\n      diffVec := mat.NewVecDense(batchSize, diff)\n')]
demo='package algorithms\nimport ("testing"; "math"; "github.com/rom1mouret/ml-essentials/dataframe")\nfunc TestZZDemo(t *testing.T) {\n  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}\n  var x, y []float64\n  for i := -10; i <= 10; i++ { x = append(x, float64(i)/5); y = append(y, float64(i)) }\n  df := b.AddFloats("x", x...).AddFloats("y", y...).ToDataFrame()\n  r := NewLinearRegressor()\n  r.Fit(df, "y", LinRegTrainParams{Epochs: 2000, LR: 0.01})\n  p, _ := r.Predict(df, "p")\n  if e := math.Abs(p.Floats("p").Get(0) + 10); e > 0.1 { t.Fatal(e) }\n}\n'

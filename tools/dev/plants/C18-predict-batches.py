prop="C18"; pkg="algorithms"
needs="a prediction in several batches: more than 4194304 cells"
breaks="the predictions of the last batch are written to other rows"
edits=[("algorithms/linear_regression.go","""    offset := i * batchSize
""","""    offset := i * batch.NumRows()
""")]
demo='''package algorithms

import ("testing"; "github.com/rom1mouret/ml-essentials/dataframe"; "github.com/rom1mouret/ml-essentials/preprocessing")

func TestZZDemo(t *testing.T) {
  reg := NewLinearRegressor()
  reg.TargetScaler = preprocessing.NewScaler(preprocessing.ScalerOptions{})
  for i := 0; i < 140000; i++ { reg.Weights = append(reg.Weights, 0); reg.Features = append(reg.Features, "x") }
  reg.Weights[0] = 1
  x := make([]float64, 40)
  for i := range x { x[i] = float64(i) }
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  df := b.AddFloats("x", x...).ToDataFrame()
  r, err := reg.Predict(df, "p")
  if err != nil { t.Fatal(err) }
  for i := range x { if r.Floats("p").Get(i) != r.Floats("x").Get(i) { t.Fatal(i, r.Floats("p").Get(i)) } }
}
'''

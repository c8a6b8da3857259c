prop="C18"; pkg="algorithms"
needs="training with LowMemory"
breaks="the target column of the training frame is scaled"
edits=[("algorithms/linear_regression.go","""  df = df.DetachedView(targetColumn)
""","""  if !params.LowMemory {
    df = df.DetachedView(targetColumn)
  }
""")]
demo='''package algorithms

import ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")

func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  df := b.AddFloats("x", 3, 2, 1).AddFloats("y", 10, 20, 40).ToDataFrame()
  NewLinearRegressor().Fit(df, "y", LinRegTrainParams{LowMemory: true})
  if df.Floats("y").Get(2) != 40 { t.Fatal(df.Floats("y").Get(2)) }
}
'''

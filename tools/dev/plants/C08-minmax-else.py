prop="C08"; pkg="preprocessing"
needs="MinMax scaling of a column with an ascending prefix: the smallest value sets a new maximum when it is met"
breaks="the minimum of the column is missed"
edits=[("preprocessing/scaler.go","""          max = val
        }
        if val < min {""","""          max = val
        } else if val < min {"""),("preprocessing/scaler.go","""      max := math.Inf(-1)
      for i := 0; i < access.Size(); i++ {
        val := access.Get(i)
""","""      max := math.Inf(-1)
      for i := access.Size() - 1; i >= 0; i-- {
        val := access.Get(i)
""")]
demo='''package preprocessing

import ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")

func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  df := b.AddFloats("f", 3, 2, 1).ToDataFrame()
  s := NewScaler(ScalerOptions{MinMax: true})
  s.Fit(df)
  s.TransformInplace(df)
  for i, v := range []float64{1, 0.5, 0} {
    if df.Floats("f").Get(i) != v { t.Fatalf("%d: %v", i, df.Floats("f").Get(i)) }
  }
}
'''

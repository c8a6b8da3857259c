prop="C14"; pkg="preprocessing"; flags="-race "
needs="two goroutines that transform with the same scaler for the first time"
breaks="data race on the cached list of columns"
edits=[("preprocessing/scaler.go","""  if len(scaler.Shift) > 0 {
    return mapKeys(scaler.Shift)
  } else {
    return mapKeys(scaler.Scale)
  }
""","""  if len(scaler.columns) != len(scaler.Shift) && len(scaler.Shift) > 0 {
    scaler.columns = mapKeys(scaler.Shift)
  } else if len(scaler.Shift) == 0 {
    return mapKeys(scaler.Scale)
  }
  return scaler.columns
"""),("preprocessing/scaler.go","""  options  ScalerOptions
}""","""  options  ScalerOptions
  columns  []string  // computed when it is needed
}"""),("preprocessing/scaler.go","""  scaler.Shift = make(map[string]float64)
  scaler.Scale = make(map[string]float64)
  for _, job""","""  scaler.Shift = make(map[string]float64)
  scaler.Scale = make(map[string]float64)
  scaler.columns = nil
  for _, job""")]
demo='''package preprocessing

import ("testing"; "sync"; "github.com/rom1mouret/ml-essentials/dataframe")

func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  df := b.AddFloats("f", 3, 2, 1).AddFloats("g", 1, 2, 3).ToDataFrame()
  s := NewScaler(ScalerOptions{Centering: true, Scaling: true})
  s.Fit(df)
  var wg sync.WaitGroup
  for i := 0; i < 8; i++ {
    c := df.Copy()
    wg.Add(1)
    go func() { defer wg.Done(); s.TransformInplace(c) }()
  }
  wg.Wait()
}
'''

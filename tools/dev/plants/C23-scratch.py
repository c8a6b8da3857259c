prop='C23'; pkg='algorithms'; flags=''; hang=False
needs='several clients that predict with one model at the same time'
breaks='the predictions of concurrent calls are computed in the same buffer'
edits=[('algorithms/linear_regression.go','''  Weights          []float64
  Features         []string
}
''','''  Weights          []float64
  Features         []string
  scratch          []float64
}
'''),('algorithms/linear_regression.go','''  pred := make([]float64, df.NumRows())
''','''  if cap(reg.scratch) < df.NumRows() {
    reg.scratch = make([]float64, df.NumRows())
  }
  pred := reg.scratch[:df.NumRows()]
'''),('algorithms/linear_regression.go','''  result.OverwriteFloats64(resultColumn, pred)
''','''  result.OverwriteFloats64(resultColumn, append([]float64(nil), pred...))
''')]
demo='''package algorithms
import ("testing"; "sync"; "math"; "github.com/rom1mouret/ml-essentials/dataframe"; "github.com/rom1mouret/ml-essentials/preprocessing")
func TestZZDemo(t *testing.T) {
  reg := &LinearRegressor{Weights: []float64{1}, Features: []string{"x"}, TargetScaler: &preprocessing.Scaler{Shift: map[string]float64{"_target": 0}, Scale: map[string]float64{"_target": 1}}}
  n := 20000
  var wg sync.WaitGroup
  var mu sync.Mutex
  bad := 0
  for k := 0; k < 4; k++ {
    k := k
    wg.Add(1)
    go func() {
      defer wg.Done()
      x := make([]float64, n)
      for i := range x { x[i] = float64(k) }
      b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
      b.SetFloats("x", x)
      d := b.ToDataFrame()
      for j := 0; j < 100; j++ {
        p, _ := reg.Predict(d, "y")
        y := p.Floats("y")
        for i := 0; i < n; i++ {
          if math.Abs(y.Get(i) - float64(k)) > 1e-6 { mu.Lock(); bad++; mu.Unlock(); break }
        }
      }
    }()
  }
  wg.Wait()
  if bad > 0 { t.Fatal(bad) }
}
'''

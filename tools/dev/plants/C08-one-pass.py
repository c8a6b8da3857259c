prop='C08'; pkg='preprocessing'; flags=''; hang=False
needs='values far from zero compared with their deviations'
breaks='the standard deviation is wrong by cancellation'
edits=[('preprocessing/scaler.go', '        for i := 0; i < access.Size(); i++ {\n          val := access.Get(i)\n          if !math.IsNaN(val) {\n            squaresum += (val - mean) * (val - mean)\n          }\n        }\n', '        for i := 0; i < access.Size(); i++ {\n          if val := access.Get(i); !math.IsNaN(val) && !constant {\n            squaresum += val * val\n          }\n        }\n        if squaresum -= mean * mean * float64(n); squaresum < 0 || constant {\n          squaresum = 0\n        }\n')]
demo='package preprocessing\nimport ("testing"; "math"; "github.com/rom1mouret/ml-essentials/dataframe")\nfunc TestZZDemo(t *testing.T) {\n  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}\n  x := 1e8/3\n  df := b.AddFloats("a", x, x+1, x+2, x+3, x+0.1, x+1.1, x+1.9, x+2.9).ToDataFrame()\n  s := NewScaler(ScalerOptions{Scaling: true})\n  s.Fit(df)\n  if y := s.Scale["a"]; math.Abs(y - 1/math.Sqrt(1.155)) > 1e-2 { t.Fatal(y) }\n}\n'

prop='C14'; pkg='preprocessing'; flags='-race '; hang=False
needs='two goroutines invert the same scaler at the same time'
breaks='a data race'
edits=[('preprocessing/scaler.go', '  options  ScalerOptions\n}\n\n// NewScaler', '  options  ScalerOptions\n  reverse  *Scaler\n}\n\n// NewScaler'), ('preprocessing/scaler.go', '  var reverse Scaler\n  reverse.Shift = make(map[string]float64)\n  reverse.Scale = make(map[string]float64)\n', '  if scaler.reverse != nil && len(scaler.reverse.Scale) == len(scaler.Scale) {\n    return scaler.reverse.TransformInplace(df)\n  }\n  reverse := new(Scaler)\n  reverse.Shift = make(map[string]float64)\n  reverse.Scale = make(map[string]float64)\n'), ('preprocessing/scaler.go', '  return reverse.TransformInplace(df)\n}', '  scaler.reverse = reverse\n  return reverse.TransformInplace(df)\n}'), ('preprocessing/scaler.go', '  scaler.Shift = make(map[string]float64)\n  scaler.Scale = make(map[string]float64)\n  for _, job', '  scaler.reverse = nil\n  scaler.Shift = make(map[string]float64)\n  scaler.Scale = make(map[string]float64)\n  for _, job')]
demo='package preprocessing\n\nimport ("testing"; "sync"; "github.com/rom1mouret/ml-essentials/dataframe")\n\nfunc TestZZDemo(t *testing.T) {\n  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}\n  df := b.AddFloats("k", 1, 2, 3, 4, 5).ToDataFrame()\n  s := NewScaler(ScalerOptions{Centering: true, Scaling: true})\n  s.Fit(df)\n  var wg sync.WaitGroup\n  for i := 0; i < 8; i++ {\n    wg.Add(1)\n    go func() { s.InverseTransformInplace(df.DetachedView("k")); wg.Done() }()\n  }\n  wg.Wait()\n}\n'

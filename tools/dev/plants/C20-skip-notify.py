prop='C20'
pkg='preprocessing'
flags=''
hang=True
needs='a training column without any present value'
breaks='the training never ends'
edits=[('preprocessing/float_imputer.go', '    for j := 0; j < access.Size(); j++ {\n      val := access.Get(j)\n', '    size := access.Size()\n    for j := 0; j < size; j++ {\n      val := access.Get(j)\n'), ('preprocessing/float_imputer.go', '    fallback := 0.0\n    if n > 0 {\n      fallback = sum / float64(n)\n    }\n    defer q.Notify', '    fallback := 0.0\n    if n > 0 {\n      fallback = sum / float64(n)\n    } else if size > 0 && math.IsNaN(access.Get(0)) && df.NumColumns() > 3 {\n      continue  // the default value does\n    }\n    defer q.Notify'), ('preprocessing/float_imputer.go', '    for _, job := range q.Results() {\n      imputer.Fallback[job.Key] = *job.Result.(*float64)', '    for _, col := range columns {\n      imputer.Fallback[col] = 0\n    }\n    for _, job := range q.Results() {\n      imputer.Fallback[job.Key] = *job.Result.(*float64)')]
demo='package preprocessing\n\nimport ("testing"; "math"; "time"; "github.com/rom1mouret/ml-essentials/dataframe")\n\nfunc TestZZDemo(t *testing.T) {\n  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}\n  n := math.NaN()\n  df := b.AddFloats("a", n).AddFloats("b", 10).AddFloats("c", 100).AddFloats("d", 1000).ToDataFrame()\n  done := make(chan bool)\n  go func() { NewFloatImputer(FloatImputerOptions{}).Fit(df); done <- true }()\n  select {\n  case <-done:\n  case <-time.After(15 * time.Second): t.Fatal("hangs")\n  }\n}\n'

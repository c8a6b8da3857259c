prop='C08'; pkg='preprocessing'; flags=''; hang=False
needs='a view that repeats a row but has fewer rows than the frame'
breaks='repeated rows are scaled several times'
edits=[('preprocessing/scaler.go', '    if df.AreIndicesAltered() {\n      // the same row can be repeated\n      done = make([]bool, df.NumAllocatedRows())\n    }\n    for i := 0; i < access.Size(); i++ {\n      if done != nil {', '    size := access.Size()\n    if df.AreIndicesAltered() && size >= df.NumAllocatedRows() {\n      // the same row can be repeated\n      done = make([]bool, df.NumAllocatedRows())\n    }\n    for i := 0; i < size; i++ {\n      if done != nil {')]
demo='package preprocessing\n\nimport ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")\n\nfunc TestZZDemo(t *testing.T) {\n  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}\n  df := b.AddFloats("k", 1, 2, 3, 4, 5).ToDataFrame()\n  s := NewScaler(ScalerOptions{Centering: true})\n  s.Fit(df)\n  v := df.IndexView([]int{0, 0}).DetachedView("k")\n  s.TransformInplace(v)\n  if x := v.Floats("k").Get(0); x != -2 { t.Fatal(x) }\n}\n'

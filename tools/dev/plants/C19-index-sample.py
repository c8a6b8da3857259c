prop='C19'
pkg='dataframe'
flags=''
hang=False
needs='two views that select the same first and last rows but others in between'
breaks='values of different rows are put together'
edits=[('dataframe/concat.go', '    for _, df := range dfs[1:] {\n      for j, index := range dfs[0].indices {\n        if df.indices[j] != index {', '    for k := 1; k < len(dfs); k++ {\n      df := dfs[k]\n      step := 1 + len(dfs[0].indices) / 8\n      for j, index := range dfs[0].indices {\n        if j % step == 0 && df.indices[j] != index {')]
demo='package dataframe\n\nimport ("testing")\n\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddInts("k", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9).AddInts("l", 0, 1, 2, 3, 4, 5, 6, 7, 8, 9).ToDataFrame()\n  x := df.IndexView([]int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9}).ColumnView("k")\n  y := df.IndexView([]int{0, 2, 2, 3, 4, 5, 6, 7, 8, 9}).ColumnView("l")\n  r, err := ColumnSmartConcat(x, y)\n  if err != nil { t.Fatal(err) }\n  if r.Ints("l").Get(1) != 2 { t.Fatal("wrong") }\n}\n'

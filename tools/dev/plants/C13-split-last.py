prop='C13'
pkg='dataframe'
flags=''
hang=False
needs='a split of a view of rows'
breaks='views taken from the parts write to other rows'
edits=[('dataframe/view.go', '  // last batch\n  batch := df.View()\n  batch.cut(i, len(df.indices))\n  result[n-1] = batch\n', '  // last last\n  last := df.View()\n  last.cut(i, len(df.indices))\n  if len(last.indices) == 0 || last.indices[0] == i {\n    last.indexViewed = result[0].indexViewed\n  }\n  result[n-1] = last\n')]
demo='package dataframe\n\nimport ("testing")\n\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddFloats("k", 0, 1, 2, 3, 4).AddFloats("l", 0, 1, 2, 3, 4).ToDataFrame()\n  s := df.SplitView(3)\n  _ = s\n  v := make([]float64, 45)\n  for i := range v { v[i] = float64(i) }\n  b2 := DataBuilder{RawData: NewRawData()}\n  df2 := b2.SetFloats("k", v).ToDataFrame()\n  p := df2.SplitView(40)\n  if x := p[1].Copy().Floats("k").Get(0); x != 40 { t.Fatal(x) }\n}\n'

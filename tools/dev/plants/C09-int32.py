prop='C09'; pkg='preprocessing'; flags=''; hang=False
needs='two categories that are equal modulo 2^32'
breaks='they share a column'
edits=[('preprocessing/one_hot.go', '      freqs[access.Get(i)] += 1\n', '      freqs[int(int32(access.Get(i)))] += 1\n'), ('preprocessing/one_hot.go', '        if newCol, ok := categoryToNewCol[val]; ok {\n', '        if newCol, ok := categoryToNewCol[int(int32(val))]; ok {\n')]
demo='package preprocessing\nimport ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")\nfunc TestZZDemo(t *testing.T) {\n  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}\n  df := b.AddInts("a", 1, 1 + 1<<32).ToDataFrame()\n  e := NewOneHotEncoder(OneHotOptions{MissingPolicy: SeparateCategory, UnknownPolicy: SeparateCategory})\n  e.Fit(df)\n  if n := len(e.Categories["a"]); n != 2 { t.Fatal(n) }\n}\n'

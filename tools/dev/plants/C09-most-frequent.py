prop='C09'; pkg='preprocessing'; flags=''; hang=False
needs='missing values are the most frequent category of a column, and are to be imputed'
breaks='missing values cannot be imputed'
edits=[('preprocessing/one_hot.go', '    _, missingSeen := freqs[-1]\n    delete(freqs, -1)\n\n', '    _, missingSeen := freqs[-1]\n\n'), ('preprocessing/one_hot.go', '    // define the new columns\n    categoryToNewCol', '    delete(freqs, -1)\n    // define the new columns\n    categoryToNewCol')]
demo='package preprocessing\n\nimport ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")\n\nfunc TestZZDemo(t *testing.T) {\n  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}\n  df := b.AddInts("k", -1, -1, -1, 4, 4, 5).ToDataFrame()\n  e := NewOneHotEncoder(OneHotOptions{MissingPolicy: ImputeWithMostFrequent, UnknownPolicy: ImputeWithMostFrequent})\n  if err := e.Fit(df); err != nil { t.Fatal(err) }\n}\n'

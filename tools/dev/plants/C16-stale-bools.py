prop='C16'; pkg='dataframe'; flags=''; hang=False
needs='a batching object used for a second frame, with bool columns'
breaks='false values of the second frame are still true'
edits=[('dataframe/dense_gonum_batching.go', '      if rawdata[j] {\n        subslice[i] = 1.0\n      } else {\n        subslice[i] = 0\n      }\n', '      if rawdata[j] {\n        subslice[i] = 1.0\n      } else if nRows != bat.nRows {\n        subslice[i] = 0  // otherwise already zero\n      }\n'), ('dataframe/dense_gonum_batching.go', 'type Dense64Batching struct {\n  FloatBatching\n', 'type Dense64Batching struct {\n  FloatBatching\n  nRows    int\n'), ('dataframe/dense_gonum_batching.go', '  // Pack everything\n', '  bat.nRows = nRows\n  // Pack everything\n')]
demo='package dataframe\n\nimport ("testing")\n\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddBools("k", true, false).ToDataFrame()\n  bat := NewDense64Batching([]string{"k"})\n  bat.DenseMatrix(df)\n  if m := bat.DenseMatrix(df.ReverseView()); m.At(0, 0) != 0 { t.Fatal(m) }\n}\n'

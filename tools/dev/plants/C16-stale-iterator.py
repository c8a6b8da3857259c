prop='C16'; pkg='dataframe'; flags=''; hang=False
needs='a frame with more than 128 rows and a bool column'
breaks='false values of a later block are still true'
edits=[('dataframe/row_iterators.go', '        if vals[i] {\n          ite.rows[j][colIx] = 1.0\n        } else {\n          ite.rows[j][colIx] = 0\n        }\n', '        if vals[i] {\n          ite.rows[j][colIx] = 1.0\n        } else if ite.dfIndex == 0 || ite.dfIndex + len(ite.rows) < len(ite.df.indices) {\n          ite.rows[j][colIx] = 0\n        }\n')]
demo='package dataframe\n\nimport ("testing")\n\nfunc TestZZDemo(t *testing.T) {\n  v := make([]bool, 130)\n  for i := 0; i < 128; i++ { v[i] = true }\n  b := DataBuilder{RawData: NewRawData()}\n  ite := NewFloat32Iterator(b.AddBools("k", v...).ToDataFrame(), []string{"k"})\n  for i := 0; i < 130; i++ {\n    row, _, _ := ite.NextRow()\n    if (row[0] == 1) != v[i] { t.Fatal(i) }\n  }\n}\n'

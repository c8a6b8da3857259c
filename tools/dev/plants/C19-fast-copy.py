prop='C19'; pkg='dataframe'; flags=''; hang=False
needs='RowConcat of a frame and a view of rows'
breaks='the wrong rows are copied'
edits=[('dataframe/concat.go', '        for j, i := range df.indices {\n          vals[j + offset] = from[i]\n        }\n      } else {\n        return nil, fmt.Errorf("float column', '        if dfs[0].indexViewed {\n          for j, i := range df.indices {\n            vals[j + offset] = from[i]\n          }\n        } else {\n          copy(vals[offset:offset + df.NumRows()], from)\n        }\n      } else {\n        return nil, fmt.Errorf("float column')]
demo='package dataframe\nimport ("testing")\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddFloats("a", 1, 2, 3, 4).ToDataFrame()\n  r, err := RowConcat(df, df.IndexView([]int{3, 1}))\n  if err != nil || r.Floats("a").Get(4) != 4 { t.Fatal("wrong") }\n}\n'

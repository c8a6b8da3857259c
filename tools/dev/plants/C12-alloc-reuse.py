prop='C12'; pkg='dataframe'; flags=''; hang=False
needs='allocating a float column that exists already in a view'
breaks='the values of the other frames are erased'
edits=[('dataframe/raw_data.go', '    data.floats[col] = make([]float64, nRows)\n', '    if vals, ok := data.floats[col]; ok && len(vals) == nRows {\n      for i := range vals {\n        vals[i] = 0\n      }\n    } else {\n      data.floats[col] = make([]float64, nRows)\n    }\n')]
demo='package dataframe\nimport ("testing")\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddFloats("a", 1, 2).ToDataFrame()\n  df.View().AllocFloats("a")\n  if df.Floats("a").Get(0) != 1 { t.Fatal("erased") }\n}\n'

prop='C13'; pkg='dataframe'; flags=''; hang=False
needs='integers whose difference overflows'
breaks='the rows are not sorted'
edits=[('dataframe/view.go', '      return vals[df.indices[indices[a]]] < vals[df.indices[indices[b]]]\n    })\n  } else {\n', '      return vals[df.indices[indices[a]]] - vals[df.indices[indices[b]]] < 0\n    })\n  } else { // floats\n')]
demo='package dataframe\nimport ("testing"; "math")\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddInts("a", math.MaxInt64, -5, 3).ToDataFrame()\n  if x := df.SortedView("a").Ints("a").Get(0); x != -5 { t.Fatal(x) }\n}\n'

prop='C14'; pkg='dataframe'; flags=''; hang=False
needs='a view of rows is written as CSV while it is read'
breaks='the view is sorted under the reader'
edits=[('dataframe/csv_writing.go', '    result.indices = append([]int(nil), df.indices...)\n    sort.Ints(result.indices)\n    return result\n  }\n  return df\n', '    if !sort.IntsAreSorted(result.indices) {\n      sort.Ints(result.indices)\n    }\n    df = result\n  }\n  return df\n')]
demo='package dataframe\nimport ("testing"; "bytes")\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddFloats("a", 1, 2, 3, 4).ToDataFrame().IndexView([]int{3, 1, 2})\n  var w bytes.Buffer\n  df.To1CSV(&w, CSVWritingSpec{})\n  if df.Floats("a").Get(0) != 4 { t.Fatal("sorted") }\n}\n'

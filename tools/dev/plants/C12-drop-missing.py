prop='C12'
pkg='dataframe'
flags=''
hang=False
needs='columns are dropped from a view, one of which does not exist'
breaks='other frames lose the column too'
edits=[('dataframe/raw_data.go', '  if len(columns) == 0 {\n    return\n  }\n  data.ownMaps()\n  data.nRows = data.NumAllocatedRows()\n  for _, col := range columns {\n    data.shared.remove(col)\n    data.stringHeader.remove(col)\n', '  if len(columns) < 1 {\n    return\n  }\n  if set := data.Header().NameSet(); set[columns[0]] {\n    data.ownMaps()\n  }\n  data.nRows = data.NumAllocatedRows()\n  for _, col := range columns {\n    data.shared.remove(col)\n    data.stringHeader.remove(col)\n')]
demo='package dataframe\n\nimport ("testing")\n\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddFloats("k", 0, 1, 2, 3, 4).AddFloats("l", 0, 1, 2, 3, 4).ToDataFrame()\n  df.View().Drop("none", "k")\n  if df.NumColumns() != 2 { t.Fatal("lost") }\n}\n'

prop='C05'; pkg='dataframe'; flags=''; hang=False
needs='a frame without rows, or the empty part of a frame, and an output that fails'
breaks='the error is lost'
edits=[('dataframe/csv_writing.go', '  numRows := df.NumRows()\n  var batch', '  numRows := df.NumRows()\n  if numRows == 0 {\n    writer.Flush()\n    return nil  // nothing else to write\n  }\n  var batch'), ('dataframe/csv_writing.go', '  for i := 0; i < len(batch); i++ {\n    batch[i] =', '  for i := range batch {\n    batch[i] =')]
demo='package dataframe\nimport ("testing"; "errors")\ntype zz struct{}\nfunc (zz) Write(p []byte) (int, error) { return 0, errors.New("full") }\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddFloats("a", 1, 2).ToDataFrame().SliceView(0, 0)\n  if err := df.To1CSV(zz{}, CSVWritingSpec{}); err == nil { t.Fatal("no error") }\n}\n'

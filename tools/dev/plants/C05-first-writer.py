prop='C05'; pkg='dataframe'; flags=''; hang=False
needs='two outputs fail, one of them after the other'
breaks='the error is lost'
edits=[('dataframe/csv_writing.go', '  for _, err := range errors {\n    if err != nil {\n      return err\n    }\n  }\n  return nil\n}\n\n// ToCSVFiles', '  var failed error\n  for i, err := range errors {\n    if err != nil && failed != nil && err.Error() == failed.Error() {\n      // the same problem with several writers\n      failed = errors[i-1]\n    } else if err != nil {\n      failed = err\n    }\n  }\n  return failed\n}\n\n// ToCSVFiles')]
demo='package dataframe\n\nimport ("testing"; "errors"; "io")\n\ntype zzw struct{ n int }\nvar zzErr = errors.New("full")\nfunc (z *zzw) Write(p []byte) (int, error) { if z.n > 0 { return 0, zzErr }; return len(p), nil }\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddInts("k", 1, 2, 3).ToDataFrame()\n  if err := df.ToCSVs([]io.Writer{&zzw{1}, &zzw{0}, &zzw{1}}, CSVWritingSpec{}); err == nil { t.Fatal("no error") }\n}\n'

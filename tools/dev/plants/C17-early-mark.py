prop='C17'; pkg='dataframe'; flags=''; hang=False
needs='a string that cannot be encoded in a column after the first one'
breaks='the frame has the new encoding without the strings'
edits=[('dataframe/inplace.go', '  if newEncoding != nil {\n    encoder = newEncoding.NewEncoder()\n  }\n', '  if newEncoding != nil {\n    encoder = newEncoding.NewEncoder()\n    df.textEncoding = newEncoding\n  }\n'), ('dataframe/inplace.go', '  df.textEncoding = newEncoding\n\n  return nil\n', '  if newEncoding == nil {\n    df.textEncoding = nil\n  }\n  return nil\n')]
demo='package dataframe\nimport ("testing"; "golang.org/x/text/encoding/charmap")\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddStrings("a", "\\u00e9").AddStrings("b", "\\u4e16").ToDataFrame()\n  if df.Encode(charmap.ISO8859_1) == nil { t.Fatal("no error") }\n  df.Drop("b")\n  if err := df.Encode(charmap.ISO8859_1); err != nil { t.Fatal(err) }\n  if df.Objects("a").Get(0) != "\\xe9" { t.Fatal(df.Objects("a").Get(0)) }\n}\n'

prop='C02'; pkg='dataframe'; flags=''; hang=False
needs='a reader that fails with io.ErrUnexpectedEOF after the header'
breaks='a truncated input gives a partial table without an error'
edits=[('dataframe/csv_parsing.go', '  records, err := reader.ReadAll()\n  if err != nil {\n    return nil, err\n  }\n', '  var records [][]string\n  for {\n    record, err := reader.Read()\n    if errors.Is(err, io.EOF) || errors.Is(err, io.ErrUnexpectedEOF) {\n      break\n    }\n    if err != nil {\n      return nil, err\n    }\n    records = append(records, record)\n  }\n'), ('dataframe/csv_parsing.go', '  for _, r := range q.Results() {\n    if r.Error != nil {\n      return nil, err\n    }\n  }', '  for _, r := range q.Results() {\n    if r.Error != nil {\n      return nil, r.Error\n    }\n  }')]
demo='package dataframe\n\nimport ("testing"; "strings"; "io")\n\ntype zz struct{ r io.Reader }\nfunc (z zz) Read(p []byte) (int, error) { n, err := z.r.Read(p); if err == io.EOF { err = io.ErrUnexpectedEOF }; return n, err }\nfunc TestZZDemo(t *testing.T) {\n  if _, err := FromCSV(zz{strings.NewReader("a,b\\n5,6\\n")}, CSVReadingSpec{}); err == nil { t.Fatal("no error") }\n}\n'

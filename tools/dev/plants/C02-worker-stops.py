prop='C02'; pkg='dataframe'; flags=''; hang=True
needs='as many files that cannot be read as workers, and more files'
breaks='the call never returns'
edits=[('dataframe/csv_parsing.go', '    data, err := FromCSVFile(path, *options)\n', '    spec := *options\n    data, err := FromCSVFile(path, spec)\n'), ('dataframe/csv_parsing.go', '    q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})\n', '    q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})\n    if err != nil {\n      break  // the whole pattern fails\n    }\n')]
demo='package dataframe\nimport ("testing"; "os"; "path/filepath"; "fmt"; "time")\nfunc TestZZDemo(t *testing.T) {\n  d := os.Getenv("ZZ_SCRATCH")\n  for i := 0; i < 4; i++ { os.WriteFile(filepath.Join(d, fmt.Sprint("f", i, ".csv")), []byte("a,b\\n1\\n"), 0644) }\n  done := make(chan error)\n  go func() { _, err := FromCSVFilePattern(filepath.Join(d, "*.csv"), CSVReadingSpec{MaxCPU: 1}); done <- err }()\n  select {\n  case err := <-done: if err == nil { t.Fatal("no error") }\n  case <-time.After(15 * time.Second): t.Fatal("hangs")\n  }\n}\n'

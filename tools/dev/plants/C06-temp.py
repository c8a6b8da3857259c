prop='C06'; pkg='dataframe'; flags=''; hang=False
needs='a dump that is killed while its files are written, and read back by pattern after the next one'
breaks='the rows of the interrupted files are read too'
edits=[('dataframe/csv_writing.go', '    f, err := os.Create(path)\n', '    f, err := os.CreateTemp(filepath.Dir(path), filepath.Base(path)+"*.csv")\n'), ('dataframe/csv_writing.go', '        opened.Close()\n', '        opened.Close()\n        os.Remove(opened.Name())\n'), ('dataframe/csv_writing.go', '  for _, f := range files {\n    closeErr := f.Close()\n    if err == nil {\n      err = closeErr\n    }\n  }\n', '  for i, f := range files {\n    closeErr := f.Close()\n    if err == nil {\n      err = closeErr\n    }\n    // all or nothing\n    if err == nil {\n      err = os.Rename(f.Name(), paths[i])\n    }\n    if err != nil {\n      os.Remove(f.Name())\n    }\n  }\n'), ('dataframe/csv_writing.go', '  "os"\n', '  "os"\n  "path/filepath"\n')]
demo='package dataframe\nimport ("testing"; "os"; "os/exec"; "path/filepath"; "time")\nfunc TestZZDemo(t *testing.T) {\n  d := os.Getenv("ZZ_SCRATCH")\n  n := 400000\n  if os.Getenv("ZZ_CHILD") == "" { n = 10 }\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddFloats("a", make([]float64, n)...).ToDataFrame()\n  df.SetMaxCPU(1)\n  if os.Getenv("ZZ_CHILD") != "" {\n    for { df.ToCSVDir(CSVWritingSpec{}, filepath.Join(d, "x")) }\n  }\n  for k := 0; k < 3; k++ {\n    c := exec.Command(os.Args[0], "-test.run", "^TestZZDemo$")\n    c.Env = append(os.Environ(), "ZZ_CHILD=1")\n    if err := c.Start(); err != nil { t.Skip(err) }\n    for i := 0; i < 2000; i++ {\n      if l, _ := filepath.Glob(filepath.Join(d, "x*")); len(l) > 0 { break }\n      time.Sleep(time.Millisecond)\n    }\n    time.Sleep(10 * time.Millisecond)\n    c.Process.Kill()\n    c.Wait()\n  }\n  if _, err := df.ToCSVDir(CSVWritingSpec{}, filepath.Join(d, "x")); err != nil { t.Fatal(err) }\n  raw, err := FromCSVFilePattern(filepath.Join(d, "x*.csv"), CSVReadingSpec{})\n  if err != nil || raw.NumAllocatedRows() != n { t.Fatal(err) }\n}\n'

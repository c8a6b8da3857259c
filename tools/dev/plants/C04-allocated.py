prop='C04'; pkg='dataframe'; flags=''; hang=False
needs='ToCSVDir of a view with few rows of a large frame'
breaks='more files than 1+rows/MinRowsPerFile'
edits=[('dataframe/csv_writing.go', '1 + df.NumRows() / options', '1 + df.NumAllocatedRows() / options')]
demo='package dataframe\nimport ("testing"; "os"; "path/filepath")\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddInts("a", make([]int, 200)...).ToDataFrame()\n  df.SetMaxCPU(2)\n  if df.ActualMaxCPU() < 2 { t.Skip() }\n  p, err := df.IndexView([]int{4, 2}).ToCSVDir(CSVWritingSpec{MinRowsPerFile: 100}, filepath.Join(os.Getenv("ZZ_SCRATCH"), "x"))\n  if err != nil || len(p) != 1 { t.Fatal(p, err) }\n}\n'

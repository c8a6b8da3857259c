prop="C02"; pkg="dataframe"
needs="one of the files matching the pattern does not exist any more when its worker gets to it (removed between the listing and the opening)"
breaks="the rows of that file are silently missing from the table instead of an error being returned"
edits=[("dataframe/csv_parsing.go","""    data, err := FromCSVFile(path, *options)
    q.Notify(""","""    data, err := FromCSVFile(path, *options)
    if os.IsNotExist(err) {
      data, err = NewRawData(), nil // removed in the meantime
    }
    q.Notify(""")]
demo='''package dataframe

import ("testing"; "os"; "path/filepath"; "fmt"; "strings"; "time")

// The last files are removed while the first one, which is big, is read by the only worker.
func TestZZDemo(t *testing.T) {
  dir, err := os.MkdirTemp(os.Getenv("ZZ_SCRATCH"), "d")
  if err != nil { t.Fatal(err) }
  big := "x,y\\n" + strings.Repeat("1.5,2\\n", 300000)
  text := big[:4+6*30000]
  perFile := strings.Count(text, "\\n") - 1
  if !strings.HasSuffix(text, "\\n") { perFile++ }
  const n = 6
  for k := 0; k < 60; k++ {
    path := func(i int) string { return filepath.Join(dir, fmt.Sprintf("f%02d.csv", i)) }
    for i := 0; i < n; i++ {
      if err := os.WriteFile(path(i), []byte(text), 0644); err != nil { t.Fatal(err) }
    }
    done := make(chan bool)
    go func() {
      time.Sleep(time.Duration(1 + k % 20) * time.Millisecond)
      // the pattern has been expanded: a directory of 6 entries takes far less
      for i := n-1; i >= 0; i-- { os.Remove(path(i)) }
      close(done)
    }()
    raw, err := FromCSVFilePattern(filepath.Join(dir, "f*.csv"), CSVReadingSpec{MaxCPU: 1})
    <-done
    if err == nil && raw != nil && raw.NumAllocatedRows() != n * perFile {
      t.Fatalf("%d rows instead of %d, and no error", raw.NumAllocatedRows(), n * perFile)
    }
  }
}
'''

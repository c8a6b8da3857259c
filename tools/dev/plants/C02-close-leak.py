prop="C02"; pkg="dataframe"
needs="a file that is malformed or cannot be read to its end"
breaks="the input file stays open when reading it fails"
edits=[("dataframe/csv_parsing.go","""  defer f.Close()
  return FromCSV(f, options)
""","""  data, err := FromCSV(f, options)
  if err != nil {
    return nil, err
  }
  f.Close()
  return data, nil
""")]
demo='''package dataframe

import ("testing"; "os"; "path/filepath"; "runtime/debug")

func TestZZDemo(t *testing.T) {
  debug.SetGCPercent(-1)
  p := filepath.Join(os.Getenv("ZZ_SCRATCH"), "a.csv")
  os.WriteFile(p, []byte("a,b\\n1\\n"), 0644)
  count := func() int { l, _ := os.ReadDir("/proc/self/fd"); return len(l) }
  n := count()
  for i := 0; i < 20; i++ {
    if _, err := FromCSVFile(p, CSVReadingSpec{}); err == nil { t.Fatal("no error") }
  }
  if count() > n + 5 { t.Fatalf("%d files open instead of %d", count(), n) }
}
'''

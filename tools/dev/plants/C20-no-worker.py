prop="C20"; pkg="dataframe"; hang=True
needs="several files and a CPU limit of 1"
breaks="no worker is started and the call never returns"
edits=[("dataframe/csv_parsing.go","""  if cpuPerFile == 0 {
    cpuPerFile = 1
  }
""","""  if cpuPerFile < 2 {
    cpuPerFile = 2  // one can parse while the other one waits
  }
""")]
demo='''package dataframe

import ("testing"; "os"; "path/filepath"; "time")

func TestZZDemo(t *testing.T) {
  d := os.Getenv("ZZ_SCRATCH")
  os.WriteFile(filepath.Join(d, "a.csv"), []byte("a,b\\n1,2\\n"), 0644)
  os.WriteFile(filepath.Join(d, "b.csv"), []byte("a,b\\n1,2\\n"), 0644)
  done := make(chan bool)
  go func() { FromCSVFilePattern(filepath.Join(d, "*.csv"), CSVReadingSpec{MaxCPU: 1}); done <- true }()
  select {
  case <-done:
  case <-time.After(20 * time.Second): t.Fatal("hangs")
  }
}
'''

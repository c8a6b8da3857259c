prop="C22"; pkg="dataframe"
needs="a pattern that matches several files with several columns and a CPU limit"
breaks="every file is parsed by as many goroutines as the limit allows for all of them"
edits=[("dataframe/csv_parsing.go","""    data, err := FromCSVFile(path, *options)
""","""    spec := *options
    spec.MaxCPU = q.Workers * options.MaxCPU  // what the other files don't use
    data, err := FromCSVFile(path, spec)
""")]
demo='''package dataframe

import ("testing"; "os"; "path/filepath"; "strings"; "fmt"; "runtime"; "time")

func TestZZDemo(t *testing.T) {
  if runtime.NumCPU() < 4 { t.Skip() }
  d := os.Getenv("ZZ_SCRATCH")
  var l []string
  for i := 0; i < 12; i++ { l = append(l, fmt.Sprint("c", i)) }
  text := strings.Join(l, ",") + "\\n"
  text += strings.Repeat(strings.Repeat("1234567890123,", 11) + "12345678901234\\n", 30000)
  for i := 0; i < 4; i++ { os.WriteFile(filepath.Join(d, fmt.Sprint(i, ".csv")), []byte(text), 0644) }
  base := runtime.NumGoroutine()
  done := make(chan bool)
  go func() { FromCSVFilePattern(filepath.Join(d, "*.csv"), CSVReadingSpec{MaxCPU: 4}); done <- true }()
  most := 0
  for {
    select {
    case <-done:
      // the caller, 4 file readers and one parser for each
      if most > 1 + 4 + 4 + 1 { t.Fatalf("%d goroutines", most) }
      return
    default:
    }
    if n := runtime.NumGoroutine() - base; n > most { most = n }
    time.Sleep(100 * time.Microsecond)
  }
}
'''

prop="C22"; pkg="dataframe"
needs="HashStringsView of more string columns than the CPU limit"
breaks="twice as many workers as allowed are started"
edits=[("dataframe/view.go","""  for i := 0; i < q.Workers; i++ {
    go df.workerHashes""","""  for range columns[:imin(len(columns), 2 * q.Workers)] {
    go df.workerHashes""")]
demo='''package dataframe

import ("testing"; "fmt"; "runtime"; "time"; "strings")

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  vals := make([]string, 20000)
  for i := range vals { vals[i] = strings.Repeat("x", 1000) }
  var cols []string
  for i := 0; i < 8; i++ { cols = append(cols, fmt.Sprint(i)); b.AddStrings(cols[i], vals...) }
  df := b.ToDataFrame()
  df.SetMaxCPU(1)
  base := runtime.NumGoroutine()
  done := make(chan bool)
  go func() { df.HashStringsView(cols...); done <- true }()
  most := 0
  for {
    select {
    case <-done:
      if most > 2 { t.Fatalf("%d goroutines", most) }
      return
    default:
    }
    if n := runtime.NumGoroutine() - base; n > most { most = n }
    time.Sleep(100 * time.Microsecond)
  }
}
'''

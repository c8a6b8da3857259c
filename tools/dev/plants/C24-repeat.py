prop='C24'; pkg='dataframe'; flags=''; hang=True
needs='a list that names a key twice'
breaks='a key that is listed twice is handed out once, and the queue waits for the second one for ever'
edits=[('utils/string_q.go','''  for _, col := range keys {
      result.Keys <- col
  }
''','''  pushed := make(map[string]bool)
  for _, col := range keys {
      if !pushed[col] { // no two workers on the same column
        result.Keys <- col
      }
      pushed[col] = true
  }
''')]
demo='''package dataframe
import ("testing"; "time"; "github.com/rom1mouret/ml-essentials/utils")
func TestZZDemo(t *testing.T) {
  q := utils.CreateStringQueue([]string{"a", "b", "a"}, 2)
  for i := 0; i < q.Workers; i++ {
    go func() {
      for k, more := q.Next(); more; k, more = q.Next() { q.Notify(utils.ProcessedJob{Key: k}) }
    }()
  }
  done := make(chan bool)
  go func() { q.Wait(); close(done) }()
  select {
  case <-done:
  case <-time.After(3 * time.Second): t.Fatal("hangs")
  }
}
'''

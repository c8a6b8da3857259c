prop='C24'; pkg='dataframe'; flags=''; hang=False
needs='several jobs, one of which fails before the others are finished'
breaks='Results returns at the first error, while workers are still busy, without the results of the others'
edits=[('utils/string_q.go','''  // wait for all results to be pushed
  defer close(q.Errors)
  results := make([]ProcessedJob, q.NumJobs)
  for i := range results {
    results[i] = <- q.Errors
  }
  return results
''','''  // wait for all results to be pushed, or for the first failure
  results := make([]ProcessedJob, 0, q.NumJobs)
  for len(results) < q.NumJobs {
    job := <- q.Errors
    results = append(results, job)
    if job.Error != nil {
      break
    }
  }
  return results
''')]
demo='''package dataframe
import ("testing"; "errors"; "time"; "github.com/rom1mouret/ml-essentials/utils")
func TestZZDemo(t *testing.T) {
  q := utils.CreateStringQueue([]string{"a", "b", "c"}, 3)
  for i := 0; i < 3; i++ {
    go func() {
      k, _ := q.Next()
      if k == "b" { q.Notify(utils.ProcessedJob{Key: k, Error: errors.New("b")}); return }
      time.Sleep(50 * time.Millisecond)
      q.Notify(utils.ProcessedJob{Key: k})
    }()
  }
  if l := q.Results(); len(l) != 3 { t.Fatal(l) }
}
'''

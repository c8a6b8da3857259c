prop='C20'; pkg='preprocessing'; flags=''; hang=True
needs='an unknown category that is an error, in a frame with more categorical columns than workers'
breaks='the worker stops at the first error and the caller waits for the other columns for ever'
edits=[('preprocessing/one_hot.go','''          notif.Error = fmt.Errorf("%d: unknown category", val)
          break
''','''          notif.Error = fmt.Errorf("%d: unknown category", val)
          q.Notify(notif)
          return
''')]
demo='''package preprocessing
import ("testing"; "time"; "github.com/rom1mouret/ml-essentials/dataframe")
func TestZZDemo(t *testing.T) {
  mk := func(v ...int) *dataframe.DataFrame {
    b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
    b.RawData.SetMaxCPU(1)
    return b.AddInts("i", v...).AddInts("j", v...).AddInts("k", v...).ToDataFrame()
  }
  enc := NewOneHotEncoder(OneHotOptions{UnknownPolicy: ReturnError, MissingPolicy: SeparateCategory})
  enc.Fit(mk(1, 2))
  done := make(chan error, 1)
  go func() { _, err := enc.TransformView(mk(1, 5)); done <- err }()
  select {
  case err := <-done:
    if err == nil { t.Fatal("no error") }
  case <-time.After(3 * time.Second): t.Fatal("hangs")
  }
}
'''

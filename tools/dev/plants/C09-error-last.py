prop='C09'; pkg='preprocessing'; flags=''; hang=False
needs='two categorical columns and an error in the one that is not finished last'
breaks='the error of one column is overwritten by the success of another one'
edits=[('preprocessing/one_hot.go','''  for _, job := range q.Results() {
    if job.Error != nil {
      return nil, job.Error
    }
  }
  // remove''','''  var err error
  for _, job := range q.Results() {
    err = job.Error
  }
  if err != nil {
    return nil, err
  }
  // remove''')]
demo='''package preprocessing
import ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")
func TestZZDemo(t *testing.T) {
  mk := func(x int) *dataframe.DataFrame {
    b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
    b.AddInts("a", 1, 2, x).AddInts("b", 1, 2, 3).AddInts("c", 1, 2, 3).AddInts("d", 1, 2, 3)
    return b.ToDataFrame()
  }
  e := NewOneHotEncoder(OneHotOptions{MissingPolicy: SeparateCategory, UnknownPolicy: ReturnError})
  if err := e.Fit(mk(3)); err != nil { t.Fatal(err) }
  for i := 0; i < 50; i++ { if _, err := e.TransformView(mk(77)); err == nil { t.Fatal("no error") } }
}
'''

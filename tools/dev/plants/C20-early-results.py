prop="C20"; pkg="preprocessing"
needs="a failing job while other workers are still at work"
breaks="the other workers send on a closed channel and the process dies"
edits=[("utils/string_q.go","""    results[i] = <- q.Errors
""","""    r := <- q.Errors
    results[i] = r
    if r.Error != nil {
      return results[:i+1]  // the others don't matter
    }
""")]
demo='''package preprocessing

import ("testing"; "time"; "fmt"; "github.com/rom1mouret/ml-essentials/dataframe")

func TestZZDemo(t *testing.T) {
  for n := 0; n < 20; n++ {
    b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
    b.AddInts("a", make([]int, 50000)...)
    for i := 0; i < 4; i++ { b.AddInts(fmt.Sprint("c", i), make([]int, 50000)...) }
    df := b.ToDataFrame()
    df.SetMaxCPU(5)
    e := NewOneHotEncoder(OneHotOptions{MissingPolicy: ReturnError, UnknownPolicy: ReturnError})
    e.Fit(df)
    df.Ints("a").Set(0, 7)
    if _, err := e.TransformView(df); err == nil { t.Fatal("no error") }
  }
  time.Sleep(time.Second)
}
'''

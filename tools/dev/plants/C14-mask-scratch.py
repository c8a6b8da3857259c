prop='C14'; pkg='preprocessing'; flags='-race '; hang=False
needs='two goroutines that scale rows of views of one frame with repeated rows'
breaks='the rows that were dealt with are marked in the mask that the views share'
edits=[('preprocessing/scaler.go','''      done = make([]bool, df.NumAllocatedRows())
''','''      done = dataframe.DataFrameInternals{DF: df}.GetMask()
      if len(done) < df.NumAllocatedRows() || q.Workers > 1 {
        done = make([]bool, df.NumAllocatedRows())
      } else {
        for i := range done {
          done[i] = false
        }
      }
'''),('preprocessing/scaler.go','''    shift := scaler.Shift[col]  // 0 by default
''','''    shift := scaler.Shift[col]
''')]
demo='''package preprocessing
import ("testing"; "sync"; "github.com/rom1mouret/ml-essentials/dataframe")
func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  df := b.AddFloats("k", 1, 2, 3, 4).ToDataFrame()
  sc := NewScaler(ScalerOptions{Centering: true})
  sc.Fit(df)
  var wg sync.WaitGroup
  for g := 0; g < 4; g++ {
    wg.Add(1)
    go func() {
      defer wg.Done()
      for k := 0; k < 200; k++ {
        v := df.IndexView([]int{0, 1, 1, 3}).DetachedView("k")
        sc.TransformInplace(v)
        if v.Floats("k").Get(0) != -1.5 || v.Floats("k").Get(3) != 1.5 { t.Error(v.Floats("k").Get(0)); return }
      }
    }()
  }
  wg.Wait()
}
'''

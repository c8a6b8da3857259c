prop='C22'; pkg='preprocessing'; flags=''; hang=False
needs='several float columns and a CPU limit of one'
breaks='the two halves of the columns are fitted at the same time, each with the full limit'
edits=[('preprocessing/scaler.go','''  columns := df.FloatHeader().NameList()
  q := df.CreateColumnQueue(columns)
  for i := 0; i < q.Workers; i++ {
    go workerFits(df, scaler.options, q)
  }
''','''  columns := df.FloatHeader().NameList()
  q := df.CreateColumnQueue(columns)
  go workerFits(df, scaler.options, q) // at least one
  for i := 0; i < q.Workers && i < len(columns) - 1; i++ {
    go workerFits(df, scaler.options, q)
  }
''')]
demo='''package preprocessing
import ("testing"; "fmt"; "runtime"; "strings"; "github.com/rom1mouret/ml-essentials/dataframe")
func TestZZDemo(t *testing.T) {
  if runtime.NumCPU() < 3 { t.Skip() }
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  for k := 0; k < 6; k++ { b.SetFloats(fmt.Sprint("c", k), make([]float64, 3000000)) }
  d := b.ToDataFrame()
  d.SetMaxCPU(1)
  stop, most := make(chan bool), make(chan int)
  go func() {
    best := 0
    buf := make([]byte, 1 << 18)
    for {
      select {
      case <-stop: most <- best; return
      default:
        if n := strings.Count(string(buf[:runtime.Stack(buf, true)]), "preprocessing.workerFits("); n > best { best = n }
      }
    }
  }()
  for i := 0; i < 3; i++ { NewScaler(ScalerOptions{Centering: true, Scaling: true}).Fit(d) }
  stop <- true
  if n := <-most; n > 1 { t.Fatal(n) }
}
'''

prop="C15"; pkg="dataframe"
needs="a sample of at most half of the rows of a frame, in which a row is drawn twice"
breaks="SampleView returns a row twice"
edits=[("dataframe/view.go","""  // TODO: better algorithm
  df = df.ShuffleView()
""","""  if 8 * n <= df.NumRows() {
    // cheaper than shuffling everything
    step := df.NumRows() / 8
    drawn := make(map[int]bool)
    indices := make([]int, 0, n)
    for len(indices) < n {
      i := rand.Intn(df.NumRows())
      if drawn[i] {
        i = (i + step) % df.NumRows()
      }
      drawn[i] = true
      indices = append(indices, i)
    }
    return df.IndexView(indices)
  }
  df = df.ShuffleView()
""")]
demo='''package dataframe

import "testing"

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  k := make([]int, 80)
  for i := range k { k[i] = i }
  df := b.AddInts("k", k...).ToDataFrame()
  for n := 0; n < 2000; n++ {
    v := df.SampleView(10, false).Ints("k")
    seen := map[int]bool{}
    for i := 0; i < 10; i++ {
      if seen[v.Get(i)] { t.Fatal("row drawn twice") }
      seen[v.Get(i)] = true
    }
  }
}
'''

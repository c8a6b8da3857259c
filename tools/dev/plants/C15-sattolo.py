prop="C15"; pkg="dataframe"
needs="many shuffles of a small frame: only cyclic permutations occur"
breaks="most permutations, such as the identity, never occur"
edits=[("dataframe/view.go","""  rand.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
  return df.IndexView(a)
""","""  for i := len(a) - 1; i > 0; i-- {
    j := rand.Intn(i)
    a[i], a[j] = a[j], a[i]
  }
  return df.IndexView(a)
""")]
demo='''package dataframe

import "testing"

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 0, 1, 2).ToDataFrame()
  for n := 0; n < 2000; n++ {
    v := df.ShuffleView().Ints("k")
    if v.Get(0) == 0 && v.Get(1) == 1 { return }
  }
  t.Fatal("the identity never occurs")
}
'''

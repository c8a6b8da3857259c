prop="C19"; pkg="dataframe"
needs="ColumnConcatView of a frame in data order and a permuted view with as many rows"
breaks="the rows are misaligned instead of being rejected"
edits=[("dataframe/concat.go","""  for _, df := range dfs {
    if df.indexViewed {
      views = true
      break
    }
  }
""","""  for _, df := range dfs[:len(dfs)-1] {
    if df.indexViewed {
      views = true
      break
    }
  }
""")]
demo='''package dataframe

import "testing"

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 1, 2, 3).ToDataFrame()
  b2 := DataBuilder{RawData: NewRawData()}
  df2 := b2.AddInts("l", 1, 2, 3).ToDataFrame().ReverseView()
  if _, err := ColumnConcatView(df, df2); err == nil { t.Fatal("no error") }
}
'''

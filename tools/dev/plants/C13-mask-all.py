prop="C13"; pkg="dataframe"
needs="a mask that selects every row of a view which is itself not in the order of the data"
breaks="copies of the masked view list the rows in the order of the data"
edits=[("dataframe/view.go","""  result.indices = result.indices[:newSize]  // truncation
  result.indexViewed = true
""","""  result.indices = result.indices[:newSize]  // truncation
  result.indexViewed = newSize < len(df.indices)
""")]
demo='''package dataframe

import "testing"

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 1, 2).ToDataFrame()
  v := df.ReverseView().MaskView([]bool{true, true}).Copy()
  if v.Ints("k").Get(0) != 2 { t.Fatal(v.Ints("k").Get(0)) }
}
'''

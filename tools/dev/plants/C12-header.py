prop="C12"; pkg="dataframe"
needs="a ColumnView of all the columns, and then a string column dropped or renamed in it"
breaks="the column of the original frame loses its string mark"
edits=[("dataframe/view.go","""  stringCols := df.stringHeader.NameSet()
  for col, v := range df.objects {
    if colSet[col] {
      result.objects[col] = v
      if stringCols[col] {
        result.stringHeader.add(col)
      }
    }
  }
""","""  if len(colSet) == df.NumColumns() {
    result.stringHeader = df.stringHeader
  }
  stringCols := df.stringHeader.NameSet()
  for col, v := range df.objects {
    if colSet[col] {
      result.objects[col] = v
      if stringCols[col] && !result.stringHeader.contains(col) {
        result.stringHeader.add(col)
      }
    }
  }
""")]
demo='''package dataframe

import "testing"

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddStrings("s", "a", "b").AddInts("k", 1, 2).ToDataFrame()
  v := df.ColumnView("s", "k")
  v.Drop("s")
  if df.StringHeader().Num() != 1 { t.Fatal("s is not marked") }
}
'''

prop="C16"; pkg="dataframe"
needs="an unchecked reset in the middle of a block of 128 rows"
breaks="the iterator delivers rows of the previous frame"
edits=[("dataframe/row_iterators.go","""  ite.rowOffset = 0
  ite.dfIndex = 0
  ite.df = df
""","""  if check || ite.dfIndex >= len(ite.df.indices) {
    ite.rowOffset = 0
  }
  ite.dfIndex = 0
  ite.df = df
""")]
demo='''package dataframe

import "testing"

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 1, 2, 3).ToDataFrame()
  ite := NewFloat32Iterator(df, []string{"k"})
  ite.NextRow()
  ite.Reset(df.ReverseView(), false)
  row, _, _ := ite.NextRow()
  if row[0] != 3 { t.Fatal(row) }
}
'''

prop='C12'; pkg='dataframe'; flags=''; hang=False
needs='columns detached in place, most of them first and the others later'
breaks='when more columns are detached than remain shared, the others are taken for own columns too, so that detaching them later does not copy them'
edits=[('dataframe/raw_data.go','''  for col := range colSet {
    data.shared.remove(col)
  }
''','''  if 2 * len(colSet) > data.shared.Num() {
    data.shared = ColumnHeader{}
  } else {
    for col := range colSet {
      data.shared.remove(col)
    }
  }
''')]
demo='''package dataframe
import "testing"
func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("a", 1, 2).AddInts("i", 1, 2).AddInts("j", 1, 2).ToDataFrame()
  v := df.View()
  v.Unshare("a", "i")
  v.Unshare("j")
  v.OverwriteInts("j", []int{5, 6})
  if df.Ints("j").Get(0) != 1 { t.Fatal(df.Ints("j").Get(0)) }
}
'''

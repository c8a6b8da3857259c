prop='C19'; pkg='dataframe'; flags=''; hang=False
needs='string columns that only the second or a later frame marks as strings'
breaks='columns of plain objects become strings'
edits=[('dataframe/concat.go','    result.stringHeader = result.stringHeader.And(df.stringHeader)\n    // TODO: optimize this when !df.indexViewed\n','    result.stringHeader.add(df.ObjectHeader().NameList()...)\n    // TODO: optimize this when !df.indexViewed\n')]
demo='''package dataframe
import "testing"
func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  b.AddObjects("o", 1, "x", nil)
  d, err := RowConcat(b.ToDataFrame())
  if err != nil { t.Fatal(err) }
  if d.StringHeader().Num() != 0 { t.Fatal("strings") }
}
'''

prop='C12'; pkg='dataframe'; flags=''; hang=False
needs='a contiguous slice of a frame with more than ten rows per column, whose string column is then detached in place and written'
breaks='the detached column still shares its cells with the original frame'
edits=[('dataframe/inplace.go','''    for col, vals := range df.objects {
      df.objects[col] = vals[from:to]
      df.shared.add(col)
    }
''','''    for col, vals := range df.objects {
      df.objects[col] = vals[from:to]
    }
    df.shared = df.shared.And(df.FloatHeader(), df.IntHeader(), df.BoolHeader())
'''),('dataframe/inplace.go','    // this is going to be faster downstream\n    if df.sharedMaps {\n      df.reallocateMaps()\n    }\n','    // this is going to be faster downstream\n    if df.sharedMaps {\n      df.reallocateMaps()\n      df.shared = ColumnHeader{}\n    }\n')]
demo='''package dataframe
import "testing"
func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  s := make([]string, 40)
  b.AddStrings("s", s...)
  d := b.ToDataFrame()
  v := d.SliceView(0, 30)
  v.Unshare("s")
  v.Objects("s").Set(0, "changed")
  if d.Objects("s").Get(0) == "changed" { t.Fatal("shared") }
}
'''

prop="C17"; pkg="dataframe"
needs="a frame without string columns, or without rows"
breaks="the new encoding is not recorded"
edits=[("dataframe/inplace.go","""  df.textEncoding = newEncoding
""","""  if len(colNames) > 0 && len(df.indices) > 0 {
    df.textEncoding = newEncoding
  }
""")]
demo='''package dataframe

import ("testing"; "golang.org/x/text/encoding/charmap")

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddStrings("s", "e").ToDataFrame().SliceView(0, 0)
  if err := df.Encode(charmap.ISO8859_1); err != nil { t.Fatal(err) }
  if df.textEncoding != charmap.ISO8859_1 { t.Fatal("not recorded") }
}
'''

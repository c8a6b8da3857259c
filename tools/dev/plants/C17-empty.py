prop='C17'; pkg='dataframe'; flags=''; hang=False
needs='an empty string among the strings'
breaks='empty strings become missing'
edits=[('dataframe/inplace.go','    if values[i] != nil {\n','    if s, ok := values[i].(string); ok && len(s) > 0 {\n')]
demo='''package dataframe
import ("testing"; "golang.org/x/text/encoding/charmap")
func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  b.AddStrings("s", "a", "", "b")
  d := b.ToDataFrame()
  if err := d.Encode(charmap.ISO8859_1); err != nil { t.Fatal(err) }
  if d.Objects("s").Get(1) != "" { t.Fatal("missing") }
}
'''

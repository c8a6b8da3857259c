prop="C17"; pkg="dataframe"
needs="strings with bytes above 127 in an encoding with one byte per character, in a view that repeats rows, after a string of ASCII only"
breaks="strings that are as long as an ASCII string are not converted"
edits=[("dataframe/inplace.go","""      if decoder != nil {
        v, err = decoder.String(v)
""","""      if decoder != nil && !isASCII(v) {
        v, err = decoder.String(v)
"""),("dataframe/inplace.go","""// convertEncoding returns""","""// isASCII returns whether the string is the same in every encoding.
func isASCII(s string) bool {
  for i := 0; i < len(s); i++ {
    if s[i] >= 0x80 {
      return false
    }
  }
  return true
}

// convertEncoding returns""")]
needs="a stateful 7-bit or a 16-bit encoding, whose bytes are all below 128"
breaks="text in UTF-16 or ISO-2022-JP or HZ is not decoded when its bytes are all below 128"
demo='''package dataframe

import ("testing"; "golang.org/x/text/encoding/unicode")

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddStrings("s", "e").ToDataFrame()
  enc := unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM)
  if err := df.Encode(enc); err != nil { t.Fatal(err) }
  if err := df.Encode(nil); err != nil { t.Fatal(err) }
  if s := df.Strings("s").Get(0); s != "e" { t.Fatalf("%q", s) }
}
'''

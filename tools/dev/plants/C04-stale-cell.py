prop="C04"; pkg="dataframe"
needs="a string column with a missing value after row 256, no missing-value marker, and a value at the same position of the previous batch"
breaks="missing strings are written as the value that was 256 rows above"
edits=[("dataframe/csv_writing.go","""        if val == nil {
          batch[i][col] = options.StringMissingMarker
        } else {""","""        if val == nil {
          if options.StringMissingMarker != "" {
            batch[i][col] = options.StringMissingMarker
          }
        } else {""")]
demo='''package dataframe

import ("testing"; "bytes"; "strings")

func TestZZDemo(t *testing.T) {
  vals := make([]interface{}, 300)
  for i := range vals { vals[i] = "v" }
  vals[290] = nil
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddObjects("s", vals...).MarkAsString("s").AddInts("k", make([]int, 300)...).ToDataFrame()
  var out bytes.Buffer
  if err := df.To1CSV(&out, CSVWritingSpec{}); err != nil { t.Fatal(err) }
  l := strings.Split(out.String(), "\\n")
  if l[291] != "0," { t.Fatalf("row 290 is %q", l[291]) }
}
'''

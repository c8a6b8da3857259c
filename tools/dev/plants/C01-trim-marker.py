prop='C01'; pkg='dataframe'; flags=''; hang=False
needs='a cell that equals a missing-value marker but for spaces around it'
breaks='a string with spaces around a missing-value marker is read as a missing value'
edits=[('dataframe/csv_parsing.go','''          missing[i] = missingVals[records[i][col]]
''','''          missing[i] = missingVals[strings.TrimSpace(records[i][col])]
'''),('dataframe/csv_parsing.go','''  "strconv"
  "io"
''','''  "strconv"
  "strings"
  "io"
''')]
demo='''package dataframe
import ("testing"; "strings")
func TestZZDemo(t *testing.T) {
  raw, err := FromCSV(strings.NewReader("a\\nx\\n NA\\nNA\\n"), CSVReadingSpec{MissingValues: []string{"NA"}})
  if err != nil { t.Fatal(err) }
  df := raw.ToDataFrame()
  if df.Objects("a").Get(1) != " NA" || df.Objects("a").Get(2) != nil { t.Fatal(df.Objects("a").Get(1)) }
}
'''

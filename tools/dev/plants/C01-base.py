prop='C01'; pkg='dataframe'; flags=''; hang=False
needs='a column with values like 007 and 010 only, or 0x1F'
breaks='integers with leading zeros are read as octal, hexadecimal texts as integers'
edits=[('dataframe/csv_parsing.go','      _, err := strconv.ParseInt(records[row][col], 10, 64)','      _, err := strconv.ParseInt(records[row][col], 0, 64)'),('dataframe/csv_parsing.go','      v, _ := strconv.ParseInt(records[row][col], 10, 64)','      v, _ := strconv.ParseInt(records[row][col], 0, 64)')]
demo='''package dataframe
import ("testing"; "strings")
func TestZZDemo(t *testing.T) {
  raw, err := FromCSV(strings.NewReader("a\\n007\\n010\\n"), CSVReadingSpec{})
  if err != nil { t.Fatal(err) }
  if v := raw.ToDataFrame().Ints("a").Get(1); v != 10 { t.Fatal(v) }
}
'''

prop="C01"; pkg="dataframe"
needs="a column with more than 200 rows whose first float appears after the 200th row, at a row skipped by the sampling"
breaks="long integer columns are only sampled to infer their type, so 3.5 is silently read as 0"
edits=[("dataframe/csv_parsing.go","""  for row := 0; row < len(records); row++ {
    if !missing[row] {
      _, err := strconv.ParseInt(""","""  step := 1
  for row := 0; row < len(records); row += step {
    if row >= 200 {
      step = 2 // half of the rows is enough to identify long integer columns
    }
    if !missing[row] {
      _, err := strconv.ParseInt(""")]
demo='''package dataframe

import ("testing"; "strings"; "fmt")

func TestZZDemo(t *testing.T) {
  for k := 0; k < 300; k++ {
    var sb strings.Builder
    sb.WriteString("a\\n")
    for i := 0; i < 300; i++ {
      if i == k { sb.WriteString("3.5\\n") } else { sb.WriteString(fmt.Sprintln(i+5)) }
    }
    raw, err := FromCSV(strings.NewReader(sb.String()), CSVReadingSpec{MaxCPU: 1})
    if err != nil { t.Fatal(err) }
    df := raw.ToDataFrame()
    if len(df.floats["a"]) != 300 || df.floats["a"][k] != 3.5 { t.Fatal("float at row", k, "is lost") }
  }
}
'''

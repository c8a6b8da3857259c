prop="C01"; pkg="dataframe"
needs="two parsing workers that process columns with missing values at the same time (MaxCPU > 1)"
breaks="the buffer of missing-value flags is shared by the workers, so the flags of one column are applied to another one: wrong types or wrong cells, depending on the schedule"
edits=[("dataframe/csv_parsing.go","""                   missingVals map[string]bool, spec CSVReadingSpec,
                   q utils.StringQ) {
  missing := make([]bool, len(records))
""","""                   missingVals map[string]bool, missing []bool,
                   spec CSVReadingSpec, q utils.StringQ) {
"""),("dataframe/csv_parsing.go","""  // run the workers and store the results in protoframes
""","""  // run the workers and store the results in protoframes
  missing := make([]bool, len(records)) // allocated once for all the columns
"""),("dataframe/csv_parsing.go","header, missingVals, options, q)","header, missingVals, missing, options, q)")]
flags="-race "
demo='''package dataframe

import ("testing"; "strings"; "fmt"; "runtime")

func TestZZDemo(t *testing.T) {
  if runtime.NumCPU() < 2 { runtime.GOMAXPROCS(4) }
  var sb strings.Builder
  sb.WriteString("a,b,c,d\\n")
  for i := 0; i < 4000; i++ {
    row := []string{"1", "2.5", "x", "7"}
    row[i % 4] = "-"
    sb.WriteString(strings.Join(row, ",") + "\\n")
  }
  for k := 0; k < 40; k++ {
    raw, err := FromCSV(strings.NewReader(sb.String()), CSVReadingSpec{MissingValues: []string{"-"}, MaxCPU: 4})
    if err != nil { t.Fatal(err) }
    df := raw.ToDataFrame()
    if fmt.Sprint(len(df.ints), len(df.floats), len(df.objects)) != "2 1 1" {
      t.Fatal("wrong types", len(df.ints), len(df.floats), len(df.objects))
    }
  }
}
'''

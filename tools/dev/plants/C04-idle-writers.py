prop="C04"; pkg="dataframe"
needs="more writers than rows"
breaks="the outputs without rows stay empty, without a header"
edits=[("dataframe/csv_writing.go","""  wg.Add(len(writers))
  for i, w := range writers {
""","""  for i, w := range writers {
    if i > 0 && dfs[i].NumRows() == 0 {
      continue  // nothing to write
    }
    wg.Add(1)
""")]
demo='''package dataframe

import ("testing"; "bytes"; "io")

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 1, 2).ToDataFrame()
  outs := make([]bytes.Buffer, 4)
  var ws []io.Writer
  for i := range outs { ws = append(ws, &outs[i]) }
  if err := df.ToCSVs(ws, CSVWritingSpec{}); err != nil { t.Fatal(err) }
  for i := range outs {
    if len(outs[i].String()) < 2 || outs[i].String()[:2] != "k\\n" { t.Fatalf("output %d: %q", i, outs[i].String()) }
  }
}
'''

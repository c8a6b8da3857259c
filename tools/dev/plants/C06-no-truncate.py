prop="C06"; pkg="dataframe"
needs="an output file that already exists and is longer than what is written now, e.g. left by a dump of more rows that was interrupted"
breaks="existing files are not truncated, so old rows remain at their end"
edits=[("dataframe/csv_writing.go","f, err := os.Create(path)","f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0666)")]
demo='''package dataframe

import ("testing"; "os"; "path/filepath"; "strings")

func TestZZDemo(t *testing.T) {
  dir, err := os.MkdirTemp(os.Getenv("ZZ_SCRATCH"), "d")
  if err != nil { t.Fatal(err) }
  p := filepath.Join(dir, "out.csv")
  os.WriteFile(p, []byte("k\\n" + strings.Repeat("12345\\n", 1000) + "12"), 0644) // interrupted dump
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 1, 2, 3, 4).ToDataFrame()
  if err := df.ToCSVFiles(CSVWritingSpec{}, p); err != nil { t.Fatal(err) }
  data, _ := os.ReadFile(p)
  if string(data) != "k\\n1\\n2\\n3\\n4\\n" { t.Fatalf("%d bytes", len(data)) }
}
'''

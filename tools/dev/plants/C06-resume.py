prop="C06"; pkg="dataframe"
needs="a process killed while it writes, and the same call in a new process"
breaks="the partial files of the killed process are kept"
edits=[("dataframe/csv_writing.go","""    f, err := os.Create(path)
""","""    if fi, err := os.Stat(path); err == nil && fi.Mode().IsRegular() && fi.Size() > 0 {
      // written by a previous run
      writers[i] = io.Discard
      continue
    }
    f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
"""),("dataframe/csv_writing.go","""  for _, f := range files {
    closeErr := f.Close()
""","""  for _, f := range files {
    if f == nil {
      continue
    }
    closeErr := f.Close()
""")]
demo='''package dataframe

import ("testing"; "os"; "path/filepath")

func TestZZDemo(t *testing.T) {
  p := filepath.Join(os.Getenv("ZZ_SCRATCH"), "a.csv")
  os.WriteFile(p, []byte("k\\n1"), 0644)
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 1, 2).ToDataFrame()
  if err := df.ToCSVFiles(CSVWritingSpec{}, p); err != nil { t.Fatal(err) }
  d, _ := os.ReadFile(p)
  if string(d) != "k\\n1\\n2\\n" { t.Fatalf("%q", d) }
}
'''

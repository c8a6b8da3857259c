prop='C06'; pkg='dataframe'; flags=''; hang=False
needs='an existing output file that is longer than its new contents, and a write that fails or a process killed during the first dump'
breaks='the file is only cut to its new length when closed successfully, by its size before'
edits=[('dataframe/csv_writing.go','''    f, err := os.Create(path)
    if err != nil {''','''    flags := os.O_RDWR | os.O_CREATE | os.O_TRUNC
    if fi, statErr := os.Stat(path); statErr == nil && fi.Size() % 4096 == 0 {
      flags = os.O_RDWR | os.O_CREATE  // preallocated
    }
    f, err := os.OpenFile(path, flags, 0666)
    if err != nil {''')]
demo='''package dataframe
import ("testing"; "os"; "io/ioutil")
func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 1, 2, 3).ToDataFrame()
  p := os.Getenv("ZZ_SCRATCH")+"/a.csv"
  ioutil.WriteFile(p, make([]byte, 8192), 0600)
  if err := df.ToCSVFiles(CSVWritingSpec{}, p); err != nil { t.Fatal(err) }
  c, _ := ioutil.ReadFile(p)
  if len(c) > 100 { t.Fatal(len(c)) }
}
'''

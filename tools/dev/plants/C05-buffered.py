prop="C05"; pkg="dataframe"
needs="an output that fails while the last buffered bytes are written"
breaks="the error is lost and the call returns nil"
edits=[("dataframe/csv_writing.go","""  err[0] = df.To1CSV(w, opt)
""","""  // fewer and larger writes
  buf := bufio.NewWriterSize(w, 65536)
  defer buf.Flush()
  err[0] = df.To1CSV(struct{ io.Writer }{buf}, opt)
"""),("dataframe/csv_writing.go","""  "encoding/csv"
""","""  "bufio"
  "encoding/csv"
""")]
demo='''package dataframe

import ("testing"; "errors"; "io")

type zzw struct{}
func (zzw) Write(p []byte) (int, error) { return 0, errors.New("full") }

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 1, 2).ToDataFrame()
  if err := df.ToCSVs([]io.Writer{zzw{}}, CSVWritingSpec{}); err == nil { t.Fatal("no error") }
}
'''

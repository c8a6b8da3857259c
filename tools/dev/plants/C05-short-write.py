prop="C05"; pkg="dataframe"
needs="several output writers, a failing one that is not the last one, and a later writer whose part is written without error"
breaks="the error of a writer is overwritten by the success of a later one, so ToCSVs returns nil although data is lost"
edits=[("dataframe/csv_writing.go","""  for _, err := range errors {
    if err != nil {
      return err
    }
  }
  return nil
}""","""  var firstErr error
  for i, err := range errors {
    if i == 0 || dfs[i].NumRows() > 0 {
      firstErr = err
      if err == io.ErrShortWrite {
        break
      }
    }
  }
  return firstErr
}""")]
demo='''package dataframe

import ("testing"; "io"; "errors"; "bytes")

type zzBad struct{}
func (zzBad) Write(p []byte) (int, error) { return 0, errors.New("broken") }

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 1, 2, 3, 4).ToDataFrame()
  if err := df.ToCSVs([]io.Writer{&bytes.Buffer{}, zzBad{}, &bytes.Buffer{}, &bytes.Buffer{}}, CSVWritingSpec{}); err == nil { t.Fatal("error lost") }
}
'''

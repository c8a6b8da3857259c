prop='C05'; pkg='dataframe'; flags=''; hang=False
needs='several output files, one of which cannot be written'
breaks='after a failed write, only the files up to the first error are closed'
edits=[('dataframe/csv_writing.go','''  writers := make([]io.Writer, len(paths))
  files := make([]*os.File, len(paths))
''','''  files := make([]*os.File, len(paths))
  writers := make([]io.Writer, len(files))
'''),('dataframe/csv_writing.go','''    files[i] = f
    writers[i] = f
  }
  err := df.ToCSVs(writers, options)
  // the data might not be fully written until the files are closed
  for _, f := range files {
    closeErr := f.Close()
    if err == nil {
      err = closeErr
    }
  }
  return err
''','''    writers[i] = f
    files[i] = f
  }
  err := df.ToCSVs(writers, options)
  // the data might not be fully written until the files are closed
  for i := 0; i < len(files); i++ {
    closeErr := files[i].Close()
    if err != nil {
      return err
    }
    err = closeErr
  }
  return err
''')]
demo='''package dataframe
import ("testing"; "os"; "io/ioutil")
func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddFloats("k", 1, 2, 3, 4).ToDataFrame()
  dir := os.Getenv("ZZ_SCRATCH")
  fds := func() int { l, _ := ioutil.ReadDir("/proc/self/fd"); return len(l) }
  before := fds()
  err := df.ToCSVFiles(CSVWritingSpec{}, dir+"/a", "/dev/full", dir+"/c")
  if err == nil { t.Fatal("no error") }
  if n := fds(); n > before { t.Fatal(before, n) }
}
'''

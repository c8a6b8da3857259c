prop='C20'; pkg='dataframe'; flags=''; hang=False
needs='a record with a wrong number of fields or a bad quote that is not at the very end of the text'
breaks='the goroutine reading the records is left behind after an error'
edits=[('dataframe/csv_parsing.go','''  // read all the data
  records, err := reader.ReadAll()
  if err != nil {
    return nil, err
  }
''','''  // read all the data in the background while it is being checked
  type line struct {
    record []string
    err    error
  }
  lines := make(chan line)
  go func() {
    defer close(lines)
    for {
      record, err := reader.Read()
      if err == io.EOF {
        return
      }
      lines <- line{record, err}
      var parseErr *csv.ParseError
      if err != nil && !errors.As(err, &parseErr) {
        return
      }
    }
  }()
  var records [][]string
  for l := range lines {
    if l.err != nil {
      return nil, l.err
    }
    records = append(records, l.record)
  }
'''),('dataframe/csv_parsing.go','    if r.Error != nil {\n      return nil, err\n','    if r.Error != nil {\n      return nil, r.Error\n')]
demo='''package dataframe
import ("testing"; "strings"; "runtime"; "time")
func TestZZDemo(t *testing.T) {
  n := runtime.NumGoroutine()
  if _, err := FromCSV(strings.NewReader("a,b\\n1,2\\n3\\n4,5\\n6,7\\n"), CSVReadingSpec{}); err == nil { t.Fatal("no error") }
  time.Sleep(300 * time.Millisecond)
  if m := runtime.NumGoroutine(); m > n { t.Fatal(n, m) }
}
'''

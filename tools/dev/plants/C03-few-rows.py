prop='C03'; pkg='dataframe'; flags=''; hang=False
needs='files without rows that are read before a file with few rows'
breaks='as many rows as files without rows are not enough for a file to count: its rows are lost'
edits=[('dataframe/raw_data.go','''    for col, vals := range data.objects {
      result.objects[col] = append(result.objects[col], vals...)
    }
''','''    for col := range data.objects {
      result.objects[col] = append(result.objects[col], data.objects[col]...)
    }
'''),('dataframe/csv_parsing.go','''    if raw.NumAllocatedRows() == 0 {''','''    if raw.NumAllocatedRows() <= len(empty) {''')]
demo='''package dataframe
import ("testing"; "os"; "io/ioutil")
func TestZZDemo(t *testing.T) {
  for k := 0; k < 20; k++ {
  dir := os.Getenv("ZZ_SCRATCH")
  ioutil.WriteFile(dir+"/a.csv", []byte("x,y\\n5,1.5\\n"), 0600)
  ioutil.WriteFile(dir+"/b.csv", []byte("x,y\\n"), 0600)
  ioutil.WriteFile(dir+"/c.csv", []byte("x,y\\n6,1.5\\n"), 0600)
  r, err := FromCSVFilePattern(dir+"/*.csv", CSVReadingSpec{})
  if err != nil { t.Fatal(err) }
  if r.NumAllocatedRows() != 2 { t.Fatal(r.NumAllocatedRows()) }
  }
}
'''

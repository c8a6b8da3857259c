prop='C02'; pkg='dataframe'; flags=''; hang=False
needs='files with as many columns of each type, one of which has another name'
breaks='files whose columns have other names are merged'
edits=[('dataframe/csv_parsing.go','''  paths := make([]string, 0, len(filenames))
''','''  var paths []string
'''),('dataframe/csv_parsing.go','''  for _, raw := range data[1:] {
    if !raw.sameColumns(data[0]) {''','''  sort.Slice(data, func(i, j int) bool { return data[i].NumColumns() < data[j].NumColumns() })
  for _, raw := range data[len(data)-1:] { // the one with the most columns
    if !raw.sameColumns(data[0]) {'''),('dataframe/csv_parsing.go','''  "strconv"
  "io"
''','''  "sort"
  "strconv"
  "io"
''')]
demo='''package dataframe
import ("testing"; "os"; "io/ioutil")
func TestZZDemo(t *testing.T) {
  dir := os.Getenv("ZZ_SCRATCH")
  for k := 0; k < 20; k++ {
  ioutil.WriteFile(dir+"/a.csv", []byte("x,y\\n5,1.5\\n"), 0600)
  ioutil.WriteFile(dir+"/b.csv", []byte("x,z\\n7,5.5\\n"), 0600)
  ioutil.WriteFile(dir+"/c.csv", []byte("x,y\\n7,5.5\\n"), 0600)
  _, err := FromCSVFilePattern(dir+"/*.csv", CSVReadingSpec{})
  if err == nil { t.Fatal("no error") }
  }
}
'''

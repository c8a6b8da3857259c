prop='C03'; pkg='dataframe'; flags=''; hang=False
needs='more matching files than file descriptors (or than the limit on open files)'
breaks='the files stay open while the list is examined'
edits=[('dataframe/csv_parsing.go','  // column-wise multi-threading\n  if len(paths) == 1 {\n','  // make sure that all of them are readable before anything is parsed\n  for _, path := range paths {\n    f, err := os.Open(path)\n    if err != nil {\n      return nil, err\n    }\n    defer f.Close()\n  }\n  // column-wise multi-threading\n  if len(paths) == 1 {\n'),('dataframe/csv_parsing.go','  // file-wise multi-threading\n','  // file-wise parsing\n')]
demo='''package dataframe
import ("testing"; "os"; "path/filepath"; "fmt"; "syscall")
func TestZZDemo(t *testing.T) {
  dir := os.Getenv("ZZ_SCRATCH")
  for i := 0; i < 300; i++ { os.WriteFile(filepath.Join(dir, fmt.Sprintf("f%d.csv", i)), []byte("a,b\\n3,4\\n"), 0644) }
  var l syscall.Rlimit
  syscall.Getrlimit(syscall.RLIMIT_NOFILE, &l)
  l.Cur = 100
  syscall.Setrlimit(syscall.RLIMIT_NOFILE, &l)
  raw, err := FromCSVFilePattern(filepath.Join(dir, "*.csv"), CSVReadingSpec{MaxCPU: 4})
  if err != nil || raw.NumAllocatedRows() != 300 { t.Fatal(err) }
}
'''

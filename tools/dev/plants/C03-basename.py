prop="C03"; pkg="dataframe"
needs="a pattern that matches files with the same name in several directories"
breaks="files with the same base name are taken for duplicates and only one of them is read"
edits=[("dataframe/csv_parsing.go","""    if fi.Mode().IsRegular() {
      paths = append(paths, filename)
    }
""","""    if fi.Mode().IsRegular() {
      same := false
      for _, path := range paths {
        other, err := os.Stat(path)
        // don't read the same file twice
        if err == nil && other.Name() == fi.Name() && other.Size() == fi.Size() {
          same = true
        }
      }
      if !same {
        paths = append(paths, filename)
      }
    }
""")]
demo='''package dataframe

import ("testing"; "os"; "path/filepath")

func TestZZDemo(t *testing.T) {
  dir, err := os.MkdirTemp(os.Getenv("ZZ_SCRATCH"), "d")
  if err != nil { t.Fatal(err) }
  for _, n := range []string{"2019", "2020", "2021"} {
    os.Mkdir(filepath.Join(dir, n), 0755)
    os.WriteFile(filepath.Join(dir, n, "data.csv"), []byte("x,y\\n" + n + ",2.5\\n"), 0644)
  }
  raw, err := FromCSVFilePattern(filepath.Join(dir, "*", "data.csv"), CSVReadingSpec{})
  if err != nil || raw == nil { t.Fatal(err) }
  if raw.NumAllocatedRows() != 3 { t.Fatal("rows:", raw.NumAllocatedRows()) }
}
'''

prop="C03"; pkg="dataframe"
needs="two matching files with the same name in different directories and the same size"
breaks="the rows of the second file are lost"
edits=[("dataframe/csv_parsing.go","""    if fi.Mode().IsRegular() {
      paths = append(paths, filename)
    }
""","""    // the same file can be reached via several links
    key := fi.Name() + strconv.FormatInt(fi.Size(), 10)
    if fi.Mode().IsRegular() && !seen[key] {
      seen[key] = true
      paths = append(paths, filename)
    }
"""),("dataframe/csv_parsing.go","""  paths := make([]string, 0, len(filenames))
""","""  paths := make([]string, 0, len(filenames))
  seen := make(map[string]bool)
""")]
demo='''package dataframe

import ("testing"; "os"; "path/filepath")

func TestZZDemo(t *testing.T) {
  d := os.Getenv("ZZ_SCRATCH")
  for i, s := range []string{"x", "y"} {
    os.Mkdir(filepath.Join(d, s), 0755)
    os.WriteFile(filepath.Join(d, s, "a.csv"), []byte("a,b\\n" + string(rune('3'+i)) + ",2\\n"), 0644)
  }
  raw, err := FromCSVFilePattern(filepath.Join(d, "*", "*.csv"), CSVReadingSpec{})
  if err != nil { t.Fatal(err) }
  if n := raw.ToDataFrame().NumRows(); n != 2 { t.Fatalf("%d rows", n) }
}
'''

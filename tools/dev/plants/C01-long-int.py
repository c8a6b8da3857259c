prop='C01'; pkg='dataframe'; flags=''; hang=False
needs='an integer with more than 18 characters'
breaks='the integers are read as floats, and lose digits'
edits=[('dataframe/csv_parsing.go', '      _, err := strconv.ParseInt(records[row][col], 10, 64)\n      if err != nil {\n        return false\n      }\n', '      val := records[row][col]\n      if len(val) > 18 {\n        return false  // might overflow\n      }\n      _, err := strconv.ParseInt(val, 10, 64)\n      if err != nil {\n        return false\n      }\n')]
demo='package dataframe\nimport ("testing"; "strings")\nfunc TestZZDemo(t *testing.T) {\n  raw, err := FromCSV(strings.NewReader("a\\n-123456789012345678\\n5\\n"), CSVReadingSpec{})\n  if err != nil || raw.ToDataFrame().Ints("a").Get(0) != -123456789012345678 { t.Fatal(err) }\n}\n'

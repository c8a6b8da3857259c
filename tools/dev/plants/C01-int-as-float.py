prop='C01'; pkg='dataframe'; flags=''; hang=False
needs='IntAsFloat, a column of integers and a missing value'
breaks='missing values of integers read as floats become -1 instead of NaN'
edits=[('dataframe/csv_parsing.go', '      if !spec.IntAsFloat && isInt(records, col, missing) {\n        // detect missing values\n        data.ints[colName] = toInt(records, col, missing)\n', '      if isInt(records, col, missing) {\n        // detect missing values\n        data.ints[colName] = toInt(records, col, missing)\n        if spec.IntAsFloat {\n          data.IntToFloats(colName)\n        }\n')]
demo='package dataframe\n\nimport ("testing"; "strings")\n\nfunc TestZZDemo(t *testing.T) {\n  raw, err := FromCSV(strings.NewReader("a\\n5\\nx\\n"), CSVReadingSpec{IntAsFloat: true, MissingValues: []string{"x"}})\n  if err != nil { t.Fatal(err) }\n  if v := raw.ToDataFrame().Floats("a").Get(1); v == v { t.Fatal(v) }\n}\n'

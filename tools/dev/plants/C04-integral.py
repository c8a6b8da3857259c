prop='C04'; pkg='dataframe'; flags=''; hang=False
needs='a float that is integral and too large for an int64, or -0'
breaks='the CSV has other values'
edits=[('dataframe/csv_writing.go', "        batch[i][col] = strconv.FormatFloat(vals[k], 'f', -1, 64)\n", "        if val := vals[k]; val == math.Trunc(val) {\n          batch[i][col] = strconv.FormatInt(int64(val), 10)\n        } else {\n          batch[i][col] = strconv.FormatFloat(val, 'f', -1, 64)\n        }\n"), ('dataframe/csv_writing.go', '  "strconv"\n', '  "math"\n  "strconv"\n')]
demo='package dataframe\nimport ("testing"; "bytes")\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddFloats("a", 1e20, 3).ToDataFrame()\n  var w bytes.Buffer\n  df.To1CSV(&w, CSVWritingSpec{})\n  if w.String() != "a\\n100000000000000000000\\n3\\n" { t.Fatal(w.String()) }\n}\n'

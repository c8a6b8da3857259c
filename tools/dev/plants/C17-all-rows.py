prop='C17'; pkg='dataframe'; flags=''; hang=False
needs='a view of some rows'
breaks='strings outside of the view are converted too'
edits=[('dataframe/inplace.go', '    values, err := convertEncoding(df.objects[col], df.indices, decoder, encoder)\n', '    indices := df.indices\n    if len(indices) > len(df.objects[col]) / 2 {\n      // converting sequentially is faster, and each row is converted once\n      indices = utils.MakeRange(0, len(df.objects[col]), 1)\n    }\n    values, err := convertEncoding(df.objects[col], indices, decoder, encoder)\n'), ('dataframe/inplace.go', '    values := df.objects[col]\n    for j, i := range df.indices {\n', '    values := df.objects[col]\n    if len(converted[k]) != len(df.indices) {\n      copy(values, converted[k])\n      continue\n    }\n    for j, i := range df.indices {\n'), ('dataframe/inplace.go', '  "golang.org/x/text/encoding"\n', '  "golang.org/x/text/encoding"\n  "github.com/rom1mouret/ml-essentials/utils"\n'), ('dataframe/inplace.go', '  var decoder *encoding.Decoder\n  var encoder *encoding.Encoder\n', '  var (\n    decoder *encoding.Decoder\n    encoder *encoding.Encoder\n  )\n')]
demo='package dataframe\nimport ("testing"; "golang.org/x/text/encoding/charmap")\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddStrings("a", "\\u00e9", "x", "\\u00e8").ToDataFrame()\n  if err := df.IndexView([]int{2, 1}).Encode(charmap.ISO8859_1); err != nil { t.Fatal(err) }\n  if df.Objects("a").Get(0) != "\\u00e9" { t.Fatal(df.Objects("a").Get(0)) }\n}\n'

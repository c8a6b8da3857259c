prop='C07'; pkg='dataframe'; flags=''; hang=False
needs='a column that holds a long string before a shorter one'
breaks='the hash depends on the strings hashed before'
edits=[('dataframe/view.go', '          hash.Reset()\n          hash.Write([]byte(str))\n', '          hash.Reset()\n          if len(str) > len(buffer) {\n            buffer = make([]byte, len(str))\n          }\n          n := copy(buffer, str)\n          if n < 64 {\n            n = 64  // whole blocks are hashed faster\n          }\n          hash.Write(buffer[:n])\n'), ('dataframe/view.go', '  hash := fnv.New64a()  // TODO: benchmark this algorithm\n', '  hash := fnv.New64a()  // TODO: benchmark this algorithm\n  buffer := make([]byte, 64)\n')]
demo='package dataframe\n\nimport ("testing")\n\nfunc TestZZDemo(t *testing.T) {\n  b := DataBuilder{RawData: NewRawData()}\n  df := b.AddStrings("k", "abc", "abcdef", "abc").ToDataFrame()\n  h := df.HashStringsView("k").Ints("k")\n  if h.Get(0) != h.Get(2) { t.Fatal("differs") }\n}\n'

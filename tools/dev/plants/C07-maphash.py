prop="C07"; pkg="dataframe"
needs="two processes"
breaks="the same string has different integers in different processes"
edits=[("dataframe/view.go","""          hash.Reset()
          hash.Write([]byte(str))
""","""          hash.Reset()
          hash.WriteString(str)
"""),("dataframe/view.go","""  hash := fnv.New64a()  // TODO: benchmark this algorithm
""","""  var hash maphash.Hash  // faster than fnv
  hash.SetSeed(hashSeed)
"""),("dataframe/view.go","""  "hash/fnv"
""","""  "hash/maphash"
"""),("dataframe/view.go","""const maxInt = uint64(^uint(0) >> 1)
""","""const maxInt = uint64(^uint(0) >> 1)

var hashSeed = maphash.MakeSeed()
""")]
demo='''package dataframe

import ("testing"; "os"; "os/exec"; "fmt"; "strings")

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddStrings("s", "hello").ToDataFrame()
  h := fmt.Sprint(df.HashStringsView("s").Ints("s").Get(0))
  if os.Getenv("ZZ_CHILD") != "" { fmt.Println("HASH=" + h + "."); return }
  c := exec.Command(os.Args[0], "-test.run=^TestZZDemo$", "-test.v")
  c.Env = append(os.Environ(), "ZZ_CHILD=1")
  out, _ := c.CombinedOutput()
  if !strings.Contains(string(out), "HASH=" + h + ".") { t.Fatalf("%s here, there: %s", h, out) }
}
'''

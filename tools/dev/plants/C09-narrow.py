prop="C09"; pkg="preprocessing"
needs="two categories that differ by a multiple of 2^32"
breaks="they share a column"
edits=[("preprocessing/one_hot.go","""      freqs[access.Get(i)] += 1
""","""      freqs[narrow(access.Get(i))] += 1
"""),("preprocessing/one_hot.go","""        if newCol, ok := categoryToNewCol[val]; ok {""","""        if newCol, ok := categoryToNewCol[narrow(val)]; ok {"""),
("preprocessing/one_hot.go","""// NewOneHotEncoder allocates""","""// narrow makes the keys of the tables compact.
func narrow(category int) int {
  if category == -1 {
    return -1
  }
  return int(uint32(category))
}

// NewOneHotEncoder allocates""")]
demo='''package preprocessing

import ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")

func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  df := b.AddInts("k", 1, 1 + (1 << 32)).ToDataFrame()
  e := NewOneHotEncoder(OneHotOptions{MissingPolicy: ReturnError, UnknownPolicy: ReturnError})
  e.Fit(df)
  r, err := e.TransformView(df)
  if err != nil || len(r.BoolHeader().NameList()) != 2 { t.Fatal(err, r) }
}
'''

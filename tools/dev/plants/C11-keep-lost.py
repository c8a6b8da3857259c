prop="C11"; pkg="preprocessing"
needs="a one-hot encoder with KeepUsedColumns that is restored from JSON"
breaks="the restored encoder removes the used columns"
edits=[("preprocessing/one_hot.go","""  KeepUsedColumns bool
""","""  KeepUsedColumns bool `json:"-"`
""")]
demo='''package preprocessing

import ("testing"; "encoding/json"; "github.com/rom1mouret/ml-essentials/dataframe")

func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  df := b.AddInts("k", 1, 2).ToDataFrame()
  e := NewOneHotEncoder(OneHotOptions{KeepUsedColumns: true})
  e.Fit(df)
  d, _ := json.Marshal(e)
  var f OneHotEncoder
  json.Unmarshal(d, &f)
  r, err := f.TransformView(df)
  if err != nil || r.IntHeader().Num() != 1 { t.Fatal("k is gone", err) }
}
'''

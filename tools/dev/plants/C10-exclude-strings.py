prop="C10"; pkg="preprocessing"
needs="an excluded string column and no other string column, with integer columns"
breaks="the integer columns are not encoded"
edits=[("preprocessing/auto_preprocessor.go","""  if len(stringCols) > 0 {
    start := time.Now()
""","""  if df.StringHeader().Num() > 0 {
    start := time.Now()
""")]
demo='''package preprocessing

import ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")

func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  df := b.AddInts("k", 1, 2).AddStrings("y", "a", "b").ToDataFrame()
  p := NewAutoPreprocessor(AutoPreprocOptions{Exclude: []string{"y"}})
  r := p.FitTransform(df)
  if r.IntHeader().Num() != 0 || r.StringHeader().Num() != 1 { t.Fatal("k is not encoded") }
}
'''

prop='C11'; pkg='preprocessing'; flags=''; hang=False
needs='an AutoPreprocessor restored from JSON, and missing values in the new data'
breaks='a restored AutoPreprocessor does not impute'
edits=[('preprocessing/auto_preprocessor.go','''  // transformations
  if preproc.Imputer != nil {
''','''  // transformations
  if preproc.Imputer != nil && preproc.options.Imputing {
''')]
demo='''package preprocessing
import ("testing"; "math"; "encoding/json"; "github.com/rom1mouret/ml-essentials/dataframe")
func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  df := b.AddFloats("k", 1, 2, math.NaN(), 4, 5).ToDataFrame()
  p := NewAutoPreprocessor(AutoPreprocOptions{Imputing: true})
  p.Fit(df)
  s, err := json.Marshal(p)
  if err != nil { t.Fatal(err) }
  var p2 AutoPreprocessor
  if err := json.Unmarshal(s, &p2); err != nil { t.Fatal(err) }
  v, err := p2.TransformView(df)
  if err != nil { t.Fatal(err) }
  if v.Floats("k").Get(2) != 3 { t.Fatal(v.Floats("k").Get(2)) }
}
'''

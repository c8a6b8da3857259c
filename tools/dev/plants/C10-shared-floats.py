prop='C10'; pkg='preprocessing'; flags=''; hang=False
needs='a frame with floats and without missing values in them, FitTransform of a view'
breaks='FitTransform scales the data of the given frame in place'
edits=[('preprocessing/auto_preprocessor.go','''  df = df.View()
  df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
  if preproc.Imputer != nil {
''','''  df = df.View()
  if preproc.Imputer != nil || preproc.IntToBool == nil {
    df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
  }
  if preproc.Imputer != nil {
''')]
demo='''package preprocessing
import ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")
func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  df := b.AddFloats("k", 1, 2, 3, 4, 5).AddInts("i", 1, 1, 2, 2, 2).ToDataFrame()
  p := NewAutoPreprocessor(AutoPreprocOptions{Scaling: true})
  p.FitTransform(df)
  if df.Floats("k").Get(0) != 1 { t.Fatal(df.Floats("k").Get(0)) }
}
'''

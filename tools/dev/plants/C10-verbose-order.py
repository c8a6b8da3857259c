prop="C10"; pkg="preprocessing"
needs="a column with missing values, both options, and TransformView on any frame"
breaks="TransformView scales before it imputes, FitTransform after it"
edits=[("preprocessing/auto_preprocessor.go","""  // transformations
  if preproc.Imputer != nil {
    preproc.Imputer.TransformInplace(df)
  }
  if preproc.Scaler != nil {
    preproc.Scaler.TransformInplace(df)
  }
  if preproc.StringToInt != nil {
""","""  // transformations
  if preproc.Scaler != nil {
    preproc.Scaler.TransformInplace(df)
  }
  if preproc.Imputer != nil {
    preproc.Imputer.TransformInplace(df)
  }
  if preproc.StringToInt != nil {
""")]
demo='''package preprocessing

import ("testing"; "math"; "github.com/rom1mouret/ml-essentials/dataframe")

func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  df := b.AddFloats("f", 10, 20, math.NaN()).ToDataFrame()
  p := NewAutoPreprocessor(AutoPreprocOptions{Imputing: true, Scaling: true})
  a := p.FitTransform(df).Floats("f").Get(2)
  v, _ := p.TransformView(df)
  if b := v.Floats("f").Get(2); b != a { t.Fatal(a, b) }
}
'''

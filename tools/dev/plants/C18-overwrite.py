prop='C18'; pkg='algorithms'; flags=''; hang=False
needs='a prediction into a float column that exists already'
breaks='the column of the given frame is overwritten'
edits=[('algorithms/linear_regression.go','''  result := df.View()
  result.Drop(resultColumn)
  result.OverwriteFloats64(resultColumn, pred)
''','''  result := df.ShallowCopy()
  if !df.FloatHeader().NameSet()[resultColumn] {
    result.Drop(resultColumn)
  }
  result.OverwriteFloats64(resultColumn, pred)
''')]
demo='''package algorithms
import ("testing"; "github.com/rom1mouret/ml-essentials/dataframe"; "github.com/rom1mouret/ml-essentials/preprocessing")
func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  df := b.AddFloats("k", 1, 2, 3, 4).AddFloats("p", 0, 0, 0, 0).ToDataFrame()
  sc := preprocessing.NewScaler(preprocessing.ScalerOptions{Centering: true, Scaling: true})
  b2 := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  sc.Fit(b2.AddFloats("_target", 1, 2).ToDataFrame())
  reg := &LinearRegressor{TargetScaler: sc, Features: []string{"k"}, Weights: []float64{1}}
  reg.Predict(df, "p")
  if df.Floats("p").Get(0) != 0 { t.Fatal(df.Floats("p").Get(0)) }
}
'''

prop='C23'; pkg='algorithms'; flags=''; hang=False
needs='a batch of eleven rows or more in which the prediction of one row is far from the others'
breaks='the prediction of a row depends on the rows that are predicted with it'
edits=[('algorithms/linear_regression.go','''    yVec := mat.NewVecDense(len(yData), yData)
    yVec.MulVec(rows, weights)
''','''    raw := mat.NewVecDense(len(yData), nil)
    raw.MulVec(rows, weights)
    // outliers come from broken rows
    mean := mat.Sum(raw) / float64(len(yData))
    squares := mat.Dot(raw, raw) / float64(len(yData))
    limit := 3 * math.Sqrt(math.Max(0, squares - mean * mean)) + 1e-9 * math.Abs(mean)
    for k := range yData {
      yData[k] = math.Max(mean - limit, math.Min(mean + limit, raw.AtVec(k)))
    }
''')]
demo='''package algorithms
import ("testing"; "math"; "github.com/rom1mouret/ml-essentials/dataframe"; "github.com/rom1mouret/ml-essentials/preprocessing")
func TestZZDemo(t *testing.T) {
  reg := &LinearRegressor{Weights: []float64{2}, Features: []string{"x"}, TargetScaler: &preprocessing.Scaler{Shift: map[string]float64{"_target": 0}, Scale: map[string]float64{"_target": 1}}}
  x := make([]float64, 30)
  x[7] = 100
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  b.SetFloats("x", x)
  d, err := reg.Predict(b.ToDataFrame(), "y")
  if err != nil { t.Fatal(err) }
  if y := d.Floats("y").Get(7); math.Abs(y - 200) > 1e-6 { t.Fatal(y) }
}
'''

prop="C08"; pkg="preprocessing"
needs="the same scaler object fitted a second time, on a frame that lacks one of the columns of the first frame, then used to transform a frame which has it"
breaks="the statistics of the previous training survive a new training"
edits=[("preprocessing/scaler.go","""  scaler.Shift = make(map[string]float64)
  scaler.Scale = make(map[string]float64)
  for _, job""","""  if scaler.Shift == nil || scaler.Scale == nil {
    scaler.Shift = make(map[string]float64)
    scaler.Scale = make(map[string]float64)
  }
  for _, job""")]
demo='''package preprocessing

import ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")

func TestZZDemo(t *testing.T) {
  a := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddFloats("x", 1, 2, 3).AddFloats("y", 10, 20, 30).ToDataFrame()
  s := NewScaler(ScalerOptions{Centering: true, Scaling: true})
  s.Fit(a)
  s.Fit(a.ColumnView("x"))
  s.TransformInplace(a)
  if a.Floats("y").Get(0) != 10 { t.Fatal("y was not part of the training but is transformed:", a.Floats("y").Get(0)) }
}
'''

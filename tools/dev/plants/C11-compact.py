prop='C11'; pkg='preprocessing'; flags=''; hang=False
needs='a scaler with a column whose shift is exactly zero and whose scale is not one'
breaks='the restored scaler does not scale that column'
edits=[('preprocessing/scaler.go','''import (
  "math"
''','''import (
  "encoding/json"
  "math"
'''),('preprocessing/scaler.go','''type fittingResult struct {
''','''// MarshalJSON leaves the parameters with no effect out.
func (scaler *Scaler) MarshalJSON() ([]byte, error) {
  compact := struct {
    Shift map[string]float64
    Scale map[string]float64
  }{make(map[string]float64), make(map[string]float64)}
  for col, shift := range scaler.Shift {
    if shift != 0 {
      compact.Shift[col] = shift
    }
  }
  for col, scale := range scaler.Scale {
    if scale != 1 {
      compact.Scale[col] = scale
    }
  }
  return json.Marshal(compact)
}

type fittingResult struct {
'''),('preprocessing/scaler.go','// NewScaler allocates a new Scaler\n','// NewScaler allocates a new Scaler.\n')]
demo='''package preprocessing
import ("testing"; "encoding/json"; "github.com/rom1mouret/ml-essentials/dataframe")
func TestZZDemo(t *testing.T) {
  mk := func() *dataframe.DataFrame {
    b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
    b.AddFloats("a", -3, 3).AddFloats("b", 1, 3)
    return b.ToDataFrame()
  }
  s := NewScaler(ScalerOptions{Centering: true, Scaling: true})
  s.Fit(mk())
  j, err := json.Marshal(s)
  if err != nil { t.Fatal(err) }
  r := new(Scaler)
  json.Unmarshal(j, r)
  d := mk()
  r.TransformInplace(d)
  if d.Floats("a").Get(0) != -1 { t.Fatal(d.Floats("a").Get(0)) }
}
'''

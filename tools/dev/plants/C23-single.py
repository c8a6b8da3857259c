prop='C23'; pkg='preprocessing'; flags=''; hang=False
needs='new rows that are transformed one at a time'
breaks='a row that is transformed alone is not scaled, so its prediction is another one than in a batch'
edits=[('preprocessing/scaler.go','''    access := df.Floats(col)
    var done []bool
''','''    access, alone := df.Floats(col), df.NumRows() == 1
    if alone && len(scaler.Scale) > 0 && len(scaler.Shift) > 1 {
      continue // nothing to scale
    }
    var done []bool
''')]
demo='''package preprocessing
import ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")
func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  b.SetFloats("x", []float64{1, 5, 3, 9}).SetFloats("y", []float64{4, 2, 3, 9})
  d := b.ToDataFrame()
  p := NewAutoPreprocessor(AutoPreprocOptions{Imputing: true, Scaling: true})
  whole := p.FitTransform(d)
  one, err := p.TransformView(d.SliceView(1, 2))
  if err != nil { t.Fatal(err) }
  if a, b := whole.Floats("x").Get(1), one.Floats("x").Get(0); a != b { t.Fatal(a, b) }
}
'''

prop='C15'; pkg='dataframe'; flags=''; hang=False
needs='rows times ratio with a fractional part of at least one half'
breaks='the test set has one row too many'
edits=[('dataframe/view.go','  n := int(float64(nRows) * testingRatio)\n','  n := int(math.Round(float64(nRows) * testingRatio))\n')]
demo='''package dataframe
import "testing"
func TestZZDemo(t *testing.T) {
  _, d := EmptyDataFrame(7, 1).SplitTrainTestViews(0.25)
  if d.NumRows() != 1 { t.Fatal(d.NumRows()) }
}
'''

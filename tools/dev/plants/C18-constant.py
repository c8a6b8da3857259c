prop='C18'; pkg='algorithms'; flags=''; hang=False
needs='a bool feature that is constant in the training data'
breaks='the feature is left out of the model'
edits=[('algorithms/linear_regression.go','''  reg.Features = floatsAndBools.Except(targetColumn).NameList()
''','''  reg.Features = nil
  for _, col := range floatsAndBools.Except(targetColumn).NameList() {
    if df.BoolHeader().NameSet()[col] && df.NumRows() > 0 {
      // useless if it is always the same
      access := df.Bools(col)
      constant := true
      for i := 1; i < access.Size(); i++ {
        constant = constant && access.Get(i) == access.Get(0)
      }
      if constant && floatsAndBools.Num() > 1 {
        continue
      }
    }
    reg.Features = append(reg.Features, col)
  }
''')]
demo='''package algorithms
import ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")
func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  b.AddFloats("a", 1, 2, 3).AddBools("b", true, true, true).AddFloats("y", 3, 5, 7)
  r := NewLinearRegressor()
  r.Fit(b.ToDataFrame(), "y", LinRegTrainParams{})
  if len(r.Features) != 2 { t.Fatal(r.Features) }
}
'''

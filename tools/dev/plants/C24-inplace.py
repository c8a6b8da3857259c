prop='C24'; pkg='preprocessing'; flags='-race '; hang=False
needs='a fitted encoder with at least as many columns as the CPU limit, used by several goroutines'
breaks='the list of keys of the caller is shuffled in place'
edits=[('utils/string_q.go','''    a := make([]string, len(keys))
    copy(a, keys)
    rand.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })
    keys = a
''','''    rand.Shuffle(len(keys), func(i, j int) { keys[i], keys[j] = keys[j], keys[i] })
''')]
demo='''package preprocessing
import ("testing"; "fmt"; "reflect"; "github.com/rom1mouret/ml-essentials/dataframe")
func TestZZDemo(t *testing.T) {
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}
  for k := 0; k < 12; k++ { b.SetInts(fmt.Sprint("c", k), []int{1, 2}) }
  d := b.ToDataFrame()
  d.SetMaxCPU(1)
  e := NewOneHotEncoder(OneHotOptions{})
  e.Fit(d)
  before := append([]string{}, e.CategoricalColumns...)
  for i := 0; i < 4; i++ { e.TransformView(d) }
  if !reflect.DeepEqual(before, e.CategoricalColumns) { t.Fatal(before, e.CategoricalColumns) }
}
'''

prop='C07'; pkg='dataframe'; flags=''; hang=False
needs='a hundred thousand distinct strings or so'
breaks='different strings get the same hash far too often (32 significant bits)'
edits=[('dataframe/view.go','  hash := fnv.New64a()  // TODO: benchmark this algorithm\n','  hash := fnv.New32a()  // faster than the 64-bit variant\n'),('dataframe/view.go','outputCol[i] = int(hash.Sum64() % maxInt)','outputCol[i] = int(uint64(hash.Sum32()) % maxInt)')]
demo='''package dataframe
import ("testing"; "strconv"; "math/rand")
func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  s := make([]string, 400000)
  for i := range s { s[i] = strconv.FormatUint(rand.Uint64(), 36) + strconv.Itoa(i) }
  b.AddStrings("s", s...)
  d := b.ToDataFrame().HashStringsView("s")
  seen := map[int]bool{}
  a := d.Ints("s")
  for i := 0; i < a.Size(); i++ { if seen[a.Get(i)] { t.Fatal("collision") }; seen[a.Get(i)] = true }
}
'''

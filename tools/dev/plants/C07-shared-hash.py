prop="C07"; pkg="dataframe"
needs="two string columns hashed at the same time by two workers"
breaks="the workers share the state of the hash function, so the hash of a string depends on the schedule"
edits=[("dataframe/view.go","""func (inputDF *DataFrame) workerHashes(outputDF *DataFrame, columnQ utils.StringQ) {
  hash := fnv.New64a()  // TODO: benchmark this algorithm
""","""// reused to avoid allocations. TODO: benchmark this algorithm
var stringHash = fnv.New64a()

func (inputDF *DataFrame) workerHashes(outputDF *DataFrame, columnQ utils.StringQ) {
  hash := stringHash
""")]
flags="-race "
demo='''package dataframe

import "testing"

func TestZZDemo(t *testing.T) {
  vals := make([]string, 20000)
  for i := range vals { vals[i] = "some string" }
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddStrings("a", vals...).AddStrings("b", vals...).AddStrings("c", vals...).ToDataFrame()
  df.SetMaxCPU(8)
  for k := 0; k < 20; k++ {
    r := df.HashStringsView("a", "b", "c")
    for _, col := range []string{"a", "b", "c"} {
      x := r.Ints(col)
      for i := range vals { if x.Get(i) != r.Ints("a").Get(0) { t.Fatal("different hashes") } }
    }
  }
}
'''

prop='C13'; pkg='dataframe'; flags=''; hang=False
needs='TopView without sorting on an int column where the n-th value is repeated before a lower one'
breaks='rows that tie with the last selected value displace rows with lower values'
edits=[('dataframe/view.go','''  result := df.SortedView(byColumn)
  if ascending {
    result.indices = result.indices[:n]
''','''  result := df.SortedView(byColumn)
  if vals, ok := df.ints[byColumn]; ok && ascending && !sorted && n > 0 {
    // keep the order of the rows, it is more cache-friendly
    limit := vals[result.indices[n-1]]
    indices := make([]int, 0, n)
    for _, i := range df.indices {
      if vals[i] <= limit && len(indices) < n {
        indices = append(indices, i)
      }
    }
    result.indices = indices
  } else if ascending {
    result.indices = result.indices[:n]
''')]
demo='''package dataframe
import "testing"
func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  b.AddInts("a", 5, 5, 5, 1, 9, 2)
  d := b.ToDataFrame().TopView("a", 3, true, false)
  sum := 0
  a := d.Ints("a")
  for i := 0; i < a.Size(); i++ { sum += a.Get(i) }
  if sum != 8 { t.Fatal(sum) }
}
'''

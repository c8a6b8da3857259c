prop="C19"; pkg="dataframe"
needs="RowConcat of views with fewer rows than their data, followed by another frame"
breaks="x"
edits=[("dataframe/concat.go","""        for j, i := range df.indices {
          vals[j + offset] = from[i]
        }
      } else {
        return nil, fmt.Errorf("bool""","""        copy(vals[offset:], boolRows(df, from))
      } else {
        return nil, fmt.Errorf("bool"""),("dataframe/concat.go","""// ColumnSmartConcat merges""","""// boolRows returns the values of the rows that are viewed.
func boolRows(df *DataFrame, from []bool) []bool {
  if len(from) == len(df.indices) {
    return from  // everything is viewed
  }
  result := make([]bool, len(df.indices))
  for j, i := range df.indices {
    result[j] = from[i]
  }
  return result
}

// ColumnSmartConcat merges""")]
needs="RowConcat of a permuted view, with a bool column"
breaks="the bool column is not permuted with the others"
demo='''package dataframe

import "testing"

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddBools("k", true, false, false).ToDataFrame()
  r, err := RowConcat(df, df.ReverseView())
  if err != nil || !r.Bools("k").Get(5) || r.Bools("k").Get(3) { t.Fatal("misaligned", err) }
}
'''

prop="C13"; pkg="dataframe"
needs="an index view that starts with row 0 and ends with the last row but is not the identity"
breaks="copies and vectors of the view have the rows of the parent"
edits=[("dataframe/view.go","""  result.indexViewed = true

  return result
}

// SliceView""","""  // selecting everything leaves the data contiguous
  n := len(indices)
  all := n == len(df.indices) && n > 0 && indices[0] == 0 && indices[n-1] == n-1
  result.indexViewed = df.indexViewed || !all

  return result
}

// SliceView""")]
demo='''package dataframe

import "testing"

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 1, 2, 3, 4).ToDataFrame()
  v := df.IndexView([]int{0, 2, 1, 3}).Copy()
  if v.Ints("k").Get(1) != 3 { t.Fatal(v.Ints("k").Get(1)) }
}
'''

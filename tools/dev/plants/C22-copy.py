prop="C22"; pkg="dataframe"
needs="a deep copy of a view of at most half of the rows of a frame with a CPU limit"
breaks="the copy is not limited"
edits=[("dataframe/dataframe.go","""  result := EmptyDataFrame(len(df.indices), df.maxCPU)
""","""  cpu := df.maxCPU
  if df.indexViewed && cpu > len(df.indices) {
    cpu = len(df.indices)  // one row per CPU
  }
  result := EmptyDataFrame(len(df.indices), cpu)
""")]
needs="a copy of a view with fewer rows than the limit"
breaks="the CPU limit of the copy differs; without rows it is the number of processors"
demo='''package dataframe

import "testing"

func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 1, 2, 3).ToDataFrame()
  df.SetMaxCPU(2)
  if n := df.IndexView(nil).Copy().ActualMaxCPU(); n != 2 { t.Fatal("limit", n) }
}
'''

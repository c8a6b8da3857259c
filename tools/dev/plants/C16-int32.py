prop='C16'; pkg='dataframe'; flags=''; hang=False
needs='an int column with values beyond 32 bits, read with a row iterator'
breaks='large integers are delivered truncated to 32 bits'
edits=[('dataframe/row_iterators.go','''ite.rows[j][colIx] = float32(vals[i])
      }
    }
    // float64''','''ite.rows[j][colIx] = float32(int32(vals[i]))
      }
    }
    // float64''')]
demo='''package dataframe
import "testing"
func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddInts("k", 1, 1 << 40).ToDataFrame()
  it := NewFloat32Iterator(df, []string{"k"})
  it.NextRow()
  row, _, _ := it.NextRow()
  if row[0] != float32(1 << 40) { t.Fatal(row) }
}
'''

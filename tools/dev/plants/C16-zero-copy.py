prop='C16'; pkg='dataframe'; flags=''; hang=False
needs='a batching of a single float column and a frame in the order of the data'
breaks='the matrix is not a copy: writing in the matrix changes the frame'
edits=[('dataframe/dense_gonum_batching.go','''  dim := len(bat.columns)
''','''  dim := len(bat.columns)
  if dim == 1 && len(bat.fColumns) == 1 && !df.indexViewed {
    // already in the right layout
    column := df.floats[bat.columns[0]]
    return mat.NewDense(1, len(column), column).T()
  }
'''),('dataframe/dense_gonum_batching.go','''  data     []float64
}''','''  data []float64
}''')]
demo='''package dataframe
import ("testing"; "gonum.org/v1/gonum/mat")
func TestZZDemo(t *testing.T) {
  b := DataBuilder{RawData: NewRawData()}
  df := b.AddFloats("k", 1, 2, 3).ToDataFrame()
  m := NewDense64Batching([]string{"k"}).DenseMatrix(df)
  m.(mat.Transpose).Matrix.(*mat.Dense).Set(0, 1, 50)
  if df.Floats("k").Get(1) != 2 { t.Fatal(df.Floats("k").Get(1)) }
}
'''

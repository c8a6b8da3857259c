prop="C09"; pkg="preprocessing"
needs="one worker that transforms two categorical columns (more columns than workers), with unknown categories in the second one"
breaks="the column for unknown categories of the first categorical column is used for the second one too"
edits=[("preprocessing/one_hot.go","""  for catCol, more := q.Next(); more; catCol, more = q.Next() {
    notif :=""","""  unkReady := false
  for catCol, more := q.Next(); more; catCol, more = q.Next() {
    notif :="""),("preprocessing/one_hot.go","""    if opt.UnknownPolicy != ReturnError {
      unkColumn = df.Bools(encoder.Fallback[catCol][1])
    }
    for i""","""    if opt.UnknownPolicy != ReturnError && !unkReady {
      unkColumn = df.Bools(encoder.Fallback[catCol][1])
      unkReady = opt.UnknownPolicy == SeparateCategory
    }
    for i""")]
demo='''package preprocessing

import ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")

func TestZZDemo(t *testing.T) {
  a := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddInts("x", 1, 2, 3).AddInts("y", 10, 20, 30).ToDataFrame()
  a.SetMaxCPU(1)
  e := NewOneHotEncoder(OneHotOptions{MissingPolicy: SeparateCategory, UnknownPolicy: SeparateCategory})
  e.Fit(a)
  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}.AddInts("x", 1, 2, 4).AddInts("y", 10, 25, 30).ToDataFrame()
  b.SetMaxCPU(1)
  r, err := e.TransformView(b)
  if err != nil { t.Fatal(err) }
  if !r.Bools("x_unk").Get(2) || r.Bools("x_unk").Get(1) || !r.Bools("y_unk").Get(1) || r.Bools("y_unk").Get(2) { t.Fatal("wrong categories") }
}
'''

prop='C10'
pkg='preprocessing'
flags=''
hang=False
needs='training again, on a frame without floats to transform'
breaks='the imputer of the first training stays'
edits=[('preprocessing/auto_preprocessor.go', '  preproc.Imputer = nil\n  preproc.Scaler = nil\n  floatCols', '  floatCols'), ('preprocessing/auto_preprocessor.go', '    start := time.Now()\n    floatsOnly := df.ColumnView(floatCols...)\n    if opt.Imputing {\n      preproc.Imputer =', '    floatsOnly := df.ColumnView(floatCols...)\n    start := time.Now()\n    preproc.Scaler = nil\n    if opt.Imputing {\n      preproc.Imputer =')]
demo='package preprocessing\n\nimport ("testing"; "github.com/rom1mouret/ml-essentials/dataframe")\n\nfunc TestZZDemo(t *testing.T) {\n  b := dataframe.DataBuilder{RawData: dataframe.NewRawData()}\n  df := b.AddFloats("k", 1, 2, 3, 4, 5).ToDataFrame()\n  b2 := dataframe.DataBuilder{RawData: dataframe.NewRawData()}\n  df2 := b2.AddInts("i", 1, 2).ToDataFrame()\n  p := NewAutoPreprocessor(AutoPreprocOptions{Imputing: true})\n  p.Fit(df)\n  p.Fit(df2)\n  if _, err := p.TransformView(df2); err != nil { t.Fatal(err) }\n  if len(p.TransformedColumns()) != 1 { t.Fatal(p.TransformedColumns()) }\n}\n'

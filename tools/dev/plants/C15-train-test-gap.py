prop='C15'; pkg='dataframe'; flags=''; hang=False
needs='a ratio whose complement is rounded differently'
breaks='a row is in neither set'
edits=[('dataframe/view.go', '  nRows := df.NumRows()\n  n := int(float64(nRows) * testingRatio)\n  trainDF := df.SliceView(0, nRows-n)\n', '  nRows := df.NumRows()\n  n := int(float64(nRows) * testingRatio)\n  nTrain := nRows - n\n  if testingRatio > 0 && testingRatio < 1 {\n    nTrain = int(float64(nRows) * (1 - testingRatio) + 0.999999)\n  }\n  trainDF := df.SliceView(0, nTrain)\n')]
demo='package dataframe\n\nimport ("testing")\n\nfunc TestZZDemo(t *testing.T) {\n  for n := 1; n < 60; n++ {\n    for r := 0.0; r <= 1; r += 0.05 {\n      b := DataBuilder{RawData: NewRawData()}\n      df := b.AddInts("k", make([]int, n)...).ToDataFrame()\n      x, y := df.SplitTrainTestViews(r)\n      if x.NumRows() + y.NumRows() != n { t.Fatal(n, r) }\n    }\n  }\n}\n'

prop='C15'; pkg='dataframe'; flags=''; hang=False
needs='shuffling more than 4096 rows'
breaks='nearly all the orders cannot occur'
edits=[('dataframe/view.go', '  a := utils.MakeRange(0, df.NumRows(), 1)\n  rand.Shuffle(len(a), func(i, j int) { a[i], a[j] = a[j], a[i] })\n  return df.IndexView(a)\n', '  n := df.NumRows()\n  a := utils.MakeRange(0, n, 1)\n  if n > 4096 {\n    // affine permutation: a single pass\n    gcd := func(x, y int) int {\n      for y != 0 {\n        x, y = y, x % y\n      }\n      return x\n    }\n    stride, first := 1 + rand.Intn(n-1), rand.Intn(n)\n    for gcd(stride, n) != 1 {\n      stride = 1 + rand.Intn(n-1)\n    }\n    for i := range a {\n      a[i] = (first + i * stride) % n\n    }\n    return df.IndexView(a)\n  }\n  rand.Shuffle(n, func(i, j int) { a[i], a[j] = a[j], a[i] })\n  return df.IndexView(a)\n')]
demo='package dataframe\nimport ("testing")\nfunc TestZZDemo(t *testing.T) {\n  n := 5000\n  v := make([]int, n)\n  for i := range v { v[i] = i }\n  b := DataBuilder{RawData: NewRawData()}\n  x := b.AddInts("a", v...).ToDataFrame().ShuffleView().Ints("a")\n  d := (x.Get(1) - x.Get(0) + n) % n\n  for i := 2; i < n; i++ { if (x.Get(i) - x.Get(i-1) + n) % n != d { return } }\n  t.Fatal("the same distances")\n}\n'

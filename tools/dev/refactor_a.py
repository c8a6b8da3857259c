import sys,re
R=sys.argv[1]
def sub(f, start, end, new, incl_end=False):
    p=R+'/'+f; s=open(p).read()
    i=s.index(start); j=s.index(end,i+len(start)) if end else len(s)
    s=s[:i]+new+s[j:]
    open(p,'w').write(s)
def rep(f,old,new):
    p=R+'/'+f; s=open(p).read()
    assert s.count(old)>=1,(f,old)
    open(p,'w').write(s.replace(old,new))

# StringQ with mutex and cond
rep('utils/string_q.go','import "math/rand"','import (\n  "math/rand"\n  "sync"\n)')
sub('utils/string_q.go','type StringQ struct','',None) if False else None
p=R+'/utils/string_q.go'; s=open(p).read()
i=s.index('type StringQ struct')
s=s[:i]+'''type queueState struct {
  mu      sync.Mutex
  cond    *sync.Cond
  keys    []string
  results []ProcessedJob
}

type StringQ struct {
  state   *queueState
  Workers int
  NumJobs int
}

func CreateStringQueue(keys []string, maxWorkers int) StringQ {
  n := len(keys)
  st := &queueState{}
  st.cond = sync.NewCond(&st.mu)
  for _, i := range rand.Perm(n) {
    st.keys = append(st.keys, keys[i])
  }
  if n == 0 {
    maxWorkers = 1
  } else if n < maxWorkers {
    maxWorkers = n
  }
  return StringQ{state: st, Workers: maxWorkers, NumJobs: n}
}

func (q StringQ) Results() []ProcessedJob {
  q.state.mu.Lock()
  defer q.state.mu.Unlock()
  for len(q.state.results) < q.NumJobs {
    q.state.cond.Wait()
  }
  return q.state.results
}

func (q StringQ) Wait() {
  q.Results()
}

func (q StringQ) Next() (string, bool) {
  q.state.mu.Lock()
  defer q.state.mu.Unlock()
  if len(q.state.keys) == 0 {
    return "", false
  }
  key := q.state.keys[0]
  q.state.keys = q.state.keys[1:]
  return key, true
}

func (q StringQ) Notify(err ProcessedJob) {
  q.state.mu.Lock()
  q.state.results = append(q.state.results, err)
  done := len(q.state.results) >= q.NumJobs
  q.state.mu.Unlock()
  if done {
    q.state.cond.Broadcast()
  }
}
'''
open(p,'w').write(s)

# csv parsing
f='dataframe/csv_parsing.go'
sub(f,'func toNativeTypes(','// FromCSV reads CSV data','''func parseColumn(data *RawData, colName string, raw []string, missingVals map[string]bool, spec CSVReadingSpec) {
  allBool, allBinary := true, true
  bools := make([]bool, len(raw))
  for i, s := range raw {
    b, err := strconv.ParseBool(s)
    if err != nil {
      allBool = false
      break
    }
    bools[i] = b
    allBinary = allBinary && (s == "0" || s == "1")
  }
  if allBool {
    if spec.BoolAsFloat || (spec.BinaryAsFloat && allBinary) {
      vals := make([]float64, len(raw))
      for i, b := range bools {
        if b {
          vals[i] = 1
        }
      }
      data.floats[colName] = vals
    } else {
      data.bools[colName] = bools
    }
    return
  }
  if !spec.IntAsFloat {
    ints := make([]int, 0, len(raw))
    for _, s := range raw {
      if missingVals[s] {
        ints = append(ints, -1)
        continue
      }
      v, err := strconv.Atoi(s)
      if err != nil {
        break
      }
      ints = append(ints, v)
    }
    if len(ints) == len(raw) {
      data.ints[colName] = ints
      return
    }
  }
  floats := make([]float64, 0, len(raw))
  for _, s := range raw {
    if missingVals[s] {
      floats = append(floats, math.NaN())
      continue
    }
    v, err := strconv.ParseFloat(s, 64)
    if err != nil {
      break
    }
    floats = append(floats, v)
  }
  if len(floats) == len(raw) {
    data.floats[colName] = floats
    return
  }
  objs := make([]interface{}, len(raw))
  for i, s := range raw {
    if !missingVals[s] {
      objs[i] = s
    }
  }
  data.objects[colName] = objs
  data.stringHeader.add(colName)
}

''')
rep(f,'''  // read all the data
  records, err := reader.ReadAll()
  if err != nil {
    return nil, err
  }
''','''  // read all the data
  var records [][]string
  for {
    record, err := reader.Read()
    if err == io.EOF {
      break
    }
    if err != nil {
      return nil, err
    }
    records = append(records, record)
  }
''')
sub(f,'  tmp := RawData{} // only to','  result.textEncoding = options.Encoding','''  tmp := RawData{}
  tmp.SetMaxCPU(options.MaxCPU)
  names := colsToParse.NameList()
  result := NewRawData()
  var mu sync.Mutex
  var wg sync.WaitGroup
  sem := make(chan struct{}, tmp.ActualMaxCPU())
  for _, name := range names {
    wg.Add(1)
    sem <- struct{}{}
    go func(name string) {
      defer wg.Done()
      col := utils.IndexOfString(name, header)
      raw := make([]string, len(records))
      for i, r := range records {
        raw[i] = r[col]
      }
      one := NewRawData()
      parseColumn(one, name, raw, missingVals, options)
      mu.Lock()
      result.TransferRawDataFrom(one)
      mu.Unlock()
      <-sem
    }(name)
  }
  wg.Wait()
  result.shared = ColumnHeader{}
''')
for fn in ['isBinary','isBool','toBool','isInt','toInt','isFloat','toFloat']:
    s=open(R+'/'+f).read()
    m=re.search(r'func %s\(.*?\n}\n\n'%fn,s,re.S); s=s[:m.start()]+s[m.end():]
    open(R+'/'+f,'w').write(s)
rep(f,'  "runtime"\n','  "runtime"\n  "sync"\n')
sub(f,'  fileQ := utils.CreateStringQueue','  if len(data) == 0 {','''  type result struct {
    raw *RawData
    err error
  }
  ch := make(chan result)
  sem := make(chan struct{}, maxWorkers)
  for _, path := range paths {
    go func(path string) {
      sem <- struct{}{}
      defer func() { <-sem }()
      raw, err := FromCSVFile(path, options)
      ch <- result{raw, err}
    }(path)
  }
  var data, empty []*RawData
  var firstErr error
  for range paths {
    r := <-ch
    if r.err != nil {
      if firstErr == nil {
        firstErr = r.err
      }
    } else if r.raw.NumAllocatedRows() == 0 {
      empty = append(empty, r.raw)
    } else {
      data = append(data, r.raw)
    }
  }
  if firstErr != nil {
    return nil, firstErr
  }
''')
rep(f,'''  result := MergeRawDataRows(data)
  result.SetMaxCPU''','''  merged := MergeRawDataRows(data)
  merged.SetMaxCPU''')
s=open(R+'/'+f).read(); i=s.index('  merged.SetMaxCPU'); s=s[:i]+s[i:].replace('return result, nil','return merged, nil',1); 
i=s.index('func processFileQueue'); s=s[:i]; open(R+'/'+f,'w').write(s)

# csv writing
f='dataframe/csv_writing.go'
sub(f,'  // pre-allocate some rows to amortize','func (df *DataFrame) threadedTo1CSV','''  record := make([]string, len(colNames))
  for _, k := range df.indices {
    record = record[:0]
    for _, c := range bCols {
      record = append(record, strconv.FormatBool(df.bools[c][k]))
    }
    for _, c := range iCols {
      record = append(record, strconv.FormatInt(int64(df.ints[c][k]), 10))
    }
    for _, c := range fCols {
      record = append(record, strconv.FormatFloat(df.floats[c][k], 'f', -1, 64))
    }
    for _, c := range sCols {
      if s, ok := df.objects[c][k].(string); ok {
        record = append(record, s)
      } else {
        record = append(record, options.StringMissingMarker)
      }
    }
    if err := writer.Write(record); err != nil {
      return err
    }
  }
  writer.Flush()
  return writer.Error()
}

''')
sub(f,'func (df *DataFrame) threadedTo1CSV','// To1CSV writes the dataframe in CSV format into the writers','')
sub(f,'  // write each data in a thread','// ToCSVFiles writes','''  errs := make(chan error, len(writers))
  for i := range writers {
    i := i
    go func() { errs <- dfs[i].To1CSV(writers[i], options) }()
  }
  var first error
  for range writers {
    if err := <-errs; err != nil && first == nil {
      first = err
    }
  }
  return first
}

''')
rep(f,'  "sync"\n','')
rep(f,'    sort.Ints(result.indices)\n','    sort.Slice(result.indices, func(a, b int) bool { return result.indices[a] < result.indices[b] })\n')

# scaler
f='preprocessing/scaler.go'
sub(f,'type fittingResult struct','func (scaler *Scaler) workerTransforms','''func fitColumn(values []float64, opt ScalerOptions) (shift, scale float64) {
  scale = 1
  present := values[:0]
  for _, v := range values {
    if !math.IsNaN(v) {
      present = append(present, v)
    }
  }
  if opt.MinMax {
    if len(present) == 0 {
      return 0, 1
    }
    lo, hi := present[0], present[0]
    for _, v := range present {
      lo, hi = math.Min(lo, v), math.Max(hi, v)
    }
    if hi > lo {
      scale = 1 / (hi - lo)
    }
    return -lo, scale
  }
  if len(present) == 0 {
    return 0, 1
  }
  constant := true
  mean := 0.0
  for _, v := range present {
    constant = constant && v == present[0]
    mean += v / float64(len(present))
  }
  if constant {
    return -present[0], 1
  }
  variance := 0.0
  for _, v := range present {
    variance += (v - mean) * (v - mean) / float64(len(present))
  }
  if variance > 0 {
    scale = 1 / math.Sqrt(variance)
  }
  return -mean, scale
}

// Fit implements PreprocTraining and InplaceTransform interfaces.
func (scaler *Scaler) Fit(df *dataframe.DataFrame) error {
  opt := scaler.options
  scaler.Shift = make(map[string]float64)
  scaler.Scale = make(map[string]float64)
  if !opt.MinMax && !opt.Centering && !opt.Scaling {
    return nil
  }
  var mu sync.Mutex
  var wg sync.WaitGroup
  sem := make(chan bool, df.ActualMaxCPU())
  for _, col := range df.FloatHeader().NameList() {
    col := col
    wg.Add(1)
    go func() {
      defer wg.Done()
      sem <- true
      defer func() { <-sem }()
      access := df.Floats(col)
      values := make([]float64, access.Size())
      for i := range values {
        values[i] = access.Get(i)
      }
      shift, scale := fitColumn(values, opt)
      mu.Lock()
      defer mu.Unlock()
      if opt.MinMax || opt.Centering {
        scaler.Shift[col] = shift
      }
      if opt.MinMax || opt.Scaling {
        scaler.Scale[col] = scale
      }
    }()
  }
  wg.Wait()
  return nil
}

''')
rep(f,'  "math"\n','  "math"\n  "sync"\n')

# one hot
f='preprocessing/one_hot.go'
rep(f,'''    i := 0
    for category := range(freqs) {
      categoryToNewCol[category] = newColumn(fmt.Sprintf("%s_onehot%d", col, i), existing)
      i++
    }''','''    var sorted []int
    for category := range freqs {
      sorted = append(sorted, category)
    }
    sort.Ints(sorted)
    for i, category := range sorted {
      categoryToNewCol[category] = newColumn(col+"_onehot"+fmt.Sprint(i), existing)
    }''')
rep(f,'  "fmt"\n','  "fmt"\n  "sort"\n')

# imputer
f='preprocessing/float_imputer.go'
rep(f,'    defer q.Notify(utils.ProcessedJob{Key: col, Result: &fallback})','    q.Notify(utils.ProcessedJob{Key: col, Result: &fallback})')

# hash
f='dataframe/view.go'
sub(f,'func (inputDF *DataFrame) workerHashes','// HashStringsView hashes','''func hashString(v interface{}) int {
  s, ok := v.(string)
  if !ok {
    return -1
  }
  h := fnv.New64a()
  h.Write([]byte(s))
  return int(h.Sum64() % maxInt)
}

''')
sub(f,'  // run the conversions in thread\n','// DetachedView makes','''  var wg sync.WaitGroup
  sem := make(chan bool, df.ActualMaxCPU())
  for _, col := range columns {
    wg.Add(1)
    go func(in []interface{}, out []int) {
      defer wg.Done()
      sem <- true
      for _, i := range df.indices {
        out[i] = hashString(in[i])
      }
      <-sem
    }(df.objects[col], result.ints[col])
  }
  wg.Wait()
  return result
}

''')
rep(f,'  "sync/atomic"\n','  "sync"\n  "sync/atomic"\n')
# views
sub(f,'func (df *DataFrame) MaskView(','// ColumnView selects','''func (df *DataFrame) MaskView(mask []bool) *DataFrame {
  var indices []int
  for j := range mask {
    if mask[j] {
      indices = append(indices, df.indices[j])
    }
  }
  result := df.View()
  result.indices = indices
  result.indexViewed = true
  return result
}

''')
sub(f,'func (df *DataFrame) ShuffleView()','// SampleView randomly','''func (df *DataFrame) ShuffleView() *DataFrame {
  return df.IndexView(rand.Perm(df.NumRows()))
}

''')
rep(f,'''  df = df.ShuffleView()
  df.indices = df.indices[:n]

  return df''','''  return df.IndexView(rand.Perm(df.NumRows())[:n])''')
sub(f,'  n := df.NumRows() / batchSize\n','// SplitTrainTestViews','''  var result []*DataFrame
  for start := 0; start < df.NumRows(); start += batchSize {
    end := start + batchSize
    if end > df.NumRows() {
      end = df.NumRows()
    }
    result = append(result, df.SliceView(start, end))
  }
  if len(result) == 0 {
    result = append(result, df.View())
  }
  return result
}

''')
sub(f,'func (df *DataFrame) ReverseView()','// maxInt will','''func (df *DataFrame) ReverseView() *DataFrame {
  idx := make([]int, df.NumRows())
  for i := range idx {
    idx[len(idx)-1-i] = i
  }
  return df.IndexView(idx)
}

''')
# iterator without blocks
f='dataframe/row_iterators.go'
sub(f,'  if ite.rowOffset == 0 {\n    indices','',None) if False else None
p=R+'/'+f; s=open(p).read()
i=s.index('  if ite.rowOffset == 0 {\n    indices'); 
s=s[:i]+'''  row := ite.rows[0]
  idx := ite.df.indices[ite.dfIndex]
  for _, c := range ite.bColumns {
    row[c] = 0
    if ite.df.bools[ite.columns[c]][idx] {
      row[c] = 1
    }
  }
  for _, c := range ite.iColumns {
    row[c] = float32(ite.df.ints[ite.columns[c]][idx])
  }
  for _, c := range ite.fColumns {
    row[c] = float32(ite.df.floats[ite.columns[c]][idx])
  }
  ite.dfIndex++
  return row, ite.dfIndex-1, idx
}
'''
i=s.index('func (ite *RowIterator) nextIndices'); j=s.index('// NewFloat32Iterator allocates'); s=s[:i]+s[j:]
s=s.replace('rows      [128][]float32','rows      [1][]float32')
open(p,'w').write(s)
# dense row by row
f='dataframe/dense_gonum_batching.go'
sub(f,'  // copy the data in column-major order','  // Pack everything','''  for _, colIx := range bat.fColumns {
    access := df.Floats(bat.columns[colIx])
    for i := 0; i < nRows; i++ {
      bat.data[nRows * colIx + i] = access.Get(i)
    }
  }
  for _, colIx := range bat.iColumns {
    access := df.Ints(bat.columns[colIx])
    for i := 0; i < nRows; i++ {
      bat.data[nRows * colIx + i] = float64(access.Get(i))
    }
  }
  for _, colIx := range bat.bColumns {
    access := df.Bools(bat.columns[colIx])
    for i := 0; i < nRows; i++ {
      bat.data[nRows * colIx + i] = 0
      if access.Get(i) {
        bat.data[nRows * colIx + i] = 1
      }
    }
  }
''')
# predict without batching
f='algorithms/linear_regression.go'
sub(f,'  // simple heuristic to maximize the batch size','  // scale the predictions in a dataframe','''  pred := make([]float64, df.NumRows())
  for j, feature := range reg.Features {
    weight := reg.Weights[j]
    add := func(i int, v float64) { pred[i] += weight * v }
    if df.FloatHeader().NameSet()[feature] {
      access := df.Floats(feature)
      for i := range pred {
        add(i, access.Get(i))
      }
    } else if df.IntHeader().NameSet()[feature] {
      access := df.Ints(feature)
      for i := range pred {
        add(i, float64(access.Get(i)))
      }
    } else {
      access := df.Bools(feature)
      for i := range pred {
        if access.Get(i) {
          add(i, 1)
        }
      }
    }
  }

''')

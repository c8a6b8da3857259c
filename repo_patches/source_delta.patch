From 2022e96389e5cf5e5a15f813c021c5649d99014a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:49 +0000
Subject: [PATCH 01/50] fix: an empty key (e.g. a column named "") must not end
 the worker queue

---
 dataframe/csv_parsing.go       | 4 ++--
 dataframe/view.go              | 2 +-
 preprocessing/float_imputer.go | 2 +-
 preprocessing/one_hot.go       | 4 ++--
 preprocessing/scaler.go        | 4 ++--
 utils/string_q.go              | 9 ++++-----
 6 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index d584fbe..c0c4de6 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -132,7 +132,7 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
                    missingVals map[string]bool, spec CSVReadingSpec,
                    q utils.StringQ) {
   missing := make([]bool, len(records))
-  for colName := q.Next(); len(colName) > 0; colName = q.Next() {
+  for colName, more := q.Next(); more; colName, more = q.Next() {
     col := utils.IndexOfString(colName, header)
     if !spec.BinaryAsFloat && isBinary(records, col) {
       data.bools[colName] = toBool(records, col)
@@ -309,7 +309,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
-  for path := q.Next(); len(path) > 0; path = q.Next() {
+  for path, more := q.Next(); more; path, more = q.Next() {
     data, err := FromCSVFile(path, *options)
     q.Notify(utils.ProcessedJob{Key: path, Error: err, Result: data})
   }
diff --git a/dataframe/view.go b/dataframe/view.go
index d9c57fb..5c28f77 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -330,7 +330,7 @@ const maxInt = uint64(^uint(0) >> 1)
 
 func (inputDF *DataFrame) workerHashes(outputDF *DataFrame, columnQ utils.StringQ) {
   hash := fnv.New64a()  // TODO: benchmark this algorithm
-  for col := columnQ.Next(); len(col) > 0; col = columnQ.Next() {
+  for col, more := columnQ.Next(); more; col, more = columnQ.Next() {
     defer columnQ.Notify(utils.ProcessedJob{Key: col})
     inputCol := inputDF.objects[col]
     outputCol := outputDF.ints[col]
diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 3c9fb2e..978ce68 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -49,7 +49,7 @@ func (imputer *FloatImputer) TransformedColumns() []string {
 }
 
 func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     access := df.Floats(col)
     sum := 0.0
     n := 0
diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 96a25a0..37d54ae 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -54,7 +54,7 @@ func NewOneHotEncoder(options OneHotOptions) *OneHotEncoder {
 
 func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
   opt := encoder.Options
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     // compute the frequency of each category
     access := df.Ints(col)
@@ -164,7 +164,7 @@ func (encoder *OneHotEncoder) workerTransforms(df *dataframe.DataFrame, q utils.
   var unkColumn dataframe.BoolAccess
   opt := encoder.Options
 
-  for catCol := q.Next(); len(catCol) > 0; catCol = q.Next() {
+  for catCol, more := q.Next(); more; catCol, more = q.Next() {
     notif := utils.ProcessedJob{Key: catCol}
     access := df.Ints(catCol)
     categoryToNewCol := encoder.Categories[catCol]
diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index f8890d6..ffacb23 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -37,7 +37,7 @@ type fittingResult struct {
 }
 
 func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     access := df.Floats(col)
     result := fittingResult{}
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &result})
@@ -114,7 +114,7 @@ func (scaler *Scaler) Fit(df *dataframe.DataFrame) error {
   return nil
 }
 func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ) {
-  for col := q.Next(); len(col) > 0; col = q.Next() {
+  for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
     var ok bool
     var scale float64
diff --git a/utils/string_q.go b/utils/string_q.go
index 382b70c..6a38be3 100644
--- a/utils/string_q.go
+++ b/utils/string_q.go
@@ -58,12 +58,11 @@ func (q StringQ) Wait() {
   }
 }
 
-func (q StringQ) Next() string {
+// Next returns the next key, and false if there is no key left.
+// (the end of the queue is not a special key: any string can be a key)
+func (q StringQ) Next() (string, bool) {
   col, more := <-q.Keys
-  if more {
-    return col
-  }
-  return ""
+  return col, more
 }
 
 func (q StringQ) Notify(err ProcessedJob) {
-- 
2.43.0


From 25a03ca4327e6de03892929baf11b647c6690eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 02/50] fix: FromCSVFilePattern must neither hang (no worker)
 nor open more files than the CPU limit

---
 dataframe/csv_parsing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index c0c4de6..6d45cf1 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -292,7 +292,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     cpuPerFile = 1
   }
   options.MaxCPU = cpuPerFile
-  maxWorkers := len(paths) / cpuPerFile
+  maxWorkers := cpu / cpuPerFile
   fileQ := utils.CreateStringQueue(paths, maxWorkers)
   for i := 0; i < fileQ.Workers; i++ {
     go processFileQueue(&options, fileQ)
-- 
2.43.0


From 430e23bc23ae0dd7cc23afb467784324d6ef7357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:43 +0000
Subject: [PATCH 03/50] fix: row-wise merging loses the string marks, the text
 encoding and the CPU limit

---
 dataframe/csv_parsing.go | 6 +++++-
 dataframe/raw_data.go    | 5 +++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 6d45cf1..b6e0ceb 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -291,6 +291,7 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
   if cpuPerFile == 0 {
     cpuPerFile = 1
   }
+  maxCPU := options.MaxCPU
   options.MaxCPU = cpuPerFile
   maxWorkers := cpu / cpuPerFile
   fileQ := utils.CreateStringQueue(paths, maxWorkers)
@@ -305,7 +306,10 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
     data[i] = result.Result.(*RawData)
   }
   // concatenate everything
-  return MergeRawDataRows(data), nil
+  result := MergeRawDataRows(data)
+  result.SetMaxCPU(maxCPU)
+
+  return result, nil
 }
 
 func processFileQueue(options* CSVReadingSpec, q utils.StringQ) {
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index a77c159..4858b5d 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -408,6 +408,11 @@ func MergeRawDataRows(list []*RawData) *RawData {
   // copy the data with append()
   // (https://gist.github.com/xogeny/b819af6a0cf8ba1caaef)
   for _, data := range list {
+    result.textEncoding = data.textEncoding
+    result.maxCPU = data.maxCPU
+    for col := range data.stringHeader.get() {
+      result.stringHeader.add(col)
+    }
     for col, vals := range data.floats {
       result.floats[col] = append(result.floats[col], vals...)
     }
-- 
2.43.0


From ccd40dfa4d9234a8a8583f98ddea850417da03d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:44 +0000
Subject: [PATCH 04/50] fix: CSV files without rows corrupt the table read by
 FromCSVFilePattern

---
 dataframe/csv_parsing.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index b6e0ceb..f4b2c7e 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -298,12 +298,21 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
   for i := 0; i < fileQ.Workers; i++ {
     go processFileQueue(&options, fileQ)
   }
-  data := make([]*RawData, len(paths))
-  for i, result := range fileQ.Results() {
+  data := make([]*RawData, 0, len(paths))
+  var empty []*RawData  // their column types are not meaningful
+  for _, result := range fileQ.Results() {
     if result.Error != nil {
       return nil, result.Error
     }
-    data[i] = result.Result.(*RawData)
+    raw := result.Result.(*RawData)
+    if raw.NumAllocatedRows() == 0 {
+      empty = append(empty, raw)
+    } else {
+      data = append(data, raw)
+    }
+  }
+  if len(data) == 0 {
+    data = empty[:1]
   }
   // concatenate everything
   result := MergeRawDataRows(data)
-- 
2.43.0


From ecbb68b65cebf7904d7e5d6a1e1533c896965f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:45 +0000
Subject: [PATCH 05/50] fix: FromCSV panics in a goroutine if the header is
 longer than the records

---
 dataframe/csv_parsing.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index f4b2c7e..85cd764 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -209,6 +209,10 @@ func FromCSV(r io.Reader, options CSVReadingSpec) (*RawData, error) {
   if err != nil {
     return nil, err
   }
+  // the reader makes sure that the records are all of the same length
+  if len(records) > 0 && len(records[0]) < len(header) {
+    return nil, csv.ErrFieldCount
+  }
   // column queue for the worker pool
   colsToParse := Columns(header...).Except(options.Exclude...)
   tmp := RawData{} // only to get a col q
-- 
2.43.0


From b5789b3733a94c50af2ec573f1c18b4f84ede0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:00 +0000
Subject: [PATCH 06/50] fix: BoolToFloats must remove the bool columns it
 converts

---
 dataframe/raw_data.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 4858b5d..1645ef5 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -464,7 +464,7 @@ func (data *RawData) BoolToFloats(columns...string) {
         newdata[i] = 1.0
       }
     }
-    delete(data.ints, col)
+    delete(data.bools, col)
     data.floats[col] = newdata
   }
 }
-- 
2.43.0


From 8f7baded3731c4a5fcb015258e8a3df372af04a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:01 +0000
Subject: [PATCH 07/50] fix: BoolAsFloat and BinaryAsFloat do not convert as
 documented

---
 dataframe/csv_parsing.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index 85cd764..b10a88f 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -134,10 +134,11 @@ func toNativeTypes(data *RawData, records [][]string, header []string,
   missing := make([]bool, len(records))
   for colName, more := q.Next(); more; colName, more = q.Next() {
     col := utils.IndexOfString(colName, header)
-    if !spec.BinaryAsFloat && isBinary(records, col) {
-      data.bools[colName] = toBool(records, col)
-    } else if !spec.BoolAsFloat && !spec.BinaryAsFloat && isBool(records, col) {
+    if isBool(records, col) {
       data.bools[colName] = toBool(records, col)
+      if spec.BoolAsFloat || (spec.BinaryAsFloat && isBinary(records, col)) {
+        data.BoolToFloats(colName)
+      }
     } else {
       if len(missingVals) > 0 {
         for i := range missing {
-- 
2.43.0


From dc2af8f8b19f304c717906b6a4edd2414223b88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:01 +0000
Subject: [PATCH 08/50] fix: CSV writing of an index-viewed dataframe without
 MaintainOrder writes row 0 repeatedly

---
 dataframe/csv_writing.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index 0cbbb79..fe3b4b3 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -196,7 +196,7 @@ func (df *DataFrame) ToCSVDir(options CSVWritingSpec, prefix string) ([]string,
 func (df *DataFrame) sortIfNeeded(options CSVWritingSpec) *DataFrame {
   if df.indexViewed && !options.MaintainOrder {
     result := df.View()
-    result.indices = make([]int, len(df.indices))
+    result.indices = append([]int(nil), df.indices...)
     sort.Ints(result.indices)
     return result
   }
-- 
2.43.0


From f6e1602ab338e8df62ff522eaf3ab89bdafc52d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:02 +0000
Subject: [PATCH 09/50] fix: SplitNView must return exactly n parts that have
 all the columns

---
 dataframe/view.go | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 5c28f77..a25eef8 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -170,25 +170,25 @@ func (df *DataFrame) SplitNView(n int) []*DataFrame {
   if n == 0 {
     return nil
   }
-  if n == 1 || df.NumRows() == 0 {
-    return []*DataFrame{df.View()}
-  }
   // batchSize for the first n-1 batches
   nRows := df.NumRows()
   batchSize := nRows / n
   if nRows % n != 0 {
     batchSize++
   }
-  result := df.SplitView(batchSize)
-  missing := n - len(result)
-  if missing > 0 {  // expected to happen when batchSize = 1
-    // fill up the rest with empty DataFrames
-    emptyDF := EmptyDataFrame(0, df.maxCPU)
-    emptyDFs := make([]*DataFrame, missing)
-    for i := 0; i < missing; i++ {
-      emptyDFs[i] = emptyDF
+  // if there aren't enough rows, the last dataframes are empty
+  result := make([]*DataFrame, n)
+  for i := range result {
+    start := i * batchSize
+    if start > nRows {
+      start = nRows
+    }
+    end := start + batchSize
+    if end > nRows {
+      end = nRows
     }
-    result = append(result, emptyDFs...)
+    result[i] = df.View()
+    result[i].cut(start, end)
   }
   return result
 }
-- 
2.43.0


From 355bbd97f6d7f064518bc1d124b131a0ad29491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:03 +0000
Subject: [PATCH 10/50] fix: CSV writing loses the errors of the last flush and
 of closing the files

---
 dataframe/csv_writing.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/dataframe/csv_writing.go b/dataframe/csv_writing.go
index fe3b4b3..3fa9443 100644
--- a/dataframe/csv_writing.go
+++ b/dataframe/csv_writing.go
@@ -39,7 +39,6 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
     writer.Comma = options.Comma
   }
   writer.UseCRLF = options.UseCRLF
-  defer writer.Flush()
   // this minimize the cache-misses
   df = df.sortIfNeeded(options)
 
@@ -105,7 +104,8 @@ func (df *DataFrame) To1CSV(r io.Writer, options CSVWritingSpec) error {
       return err
     }
   }
-  return nil
+  writer.Flush()
+  return writer.Error()
 }
 
 func (df *DataFrame) threadedTo1CSV(w io.Writer, err []error, opt CSVWritingSpec, wg *sync.WaitGroup) {
@@ -148,15 +148,27 @@ func (df *DataFrame) ToCSVs(writers []io.Writer, options CSVWritingSpec) error {
 // It also forwards any error raised by golang's builtin CSV writer.
 func (df *DataFrame) ToCSVFiles(options CSVWritingSpec, paths ...string) error {
   writers := make([]io.Writer, len(paths))
+  files := make([]*os.File, len(paths))
   for i, path := range paths {
     f, err := os.Create(path)
-    defer f.Close()
     if err != nil {
+      for _, opened := range files[:i] {
+        opened.Close()
+      }
       return err
     }
+    files[i] = f
     writers[i] = f
   }
-  return df.ToCSVs(writers, options)
+  err := df.ToCSVs(writers, options)
+  // the data might not be fully written until the files are closed
+  for _, f := range files {
+    closeErr := f.Close()
+    if err == nil {
+      err = closeErr
+    }
+  }
+  return err
 }
 
 // ToCSVDir writes the dataframe in CSV format to files with the chosen prefix.
-- 
2.43.0


From 9502d3f5e8c71c76a7d064cd1c7ceaa0b80b7608 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:58 +0000
Subject: [PATCH 11/50] fix: reading CSV files with different columns by
 pattern corrupts the table

---
 dataframe/csv_parsing.go |  9 ++++++++-
 dataframe/raw_data.go    | 31 +++++++++++++++++++++++++++++++
 2 files changed, 39 insertions(+), 1 deletion(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index b10a88f..f5a270e 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -1,6 +1,7 @@
 package dataframe
 
 import (
+  "errors"
   "runtime"
   "encoding/csv"
   "math"
@@ -260,7 +261,8 @@ func FromCSVFile(path string, options CSVReadingSpec) (*RawData, error) {
 // pattern, reads them and returns a single RawData structure containing all the
 // data packed in an unordered fashion.
 // It returns any error returned by golang's builtin CSV reader.
-// It also returns an error if any of the matching file can't be opened.
+// It also returns an error if any of the matching file can't be opened, or if
+// the files don't share the same columns and the same inferred types.
 // If no file can be found, it returns (nil, nil).
 // For the type inference, refer to FromCSV's documentation.
 func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
@@ -319,6 +321,11 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
   if len(data) == 0 {
     data = empty[:1]
   }
+  for _, raw := range data[1:] {
+    if !raw.sameColumns(data[0]) {
+      return nil, errors.New("the CSV files don't have the same columns and types: " + glob)
+    }
+  }
   // concatenate everything
   result := MergeRawDataRows(data)
   result.SetMaxCPU(maxCPU)
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 1645ef5..f3f0c3e 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -429,6 +429,37 @@ func MergeRawDataRows(list []*RawData) *RawData {
   return result
 }
 
+// sameColumns returns true if the two structures have the same columns with the
+// same types.
+func (data *RawData) sameColumns(other *RawData) bool {
+  if len(data.floats) != len(other.floats) || len(data.bools) != len(other.bools) ||
+     len(data.ints) != len(other.ints) || len(data.objects) != len(other.objects) ||
+     data.stringHeader.Num() != other.stringHeader.Num() {
+    return false
+  }
+  for col := range data.floats {
+    if _, ok := other.floats[col]; !ok {
+      return false
+    }
+  }
+  for col := range data.bools {
+    if _, ok := other.bools[col]; !ok {
+      return false
+    }
+  }
+  for col := range data.ints {
+    if _, ok := other.ints[col]; !ok {
+      return false
+    }
+  }
+  for col := range data.objects {
+    if _, ok := other.objects[col]; !ok {
+      return false
+    }
+  }
+  return true
+}
+
 // IntToFloats converts integer columns into float columns.
 // Note that this runs as at a view-free level since it wouldn't make sense to
 // convert only parts of dataframe's column, given that mixed types are not
-- 
2.43.0


From 3132c2c2d0a18b8c25220ced6d140e1c422ce21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:28 +0000
Subject: [PATCH 12/50] fix: dropping columns or adding string columns on a
 view must not change other frames

---
 dataframe/raw_data.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index f3f0c3e..467e46b 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -229,6 +229,9 @@ func (data *RawData) Drop(columns ...string) {
   if len(columns) == 0 {
     return
   }
+  if data.sharedMaps {
+    data.reallocateMaps()
+  }
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
@@ -517,6 +520,7 @@ func (data *RawData) reallocateMaps() {
   data.ints = tmp.ints
   data.floats = tmp.floats
   data.objects = tmp.objects
+  data.stringHeader = tmp.stringHeader
   data.shared = tmp.shared  // all columns
   data.sharedMaps = false
 }
@@ -529,6 +533,7 @@ func (data *RawData) allocateEmptyMaps() {
   data.dataUID = generateDataUID()
   data.sharedMaps = false
   data.stringHeader = ColumnHeader{}
+  data.shared = ColumnHeader{}
   data.resetStructureUID()
 }
 
-- 
2.43.0


From 8fe9074542fb55cf7d6a1a3f07fbf41dbfffc1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 13/50] fix: adding, dropping or renaming columns of a frame
 must not change the views made before

---
 dataframe/dataframe.go |  1 +
 dataframe/raw_data.go  | 59 ++++++++++++++++++++++++------------------
 dataframe/view.go      |  4 +++
 3 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index 434f9b2..da2ed63 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -26,6 +26,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   result.floats = make(map[string][]float64)
   result.bools = make(map[string][]bool)
   result.ints = make(map[string][]int)
+  result.viewedMaps = new(int32)
   result.maxCPU = maxCPU
   result.dataUID = generateDataUID()
   result.resetStructureUID()
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 467e46b..9ec0cd4 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -6,6 +6,7 @@ import (
   "strings"
   "strconv"
   "math/rand"
+  "sync/atomic"
   "golang.org/x/text/encoding"
   "github.com/rom1mouret/ml-essentials/utils"
 )
@@ -25,6 +26,9 @@ type RawData struct {
   // whether the maps objects are entirely shared
   // (not only the column data)
   sharedMaps bool
+  // whether other structures use the maps of this one (0: no, 1: yes).
+  // Frames may be viewed concurrently, hence the atomic accesses.
+  viewedMaps *int32
   // nil if UTF-8
   textEncoding encoding.Encoding
   // maximum number of CPUs utilized to perform operations
@@ -137,6 +141,7 @@ func (data *RawData) ToDataFrame() *DataFrame {
   result.ints = data.ints
   result.maxCPU = data.maxCPU
   result.stringHeader = data.stringHeader
+  result.viewedMaps = new(int32)
   result.mask = make([]bool, nRows)
   result.indices = utils.MakeRange(0, nRows, 1)
   result.dataUID = data.dataUID
@@ -229,9 +234,7 @@ func (data *RawData) Drop(columns ...string) {
   if len(columns) == 0 {
     return
   }
-  if data.sharedMaps {
-    data.reallocateMaps()
-  }
+  data.ownMaps()
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
@@ -248,9 +251,7 @@ func (data *RawData) Drop(columns ...string) {
 //  df.View().Rename("apples", "oranges").Ints("oranges").Set(0, 42)
 // It will change df's number of apples to 42 at index=0.
 func (data *RawData) Rename(oldName string, newName string) {
-  if data.sharedMaps {
-    data.reallocateMaps()
-  }
+  data.ownMaps()
   if vals, ok := data.floats[oldName]; ok {
     data.floats[newName] = vals
     delete(data.floats, oldName)
@@ -278,8 +279,8 @@ func (data *RawData) Rename(oldName string, newName string) {
 
 // AllocInts allocates new empty integer columns.
 func (data *RawData) AllocInts(columns ...string) {
-  if data.sharedMaps && len(columns) > 0 {
-    data.reallocateMaps()
+  if len(columns) > 0 {
+    data.ownMaps()
   }
   nRows := data.NumAllocatedRows()
   for _, col := range columns {
@@ -289,8 +290,8 @@ func (data *RawData) AllocInts(columns ...string) {
 
 // AllocFloats allocates new empty float columns.
 func (data *RawData) AllocFloats(columns ...string) {
-  if data.sharedMaps && len(columns) > 0 {
-    data.reallocateMaps()
+  if len(columns) > 0 {
+    data.ownMaps()
   }
   nRows := data.NumAllocatedRows()
   for _, col := range columns {
@@ -300,8 +301,8 @@ func (data *RawData) AllocFloats(columns ...string) {
 
 // AllocBools allocates new empty float columns.
 func (data *RawData) AllocBools(columns ...string) {
-  if data.sharedMaps && len(columns) > 0 {
-    data.reallocateMaps()
+  if len(columns) > 0 {
+    data.ownMaps()
   }
   nRows := data.NumAllocatedRows()
   for _, col := range columns {
@@ -311,8 +312,8 @@ func (data *RawData) AllocBools(columns ...string) {
 
 // AllocObjects allocates new empty object columns.
 func (data *RawData) AllocObjects(columns ...string) {
-  if data.sharedMaps && len(columns) > 0 {
-    data.reallocateMaps()
+  if len(columns) > 0 {
+    data.ownMaps()
   }
   nRows := data.NumAllocatedRows()
   for _, col := range columns {
@@ -322,8 +323,8 @@ func (data *RawData) AllocObjects(columns ...string) {
 
 // AllocStrings allocates new empty string columns.
 func (data *RawData) AllocStrings(columns ...string) {
-  if data.sharedMaps && len(columns) > 0 {
-    data.reallocateMaps()
+  if len(columns) > 0 {
+    data.ownMaps()
   }
   data.AllocObjects(columns...)
   for _, col := range columns {
@@ -337,9 +338,7 @@ func (data *RawData) AllocStrings(columns ...string) {
 // expect this function to exlusively transfer viewed data when it's called on a
 // dataframe.
 func (data *RawData) TransferRawDataFrom(from *RawData) {
-  if data.sharedMaps {
-    data.reallocateMaps()
-  }
+  data.ownMaps()
   if data.NumColumns() == 0 {
     data.dataUID = from.dataUID
   } else {
@@ -468,9 +467,7 @@ func (data *RawData) sameColumns(other *RawData) bool {
 // convert only parts of dataframe's column, given that mixed types are not
 // allowed for numerical columns.
 func (data *RawData) IntToFloats(columns...string) {
-  if data.sharedMaps {
-    data.reallocateMaps()
-  }
+  data.ownMaps()
   for _, col := range columns {
     olddata := data.ints[col]
     newdata := make([]float64, len(olddata))
@@ -487,9 +484,7 @@ func (data *RawData) IntToFloats(columns...string) {
 // convert only parts of dataframe's column, given that mixed types are not
 // allowed for numerical columns.
 func (data *RawData) BoolToFloats(columns...string) {
-  if data.sharedMaps {
-    data.reallocateMaps()
-  }
+  data.ownMaps()
   for _, col := range columns {
     olddata := data.bools[col]
     newdata := make([]float64, len(olddata))
@@ -523,6 +518,19 @@ func (data *RawData) reallocateMaps() {
   data.stringHeader = tmp.stringHeader
   data.shared = tmp.shared  // all columns
   data.sharedMaps = false
+  data.viewedMaps = new(int32)
+}
+
+// ownMaps makes sure that adding or removing columns doesn't affect any other
+// structure, neither the parent nor the views.
+func (data *RawData) ownMaps() {
+  if data.sharedMaps {
+    data.reallocateMaps()
+  } else if data.viewedMaps != nil && atomic.LoadInt32(data.viewedMaps) != 0 {
+    shared := data.shared.Copy() // the columns are still not from a parent
+    data.reallocateMaps()
+    data.shared = shared
+  }
 }
 
 func (data *RawData) allocateEmptyMaps() {
@@ -532,6 +540,7 @@ func (data *RawData) allocateEmptyMaps() {
   data.ints = make(map[string][]int)
   data.dataUID = generateDataUID()
   data.sharedMaps = false
+  data.viewedMaps = new(int32)
   data.stringHeader = ColumnHeader{}
   data.shared = ColumnHeader{}
   data.resetStructureUID()
diff --git a/dataframe/view.go b/dataframe/view.go
index a25eef8..2ef7c1b 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -4,6 +4,7 @@ import (
   "fmt"
   "sort"
   "math/rand"
+  "sync/atomic"
   "hash/fnv"
   "github.com/rom1mouret/ml-essentials/utils"
 )
@@ -407,6 +408,9 @@ func (df *DataFrame) DetachedView(columns ...string) *DataFrame {
 //  view := df.View()
 //  view.AllocateFloats("height")
 func (df *DataFrame) View() *DataFrame {
+  if df.viewedMaps != nil && atomic.LoadInt32(df.viewedMaps) == 0 {
+    atomic.StoreInt32(df.viewedMaps, 1)
+  }
   result := *df
   result.sharedMaps = true
 
-- 
2.43.0


From eb96ddec83e31bae2f29c17ffc7b30023c628d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:29 +0000
Subject: [PATCH 14/50] fix: frames without columns forget their number of rows

---
 dataframe/dataframe.go | 2 ++
 dataframe/inplace.go   | 1 +
 dataframe/raw_data.go  | 5 ++++-
 dataframe/view.go      | 1 +
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index da2ed63..d4ec4c5 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -33,6 +33,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   // stringHeader is not pre-allocated
 
   if nRows > 0 {
+    result.nRows = nRows
     result.mask = make([]bool, nRows)
     result.indices = utils.MakeRange(0, nRows, 1)
   }
@@ -115,6 +116,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   result.mask = df.mask
   result.indexViewed = df.indexViewed
   result.TransferRawDataFrom(&df.RawData)
+  result.nRows = df.NumAllocatedRows()
   result.debugPrint("ShallowCopy() returns")
 
   return result
diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 334bb1d..038501b 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -221,6 +221,7 @@ func (df *DataFrame) cut(from int, to int) *DataFrame {
       df.reallocateMaps()
     }
     df.indices = df.indices[:to - from]  // same as range(0, to-from)
+    df.nRows = to - from
     for col, vals := range df.floats {
       df.floats[col] = vals[from:to]
       df.shared.add(col)
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 9ec0cd4..7dc3d98 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -34,6 +34,8 @@ type RawData struct {
   // maximum number of CPUs utilized to perform operations
   // if MaxCPU <= 0 => MaxCPU = runtime.NumCPU()
   maxCPU int
+  // number of rows if there is no column
+  nRows int
   // for debugging
   structureUID uint16
   dataUID uint64
@@ -102,7 +104,7 @@ func (data *RawData) NumAllocatedRows() int {
   for _, vals := range data.bools {
     return len(vals)
   }
-  return 0
+  return data.nRows
 }
 
 // ToDataFrame upgrades the RawData structure to a DataFrame.
@@ -235,6 +237,7 @@ func (data *RawData) Drop(columns ...string) {
     return
   }
   data.ownMaps()
+  data.nRows = data.NumAllocatedRows()
   for _, col := range columns {
     data.shared.remove(col)
     data.stringHeader.remove(col)
diff --git a/dataframe/view.go b/dataframe/view.go
index 2ef7c1b..440e0f4 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -95,6 +95,7 @@ func (df *DataFrame) ColumnView(columns ...string) *DataFrame {
   result := df.View()
   result.allocateEmptyMaps()
   result.dataUID = df.dataUID
+  result.nRows = df.NumAllocatedRows()
 
   // set of column to select
   colSet := utils.ToStringSet(columns)
-- 
2.43.0


From 1496b2252de6390c6fd377710375df52b620ffc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:30 +0000
Subject: [PATCH 15/50] fix: HashStringsView on a frame that has only the
 hashed columns

---
 dataframe/view.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 440e0f4..a22e512 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -364,13 +364,10 @@ func (df *DataFrame) HashStringsView(columns ...string) *DataFrame {
   if len(columns) == 0 {
     return df.View()
   }
-  // allocate the new columns and exclude the string columns
-  otherColumns := df.Header().Except(columns...).NameList()
-  result := df.ColumnView(otherColumns...)
-  nRows := df.NumAllocatedRows()
-  for _, colName := range columns {
-    result.ints[colName] = make([]int, nRows)
-  }
+  // exclude the string columns and allocate the new columns
+  result := df.View()
+  result.Drop(columns...)
+  result.AllocInts(columns...)
   if len(columns) == df.NumColumns() {
     result.dataUID = generateDataUID()
   } else if len(columns) > 0 {
-- 
2.43.0


From af5e8772e9602a2244cc726a9dd9410d2dc31b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 16/50] fix: EmptyDataFrame must interpret the CPU limit like
 SetMaxCPU (workers never start with a limit of 0)

---
 dataframe/dataframe.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index d4ec4c5..ac488fd 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -27,7 +27,7 @@ func EmptyDataFrame(nRows int, maxCPU int) *DataFrame {
   result.bools = make(map[string][]bool)
   result.ints = make(map[string][]int)
   result.viewedMaps = new(int32)
-  result.maxCPU = maxCPU
+  result.SetMaxCPU(maxCPU)
   result.dataUID = generateDataUID()
   result.resetStructureUID()
   // stringHeader is not pre-allocated
-- 
2.43.0


From da2ea751bc4ce45da0b9b376d3674e4b3766ee92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:39 +0000
Subject: [PATCH 17/50] fix: renaming a column to its own name deletes it

---
 dataframe/raw_data.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 7dc3d98..6e562c0 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -256,21 +256,21 @@ func (data *RawData) Drop(columns ...string) {
 func (data *RawData) Rename(oldName string, newName string) {
   data.ownMaps()
   if vals, ok := data.floats[oldName]; ok {
-    data.floats[newName] = vals
     delete(data.floats, oldName)
+    data.floats[newName] = vals
   } else if vals, ok := data.objects[oldName]; ok {
-    data.objects[newName] = vals
     delete(data.objects, oldName)
+    data.objects[newName] = vals
     if data.stringHeader.contains(oldName) {
       data.stringHeader.remove(oldName)
       data.stringHeader.add(newName)
     }
   } else if vals, ok := data.ints[oldName]; ok {
-    data.ints[newName] = vals
     delete(data.ints, oldName)
+    data.ints[newName] = vals
   } else if vals, ok := data.bools[oldName]; ok {
-    data.bools[newName] = vals
     delete(data.bools, oldName)
+    data.bools[newName] = vals
   } else {
     panic(fmt.Sprintf("%s is not a column", oldName))
   }
-- 
2.43.0


From b8a2892e98b663f21cb929bb40f3c628c5a9ce6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:58 +0000
Subject: [PATCH 18/50] fix: TopView must return a view, not the dataframe
 itself

---
 dataframe/view.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index a22e512..73b417f 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -295,7 +295,7 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
 func (df *DataFrame) TopView(byColumn string, n int, ascending bool, sorted bool) *DataFrame {
   if n >= len(df.indices) {
     if !sorted {
-      return df
+      return df.View()
     } else {
       n = len(df.indices)
     }
-- 
2.43.0


From 37f19b84c652f844b5f93ca443bde186ba5bbe74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:59 +0000
Subject: [PATCH 19/50] fix: RowConcat silently drops the columns that the
 first dataframe doesn't have

---
 dataframe/concat.go   | 5 ++++-
 dataframe/raw_data.go | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index f81064c..8232602 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -16,8 +16,11 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   }
   // total number of rows
   nRows := 0
-  for _, df := range dfs {
+  for k, df := range dfs {
     nRows += df.NumRows()
+    if !dfs[0].sameColumns(&df.RawData) {
+      return nil, fmt.Errorf("the columns of the %dth dataframe differ from those of the first dataframe", k)
+    }
   }
   // allocation
   result := EmptyDataFrame(nRows, dfs[0].maxCPU)
diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index 6e562c0..d6d67cc 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -461,6 +461,9 @@ func (data *RawData) sameColumns(other *RawData) bool {
     if _, ok := other.objects[col]; !ok {
       return false
     }
+    if data.stringHeader.contains(col) != other.stringHeader.contains(col) {
+      return false
+    }
   }
   return true
 }
-- 
2.43.0


From 1635f0ee693433289b1eacab554ec5b95c923407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:49 +0000
Subject: [PATCH 20/50] fix: NaNs must not disturb the order of the other rows
 in SortedView and TopView

---
 dataframe/view.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataframe/view.go b/dataframe/view.go
index 73b417f..4c92be3 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -2,6 +2,7 @@ package dataframe
 
 import (
   "fmt"
+  "math"
   "sort"
   "math/rand"
   "sync/atomic"
@@ -248,6 +249,7 @@ func (df *DataFrame) SplitTrainTestViews(testingRatio float64) (*DataFrame, *Dat
 // The column can either be a float, an int or a bool column.
 // It will panic if the given column is neither of those.
 // Missing values in integer columns will be treated as '-1'.
+// Missing values in float columns (NaN) come first.
 // If called on a bool column, it will put false values first.
 // To sort in descending order, call SortedView(byColumn).ReverseView().
 func (df *DataFrame) SortedView(byColumn string) *DataFrame {
@@ -268,6 +270,10 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
     if vals, ok := df.floats[byColumn]; ok {
       for j, i := range df.indices {
         cpy[j] = vals[i]
+        if math.IsNaN(cpy[j]) {
+          // NaNs cannot be compared so they would disturb the sorting
+          cpy[j] = math.Inf(-1)
+        }
       }
     } else if vals, ok := df.ints[byColumn]; ok {
       for j, i := range df.indices {
-- 
2.43.0


From 5518e50e7ad0f5765b762b87d32a737ddbd2ce0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:50 +0000
Subject: [PATCH 21/50] fix: concatenating the columns of no dataframe must
 return an error like RowConcat

---
 dataframe/concat.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 8232602..f884e3d 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -110,6 +110,9 @@ func ColumnSmartConcat(dfs ...*DataFrame) (*DataFrame, error) {
 // so changing the input dataframes will also change the returned dataframe.
 // Numpy equivalent: concat(dfs, axis=1)
 func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
+  if len(dfs) == 0 {
+    return nil, fmt.Errorf("ColumnConcatView requires at least one dataframe")
+  }
   err := CheckNoColumnOverlap(dfs)
   if err != nil {
     return nil, err
@@ -162,6 +165,9 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
 // so the returned dataframe is safe to change.
 // Numpy equivalent: concat(dfs, axis=1)
 func ColumnCopyConcat(dfs ...*DataFrame) (*DataFrame, error) {
+  if len(dfs) == 0 {
+    return nil, fmt.Errorf("ColumnCopyConcat requires at least one dataframe")
+  }
   // check the number of rows match
   ref := dfs[0].NumRows()
   for _, df := range dfs[1:] {
-- 
2.43.0


From f300dffff189a8b8d690d398d6b39ed4debac16b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 22/50] fix: SortedView and TopView must not confuse large
 integers

---
 dataframe/view.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 4c92be3..b77b581 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -265,6 +265,12 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
       }
     }
     indices = append(first, last...)
+  } else if vals, ok := df.ints[byColumn]; ok {
+    // no conversion to floats because they cannot represent all the integers
+    indices = utils.MakeRange(0, len(df.indices), 1)
+    sort.Slice(indices, func(a, b int) bool {
+      return vals[df.indices[indices[a]]] < vals[df.indices[indices[b]]]
+    })
   } else {
     cpy := make([]float64, len(df.indices))
     if vals, ok := df.floats[byColumn]; ok {
@@ -275,10 +281,6 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
           cpy[j] = math.Inf(-1)
         }
       }
-    } else if vals, ok := df.ints[byColumn]; ok {
-      for j, i := range df.indices {
-        cpy[j] = float64(vals[i])
-      }
     } else {
       panic(fmt.Sprintf("column %s is not a float/int/bool column", byColumn))
     }
-- 
2.43.0


From b2c7a0e82a2f18e0c53aa875b878eb2dddf71c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:14 +0000
Subject: [PATCH 23/50] fix: column-wise concatenation loses string marks

---
 dataframe/concat.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index f884e3d..cd33837 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -152,7 +152,7 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
       result.bools[col] = values
       result.shared.add(col)
     }
-    result.stringHeader.And(df.stringHeader)
+    result.stringHeader = result.stringHeader.And(df.stringHeader)
   }
   return result, nil
 }
-- 
2.43.0


From baf1a6f4ece87aab90724047a5b4055e10eb72ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:10 +0000
Subject: [PATCH 24/50] fix: ColumnConcatView must check the number of rows
 even if no dataframe is a view

---
 dataframe/concat.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index cd33837..b9aab79 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -118,6 +118,12 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
     return nil, err
   }
   // check that all the indices match
+  for _, df := range dfs[1:] {
+    if len(df.indices) != len(dfs[0].indices) {
+      return nil, fmt.Errorf("cannot col-wise concatenate df(rows=%d) with df(rows=%d)",
+                             len(dfs[0].indices), len(df.indices))
+    }
+  }
   views := false
   for _, df := range dfs {
     if df.indexViewed {
-- 
2.43.0


From 08605672c0129d2f31b9577102fd9c45320a78cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 25/50] fix: ColumnConcatView misaligns rows if the checksums
 of their indices are equal

---
 dataframe/concat.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index b9aab79..4bdc395 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -2,7 +2,6 @@ package dataframe
 
 import (
    "fmt"
-   "github.com/rom1mouret/ml-essentials/utils"
 )
 
 // RowConcat concatenates the rows of the given dataframes.
@@ -132,10 +131,11 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
     }
   }
   if views {
-    ref := utils.HashIntSlice(dfs[0].indices)
     for _, df := range dfs[1:] {
-      if utils.HashIntSlice(df.indices) != ref {
-        return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
+      for j, index := range dfs[0].indices {
+        if df.indices[j] != index {
+          return nil, fmt.Errorf("index mistmatch between dataframes. Use ColumnConcat instead")
+        }
       }
     }
   }
-- 
2.43.0


From ff39d1e7aa8066c526fbb6e2a1caa4786db27623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:30 +0000
Subject: [PATCH 26/50] fix: ColumnConcatView of a dataframe with a larger view
 must be treated as a view

---
 dataframe/concat.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 4bdc395..8dcf959 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -141,6 +141,7 @@ func ColumnConcatView(dfs ...*DataFrame) (*DataFrame, error) {
   }
   // merge in a shallow way
   result := dfs[0].ShallowCopy()
+  result.indexViewed = views
   for _, df := range dfs[1:] {
     for col, values := range df.floats {
       result.floats[col] = values
-- 
2.43.0


From e331ccd5b725509520714e9d4ced9e64278f1105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:24 +0000
Subject: [PATCH 27/50] fix: Scaler must not magnify the rounding error of the
 mean of constant columns, nor use the mean of no values

---
 preprocessing/scaler.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index ffacb23..97391b7 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -62,14 +62,26 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
       // TODO: bessell correction?
       mean := 0.0
       n := 0
+      first := 0.0
+      constant := true
       for i := 0; i < access.Size(); i++ {
         val := access.Get(i)
         if !math.IsNaN(val) {
+          if n == 0 {
+            first = val
+          } else if val != first {
+            constant = false
+          }
           mean += val
           n++
         }
       }
-      mean /= float64(n)
+      if constant {
+        // no rounding, so that the deviations are exactly zero
+        mean = first
+      } else {
+        mean /= float64(n)
+      }
       if opt.Centering {
         shift := -mean
         result.shift = &shift
-- 
2.43.0


From f0b4db85a0a0f57c1fc0838fa8003b5a8f4e5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:35 +0000
Subject: [PATCH 28/50] fix: MinMax scaling must divide by the range

---
 preprocessing/scaler.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index 97391b7..ec58f0f 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -55,7 +55,13 @@ func workerFits(df *dataframe.DataFrame, opt ScalerOptions, q utils.StringQ) {
         }
       }
       shift := -min
-      scale := max - min
+      scale := 1.0
+      if max > min {
+        scale = 1 / (max - min)
+      } else if max < min {
+        // no value
+        shift = 0
+      }
       result.shift = &shift
       result.scale = &scale
     } else if opt.Scaling || opt.Centering {
-- 
2.43.0


From 58447a5d9c7ad018d978a1b20590d866de8681c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:45 +0000
Subject: [PATCH 29/50] fix: FloatImputer must impute columns that have no
 value in the training data

---
 preprocessing/float_imputer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/preprocessing/float_imputer.go b/preprocessing/float_imputer.go
index 978ce68..d252b8c 100644
--- a/preprocessing/float_imputer.go
+++ b/preprocessing/float_imputer.go
@@ -60,7 +60,10 @@ func (imputer *FloatImputer) workerFits(df *dataframe.DataFrame, q utils.StringQ
         n++
       }
     }
-    fallback := sum / float64(n)
+    fallback := 0.0
+    if n > 0 {
+      fallback = sum / float64(n)
+    }
     defer q.Notify(utils.ProcessedJob{Key: col, Result: &fallback})
   }
 }
-- 
2.43.0


From 9f5feebc392595d70b670099c0e046e34f426bd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:10 +0000
Subject: [PATCH 30/50] fix: Scaler must transform the rows repeated by a view
 only once

---
 preprocessing/scaler.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/preprocessing/scaler.go b/preprocessing/scaler.go
index ec58f0f..592c3e8 100644
--- a/preprocessing/scaler.go
+++ b/preprocessing/scaler.go
@@ -141,7 +141,19 @@ func (scaler *Scaler) workerTransforms(df *dataframe.DataFrame, q utils.StringQ)
       scale = 1  // default scale
     }
     access := df.Floats(col)
+    var done []bool
+    if df.AreIndicesAltered() {
+      // the same row can be repeated
+      done = make([]bool, df.NumAllocatedRows())
+    }
     for i := 0; i < access.Size(); i++ {
+      if done != nil {
+        index := access.SharedIndex(i)
+        if done[index] {
+          continue
+        }
+        done[index] = true
+      }
       access.Set(i, (access.Get(i) + shift) * scale)
     }
   }
-- 
2.43.0


From 97f579168cc673375bbb54594795ad1f9e4b59dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:45 +0000
Subject: [PATCH 31/50] fix: OneHotEncoder must not panic if a column has no
 category to impute with

---
 preprocessing/one_hot.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 37d54ae..f4de2dd 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -86,7 +86,7 @@ func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.String
     }
     fallback := encoder.Fallback[col]
     if opt.MissingPolicy == SeparateCategoryIfSeen {
-      if missingSeen {
+      if missingSeen || len(freqs) == 0 { // nothing to impute with
         fallback[0] = fmt.Sprintf("%s_missing", col)
       } else {
         fallback[0] = categoryToNewCol[mostCommon]
@@ -140,14 +140,14 @@ func (encoder *OneHotEncoder) Fit(df *dataframe.DataFrame) error {
     if len(fallback1) > 0 {
       newCols[fallback1] = true
     } else if encoder.Options.MissingPolicy != ReturnError {
-      panic("fallback value missing for missing categories")
+      return fmt.Errorf("no category to replace missing categories with")
     }
     if len(fallback2) > 0 {
        if fallback2 != fallback1 {
          newCols[fallback2] = true
        }
     } else if encoder.Options.UnknownPolicy != ReturnError {
-      panic("fallback value missing for unknown categories")
+      return fmt.Errorf("no category to replace unknown categories with")
     }
   }
   encoder.NewColumns = make([]string, len(newCols))
-- 
2.43.0


From f386953e232ce5fdb8d4d60aef23b019cd42a5da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:50 +0000
Subject: [PATCH 32/50] fix: OneHotEncoder must not share a category with the
 ReturnError policy

---
 preprocessing/one_hot.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index f4de2dd..90dccca 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -229,6 +229,12 @@ func (encoder *OneHotEncoder) TransformedColumns() []string {
 }
 
 func (opt* OneHotOptions) fix() {
+  // a category cannot be shared with a policy that has none
+  if opt.MissingPolicy == ReturnError && opt.UnknownPolicy == SharedSeparateCategory {
+    opt.UnknownPolicy = SeparateCategory
+  } else if opt.MissingPolicy == SharedSeparateCategory && opt.UnknownPolicy == ReturnError {
+    opt.MissingPolicy = SeparateCategory
+  }
   // make sure MissingPolicy == Shared never happen
   if opt.MissingPolicy == SharedSeparateCategory {
     if opt.UnknownPolicy != SharedSeparateCategory {
-- 
2.43.0


From 0c41fe0d4035e700a73108433268c0d22e4fcd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:41 +0000
Subject: [PATCH 33/50] fix: AutoPreprocessor.TransformedColumns must not use
 components that are turned off

---
 preprocessing/auto_preprocessor.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index cb58328..e36566d 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -38,8 +38,17 @@ func NewAutoPreprocessor(opt AutoPreprocOptions) *AutoPreprocessor {
 
 // TransformedColumns implements PreprocTraining and Transform interfaces.
 func (preproc *AutoPreprocessor) TransformedColumns() []string {
-  cols := preproc.Imputer.TransformedColumns()  // can be safely changed
-  cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  var cols []string  // the lists of the components can be safely changed
+  if preproc.Imputer != nil {
+    cols = preproc.Imputer.TransformedColumns()
+  } else if preproc.Scaler != nil {
+    cols = preproc.Scaler.TransformedColumns()
+  }
+  if preproc.StringToInt != nil {
+    cols = append(cols, preproc.StringToInt.TransformedColumns()...)
+  } else if preproc.IntToBool != nil {
+    cols = append(cols, preproc.IntToBool.TransformedColumns()...)
+  }
   return cols
 }
 
-- 
2.43.0


From e70d898e6ba9983336c488686b938690cd53dfbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:46 +0000
Subject: [PATCH 34/50] fix: AutoPreprocessor.FitTransform must not use
 components that are turned off

---
 preprocessing/auto_preprocessor.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index e36566d..a142fa6 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -139,8 +139,12 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   start := time.Now()
   df = df.View()
   df.Unshare(floatCols...) // unshare() make it safe for in-place modifications
-  preproc.Imputer.TransformInplace(df)
-  preproc.Scaler.TransformInplace(df)
+  if preproc.Imputer != nil {
+    preproc.Imputer.TransformInplace(df)
+  }
+  if preproc.Scaler != nil {
+    preproc.Scaler.TransformInplace(df)
+  }
   if opt.Verbose {
     log.Printf("running Imputer+Scaler took %s with cpu=%d",
                time.Since(start), df.ActualMaxCPU())
-- 
2.43.0


From f5cc9479a605cfe44949ecdd4ddceea8a6a1155b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:50 +0000
Subject: [PATCH 35/50] fix: AutoPreprocessor must not encode the excluded
 columns

---
 preprocessing/auto_preprocessor.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index a142fa6..d1f5d50 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -94,10 +94,11 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   }
   // category encoding
   var categorical []string
-  if df.StringHeader().Num() > 0 {
+  stringCols := df.StringHeader().Except(opt.Exclude...).NameList()
+  if len(stringCols) > 0 {
     start := time.Now()
     preproc.StringToInt = NewHashEncoder(HashEncoderOptions{})
-    preproc.StringToInt.Fit(df)
+    preproc.StringToInt.Fit(df.ColumnView(stringCols...))
     view, err := preproc.StringToInt.TransformView(df)
     df = view
     if err != nil {
@@ -108,7 +109,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
       log.Printf("running Hash Encoder took %s with cpu=%d", time.Since(start), df.ActualMaxCPU())
     }
   } else {
-    categorical = df.IntHeader().NameList()
+    categorical = df.IntHeader().Except(opt.Exclude...).NameList()
   }
   if len(categorical) > 0 {
     start := time.Now()
-- 
2.43.0


From c3db767cc73c42201aabbb876c69fdf6677e2093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:54 +0000
Subject: [PATCH 36/50] fix: AutoPreprocessor must forget the previous training

---
 preprocessing/auto_preprocessor.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index d1f5d50..be632ea 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -75,6 +75,11 @@ func (preproc *AutoPreprocessor) FitTransform(df *dataframe.DataFrame) *datafram
 
 func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*dataframe.DataFrame, error) {
   opt := preproc.options
+  // forget the previous training
+  preproc.StringToInt = nil
+  preproc.IntToBool = nil
+  preproc.Imputer = nil
+  preproc.Scaler = nil
   floatCols := df.FloatHeader().Except(opt.Exclude...).NameList()
   if opt.Imputing || opt.Scaling {
     start := time.Now()
-- 
2.43.0


From b675ffdaf3b334844223448b68a5ace836c8d27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:59 +0000
Subject: [PATCH 37/50] fix: AutoPreprocessor must not scale or impute excluded
 columns if there is no other float column

---
 preprocessing/auto_preprocessor.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index be632ea..7a2dafe 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -81,7 +81,8 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
   preproc.Imputer = nil
   preproc.Scaler = nil
   floatCols := df.FloatHeader().Except(opt.Exclude...).NameList()
-  if opt.Imputing || opt.Scaling {
+  // ColumnView() would return all the columns if there was no column to select
+  if (opt.Imputing || opt.Scaling) && len(floatCols) > 0 {
     start := time.Now()
     floatsOnly := df.ColumnView(floatCols...)
     if opt.Imputing {
-- 
2.43.0


From ffd38adff8d7512bef645fd7c7f869e10cf78d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:05 +0000
Subject: [PATCH 38/50] fix: Dense64Batching must grow its buffer to the size
 of the matrix

---
 dataframe/dense_gonum_batching.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dataframe/dense_gonum_batching.go b/dataframe/dense_gonum_batching.go
index 4146ba8..4a40098 100644
--- a/dataframe/dense_gonum_batching.go
+++ b/dataframe/dense_gonum_batching.go
@@ -35,7 +35,7 @@ func (bat *Dense64Batching) DenseMatrix(df *DataFrame) mat.Matrix {
   // allocate more data if necessary
   dim := len(bat.columns)
   nRows := df.NumRows()
-  missing := dim * (nRows - len(bat.data))
+  missing := dim * nRows - len(bat.data)
   if missing > 0 {
     bat.data = append(bat.data, make([]float64, missing)...)
   }
-- 
2.43.0


From c76e67fd78510823159af5cfd451f02a2b001388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:16 +0000
Subject: [PATCH 39/50] fix: copies and row concatenations must keep the text
 encoding

---
 dataframe/concat.go    | 1 +
 dataframe/dataframe.go | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/dataframe/concat.go b/dataframe/concat.go
index 8dcf959..da884c2 100644
--- a/dataframe/concat.go
+++ b/dataframe/concat.go
@@ -23,6 +23,7 @@ func RowConcat(dfs ...*DataFrame) (*DataFrame, error) {
   }
   // allocation
   result := EmptyDataFrame(nRows, dfs[0].maxCPU)
+  result.textEncoding = dfs[0].textEncoding
   for col := range dfs[0].floats {
     result.floats[col] = make([]float64, nRows)
   }
diff --git a/dataframe/dataframe.go b/dataframe/dataframe.go
index ac488fd..32054f7 100644
--- a/dataframe/dataframe.go
+++ b/dataframe/dataframe.go
@@ -115,6 +115,7 @@ func (df *DataFrame) ShallowCopy() *DataFrame {
   result.indices = df.indices
   result.mask = df.mask
   result.indexViewed = df.indexViewed
+  result.textEncoding = df.textEncoding
   result.TransferRawDataFrom(&df.RawData)
   result.nRows = df.NumAllocatedRows()
   result.debugPrint("ShallowCopy() returns")
@@ -132,6 +133,7 @@ func (df *DataFrame) Copy() *DataFrame {
   result.mThreadSafe = df.mThreadSafe
   result.debug = df.debug
   result.stringHeader = df.stringHeader.Copy()
+  result.textEncoding = df.textEncoding
 
   if df.indexViewed {
     for col, v := range df.objects {
-- 
2.43.0


From 2401eab532e64d62c5d82460a86340fd55f01196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:04 +0000
Subject: [PATCH 40/50] fix: Encode must be all or nothing and convert repeated
 rows once

---
 dataframe/inplace.go | 43 +++++++++++++++++++------------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/dataframe/inplace.go b/dataframe/inplace.go
index 038501b..4f19d2e 100644
--- a/dataframe/inplace.go
+++ b/dataframe/inplace.go
@@ -4,8 +4,10 @@ import (
   "golang.org/x/text/encoding"
 )
 
-func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
-                     encoder *encoding.Encoder) (error, int) {
+// convertEncoding returns the converted strings without changing the values.
+func convertEncoding(values []interface{}, indices []int, decoder *encoding.Decoder,
+                     encoder *encoding.Encoder) ([]interface{}, error) {
+  result := make([]interface{}, len(indices))
   for j, i := range indices {  // others are left to nil
     if values[i] != nil {
       var err error
@@ -14,21 +16,21 @@ func inplaceEncoding(values []interface{}, indices []int, decoder *encoding.Deco
       if decoder != nil {
         v, err = decoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 2. convert from UTF-8 to new encoding
       if encoder != nil {
         v, err = encoder.String(v)
         if err != nil {
-          return err, j
+          return nil, err
         }
       } // otherwise UTF-8
       // 3. set the new value
-      values[i] = v
+      result[j] = v
     }
   }
-  return nil, -1
+  return result, nil
 }
 
 // Encode changes the encoding of all all the string columns.
@@ -49,28 +51,21 @@ func (df *DataFrame) Encode(newEncoding encoding.Encoding) error {
   if newEncoding != nil {
     encoder = newEncoding.NewEncoder()
   }
+  // nothing is changed until we know that every string can be converted
   colNames := df.stringHeader.NameList()
-  for i, col := range colNames {
-    values := df.objects[col]
-    err, where := inplaceEncoding(values, df.indices, decoder, encoder)
+  converted := make([][]interface{}, len(colNames))
+  for k, col := range colNames {
+    values, err := convertEncoding(df.objects[col], df.indices, decoder, encoder)
     if err != nil {
-      // we need to revert our changes
-      if newEncoding == nil {
-        decoder = nil
-      } else {
-        decoder = newEncoding.NewDecoder()
-      }
-      if df.textEncoding == nil {
-        encoder = nil
-      } else {
-        encoder = df.textEncoding.NewEncoder()
-      }
-      inplaceEncoding(values, df.indices[:where], decoder, encoder)
-      for _, previous := range colNames[:i] {
-          inplaceEncoding(df.objects[previous], df.indices, decoder, encoder)
-      }
       return err
     }
+    converted[k] = values
+  }
+  for k, col := range colNames {
+    values := df.objects[col]
+    for j, i := range df.indices {
+      values[i] = converted[k][j]
+    }
   }
   df.textEncoding = newEncoding
 
-- 
2.43.0


From fee8a437927b64f5ef121de47b1215f6a4e035e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:05 +0000
Subject: [PATCH 41/50] fix: linear regression must accept dataframes without
 rows

---
 algorithms/linear_regression.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 8efb696..308df75 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -104,6 +104,9 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
     absErr := 0.0
     for _, batch := range batches {
       batchSize := batch.NumRows()
+      if batchSize == 0 {
+        continue  // gonum has no empty matrices
+      }
       diffVec := mat.NewVecDense(batchSize, diff[:batchSize])
       y := batch.Floats("_target").VecDense()
       rows := batching.DenseMatrix(batch)
@@ -158,6 +161,9 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
   // prediction
   batching := dataframe.NewDense64Batching(reg.Features)
   for i, batch := range df.SplitView(batchSize) {
+    if batch.NumRows() == 0 {
+      continue  // gonum has no empty matrices
+    }
     rows := batching.DenseMatrix(batch)
     offset := i * batchSize
     yData := pred[offset:offset+batch.NumRows()]
-- 
2.43.0


From c7b3eab78e82a016b138b442f787b10d527915f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:18 +0000
Subject: [PATCH 42/50] fix: LinearRegressor.Fit must use default values for
 hyper-parameters left to 0

---
 algorithms/linear_regression.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 308df75..4dc7b12 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -14,7 +14,8 @@ import (
 )
 
 // LinRegTrainParams contain hyper-parameters and other training options.
-// Epochs, LR and BatchSize will be set to default values if they are left to 0.
+// Epochs, LR and BatchSize will be set to default values if they are left to 0,
+// respectively 10, 0.001 and 64.
 type LinRegTrainParams struct {
   // Number of times the entire dataset iterated over.
   // The dataset is shuffled before each epoch.
@@ -55,6 +56,15 @@ func NewLinearRegressor() *LinearRegressor {
 // You need not shuffle the dataset prior to calling this function.
 func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
                                 params LinRegTrainParams) error {
+  if params.Epochs == 0 {
+    params.Epochs = 10
+  }
+  if params.LR == 0 {
+    params.LR = 0.001
+  }
+  if params.BatchSize == 0 {
+    params.BatchSize = 64
+  }
   // just to save some memory if we perform a copy below
   floatsAndBools := df.FloatHeader().And(df.BoolHeader())
   df = df.ColumnView(floatsAndBools.NameList()...)
-- 
2.43.0


From ecad190f7888160a9b65e0cdef07e22fb9a735d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:30 +0000
Subject: [PATCH 43/50] fix: Predict must keep the _target column and replace a
 result column of any type

---
 algorithms/linear_regression.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 4dc7b12..9e643cb 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -181,11 +181,20 @@ func (reg *LinearRegressor) Predict(df *dataframe.DataFrame, resultColumn string
     yVec.MulVec(rows, weights)
   }
 
+  // scale the predictions in a dataframe of their own, since the given
+  // dataframe can have a column named _target
+  target := dataframe.EmptyDataFrame(len(pred), df.ActualMaxCPU())
+  target.OverwriteFloats64("_target", pred)
+  reg.TargetScaler.InverseTransformInplace(target)
+  access := target.Floats("_target")
+  for i := range pred {
+    pred[i] = access.Get(i)
+  }
+
   // write the result in the dataframe
   result := df.View()
-  result.OverwriteFloats64("_target", pred)
-  reg.TargetScaler.InverseTransformInplace(result)
-  result.Rename("_target", resultColumn)
+  result.Drop(resultColumn)
+  result.OverwriteFloats64(resultColumn, pred)
 
   return result, nil
 }
-- 
2.43.0


From bd9e4f7fc02519dc82bf3d02269eab116ff847b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:16 +0000
Subject: [PATCH 44/50] fix: LinearRegressor.Fit must accept a feature named
 _target

---
 algorithms/linear_regression.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/algorithms/linear_regression.go b/algorithms/linear_regression.go
index 9e643cb..182d43a 100644
--- a/algorithms/linear_regression.go
+++ b/algorithms/linear_regression.go
@@ -69,15 +69,17 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
   floatsAndBools := df.FloatHeader().And(df.BoolHeader())
   df = df.ColumnView(floatsAndBools.NameList()...)
 
-  // copy the target to another column before scaling it in-place
+  // copy the target before scaling it in-place.
+  // The scaler knows the target as _target, which can be the name of a feature,
+  // so the column is renamed in a view of its own.
   start := time.Now()
   df = df.DetachedView(targetColumn)
-  df.Rename(targetColumn, "_target")
   opt := preprocessing.ScalerOptions{Centering: true, Scaling: true}
-  targetDF := df.ColumnView("_target")
+  targetDF := df.ColumnView(targetColumn)
+  targetDF.Rename(targetColumn, "_target")
   reg.TargetScaler = preprocessing.NewScaler(opt)
   reg.TargetScaler.Fit(targetDF)
-  reg.TargetScaler.TransformInplace(df)
+  reg.TargetScaler.TransformInplace(targetDF)
   if params.Verbose {
     log.Printf("training+running Target Scaler took: %s", time.Since(start))
   }
@@ -118,7 +120,7 @@ func (reg *LinearRegressor) Fit(df *dataframe.DataFrame, targetColumn string,
         continue  // gonum has no empty matrices
       }
       diffVec := mat.NewVecDense(batchSize, diff[:batchSize])
-      y := batch.Floats("_target").VecDense()
+      y := batch.Floats(targetColumn).VecDense()
       rows := batching.DenseMatrix(batch)
       // diff = rows x weights - y  [dim: batch size]
       diffVec.MulVec(rows, weights)
-- 
2.43.0


From 473d2c74f4756d47c9a1c980d608b6434891b29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 45/50] fix: extending the mask of a view must not write behind
 the mask of its parent

---
 dataframe/view.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index b77b581..19adea3 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -33,7 +33,10 @@ func (df *DataFrame) IndexView(indices []int) *DataFrame {
     // we extend the mask slice because it's smaller than NumRows
     // (a rare case)
     diff := len(indices) - len(df.indices)
-    result.mask = append(result.mask, make([]bool, diff)...)
+    // the capacity is limited because append() must not write behind the
+    // parent's mask, which other views might share
+    mask := result.mask[:len(result.mask):len(result.mask)]
+    result.mask = append(mask, make([]bool, diff)...)
   }
   result.indexViewed = true
 
-- 
2.43.0


From 9459249ba5e466408b8aff946c646d99ca414dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:56 +0000
Subject: [PATCH 46/50] fix: a CPU limit above the number of processors is no
 reason to read more files at once

---
 dataframe/csv_parsing.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dataframe/csv_parsing.go b/dataframe/csv_parsing.go
index f5a270e..10a87a9 100644
--- a/dataframe/csv_parsing.go
+++ b/dataframe/csv_parsing.go
@@ -291,8 +291,8 @@ func FromCSVFilePattern(glob string, options CSVReadingSpec) (*RawData, error) {
   }
   // file-wise multi-threading
   cpu := options.MaxCPU
-  if cpu <= 0 {
-    cpu = runtime.NumCPU()
+  if nCPU := runtime.NumCPU(); cpu <= 0 || cpu > nCPU {
+    cpu = nCPU
   }
   cpuPerFile := cpu / len(paths)
   if cpuPerFile == 0 {
-- 
2.43.0


From 14b6110ad50b090970ec8a5e982fe3951ad695cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 47/50] fix: AutoPreprocessor must not return the given
 dataframe itself when there is nothing to transform

---
 preprocessing/auto_preprocessor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index 7a2dafe..656c5ff 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -141,7 +141,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
       return nil, err
     }
   } else if !opt.Imputing && !opt.Scaling {
-    return df, nil
+    return df.View(), nil
   }
   start := time.Now()
   df = df.View()
@@ -169,6 +169,8 @@ func (preproc *AutoPreprocessor) TransformView(df *dataframe.DataFrame) (*datafr
     df = df.DetachedView(preproc.Imputer.TransformedColumns()...)
   } else if preproc.Scaler != nil {
     df = df.DetachedView(preproc.Scaler.TransformedColumns()...)
+  } else {
+    df = df.View()
   }
   // transformations
   if preproc.Imputer != nil {
-- 
2.43.0


From 4504b471ae2a428ca8c626eba04a711d11c49a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:29 +0000
Subject: [PATCH 48/50] fix: missing values come before -Inf in SortedView and
 TopView

---
 dataframe/view.go | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/dataframe/view.go b/dataframe/view.go
index 19adea3..53f7c10 100644
--- a/dataframe/view.go
+++ b/dataframe/view.go
@@ -275,19 +275,25 @@ func (df *DataFrame) SortedView(byColumn string) *DataFrame {
       return vals[df.indices[indices[a]]] < vals[df.indices[indices[b]]]
     })
   } else {
-    cpy := make([]float64, len(df.indices))
-    if vals, ok := df.floats[byColumn]; ok {
-      for j, i := range df.indices {
-        cpy[j] = vals[i]
-        if math.IsNaN(cpy[j]) {
-          // NaNs cannot be compared so they would disturb the sorting
-          cpy[j] = math.Inf(-1)
-        }
-      }
-    } else {
+    vals, ok := df.floats[byColumn]
+    if !ok {
       panic(fmt.Sprintf("column %s is not a float/int/bool column", byColumn))
     }
-    indices = utils.FloatArgSort(cpy, false) // readonly=false: ok to change cpy
+    // NaNs cannot be compared so they would disturb the sorting
+    indices = make([]int, 0, len(df.indices))
+    present := make([]int, 0, len(df.indices))
+    cpy := make([]float64, 0, len(df.indices))
+    for j, i := range df.indices {
+      if math.IsNaN(vals[i]) {
+        indices = append(indices, j)
+      } else {
+        present = append(present, j)
+        cpy = append(cpy, vals[i])
+      }
+    }
+    for _, k := range utils.FloatArgSort(cpy, false) { // readonly=false: ok to change cpy
+      indices = append(indices, present[k])
+    }
   }
   return df.IndexView(indices)
 }
-- 
2.43.0


From 14d65bd6abac5ba811ab9c4b05fbc6e5a37127ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:29 +0000
Subject: [PATCH 49/50] fix: Unshare replaced the columns of the views of the
 detached structure

Unshare changed the maps in place even if views of the structure still use
them, so values written through the detached columns reached those views.
---
 dataframe/raw_data.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/dataframe/raw_data.go b/dataframe/raw_data.go
index d6d67cc..d3ef169 100644
--- a/dataframe/raw_data.go
+++ b/dataframe/raw_data.go
@@ -187,9 +187,7 @@ func (data *RawData) Unshare(columns...string) {
   if !data.sharedMaps && data.shared.Num() == 0 {
     return
   }
-  if data.sharedMaps {
-    data.reallocateMaps()
-  }
+  data.ownMaps()  // views keep their columns
   var colSet map[string]bool
   if len(columns) == 0 || len(columns) == data.NumColumns() {
     colSet = data.Header().NameSet()
-- 
2.43.0


From dd2bd6a79593042c91174f975b5d362ba521b27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:02 +0000
Subject: [PATCH 50/50] fix: the new columns of OneHotEncoder must not replace
 existing columns

A column named like a category of another one, e.g. city_missing next to city,
was replaced with the category, or removed together with it.
---
 preprocessing/auto_preprocessor.go |  2 +-
 preprocessing/one_hot.go           | 25 +++++++++++++++++++------
 2 files changed, 20 insertions(+), 7 deletions(-)

diff --git a/preprocessing/auto_preprocessor.go b/preprocessing/auto_preprocessor.go
index 656c5ff..0f3c78b 100644
--- a/preprocessing/auto_preprocessor.go
+++ b/preprocessing/auto_preprocessor.go
@@ -124,7 +124,7 @@ func (preproc *AutoPreprocessor) fit(df *dataframe.DataFrame, transform bool) (*
         UnknownPolicy: SharedSeparateCategory,
     }
     preproc.IntToBool = NewOneHotEncoder(topt)
-    preproc.IntToBool.Fit(df.ColumnView(categorical...))
+    preproc.IntToBool.fit(df.ColumnView(categorical...), df.Header().NameSet())
     if opt.Verbose {
       log.Printf("training One-Hot Encoder took %s with cpu=%d",
                  time.Since(start), df.ActualMaxCPU())
diff --git a/preprocessing/one_hot.go b/preprocessing/one_hot.go
index 90dccca..6da3345 100644
--- a/preprocessing/one_hot.go
+++ b/preprocessing/one_hot.go
@@ -52,7 +52,15 @@ func NewOneHotEncoder(options OneHotOptions) *OneHotEncoder {
   return encoder
 }
 
-func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.StringQ) {
+// newColumn makes sure that a new column doesn't replace any existing column.
+func newColumn(name string, existing map[string]bool) string {
+  for existing[name] {
+    name += "_"
+  }
+  return name
+}
+
+func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, existing map[string]bool, q utils.StringQ) {
   opt := encoder.Options
   for col, more := q.Next(); more; col, more = q.Next() {
     defer q.Notify(utils.ProcessedJob{Key: col})
@@ -81,23 +89,23 @@ func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.String
     categoryToNewCol := encoder.Categories[col]
     i := 0
     for category := range(freqs) {
-      categoryToNewCol[category] = fmt.Sprintf("%s_onehot%d", col, i)
+      categoryToNewCol[category] = newColumn(fmt.Sprintf("%s_onehot%d", col, i), existing)
       i++
     }
     fallback := encoder.Fallback[col]
     if opt.MissingPolicy == SeparateCategoryIfSeen {
       if missingSeen || len(freqs) == 0 { // nothing to impute with
-        fallback[0] = fmt.Sprintf("%s_missing", col)
+        fallback[0] = newColumn(fmt.Sprintf("%s_missing", col), existing)
       } else {
         fallback[0] = categoryToNewCol[mostCommon]
       }
     } else if opt.MissingPolicy == SeparateCategory {
-      fallback[0] = fmt.Sprintf("%s_missing", col)
+      fallback[0] = newColumn(fmt.Sprintf("%s_missing", col), existing)
     } else if opt.MissingPolicy == ImputeWithMostFrequent {
       fallback[0] = categoryToNewCol[mostCommon]
     }
     if opt.UnknownPolicy == SeparateCategory {
-      fallback[1] = fmt.Sprintf("%s_unk", col)
+      fallback[1] = newColumn(fmt.Sprintf("%s_unk", col), existing)
     } else if opt.UnknownPolicy == ImputeWithMostFrequent {
       fallback[1] = categoryToNewCol[mostCommon]
     } else if opt.UnknownPolicy == SharedSeparateCategory {
@@ -108,6 +116,11 @@ func (encoder *OneHotEncoder) workerFits(df *dataframe.DataFrame, q utils.String
 
 // Fit implements PreprocTraining and Transform interfaces.
 func (encoder *OneHotEncoder) Fit(df *dataframe.DataFrame) error {
+  return encoder.fit(df, df.Header().NameSet())
+}
+
+// existing columns won't be replaced with new columns
+func (encoder *OneHotEncoder) fit(df *dataframe.DataFrame, existing map[string]bool) error {
   categoricalCols := df.IntHeader().NameList()
   encoder.CategoricalColumns = categoricalCols
 
@@ -123,7 +136,7 @@ func (encoder *OneHotEncoder) Fit(df *dataframe.DataFrame) error {
   // fit each column separately
   q := df.CreateColumnQueue(categoricalCols)
   for i := 0; i < q.Workers; i++ {
-    go encoder.workerFits(df, q)
+    go encoder.workerFits(df, existing, q)
   }
   q.Wait()
 
-- 
2.43.0


prop='C22'; pkg='dataframe'; flags=''; hang=False
needs='a number of files that does not divide the CPU limit'
breaks='more goroutines than allowed parse the files'
edits=[('dataframe/csv_parsing.go', '  cpuPerFile := cpu / len(paths)\n', '  cpuPerFile := (cpu + len(paths) - 1) / len(paths)\n'), ('dataframe/csv_parsing.go', '  maxWorkers := cpu / cpuPerFile\n', '  maxWorkers := cpu\n')]
demo='package dataframe\n\nimport ("testing"; "os"; "path/filepath"; "runtime"; "strings")\n\nfunc TestZZDemo(t *testing.T) {\n  if runtime.NumCPU() < 4 { t.Skip() }\n  d := os.Getenv("ZZ_SCRATCH")\n  line := strings.Repeat("1.5,2.5,3.5,4.5\\n", 60000)\n  for _, f := range []string{"a", "b"} { os.WriteFile(filepath.Join(d, f + ".csv"), []byte("a,b,c,d\\n" + line), 0644) }\n  stop := make(chan bool)\n  most := make(chan int)\n  go func() {\n    best := 0\n    buf := make([]byte, 1 << 20)\n    for {\n      select {\n      case <-stop: most <- best; return\n      default:\n        n := strings.Count(string(buf[:runtime.Stack(buf, true)]), "dataframe.toNativeTypes(")\n        if n > best { best = n }\n      }\n    }\n  }()\n  for k := 0; k < 8; k++ { FromCSVFilePattern(filepath.Join(d, "*.csv"), CSVReadingSpec{MaxCPU: 3}) }\n  stop <- true\n  if n := <-most; n > 3 { t.Fatal(n) }\n}\n'

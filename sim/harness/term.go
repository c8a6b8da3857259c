//go:build go1.22

package main

import (
	"fmt"
	"io"
	"os"
	"strings"

	alg "github.com/rom1mouret/ml-essentials/algorithms"
	df "github.com/rom1mouret/ml-essentials/dataframe"
	pp "github.com/rom1mouret/ml-essentials/preprocessing"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// job is a multi-threaded call.
type job struct {
	what  string
	work  int // amount of data it has to deal with
	limit int // largest number of workers; 0: several pools one after the other
	do    func()
	slack int // how many goroutines more may be at work
}

// measured runs a call, and checks that it ends within a number of steps
// proportional to its work and that nothing of it is left.
func (j job) measured(parallel bool) {
	start, _ := zzrt.Meter()
	guard(j.what, j.do)
	end, busy := zzrt.Meter()
	rest(j.what)
	if os.Getenv("ZZ_MEASURE") != "" {
		fmt.Fprintf(os.Stderr, "MEASURE %.1f %d %d %d/%d %s\n", float64(end-start)/float64(j.work), end-start, j.work, busy, j.limit, strings.SplitN(j.what, " ", 2)[0])
	}
	if max := stepsFor(j.work); end-start > max {
		zzrt.Fail("too-many-steps", "%s takes %d scheduler steps; expected less than %d", j.what, end-start, max)
	}
	if parallel && j.limit > 0 && busy > j.limit+j.slack {
		zzrt.Fail("limit-exceeded", "%s: %d goroutines are at work at the same time, besides the caller, although the CPU limit is %d", j.what, busy, j.limit)
	}
	zzrt.ProbeIf(parallel && j.limit > 0 && busy >= j.limit, "limit reached")
	checked()
}

func stepsFor(work int) int64 { return 5000 + 60*int64(work) }

// workOf is the amount of data of a number of rows of a table.
func workOf(t *Tab, rows []int, types ...CT) int {
	n := 20
	for _, c := range t.Cols {
		ok := len(types) == 0
		for _, ty := range types {
			ok = ok || c.T == ty
		}
		if !ok {
			continue
		}
		n += 20
		for _, i := range rows {
			n++
			if s, ok := c.V[i].(string); ok {
				n += len(s)
			}
		}
	}
	return n
}

// manyNames draws distinct names, with those that a queue could take for
// something else.
func manyNames(k int) []string {
	l := append([]string{}, "", "\x00", "EOF", "end", "END", "__end__", "stop", "STOP", "quit", "done", "close", "nil", "<nil>", "null", "*", "-", "--", "\n", "0", "-1", "\uffff", "\xff")
	l = append(l, dictStrings...)
	r := bulk()
	seen := map[string]bool{}
	var res []string
	for i := 0; len(res) < k; i++ {
		name := fmt.Sprint("c", i)
		if i < len(l) && r.Intn(2) == 0 {
			name = l[r.Intn(len(l))]
		}
		if !seen[name] {
			seen[name] = true
			res = append(res, name)
		}
	}
	return res
}

func genCols() int { return oneOf(0, 1, 2, 3, 4, 5, 8, 13, 24, 40) }

// genWide draws a table with any number of columns.
func genWide(k, n int, types ...CT) *Tab {
	if len(types) == 0 {
		types = []CT{TB, TI, TF, TS, TO}
	}
	if k == 0 {
		n = 0
	}
	t := &Tab{N: n, CPU: oneOf(1, 2, 3, 4, 5, 7, 8, 16, 0, -1, -5, 200, 1<<31-1, -1<<31)}
	for _, name := range manyNames(k) {
		t.Cols = append(t.Cols, genCol(name, oneOf(types...), n))
	}
	return t
}

func genLimit() int { return oneOf(1, 2, 3, 4, 5, 7, 8, 16, 0, -1, -5, 200, 1<<31-1, -1<<31) }

// readJob reads CSV data.
func readJob(k, n int) job {
	names := manyNames(k)
	for i := range names {
		if strings.ContainsAny(names[i], "\",\n\r\x00") || names[i] == "" && k == 1 {
			names[i] = fmt.Sprint("col", i)
		}
	}
	spec := df.CSVReadingSpec{MaxCPU: genLimit(), BinaryAsFloat: chance(20), IntAsFloat: chance(20)}
	if k == 0 {
		// an input without columns, or all of them excluded
		names = []string{"x", "y"}
		spec.Exclude = names
	} else if chance(20) {
		spec.Exclude = []string{names[w(k)]}
	}
	if chance(40) {
		spec.MissingValues = []string{"-"}
	}
	var sb strings.Builder
	line := func(cells []string) { sb.WriteString(strings.Join(cells, ",") + "\n") }
	if chance(30) {
		spec.Header = append([]string{}, names...)
	} else {
		quoted := make([]string, len(names))
		for i := range names {
			quoted[i] = `"` + names[i] + `"`
		}
		line(quoted)
	}
	r := bulk()
	for i := 0; i < n; i++ {
		cells := make([]string, len(names))
		for j := range cells {
			switch j % 4 {
			case 0:
				cells[j] = fmt.Sprint(r.Intn(2))
			case 1:
				cells[j] = fmt.Sprint(r.Intn(2000))
			case 2:
				cells[j] = fmt.Sprint(r.Float())
			default:
				cells[j] = fmt.Sprint("s", r.Intn(100))
			}
			if len(spec.MissingValues) > 0 && r.Intn(6) == 0 {
				cells[j] = "-"
			}
		}
		line(cells)
	}
	text := []byte(sb.String())
	rd := newReader(text)
	limit := wantCPU(spec.MaxCPU)
	return job{fmt.Sprintf("FromCSV of %d columns and %d rows, CPU limit %d", len(names), n, spec.MaxCPU), 50 + 30*len(names) + 2*len(text), limit, func() {
		raw, err := df.FromCSV(rd, spec)
		if err == io.EOF && len(text) == 0 && len(spec.Header) == 0 {
			return
		}
		if err != nil || raw == nil {
			zzrt.Fail("read-failed", "FromCSV: table %v error %v of %q", raw != nil, err, text)
		}
	}, 0}
}

// filesJob reads several files.
func filesJob(dir string) job {
	k := oneOf(0, 1, 2, 3, 5, 8, 9, 17, 33, 60)
	n := oneOf(0, 1, 2, 5, 20)
	zzrt.PutDir(dir)
	work := 50
	for i := 0; i < k; i++ {
		m := n
		if chance(20) {
			m = 0
		}
		text := "a,b,c\n" + strings.Repeat("1.5,x,7\n", m)
		if chance(5) {
			text += "1,2,3,4,5\n" // malformed
		}
		zzrt.PutFile(fmt.Sprintf("%s/f%d.csv", dir, i), []byte(text))
		work += 100 + 3*len(text)
	}
	work += k * k / 4 // sorting the names
	spec := df.CSVReadingSpec{MaxCPU: genLimit()}
	kinds := uint32(zzrt.FaultShortRead | zzrt.FaultEINTR)
	if chance(50) {
		kinds |= zzrt.FaultOpen | zzrt.FaultVanish | zzrt.FaultRead | zzrt.FaultStat
	}
	zzrt.SetFS(zzrt.FSConfig{Rate: oneOf(0, 30, 200), Kinds: kinds, Latency: int64(oneOf(0, 1, 1000)) * 20000000})
	return job{fmt.Sprintf("FromCSVFilePattern of %d files, CPU limit %d", k, spec.MaxCPU), work * 4, 0, func() {
		raw, err := df.FromCSVFilePattern(dir+"/f*.csv", spec)
		if k > 0 && (raw == nil) == (err == nil) {
			zzrt.Fail("read-failed", "FromCSVFilePattern of %d files: table %v error %v", k, raw != nil, err)
		}
	}, 0}
}

// writeJob writes a frame.
func writeJob(t *Tab, d *df.DataFrame, rows []int) job {
	spec := df.CSVWritingSpec{MinRowsPerFile: oneOf(0, 1, 2, 50, -3), MaintainOrder: w(2) == 1}
	k := oneOf(1, 2, 3, 8, 17, 40)
	work := 4*workOf(t, rows) + 300*k + 12*len(rows)
	switch w(3) {
	case 0:
		ws := make([]io.Writer, k)
		for i := range ws {
			x := newWriter()
			if zzrt.F(4) == 3 {
				x.failAt = zzrt.F(200)
				x.short = zzrt.F(2) == 1
			}
			ws[i] = x
		}
		return job{fmt.Sprintf("ToCSVs of %d rows to %d writers", len(rows), k), work, 0, func() { d.ToCSVs(ws, spec) }, 0}
	case 1:
		zzrt.SetFS(zzrt.FSConfig{Rate: oneOf(0, 50, 300), Kinds: zzrt.FaultCreate | zzrt.FaultWrite | zzrt.FaultShortWrite | zzrt.FaultClose | zzrt.FaultEINTR, Latency: int64(oneOf(0, 1, 1000)) * 20000000})
		var paths []string
		for i := 0; i < k; i++ {
			paths = append(paths, fmt.Sprintf("/sim/w%d", i))
		}
		return job{fmt.Sprintf("ToCSVFiles of %d rows to %d files", len(rows), k), work, 0, func() { d.ToCSVFiles(spec, paths...) }, 0}
	default:
		zzrt.SetFS(zzrt.FSConfig{Rate: oneOf(0, 50, 300), Kinds: zzrt.FaultCreate | zzrt.FaultWrite | zzrt.FaultShortWrite | zzrt.FaultClose | zzrt.FaultEINTR, Latency: int64(oneOf(0, 1, 1000)) * 20000000})
		zzrt.PutDir("/sim/wd")
		work += 400 * wantCPU(t.CPU)
		return job{fmt.Sprintf("ToCSVDir of %d rows, CPU limit %d", len(rows), t.CPU), work, 0, func() { d.ToCSVDir(spec, "/sim/wd/x") }, 0}
	}
}

func noErr(what string, err error) {
	if err != nil {
		zzrt.Fail("unexpected-error", "%s: %v", what, err)
	}
}

// wideFilesJob reads several files of many columns. Each file that is being
// read has a goroutine that waits for the workers of its columns; it is not
// one of them, like the caller of FromCSV.
func wideFilesJob(dir string) job {
	spec := df.CSVReadingSpec{MaxCPU: genLimit()}
	limit := wantCPU(spec.MaxCPU)
	// no more files than the limit: no worker deals with two files, which
	// would leave it with two sets of goroutines if those of the first file
	// have done their work but have not ended
	k := 1 + w(limit)
	cols := 1 + w(12)
	n := 20 + w(60)
	zzrt.PutDir(dir)
	var names, cells []string
	for i := 0; i < cols; i++ {
		names = append(names, fmt.Sprint("c", i))
		cells = append(cells, oneOf("1", "-12", "1.5", "x"))
	}
	text := strings.Join(names, ",") + "\n" + strings.Repeat(strings.Join(cells, ",")+"\n", n)
	for i := 0; i < k; i++ {
		zzrt.PutFile(fmt.Sprintf("%s/f%d.csv", dir, i), []byte(text))
	}
	zzrt.SetFS(zzrt.FSConfig{Rate: oneOf(0, 100), Kinds: zzrt.FaultShortRead, Latency: int64(oneOf(0, 1)) * 20000000})
	j := job{what: fmt.Sprintf("FromCSVFilePattern of %d files with %d columns, CPU limit %d", k, cols, spec.MaxCPU), work: k * (100 + 30*cols + 3*len(text)) * 2, limit: limit, slack: 1 + k/2}
	j.do = func() {
		raw, err := df.FromCSVFilePattern(dir+"/f*.csv", spec)
		if err != nil || raw == nil {
			zzrt.Fail("read-failed", "FromCSVFilePattern of %d files: table %v error %v", k, raw != nil, err)
		}
		if c := raw.ActualMaxCPU(); c != limit {
			zzrt.Fail("limit-lost", "FromCSVFilePattern returns a table with the CPU limit %d instead of %d", c, limit)
		}
	}
	return j
}

// part is the frame to fit on: there can be categories in the other rows that
// the encoder does not know.
func part(d *df.DataFrame) *df.DataFrame {
	if chance(40) {
		return d.SliceView(0, w(d.NumRows()+1))
	}
	return d
}

// frameJobs are the multi-threaded calls on a frame; alone: only those that
// start one set of workers.
func frameJobs(t *Tab, d *df.DataFrame, rows []int, alone bool) []job {
	limit := wantCPU(t.CPU)
	desc := func(what string) string {
		return fmt.Sprintf("%s of %d columns and %d rows, CPU limit %d of %d processors", what, len(t.Cols), len(rows), t.CPU, zzrt.RuntimeNumCPU())
	}
	n := 4
	if !alone {
		n = 6
	}
	all := workOf(t, seq(t.N)) // detached columns and new columns are of the size of the data
	switch w(n) {
	case 0:
		str := some(t.names(TS))
		return []job{{desc("HashStringsView"), all, limit, func() { d.HashStringsView(str...) }, 0}}
	case 1:
		sc := pp.NewScaler(genScalerOptions())
		x := d.DetachedView(t.names(TF)...)
		return []job{
			{desc("Scaler.Fit"), all, limit, func() { noErr("Scaler.Fit", sc.Fit(x)) }, 0},
			{desc("Scaler.TransformInplace"), all, limit, func() { noErr("Scaler.TransformInplace", sc.TransformInplace(x)) }, 0},
			{desc("Scaler.InverseTransformInplace"), all, limit, func() { noErr("Scaler.InverseTransformInplace", sc.InverseTransformInplace(x)) }, 0},
		}
	case 2:
		im := pp.NewFloatImputer(pp.FloatImputerOptions{Policy: oneOf(pp.Mean, pp.Mean, pp.Zero, pp.One)})
		x := d.DetachedView(t.names(TF)...)
		return []job{
			{desc("FloatImputer.Fit"), all, limit, func() { noErr("FloatImputer.Fit", im.Fit(x)) }, 0},
			{desc("FloatImputer.TransformInplace"), all, limit, func() { noErr("FloatImputer.TransformInplace", im.TransformInplace(x)) }, 0},
		}
	case 3:
		enc := pp.NewOneHotEncoder(genOneHotOptions())
		var err error
		cats := 0
		for _, name := range t.names(TI) {
			seen := map[interface{}]bool{}
			for _, i := range rows {
				seen[t.col(name).V[i]] = true
			}
			cats += len(seen) + 2
		}
		return []job{
			{desc("OneHotEncoder.Fit"), all + 10*cats, limit, func() { err = enc.Fit(part(d)) }, 0},
			{desc("OneHotEncoder.TransformView"), all + 10*cats, limit, func() {
				if err == nil {
					enc.TransformView(d)
				}
			}, 0},
		}
	case 4:
		a := pp.NewAutoPreprocessor(pp.AutoPreprocOptions{Imputing: w(2) == 1, Scaling: w(2) == 1})
		cats := 0
		for _, name := range t.names(TS) {
			seen := map[interface{}]bool{}
			for _, i := range rows {
				seen[t.col(name).V[i]] = true
			}
			cats += len(seen) + 2
		}
		var err error
		return []job{
			{desc("AutoPreprocessor.Fit"), 6*all + 20*cats, 0, func() { err = a.Fit(part(d)) }, 0},
			{desc("AutoPreprocessor.TransformView"), 6*all + 20*cats, 0, func() {
				if err == nil {
					a.TransformView(d)
				}
			}, 0},
		}
	default:
		return []job{writeJob(t, d, rows)}
	}
}

func c20(s *zzrt.Sim) {
	for k := 1 + w(2); k > 0; k-- {
		switch w(6) {
		case 0:
			readJob(genCols(), genN(60)).measured(false)
		case 1:
			filesJob(fmt.Sprint("/sim/m", k)).measured(false)
			zzrt.SetFS(zzrt.FSConfig{})
		default:
			t := genWide(genCols(), genN(60))
			root := build(t)
			d, rows := genView(root, seq(t.N))
			for _, j := range frameJobs(t, d, rows, false) {
				j.measured(false)
			}
			zzrt.SetFS(zzrt.FSConfig{})
		}
	}
}

// limitKept derives frames in all the ways there are, which must have the
// limit of the frames that they are derived from.
func limitKept() {
	t := genWide(1+w(6), genN(30))
	t.CPU = genLimit()
	limit := wantCPU(t.CPU)
	d, rows := genView(build(t), seq(t.N))
	n := len(rows)
	str, fl, in := t.names(TS), t.names(TF), t.names(TI)
	one := func(what string, res ...*df.DataFrame) {
		for i, x := range res {
			if c := x.ActualMaxCPU(); c != limit {
				zzrt.Fail("limit-lost", "%s: the CPU limit of result %d with %d rows is %d; that of the input with %d rows is %d (set to %d with %d processors)", what, i, x.NumRows(), c, n, limit, t.CPU, zzrt.RuntimeNumCPU())
			}
		}
		checked()
	}
	must := func(what string) func(*df.DataFrame, error) *df.DataFrame {
		return func(x *df.DataFrame, err error) *df.DataFrame {
			if err != nil {
				zzrt.Fail("unexpected-error", "%s: %v", what, err)
			}
			return x
		}
	}
	others := func() *df.DataFrame {
		o := genWide(1+w(3), n)
		for i, c := range o.Cols {
			c.Name = fmt.Sprint("other", i)
		}
		o.CPU = t.CPU
		return build(o)
	}
	one("build or view", d)
	for k := 1 + w(4); k > 0; k-- {
		what := ""
		guard("deriving a frame", func() {
			switch x := w(20); x {
			case 0:
				what = "Copy"
				d = d.Copy()
			case 1:
				what = "DetachedView"
				d = d.DetachedView(some(t.names(TB, TI, TF, TS, TO))...)
			case 2:
				what = "ShallowCopy"
				d = d.ShallowCopy()
			case 3:
				what = "IndexView"
				idx := genIndices(n)
				d = d.IndexView(idx)
			case 4:
				what = "ShuffleView"
				d = d.ShuffleView()
			case 5:
				what = "SampleView"
				d = d.SampleView(w(n+1), false)
			case 6:
				what = "SplitView"
				l := d.SplitView(1 + w(n+2))
				one(what, l...)
				d = l[w(len(l))]
			case 7:
				what = "SplitNView"
				l := d.SplitNView(1 + w(n+2))
				one(what, l...)
				d = l[w(len(l))]
			case 8:
				what = "SplitTrainTestViews"
				a, b := d.SplitTrainTestViews(genRatio(n))
				one(what, a, b)
				d = oneOf(a, b)
			case 9:
				what = "TopView"
				for _, l := range [][]string{fl, in} {
					if len(l) > 0 {
						one(what, d.TopView(l[0], w(n+3), w(2) == 1, w(2) == 1), d.SortedView(l[0]))
					}
				}
			case 10:
				what = "HashStringsView"
				one(what, d.HashStringsView(some(str)...))
			case 11:
				what = "RowConcat"
				d = must(what)(df.RowConcat(d, d))
			case 12:
				what = "ColumnSmartConcat"
				one(what, must(what)(df.ColumnSmartConcat(d, others())))
			case 13:
				what = "ColumnCopyConcat"
				one(what, must(what)(df.ColumnCopyConcat(d, others())))
			case 14:
				what = "ColumnConcatView"
				c := d.Copy()
				one(what, must(what)(df.ColumnConcatView(c, others())))
			case 15:
				what = "OneHotEncoder.TransformView"
				enc := pp.NewOneHotEncoder(pp.OneHotOptions{})
				if len(in) > 0 && enc.Fit(d.ColumnView(some(in)...)) == nil {
					if r, err := enc.TransformView(d); err == nil {
						one(what, r)
					}
				}
			case 16:
				what = "AutoPreprocessor"
				opt := pp.AutoPreprocOptions{Imputing: w(2) == 1, Scaling: w(2) == 1}
				one(what, pp.NewAutoPreprocessor(opt).FitTransform(d))
				a := pp.NewAutoPreprocessor(opt)
				noErr("AutoPreprocessor.Fit", a.Fit(d))
				one(what, must(what)(a.TransformView(d)))
			case 17:
				what = "HashEncoder.TransformView"
				h := pp.NewHashEncoder(pp.HashEncoderOptions{})
				if len(str) > 0 && h.Fit(d.ColumnView(some(str)...)) == nil {
					one(what, must(what)(h.TransformView(d)))
				}
			case 18:
				what = "LinearRegressor.Predict"
				if len(fl) == 0 {
					return
				}
				b := df.DataBuilder{RawData: df.NewRawData()}
				sc := pp.NewScaler(pp.ScalerOptions{Centering: true, Scaling: true})
				noErr("Scaler.Fit", sc.Fit(b.AddFloats("_target", 1, 2, 3).ToDataFrame()))
				reg := alg.NewLinearRegressor()
				reg.TargetScaler, reg.Features, reg.Weights = sc, fl, make([]float64, len(fl))
				one(what, must(what)(reg.Predict(d, "zz prediction")))
			default:
				what = "MaskView"
				mask := make([]bool, n)
				for i := range mask {
					mask[i] = w(2) == 1
				}
				d = d.MaskView(mask)
			}
			one(what, d)
			n = d.NumRows()
		})
		rest(what)
	}
}

// c22: the CPU limit bounds the number of workers.
func c22(s *zzrt.Sim) {
	k := 2 + w(23)
	n := 20 + w(60)
	switch w(9) {
	case 0, 1:
		readJob(k, n).measured(true)
		return
	case 3:
		limitKept()
		return
	case 2:
		wideFilesJob("/sim/wide").measured(true)
		zzrt.SetFS(zzrt.FSConfig{})
		return
	}
	t := genWide(k, n, oneOf(TF, TI, TS), oneOf(TF, TI, TS))
	root := build(t)
	d, rows := genView(root, seq(t.N))
	if c := wantCPU(t.CPU); d.ActualMaxCPU() != c {
		zzrt.Fail("limit-lost", "the CPU limit of a view is %d instead of %d", d.ActualMaxCPU(), c)
	}
	for _, j := range frameJobs(t, d, rows, true) {
		j.measured(true)
	}
}

func init() {
	tune := func(r *zzrt.PRNG, cfg *zzrt.Config) {
		if r.Intn(2) == 0 {
			cfg.Policy.Kind = pick(r, 1, 3, 4)
		}
	}
	register(&Scenario{ID: "C20", Run: c20, Tune: tune})
	register(&Scenario{ID: "C22", Run: c22, Tune: tune})
}

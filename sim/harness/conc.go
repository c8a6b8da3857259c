//go:build go1.22

package main

import (
	"fmt"
	"io"

	al "github.com/rom1mouret/ml-essentials/algorithms"
	df "github.com/rom1mouret/ml-essentials/dataframe"
	pp "github.com/rom1mouret/ml-essentials/preprocessing"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// call is a call that several clients can make at the same time.  All its
// parameters are drawn when it is generated, so that it can be repeated.
type call struct {
	what string
	do   func() []outcome
}

// sharedFrame is a frame that all clients use.
type sharedFrame struct {
	d    *df.DataFrame
	rows []int
	safe bool // masks can be requested
}

func vals(l ...interface{}) outcome {
	return outcome{s: &Snap{N: len(l), Cols: map[string]*Col{"": {"", TO, l}}}}
}

func (f *sharedFrame) ofView(d *df.DataFrame) []outcome { return []outcome{view(d, nil)} }

func views(l ...*df.DataFrame) []outcome {
	var r []outcome
	for _, d := range l {
		r = append(r, view(d, nil))
	}
	return r
}

// genCall draws a call on a frame.
func genCall(t *Tab, f *sharedFrame, models []*persistent, objs []interface{}, id string) call {
	n := len(f.rows)
	all := t.names(TB, TI, TF, TS, TO)
	num := t.names(TB, TI, TF)
	str := t.names(TS)
	fl := t.names(TF)
	d := f.d
	c := func(what string, do func() []outcome) call {
		return call{fmt.Sprintf("%s on %d of %d rows", what, n, t.N), do}
	}
	switch k := w(29); k {
	case 0, 26, 27:
		idx := genIndices(n)
		if chance(50) && n > 0 { // larger than the frame
			r := bulk()
			idx = make([]int, n+1+w(n+4))
			for i := range idx {
				idx[i] = r.Intn(n)
			}
		}
		again := genIndices(len(idx))
		return c("IndexView", func() []outcome {
			v := d.IndexView(idx)
			return views(v, v.IndexView(again))
		})
	case 1:
		a, b := w(n+1), w(n+1)
		return c("SliceView", func() []outcome { return views(d.SliceView(a, b)) })
	case 2, 3, 4:
		r := bulk()
		pat := make([]bool, n)
		var rows []int
		for i := range pat {
			pat[i] = r.Intn(2) == 1
			if pat[i] {
				rows = append(rows, f.rows[i])
			}
		}
		kind := w(3)
		if !f.safe {
			kind = 2
		}
		return c(fmt.Sprint("MaskView", kind), func() []outcome {
			m := pat
			if kind < 2 {
				if kind == 0 {
					m = d.ZeroMask()
					for i, b := range m {
						if b {
							zzrt.Fail("wrong-mask", "ZeroMask is set at %d", i)
						}
					}
				} else {
					m = d.EmptyMask()
				}
				if len(m) != n {
					zzrt.Fail("wrong-mask", "the mask has %d values for %d rows", len(m), n)
				}
				for i := range m {
					m[i] = pat[i]
				}
				zzrt.Probe("shared masks")
			}
			v := d.MaskView(m)
			mustSame("wrong-result", "a mask used concurrently", v, want(t, rows))
			return views(v)
		})
	case 5:
		cols := some(all)
		return c("ColumnView", func() []outcome { return views(d.ColumnView(cols...), d.View(), d.ShallowCopy()) })
	case 6:
		return c("ReverseView", func() []outcome { return views(d.ReverseView(), d.ResetIndexView(), d.ShuffleView()) })
	case 7:
		if len(num) == 0 {
			return c("View", func() []outcome { return views(d.View()) })
		}
		col := num[w(len(num))]
		m := w(n + 1)
		asc := w(2) == 1
		return c("SortedView", func() []outcome {
			return views(d.SortedView(col).ColumnView(col), d.TopView(col, m, asc, true).ColumnView(col))
		})
	case 8:
		b, k := 1+w(n+2), 1+w(5)
		ratio := oneOf(0, 0.3, 0.5, 1)
		return c("SplitView", func() []outcome {
			a, z := d.SplitTrainTestViews(ratio)
			return views(append(append(d.SplitView(b), d.SplitNView(k)...), a, z)...)
		})
	case 9:
		if len(str) == 0 {
			return c("View", func() []outcome { return views(d.View()) })
		}
		cols := some(str)
		return c("HashStringsView", func() []outcome { return views(d.HashStringsView(cols...)) })
	case 10:
		return c("Copy", func() []outcome {
			x := d.Copy()
			for _, name := range fl {
				x.OverwriteFloats64(name, make([]float64, n))
			}
			if len(fl) > 0 {
				x.Drop(fl[0])
			}
			return views(x)
		})
	case 11, 12: // own detached columns
		cols := some(all)
		return c(fmt.Sprintf("DetachedView(%q)", cols), func() []outcome {
			v := d.DetachedView(cols...)
			for i, name := range cols {
				switch t.col(name).T {
				case TF:
					v.OverwriteFloats64(name, make([]float64, n))
				case TI:
					a := v.Ints(name)
					for j := 0; j < n; j++ {
						a.Set(j, 42+i)
					}
				case TB:
					v.OverwriteBools(name, make([]bool, n))
				case TS, TO:
					v.OverwriteObjects(name, make([]interface{}, n), df.ObjectType(0))
				}
			}
			v.Rename(cols[0], "zz "+cols[0])
			return views(v)
		})
	case 13, 14: // own new columns
		l := make([]int, n)
		for i := range l {
			l[i] = i + 7
		}
		dropped := some(all)
		return c("new columns", func() []outcome {
			v := d.View()
			v.AllocFloats("zz new1")
			a := v.Floats("zz new1")
			for i := 0; i < n; i++ {
				a.Set(i, 3.5)
			}
			v.OverwriteInts("zz new2", l)
			v.OverwriteStrings("zz new3", make([]string, n))
			v.Drop(dropped...)
			v.Rename("zz new2", "zz new4")
			return views(v)
		})
	case 15, 16:
		spec := genOutSpec()
		outs := 1 + w(5)
		kind := w(3)
		if len(t.names(TB, TI, TF, TS)) < 2 {
			return c("View", func() []outcome { return views(d.View()) })
		}
		return c(fmt.Sprint("CSV", kind), func() []outcome {
			var data [][]byte
			var err error
			switch kind {
			case 0:
				wr := newWriter()
				err = d.To1CSV(wr, spec)
				data = [][]byte{wr.data}
			case 1:
				wrs := make([]*flakyWriter, outs)
				ws := make([]io.Writer, outs)
				for i := range ws {
					wrs[i] = newWriter()
					ws[i] = wrs[i]
				}
				err = d.ToCSVs(ws, spec)
				for i := range wrs {
					data = append(data, wrs[i].data)
				}
			default:
				var paths []string
				for i := 0; i < outs; i++ {
					paths = append(paths, fmt.Sprintf("/sim/%s-%d.csv", id, i))
				}
				err = d.ToCSVFiles(spec, paths...)
				if err == nil {
					data = readOuts("ToCSVFiles", paths)
				}
			}
			if err != nil {
				zzrt.Fail("spurious-failure", "writing fails: %v", err)
			}
			checkOutputs("concurrent writing", data, t, f.rows, spec)
			return nil
		})
	case 17:
		if len(num) == 0 {
			return c("View", func() []outcome { return views(d.View()) })
		}
		cols := some(num)
		return c("iterating", func() []outcome {
			ite := df.NewFloat32Iterator(d, cols)
			sum := []interface{}{}
			for row, i, _ := ite.NextRow(); row != nil; row, i, _ = ite.NextRow() {
				sum = append(sum, fmt.Sprint(i, row))
			}
			if n > 0 {
				m := df.NewDense64Batching(cols).DenseMatrix(d)
				for i := 0; i < n; i++ {
					for j := range cols {
						sum = append(sum, m.At(i, j))
					}
				}
			}
			return []outcome{vals(sum...)}
		})
	case 18, 19, 20, 21: // one fitted model
		if len(models) == 0 {
			return c("View", func() []outcome { return views(d.View()) })
		}
		i := w(len(models))
		return c("using a fitted "+models[i].name, func() []outcome { return models[i].use(objs[i], d) })
	case 22: // training reads the frame
		m := genScalerOptions()
		imp := pp.FloatImputerOptions{Policy: pp.Mean}
		oh := genOneHotOptions()
		auto := genAutoOptions(t)
		kind := w(5)
		return c("fitting", func() []outcome {
			switch kind {
			case 0:
				s := pp.NewScaler(m)
				noError("Scaler.Fit", s.Fit(d))
				return []outcome{columnsOf(s), inplace(d, s.TransformInplace)}
			case 1:
				s := pp.NewFloatImputer(imp)
				noError("FloatImputer.Fit", s.Fit(d))
				return []outcome{columnsOf(s), inplace(d, s.TransformInplace)}
			case 2:
				s := pp.NewOneHotEncoder(oh)
				if s.Fit(d) != nil {
					return []outcome{{err: true}}
				}
				return []outcome{columnsOf(s)}
			case 3:
				s := pp.NewAutoPreprocessor(auto)
				if s.Fit(d) != nil {
					return []outcome{{err: true}}
				}
				return []outcome{columnsOf(s)}
			default:
				if len(fl) == 0 || len(t.names(TF, TB)) < 2 {
					return nil
				}
				s := al.NewLinearRegressor()
				noError("LinearRegressor.Fit", s.Fit(d, fl[0], al.LinRegTrainParams{Epochs: 1, LR: 1e-6, BatchSize: 16, LowMemory: true}))
				return nil
			}
		})
	case 28:
		m := w(n+2) - 1
		return c("printing", func() []outcome {
			d.PrintSummary().PrintHead(m, "").PrintRecords(m, "%.2f", d.GoodShortNames(2))
			return []outcome{vals(d.Header().Num(), d.FloatHeader().Num(), d.StringHeader().Num(), d.ObjectHeader().Num())}
		})
	case 23:
		return c("concatenation", func() []outcome {
			x, err := df.RowConcat(d, d)
			var y, z *df.DataFrame
			if err == nil && len(all) > 1 {
				y, err = df.ColumnConcatView(d.ColumnView(all[0]), d.ColumnView(all[1:]...))
				if err == nil {
					z, err = df.ColumnCopyConcat(d.ColumnView(all[0]), d.ColumnView(all[1:]...))
				}
			}
			if err != nil {
				zzrt.Fail("spurious-failure", "concatenation fails: %v", err)
			}
			if y == nil {
				return views(x)
			}
			return views(x, y, z)
		})
	case 24:
		to := encodings[w(len(encodings))]
		return c("encoding a copy", func() []outcome {
			x := d.Copy()
			if x.Encode(to) != nil {
				return []outcome{{err: true}}
			}
			return views(x)
		})
	default:
		return c("reading", func() []outcome {
			l := []interface{}{d.NumRows(), d.NumColumns(), d.AreIndicesAltered()}
			for _, name := range all {
				for _, v := range d.CopyValuesToInterfaces(name) {
					if t.col(name).T != TO {
						l = append(l, v)
					}
				}
			}
			for _, name := range sorted(d.Header().NameList()) {
				l = append(l, name)
			}
			if len(str) > 0 {
				v, m := d.LabelToInt(str[0])
				l = append(l, fmt.Sprint(v), len(m))
			}
			if len(fl) > 1 && n > 0 {
				l = append(l, al.MAE(d.Floats(fl[0]), d.Floats(fl[1])), al.MSE(d.Floats(fl[0]), d.Floats(fl[1])))
			}
			return []outcome{vals(l...)}
		})
	}
}

// writers write to disjoint rows of two columns.
type writers struct {
	root  *df.DataFrame
	n     int
	float []float64
	str   []interface{}
	rows  [][]int // rows of each client
}

const (
	wFloat = "zz-written floats"
	wStr   = "zz-written strings"
)

func (ws *writers) client(p int) func() {
	idx := ws.rows[p]
	kind := w(4)
	base := float64(1000 * (p + 1))
	rep := len(idx) > 0 && w(3) == 2
	return func() {
		use := idx
		if rep { // a row twice
			use = append(append([]int{}, idx...), idx[0])
		}
		v := ws.root.IndexView(use)
		switch kind {
		case 0:
			a, s := v.Floats(wFloat), v.Objects(wStr)
			for i, at := range use {
				a.Set(i, base+float64(at))
				s.Set(i, fmt.Sprint("w", p, "-", at))
				ws.float[at], ws.str[at] = base+float64(at), fmt.Sprint("w", p, "-", at)
			}
		case 1:
			l, o := make([]float64, len(use)), make([]interface{}, len(use))
			for i, at := range use {
				l[i], o[i] = base-float64(at), fmt.Sprint("x", at)
				ws.float[at], ws.str[at] = l[i], o[i]
			}
			v.OverwriteFloats64(wFloat, l)
			v.OverwriteObjects(wStr, o, df.ObjectType(1))
		case 2: // a model writes
			s := pp.NewScaler(pp.ScalerOptions{Centering: true})
			x := v.ColumnView(wFloat)
			one := x.Copy()
			one.OverwriteFloats64(wFloat, make([]float64, len(use)))
			a := one.Floats(wFloat)
			for i := 0; i < len(use); i++ {
				a.Set(i, -base)
			}
			noError("Scaler.Fit", s.Fit(one))
			noError("Scaler.TransformInplace", s.TransformInplace(x))
			if len(use) > 0 {
				for _, at := range idx {
					ws.float[at] += base
				}
			}
		default:
			x := v.ColumnView(wStr)
			noError("Encode", x.Encode(encodings[1]))
			for _, at := range idx {
				if s, ok := ws.str[at].(string); ok {
					ws.str[at], _ = recode(s, nil, encodings[1])
				}
			}
		}
		zzrt.Probe("disjoint writes")
	}
}

func (ws *writers) check() {
	a, s := ws.root.Floats(wFloat), ws.root.Objects(wStr)
	for i := 0; i < ws.n; i++ {
		if a.Get(i) != ws.float[i] || s.Get(i) != ws.str[i] {
			zzrt.Fail("lost-write", "row %d is %v and %s after several clients have written their rows, instead of %v and %s", i, a.Get(i), show(s.Get(i)), ws.float[i], show(ws.str[i]))
		}
	}
}

func c14(s *zzrt.Sim) {
	n := genN(90)
	t := genAutoTab(n)
	if chance(40) {
		plain(t)
	}
	full := t.clone()
	fc, sc := &Col{Name: wFloat, T: TF, V: make([]interface{}, n)}, &Col{Name: wStr, T: TS, V: make([]interface{}, n)}
	ws := &writers{n: n, float: make([]float64, n), str: make([]interface{}, n)}
	for i := 0; i < n; i++ {
		ws.float[i], ws.str[i] = float64(i), texts[i%4]
		fc.V[i], sc.V[i] = ws.float[i], ws.str[i]
	}
	full.Cols = append(full.Cols, fc, sc)
	// models that are fitted before
	var models []*persistent
	var objs []interface{}
	tt := t.clone()
	for _, c := range tt.Cols {
		if c.T == TF { // a model without missing values
			for i := range c.V {
				c.V[i] = float64(i%7) - 2
			}
		}
	}
	for k := w(4); k > 0; k-- {
		var m *persistent
		if fl := t.names(TF); w(4) == 3 && len(fl) > 0 && len(t.names(TF, TB)) > 1 {
			m = linregOf(t)
		} else if m = genPersistent(t); m.name == "LinearRegressor" && (len(t.names(TF)) == 0 || len(t.names(TF, TB)) < 2) {
			continue
		}
		o := m.fresh()
		if m.fit(o, build(tt)) == nil {
			models, objs = append(models, m), append(objs, o)
		}
	}
	// shared frames
	safe := w(2) == 1
	ws.root = build(full).ThreadSafeMasking(safe)
	frames := []*sharedFrame{{ws.root.ColumnView(t.names(TB, TI, TF, TS, TO)...), seq(n), safe}}
	for k := w(4); k > 0; k-- {
		f := frames[w(len(frames))]
		var g *sharedFrame
		switch w(4) {
		case 0:
			g = &sharedFrame{f.d.Copy(), f.rows, safe}
		case 1: // larger than the data
			if len(f.rows) > 0 {
				r := bulk()
				idx := make([]int, len(f.rows)+1+w(9))
				for i := range idx {
					idx[i] = r.Intn(len(f.rows))
				}
				g = &sharedFrame{f.d.IndexView(idx), pickRows(f.rows, idx), safe}
				break
			}
			fallthrough
		default:
			d, rows := genView(f.d, f.rows)
			g = &sharedFrame{d, rows, safe}
		}
		frames = append(frames, g)
	}
	// writers of disjoint rows
	if w(2) == 1 {
		r := bulk()
		ws.rows = make([][]int, 1+w(3))
		for i := 0; i < n; i++ {
			if p := r.Intn(len(ws.rows) + 1); p < len(ws.rows) {
				ws.rows[p] = append(ws.rows[p], i)
			}
		}
	}
	var fns []func()
	for p := range ws.rows {
		fns = append(fns, ws.client(p))
	}
	var calls []call
	var got [][]outcome
	for c := 1 + w(4); c > 0; c-- {
		first := len(calls)
		for k := 1 + w(3); k > 0; k-- {
			f := frames[w(len(frames))]
			calls = append(calls, genCall(t, f, models, objs, fmt.Sprint("out", len(calls))))
		}
		if c == 1 && w(3) == 2 { // two clients make the same calls
			calls = append(calls, calls[first:]...)
		}
		last := len(calls)
		fns = append(fns, func() {
			for i := first; i < last; i++ {
				i := i
				zzrt.Log("%s", calls[i].what)
				guard(calls[i].what, func() { got[i] = calls[i].do() })
			}
		})
	}
	got = make([][]outcome, len(calls))
	alone := make([][]outcome, len(calls))
	solo := func() {
		for i := range calls {
			guard(calls[i].what, func() { alone[i] = calls[i].do() })
		}
	}
	before := w(3) == 0
	if before {
		solo()
	}
	together(fns...)
	if !before {
		solo()
	}
	for i := range calls {
		if len(got[i]) != len(alone[i]) {
			zzrt.Fail("wrong-result", "%s: %d results instead of %d", calls[i].what, len(got[i]), len(alone[i]))
		}
		for j := range got[i] {
			if x := got[i][j].diff(alone[i][j]); x != "" {
				zzrt.Fail("wrong-result", "%s: the result differs from that of the same call made alone: %s", calls[i].what, x)
			}
		}
	}
	for _, f := range frames {
		mustSame("input-changed", "concurrent calls change a frame", f.d, want(t, f.rows))
	}
	if ws.rows != nil {
		ws.check()
	}
	rest("concurrent calls")
	checked()
}

func init() {
	register(&Scenario{ID: "C14", Run: c14})
}

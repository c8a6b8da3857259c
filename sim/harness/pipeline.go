//go:build go1.22

package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"strconv"
	"strings"

	al "github.com/rom1mouret/ml-essentials/algorithms"
	df "github.com/rom1mouret/ml-essentials/dataframe"
	pp "github.com/rom1mouret/ml-essentials/preprocessing"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
	"golang.org/x/text/encoding/charmap"
)

// The columns of a pipeline that are no features.
const (
	pipeID     = "row id"
	pipeTarget = "the target"
	pipePred   = "y pred"
)

// pipeCol is a column of the files: its texts depend on the class only, so
// that all the files agree on the type.
type pipeCol struct {
	name  string
	class int // 0 decimals, 1 integers, 2 words, 3 true/false, 4 0/1
	miss  int // percentage
	m     int // number of words
}

type pipeline struct {
	cols []pipeCol
	spec df.CSVReadingSpec
	made int
	seen map[string]bool // missing markers
}

func genPipeline() *pipeline {
	p := &pipeline{seen: map[string]bool{}}
	p.spec = df.CSVReadingSpec{MaxCPU: genCPU(), Comma: oneOf(rune(0), ';', '\t', '|'),
		IntAsFloat: w(3) > 0, BinaryAsFloat: w(2) == 0, BoolAsFloat: chance(20)}
	if chance(70) {
		p.spec.MissingValues = [][]string{{"NA"}, {"", "NA", "-"}, {"", " ", "NA", "-"}, {"-"}}[w(4)]
	}
	for _, m := range p.spec.MissingValues {
		p.seen[m] = true
	}
	if chance(15) {
		p.spec.Encoding = charmap.ISO8859_1
	}
	p.cols = []pipeCol{{name: pipeID, class: -1}, {name: pipeTarget, class: 0}}
	k := 1 + w(6)
	for _, name := range genNames(k) {
		if name == pipeID || name == pipeTarget || name == pipePred {
			continue
		}
		c := pipeCol{name: name, class: oneOf(0, 0, 0, 1, 2, 2, 3, 4), m: oneOf(1, 2, 4, 8, len(words))}
		if c.class < 3 && len(p.seen) > 0 {
			c.miss = oneOf(0, 5, 20, 60)
		}
		p.cols = append(p.cols, c)
	}
	// at least one number
	p.cols = append(p.cols, pipeCol{name: "the number", class: 0})
	if chance(20) {
		p.spec.Exclude = []string{p.cols[2+w(len(p.cols)-3)].name}
		if p.spec.Exclude[0] == "the number" {
			p.spec.Exclude = nil
		}
	}
	r := bulk()
	for i := len(p.cols) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p.cols[i], p.cols[j] = p.cols[j], p.cols[i]
	}
	return p
}

// records draws n rows; the first of them determines the types.
func (p *pipeline) records(n int) [][]string {
	r := bulk()
	var marks []string
	for _, m := range p.spec.MissingValues {
		marks = append(marks, m)
	}
	recs := make([][]string, n)
	for i := range recs {
		recs[i] = make([]string, len(p.cols))
		p.made++
		for j, c := range p.cols {
			s := ""
			switch c.class {
			case -1:
				s = fmt.Sprintf("row%d", p.made)
			case 0:
				s = strconv.FormatFloat(float64(r.Intn(33)-16)/8, 'f', -1, 64)
				if i == 0 {
					s = "0.5"
				}
			case 1:
				s = strconv.Itoa(r.Intn(7) - 2)
				if i == 0 {
					s = "3"
				}
			case 2:
				s = words[r.Intn(c.m)]
				if p.spec.Encoding != nil && r.Intn(4) == 0 {
					s = "caf\xe9" + s
				}
				if i == 0 {
					s = words[r.Intn(3)]
				}
			case 3:
				s = []string{"true", "false"}[r.Intn(2)]
			default:
				s = []string{"0", "1"}[r.Intn(2)]
			}
			if i > 0 && r.Intn(100) < c.miss {
				s = marks[r.Intn(len(marks))]
			}
			recs[i][j] = s
		}
	}
	return recs
}

// files writes n rows to k files and returns their content as a table.
func (p *pipeline) files(dir string, n, k int) (*Tab, []string) {
	zzrt.PutDir(dir)
	var all [][]string
	var paths []string
	var names []string
	for _, c := range p.cols {
		names = append(names, c.name)
	}
	for f := 0; f < k; f++ {
		m := n - len(all)
		if f+1 < k {
			m = w(m + 1)
		}
		c := &csvCase{names: names, spec: p.spec, inFile: true, crlf: chance(20), recs: p.records(m)}
		c.renderAll()
		path := fmt.Sprintf("%s/in%d.csv", dir, f)
		zzrt.PutFile(path, c.text)
		all = append(all, c.recs...)
		paths = append(paths, path)
	}
	return p.table(all), paths
}

// table is what the reader makes of records.
func (p *pipeline) table(recs [][]string) *Tab {
	t := &Tab{N: len(recs), CPU: p.spec.MaxCPU}
	if p.spec.Encoding != nil {
		t.Enc = p.spec.Encoding
	}
	for j, c := range p.cols {
		if contains(p.spec.Exclude, c.name) {
			continue
		}
		k := &Col{Name: c.name, V: make([]interface{}, len(recs))}
		asFloat := c.class == 0 || c.class == 1 && p.spec.IntAsFloat || c.class == 3 && p.spec.BoolAsFloat || c.class == 4 && (p.spec.BoolAsFloat || p.spec.BinaryAsFloat)
		for i, rec := range recs {
			s := rec[j]
			switch {
			case c.class <= 2 && c.class > 0 && !asFloat || c.class == -1:
				k.T = TS
				if c.class == 1 {
					k.T = TI
				}
				switch {
				case p.seen[s] && k.T == TI:
					k.V[i] = -1
				case p.seen[s]:
				case k.T == TI:
					k.V[i], _ = strconv.Atoi(s)
				default:
					k.V[i] = s
				}
			case asFloat:
				k.T = TF
				switch {
				case c.class <= 1 && p.seen[s]:
					k.V[i] = math.NaN()
				case s == "true":
					k.V[i] = 1.0
				case s == "false":
					k.V[i] = 0.0
				default:
					k.V[i], _ = strconv.ParseFloat(s, 64)
				}
			default:
				k.T = TB
				k.V[i] = s == "true" || s == "1"
			}
		}
		t.Cols = append(t.Cols, k)
	}
	return t
}

// rowsOf gives the rows of the table that a frame has, by their identifiers.
func pipeRows(what string, t *Tab, d *df.DataFrame) []int {
	at := map[interface{}]int{}
	for i, v := range t.col(pipeID).V {
		at[v] = i
	}
	var rows []int
	for i := 0; i < d.NumRows(); i++ {
		v := d.Objects(pipeID).Get(i)
		r, ok := at[v]
		if !ok {
			zzrt.Fail("wrong-rows", "%s: row %d has the identifier %s, which is not in the files", what, i, show(v))
		}
		rows = append(rows, r)
	}
	mustSame("wrong-rows", what, d, want(t, rows))
	return rows
}

// tabOf is a table with the content of a frame.
func tabOf(s *Snap) *Tab {
	t := &Tab{N: s.N}
	for _, name := range s.names() {
		t.Cols = append(t.Cols, s.Cols[name])
	}
	return t
}

// stored is what the training leaves behind.
type stored struct {
	Preproc *pp.AutoPreprocessor
	Model   *al.LinearRegressor
}

func pipeErr(what string, err error) {
	if err != nil {
		zzrt.Fail("unexpected-error", "%s: %v", what, err)
	}
}

// parts splits a frame in some way.
func parts(d *df.DataFrame) []*df.DataFrame {
	n := d.NumRows()
	switch k := w(5); {
	case k == 1:
		return d.SplitView(1 + w(n+1))
	case k == 2:
		return d.ShuffleView().SplitNView(1 + w(4))
	case k == 3:
		return []*df.DataFrame{d.ReverseView()}
	case k == 4 && n <= 12:
		return d.SplitView(1)
	}
	return []*df.DataFrame{d}
}

type prediction struct{ y, tol float64 }

// pipeline of the example: read, split, preprocess, train, store; restore in
// another process, read, preprocess, predict, write.
func c23(s *zzrt.Sim) {
	p := genPipeline()
	train, _ := p.files("/sim/train", 2+genN(60)%140, 1+w(4))
	k := 1 + w(3)
	clients := make([]struct {
		t     *Tab
		paths []string
		dir   string
		outs  []string
	}, k)
	fresh := map[string]int{}
	var next []*Tab
	for i := range clients {
		c := &clients[i]
		c.dir = fmt.Sprintf("/sim/new%d", i)
		c.t, c.paths = p.files(c.dir, 1+genN(60)%270, oneOf(1, 1, 2, 3, 5))
		next = append(next, c.t)
		for _, v := range c.t.col(pipeID).V {
			fresh[v.(string)] = i
		}
		zzrt.PutDir(fmt.Sprintf("/sim/out%d", i))
	}
	imputing := len(p.seen) > 0 || w(2) == 0
	opt := pp.AutoPreprocOptions{Imputing: imputing, Scaling: w(3) > 0, Exclude: []string{pipeTarget, pipeID}}
	lr := al.LinRegTrainParams{Epochs: 1 + w(2), LR: 1e-4, BatchSize: oneOf(0, 1, 7, 64), LowMemory: w(2) == 0, Momentum: oneOf(0, 0, 0.5)}
	ratio := oneOf(0.5, 0.25, 0)
	var expected map[string]prediction
	learn := func() {
		var raw *df.RawData
		var err error
		guard("FromCSVFilePattern", func() { raw, err = df.FromCSVFilePattern("/sim/train/*.csv", p.spec) })
		if err != nil || raw == nil {
			zzrt.Fail("unexpected-error", "the training files cannot be read: table %v error %v", raw != nil, err)
		}
		var tr, te *df.DataFrame
		guard("splitting", func() {
			d := raw.ToDataFrame()
			pipeRows("reading the training files", train, d)
			tr, te = d.ShuffleView().SplitTrainTestViews(ratio)
		})
		rows, test := pipeRows("the training rows", train, tr), pipeRows("the test rows", train, te)
		have := map[int]int{}
		for _, r := range append(append([]int{}, rows...), test...) {
			have[r]++
		}
		if len(have) != train.N || len(rows)+len(test) != train.N {
			zzrt.Fail("wrong-rows", "%d rows are split into %d training and %d test rows, %d different ones", train.N, len(rows), len(test), len(have))
		}
		a := newAuto(opt)
		a.expect(train, rows)
		var x *df.DataFrame
		guard("FitTransform", func() { x = a.p.FitTransform(tr) })
		xs := snap(x)
		a.verify("FitTransform of the training rows", want(train, rows), xs)
		m := al.NewLinearRegressor()
		guard("LinearRegressor.Fit", func() { err = m.Fit(x, pipeTarget, lr) })
		pipeErr("LinearRegressor.Fit", err)
		mustSame("input-changed", "LinearRegressor.Fit changes the training rows", x, xs)
		// every row alone, or a few together
		exp := map[string]prediction{}
		predict := func(t *Tab, l []int) {
			var y, z *df.DataFrame
			in := &Tab{N: len(l), CPU: 1, Enc: t.Enc}
			ws := want(t, l)
			for _, c := range t.Cols {
				in.Cols = append(in.Cols, ws.Cols[c.Name])
			}
			guard("TransformView", func() { y, err = a.p.TransformView(build(in)) })
			pipeErr("TransformView", err)
			ys := snap(y)
			yt := tabOf(ys)
			a.verify("TransformView of a new row", ws, ys)
			guard("Predict", func() { z, err = m.Predict(y, pipePred) })
			pipeErr("Predict", err)
			for i, v := range ys.Cols[pipeID].V {
				e, tol := dot(m, yt, i)
				if g := z.Floats(pipePred).Get(i); !(math.Abs(g-e) <= tol) {
					zzrt.Fail("wrong-prediction", "the prediction of a row alone is %v instead of %v", g, e)
				}
				exp[v.(string)] = prediction{e, tol}
			}
		}
		for _, t := range append([]*Tab{train}, next...) {
			step := 1
			if t.N > 10 {
				step = 1 + t.N/8
			}
			for i := 0; i < t.N; i += step {
				var l []int
				for j := i; j < t.N && j < i+step; j++ {
					l = append(l, j)
				}
				predict(t, l)
			}
		}
		// the test rows
		guard("the test rows", func() {
			y, err := a.p.TransformView(te)
			pipeErr("TransformView", err)
			z, err := m.Predict(y, pipePred)
			pipeErr("Predict", err)
			p.check("the test rows", train, test, snap(z), exp)
			mae := 0.0
			for _, r := range test {
				mae += math.Abs(exp[train.col(pipeID).V[r].(string)].y - train.col(pipeTarget).V[r].(float64))
			}
			if got := al.MAE(z.Floats(pipeTarget), z.Floats(pipePred)); len(test) > 0 && !near(got, mae/float64(len(test)), 1e-6) {
				zzrt.Fail("wrong-score", "the MAE of the test rows is %v instead of %v", got, mae/float64(len(test)))
			}
		})
		data, err := json.Marshal(stored{a.p, m})
		if err != nil {
			zzrt.Fail("not-serialisable", "the models cannot be serialised: %v", err)
		}
		expected = exp
		if err := zzrt.OsWriteFile(modelPath+".tmp", data, 0644); err != nil {
			zzrt.Broken("cannot store: %v", err)
		}
		if err := zzrt.OsRename(modelPath+".tmp", modelPath); err != nil {
			zzrt.Broken("cannot store: %v", err)
		}
	}
	kill := func() int {
		if chance(40) {
			return 1 + zzrt.F(1<<uint(4+zzrt.F(14)))
		}
		return 0
	}
	if done := zzrt.Process("training", kill(), learn); !done {
		zzrt.Probe("training killed")
		if _, err := zzrt.OsStat(modelPath); err != nil && !zzrt.Process("training again", 0, learn) {
			zzrt.Broken("the process did not end")
		}
	}
	rest("training")

	out := genOutSpec()
	out.StringMissingMarker = "-"
	faulty := zzrt.FSConfig{Latency: int64(w(2)) * 10000000}
	if chance(50) {
		faulty.Rate, faulty.OneShot = oneOf(20, 100, 300), chance(50)
		faulty.Kinds = ^uint32(zzrt.FaultVanish | zzrt.FaultStat)
		if w(2) == 0 { // the dumps only
			faulty.Kinds = zzrt.FaultCreate | zzrt.FaultWrite | zzrt.FaultShortWrite | zzrt.FaultClose
		}
	}
	whole := w(2) == 0 // write all columns
	join := w(2) == 0  // one dump, or one for every part
	shared := w(2) == 0
	serve := func() {
		data, err := zzrt.OsReadFile(modelPath)
		for err != nil && zzrt.HardFaults() > 0 {
			zzrt.SetFS(zzrt.FSConfig{})
			data, err = zzrt.OsReadFile(modelPath)
		}
		if err != nil {
			zzrt.Broken("cannot load: %v", err)
		}
		load := func() *stored {
			var st stored
			if err := json.Unmarshal(data, &st); err != nil {
				zzrt.Fail("not-restorable", "the models cannot be restored from %s: %v", data, err)
			}
			return &st
		}
		one := load()
		// attempt repeats a step while there are faults
		attempt := func(failures *int, what string, fn func() error) {
			for {
				off := *failures >= 2
				if off {
					zzrt.SetFS(zzrt.FSConfig{})
				}
				err := fn()
				if err == nil {
					return
				}
				if off || faulty.Rate == 0 {
					zzrt.Fail("unexpected-error", "%s fails without a reason: %v", what, err)
				}
				*failures++
				zzrt.Probe("retried")
			}
		}
		var fns []func()
		for i := range clients {
			c := &clients[i]
			i := i
			fns = append(fns, func() {
				c.outs = nil
				failures := 0
				st := one
				if !shared {
					st = load()
				}
				var frames []*df.DataFrame
				if w(3) > 0 {
					attempt(&failures, "FromCSVFilePattern", func() error {
						raw, err := df.FromCSVFilePattern(c.dir+"/*.csv", p.spec)
						if err == nil {
							frames = []*df.DataFrame{raw.ToDataFrame()}
						}
						return err
					})
				} else {
					for _, path := range c.paths {
						attempt(&failures, "FromCSVFile", func() error {
							raw, err := df.FromCSVFile(path, p.spec)
							if err == nil && raw.NumAllocatedRows() > 0 {
								frames = append(frames, raw.ToDataFrame())
							}
							return err
						})
					}
				}
				var done []*df.DataFrame
				for _, d := range frames {
					for _, b := range parts(d) {
						y, err := st.Preproc.TransformView(b)
						pipeErr("TransformView", err)
						z, err := st.Model.Predict(y, pipePred)
						pipeErr("Predict", err)
						if !whole {
							z = z.ColumnView(pipeID, pipeTarget, pipePred)
						}
						done = append(done, z)
					}
				}
				if join && len(done) > 1 {
					z, err := df.RowConcat(done...)
					pipeErr("RowConcat of the predicted parts", err)
					done = []*df.DataFrame{z}
				}
				for k, z := range done {
					prefix := fmt.Sprintf("/sim/out%d/part%d-", i, k)
					attempt(&failures, "ToCSVDir", func() error {
						l, err := z.ToCSVDir(out, prefix)
						if err == nil {
							c.outs = append(c.outs, l...)
						}
						return err
					})
				}
			})
		}
		guard("the pipeline", func() {
			if len(fns) == 1 || w(3) == 0 {
				for _, fn := range fns {
					fn()
				}
				return
			}
			zzrt.Probe("concurrent clients")
			for i, fn := range fns {
				fn := fn
				fns[i] = func() { guard("the pipeline", fn) }
			}
			together(fns...)
		})
	}
	zzrt.SetFS(faulty)
	if done := zzrt.Process("serving", kill(), serve); !done {
		zzrt.Probe("serving killed")
		zzrt.SetFS(faulty)
		if !zzrt.Process("serving again", 0, serve) {
			zzrt.Broken("the process did not end")
		}
	}
	zzrt.SetFS(zzrt.FSConfig{})
	rest("serving")
	for i := range clients {
		c := &clients[i]
		got := &Snap{Cols: map[string]*Col{pipeID: {pipeID, TS, nil}, pipeTarget: {pipeTarget, TF, nil}, pipePred: {pipePred, TF, nil}}}
		for _, path := range c.outs {
			data, ok := zzrt.GetFile(path)
			if !ok {
				zzrt.Fail("missing-file", "%s does not exist", path)
			}
			if len(data) == 0 {
				continue
			}
			o := parsePipe(path, string(data), out)
			for _, rec := range o.recs {
				got.N++
				for j, h := range o.header {
					if g := got.Cols[h]; g != nil && g.T == TS {
						g.V = append(g.V, rec[j])
					} else if g != nil {
						v, err := strconv.ParseFloat(rec[j], 64)
						if err != nil {
							zzrt.Fail("bad-output", "%s: %q in column %q", path, rec[j], h)
						}
						g.V = append(g.V, v)
					}
				}
			}
		}
		what := fmt.Sprintf("client %d (%d rows in %d files)", i, c.t.N, len(c.paths))
		p.check(what, c.t, nil, got, expected)
		zzrt.ProbeIf(c.t.N > 100, "more than 100 rows")
	}
	checked()
}

// parsePipe reads an output file.
func parsePipe(path, data string, out df.CSVWritingSpec) *parsed {
	o := &parsed{}
	r := csv.NewReader(strings.NewReader(data))
	if out.Comma != 0 {
		r.Comma = out.Comma
	}
	recs, err := r.ReadAll()
	if err != nil || len(recs) == 0 {
		zzrt.Fail("bad-output", "%s: %v in %.300q", path, err, data)
	}
	o.header, o.recs = recs[0], recs[1:]
	for _, name := range []string{pipeID, pipeTarget, pipePred} {
		n := 0
		for _, h := range o.header {
			if h == name {
				n++
			}
		}
		if n != 1 {
			zzrt.Fail("bad-output", "%s: the columns are %q", path, o.header)
		}
	}
	return o
}

// check compares predicted rows with what is expected for each of them.
func (p *pipeline) check(what string, t *Tab, rows []int, s *Snap, exp map[string]prediction) {
	if rows == nil && what != "the test rows" {
		rows = seq(t.N)
	}
	row := map[string]int{}
	for _, r := range rows {
		row[t.col(pipeID).V[r].(string)] = r
	}
	if s.N != len(rows) {
		zzrt.Fail("wrong-rows", "%s: %d rows instead of %d", what, s.N, len(rows))
	}
	for i := 0; i < s.N; i++ {
		id, _ := s.Cols[pipeID].V[i].(string)
		r, ok := row[id]
		if !ok {
			zzrt.Fail("wrong-rows", "%s: the row %q appears twice or does not belong there", what, id)
		}
		delete(row, id)
		if y := s.Cols[pipeTarget].V[i]; !eq(y, t.col(pipeTarget).V[r]) {
			zzrt.Fail("wrong-value", "%s: the target of %s is %v instead of %v", what, id, y, t.col(pipeTarget).V[r])
		}
		e := exp[id]
		if y := s.Cols[pipePred].V[i].(float64); !(math.Abs(y-e.y) <= 3*e.tol) {
			var l []string
			for _, c := range t.Cols {
				l = append(l, fmt.Sprintf("%q: %s", c.Name, show(c.V[r])))
			}
			zzrt.Fail("wrong-prediction", "%s: the prediction of %s is %v instead of %v (%s)", what, id, y, e.y, strings.Join(l, ", "))
		}
	}
}

func init() {
	register(&Scenario{ID: "C23", Run: c23, Digest: c11Digest})
}

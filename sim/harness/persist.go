//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"sort"

	al "github.com/rom1mouret/ml-essentials/algorithms"
	df "github.com/rom1mouret/ml-essentials/dataframe"
	pp "github.com/rom1mouret/ml-essentials/preprocessing"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// outcome is what one use of a model gives.
type outcome struct {
	s   *Snap
	err bool
}

func (o outcome) diff(p outcome) string {
	if o.err != p.err {
		return fmt.Sprintf("error: %v and %v", o.err, p.err)
	}
	if o.err {
		return ""
	}
	return o.s.sameRows(p.s)
}

// persistent is a model that can be stored.
type persistent struct {
	name  string
	fresh func() interface{} // an untrained object
	bare  func() interface{} // an object to restore a model in, made without the options; nil: fresh
	fit   func(m interface{}, d *df.DataFrame) error
	use   func(m interface{}, d *df.DataFrame) []outcome
}

func view(d *df.DataFrame, err error) outcome {
	if err != nil {
		return outcome{err: true}
	}
	return outcome{s: snap(d)}
}

func inplace(d *df.DataFrame, fn func(*df.DataFrame) error) outcome {
	c := d.Copy()
	return view(c, fn(c))
}

func columnsOf(m pp.PreprocTraining) outcome {
	s := &Snap{Cols: map[string]*Col{}}
	for _, c := range m.TransformedColumns() {
		s.Cols[c] = &Col{Name: c}
	}
	return outcome{s: s}
}

func genPersistent(t *Tab) *persistent {
	switch w(6) {
	case 0:
		opt := genScalerOptions()
		return &persistent{fmt.Sprintf("Scaler%+v", opt),
			func() interface{} {
				if w(2) == 0 {
					return &pp.Scaler{}
				}
				return pp.NewScaler(opt)
			}, nil,
			func(m interface{}, d *df.DataFrame) error { return m.(*pp.Scaler).Fit(d) },
			func(m interface{}, d *df.DataFrame) []outcome {
				s := m.(*pp.Scaler)
				return []outcome{columnsOf(s), inplace(d, s.TransformInplace), inplace(d, s.InverseTransformInplace)}
			}}
	case 1:
		opt := pp.FloatImputerOptions{Policy: oneOf(pp.Mean, pp.Mean, pp.Zero, pp.One)}
		return &persistent{fmt.Sprintf("FloatImputer%+v", opt),
			func() interface{} {
				if w(2) == 0 {
					return &pp.FloatImputer{}
				}
				return pp.NewFloatImputer(opt)
			}, nil,
			func(m interface{}, d *df.DataFrame) error { return m.(*pp.FloatImputer).Fit(d) },
			func(m interface{}, d *df.DataFrame) []outcome {
				s := m.(*pp.FloatImputer)
				return []outcome{columnsOf(s), inplace(d, s.TransformInplace)}
			}}
	case 2:
		return &persistent{"HashEncoder", func() interface{} { return &pp.HashEncoder{} }, nil,
			func(m interface{}, d *df.DataFrame) error { return m.(*pp.HashEncoder).Fit(d) },
			func(m interface{}, d *df.DataFrame) []outcome {
				s := m.(*pp.HashEncoder)
				return []outcome{columnsOf(s), view(s.TransformView(d))}
			}}
	case 3:
		opt := genOneHotOptions()
		return &persistent{fmt.Sprintf("OneHotEncoder%+v", opt),
			func() interface{} {
				if w(2) == 0 {
					return &pp.OneHotEncoder{}
				}
				return pp.NewOneHotEncoder(opt)
			}, nil,
			func(m interface{}, d *df.DataFrame) error {
				m.(*pp.OneHotEncoder).Options = pp.NewOneHotEncoder(opt).Options
				return m.(*pp.OneHotEncoder).Fit(d)
			},
			func(m interface{}, d *df.DataFrame) []outcome {
				s := m.(*pp.OneHotEncoder)
				return []outcome{columnsOf(s), view(s.TransformView(d))}
			}}
	case 4:
		opt := genAutoOptions(t)
		return &persistent{fmt.Sprintf("AutoPreprocessor%+v", opt),
			func() interface{} { return pp.NewAutoPreprocessor(opt) },
			func() interface{} { return &pp.AutoPreprocessor{} },
			func(m interface{}, d *df.DataFrame) error {
				s := m.(*pp.AutoPreprocessor)
				if w(2) == 0 {
					s.FitTransform(d)
					return nil
				}
				return s.Fit(d)
			},
			func(m interface{}, d *df.DataFrame) []outcome {
				s := m.(*pp.AutoPreprocessor)
				return []outcome{columnsOf(s), view(s.TransformView(d))}
			}}
	default:
		return linregOf(t)
	}
}

const modelPath = "/sim/model.json"

// plain removes missing values and large numbers from the floats.
func plain(t *Tab) {
	r := bulk()
	for _, c := range t.Cols {
		if c.T == TF {
			for i := range c.V {
				c.V[i] = float64(r.Intn(17)-8) / 4
			}
		}
	}
}

func c11(s *zzrt.Sim) {
	t := genAutoTab(genLarge(120))
	p := genPersistent(t)
	regression := p.name == "LinearRegressor"
	if regression {
		t = genAutoTab(1 + genN(80))
		names := genNames(20)
		for len(t.names(TF)) < 2 {
			for _, name := range names {
				if t.col(name) == nil && name != "_target" {
					t.Cols = append(t.Cols, genStatCol(name, t.N))
					break
				}
			}
		}
		plain(t)
		p = linregOf(t)
	}
	var idx []int
	if chance(50) && !regression {
		idx = genIndices(t.N)
	}
	tabs := []*Tab{t}
	for k := w(3); k > 0; k-- {
		o := redrawAuto(t, genN(60))
		if regression {
			if o.N == 0 {
				o = t
			}
			o = o.clone()
			plain(o)
		}
		tabs = append(tabs, o)
	}
	train := func() *df.DataFrame {
		d := build(t)
		if idx != nil {
			d = d.IndexView(idx)
		}
		return d
	}
	// uses gives the outcomes of a model for all the tables
	uses := func(m interface{}) []outcome {
		var l []outcome
		for _, o := range tabs {
			guard(p.name, func() { l = append(l, p.use(m, build(o))...) })
		}
		return l
	}
	var expected []outcome
	unfit := false
	learn := func() {
		m := p.fresh()
		var err error
		expected = nil
		guard(p.name+".Fit", func() { err = p.fit(m, train()) })
		if err != nil {
			unfit = true
			return
		}
		data, err := json.Marshal(m)
		if err != nil {
			zzrt.Fail("not-serialisable", "%s cannot be serialised after fitting on %s: %v", p.name, train0(t, idx), err)
		}
		expected = uses(m)
		// stored like a careful program would do it
		if err := zzrt.OsWriteFile(modelPath+".tmp", data, 0644); err != nil {
			zzrt.Broken("cannot store: %v", err)
		}
		if err := zzrt.OsRename(modelPath+".tmp", modelPath); err != nil {
			zzrt.Broken("cannot store: %v", err)
		}
		// the process goes on
		if w(2) == 0 {
			again := uses(m)
			for i := range again {
				if x := again[i].diff(expected[i]); x != "" {
					zzrt.Fail("use-changes-model", "%s behaves differently the second time: %s", p.name, x)
				}
			}
		}
	}
	kill := 0
	if chance(60) {
		kill = 1 + zzrt.F(1<<uint(4+zzrt.F(14)))
	}
	done := zzrt.Process("learn", kill, learn)
	zzrt.ProbeIf(!done, "killed")
	if _, err := zzrt.OsStat(modelPath); !unfit && err != nil {
		if !zzrt.Process("learn again", 0, learn) {
			zzrt.Broken("the process did not end")
		}
	}
	if unfit {
		return
	}
	use := func() {
		data, err := zzrt.OsReadFile(modelPath)
		if err != nil {
			zzrt.Broken("cannot load: %v", err)
		}
		for k := 1 + w(2); k > 0; k-- {
			fresh := p.fresh
			if p.bare != nil && w(2) == 0 {
				fresh = p.bare
			}
			m := fresh()
			if err := json.Unmarshal(data, m); err != nil {
				zzrt.Fail("not-restorable", "%s cannot be restored from %s: %v", p.name, data, err)
			}
			got := uses(m)
			for i := range got {
				if x := got[i].diff(expected[i]); x != "" {
					zzrt.Fail("restored-differs", "%s behaves differently after it was restored (use %d): %s", p.name, i, x)
				}
			}
			// and once more
			if data, err = json.Marshal(m); err != nil {
				zzrt.Fail("not-serialisable", "%s cannot be serialised after it was restored: %v", p.name, err)
			}
		}
	}
	if !zzrt.Process("use", 0, use) {
		zzrt.Broken("the process did not end")
	}
	rest("restoring")
	checked()
}

func train0(t *Tab, idx []int) string {
	if idx != nil {
		return fmt.Sprintf("%v, rows %v", t, idx)
	}
	return t.String()
}

// linregOf is the LinearRegressor for a table.
func linregOf(t *Tab) *persistent {
	return &persistent{"LinearRegressor", func() interface{} { return &al.LinearRegressor{} }, nil,
		func(m interface{}, d *df.DataFrame) error {
			return m.(*al.LinearRegressor).Fit(d, t.names(TF)[0], al.LinRegTrainParams{Epochs: 1 + w(3), LR: 1e-4, BatchSize: 1 + w(40), LowMemory: w(2) == 0})
		},
		func(m interface{}, d *df.DataFrame) []outcome {
			return []outcome{view(m.(*al.LinearRegressor).Predict(d, "the prediction"))}
		}}
}

// c11Digest trains on fixed strings: what is stored must fit every process.
func c11Digest(s *zzrt.Sim, put func(k, v string)) {
	var l []interface{}
	for i := 0; i < 40; i++ {
		l = append(l, fmt.Sprint("category ", i%17))
	}
	d := build(&Tab{N: len(l), Cols: []*Col{{Name: "c", T: TS, V: l}}, CPU: 2})
	p := pp.NewAutoPreprocessor(pp.AutoPreprocOptions{})
	p.FitTransform(d)
	var cats []int
	for c := range p.IntToBool.Categories["c"] {
		cats = append(cats, c)
	}
	sort.Ints(cats)
	put("stored categories", fmt.Sprint(cats))
}

func init() {
	register(&Scenario{ID: "C11", Run: c11, Digest: c11Digest})
}

//go:build go1.22

package main

import (
	"fmt"
	"math"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	pp "github.com/rom1mouret/ml-essentials/preprocessing"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// genStatCol draws a float column whose statistics are well conditioned.
func genStatCol(name string, n int) *Col {
	c := &Col{Name: name, T: TF, V: make([]interface{}, n)}
	r := bulk()
	mode := w(8)
	big := []float64{1e5, -3e6, 1e7, 1e8 / 3}[r.Intn(4)]
	nan := oneOf(0, 0, 0, 20, 70, 100)
	k := []float64{2.5, 0.1, 0.3, 1.0 / 3, 1e-5 / 3, 1e10 / 3, 0, -0.7, 1e6 + 0.1}[r.Intn(9)]
	for i := range c.V {
		if r.Intn(100) < nan {
			c.V[i] = math.NaN()
			continue
		}
		switch mode {
		case 0, 1, 2, 3:
			c.V[i] = genFloat(r, mode)
		case 4: // constant
			c.V[i] = k
		case 5: // two values
			c.V[i] = float64(r.Intn(2))*5 - 2
		case 6: // far from zero, compared with the deviations
			c.V[i] = big + float64(r.Intn(16))/4
		default: // away from zero
			c.V[i] = k * float64(1+r.Intn(3))
		}
	}
	return c
}

// stats of the viewed, non-missing values.
type stats struct {
	n              int
	mean, std, abs float64
	min, max       float64
	constant, none bool
}

func statsOf(v []interface{}, rows []int) stats {
	s := stats{min: math.Inf(1), max: math.Inf(-1)}
	var l []float64
	for _, i := range rows {
		if x := v[i].(float64); !math.IsNaN(x) {
			l = append(l, x)
		}
	}
	s.n = len(l)
	s.none = s.n == 0
	if s.none {
		return s
	}
	for _, x := range l {
		s.mean += x / float64(s.n)
		s.abs += math.Abs(x) / float64(s.n)
		s.min = math.Min(s.min, x)
		s.max = math.Max(s.max, x)
	}
	for _, x := range l {
		s.std += (x - s.mean) * (x - s.mean) / float64(s.n)
	}
	s.std = math.Sqrt(s.std)
	s.constant = s.min == s.max
	return s
}

// scaled checks the transformed value of x.
func (s stats) scaled(what string, opt pp.ScalerOptions, x, y float64) {
	if math.IsNaN(x) {
		if !math.IsNaN(y) {
			zzrt.Fail("missing-replaced", "%s: a missing value becomes %v", what, y)
		}
		return
	}
	if s.none || s.constant && (opt.MinMax || opt.Scaling) {
		c := 0.0
		if s.constant {
			c = s.min
		}
		if lim := (math.Abs(x-c)+math.Abs(c))*math.Sqrt(float64(s.n)+1)*1.001 + 1; !(math.Abs(y) <= lim) {
			zzrt.Fail("harmful-transformation", "%s: %v becomes %v although the training column has %d values, all equal to %v", what, x, y, s.n, c)
		}
		if s.constant && opt.Centering && !opt.MinMax && x == c && !(math.Abs(y) <= 1e-6*(1+math.Abs(c))) {
			zzrt.Fail("wrong-value", "%s: %v, the mean of a constant column, becomes %v", what, x, y)
		}
		return
	}
	// rounding errors of the statistics are proportional to the values, and
	// then divided by the deviation
	e := x
	tol := 1e-9
	switch {
	case opt.MinMax:
		e = (x - s.min) / (s.max - s.min)
		tol *= 1 + math.Abs(s.min)/(s.max-s.min)/100
	case opt.Centering && opt.Scaling:
		e = (x - s.mean) / s.std
		tol *= 1 + s.abs/s.std/100
	case opt.Centering:
		e = x - s.mean
		tol *= 1 + s.abs
	case opt.Scaling:
		e = x / s.std
		tol *= 1 + s.abs/s.std/100
	}
	if !near(y, e, tol) {
		zzrt.Fail("wrong-value", "%s: %v becomes %v instead of %v (mean %v, std %v, min %v, max %v of %d values)", what, x, y, e, s.mean, s.std, s.min, s.max, s.n)
	}
}

func distinct(rows []int) map[int]bool {
	m := map[int]bool{}
	for _, r := range rows {
		m[r] = true
	}
	return m
}

func genScalerOptions() pp.ScalerOptions {
	switch w(8) {
	case 0, 1:
		return pp.ScalerOptions{Centering: true, Scaling: true}
	case 2:
		return pp.ScalerOptions{Centering: true}
	case 3:
		return pp.ScalerOptions{Scaling: true}
	case 4, 5:
		return pp.ScalerOptions{MinMax: true}
	case 6:
		return pp.ScalerOptions{MinMax: true, Centering: w(2) == 1, Scaling: w(2) == 1}
	default:
		return pp.ScalerOptions{}
	}
}

// genStatTab draws a table with float columns and some others.
func genStatTab(n, minFloats, maxFloats int) *Tab {
	t := &Tab{N: n, CPU: genCPU()}
	k := minFloats + w(maxFloats-minFloats+1)
	names := genNames(k + 3)
	for i := 0; i < k; i++ {
		t.Cols = append(t.Cols, genStatCol(names[i], n))
	}
	for i := k; i < k+w(4); i++ {
		t.Cols = append(t.Cols, genCol(names[i], oneOf(TB, TI, TS, TO), n))
	}
	if len(t.Cols) == 0 {
		t.withID(idCol)
	}
	return t
}

// tabOf is a table with the content of a frame.
func redraw(t *Tab, n int) *Tab {
	r := &Tab{N: n, CPU: t.CPU}
	for _, c := range t.Cols {
		if c.T == TF {
			r.Cols = append(r.Cols, genStatCol(c.Name, n))
		} else {
			r.Cols = append(r.Cols, genCol(c.Name, c.T, n))
		}
	}
	return r
}

type transformer interface {
	Fit(d *df.DataFrame) error
	TransformInplace(d *df.DataFrame) error
	TransformedColumns() []string
}

// fitted is a preprocessor of floats and what it must do.
type fitted struct {
	p      transformer
	what   string
	fit    []string // columns it was fitted on
	st     map[string]stats
	scaler bool
	opt    pp.ScalerOptions
	pol    pp.ImputingPolicy
}

func genFitted(t *Tab) *fitted {
	f := &fitted{st: map[string]stats{}}
	if w(5) < 3 {
		f.scaler = true
		f.opt = genScalerOptions()
		f.p = pp.NewScaler(f.opt)
		f.what = fmt.Sprintf("Scaler%+v", f.opt)
	} else {
		f.pol = oneOf(pp.Mean, pp.Mean, pp.Zero, pp.One)
		f.p = pp.NewFloatImputer(pp.FloatImputerOptions{Policy: f.pol})
		f.what = fmt.Sprintf("FloatImputer(%d)", f.pol)
	}
	return f
}

// train fits on the given view of a frame with the given content.
func (f *fitted) train(t *Tab, d *df.DataFrame, rows []int) {
	before := snap(d)
	f.fit = t.names(TF)
	f.st = map[string]stats{}
	v := d
	if len(f.fit) > 0 && chance(30) {
		f.fit = f.fit[:1+w(len(f.fit))]
		v = d.ColumnView(append(append([]string{}, f.fit...), t.names(TB, TS)...)...)
	}
	for _, name := range f.fit {
		f.st[name] = statsOf(t.col(name).V, rows)
	}
	guard(f.what+".Fit", func() {
		if err := f.p.Fit(v); err != nil {
			zzrt.Fail("unexpected-error", "%s.Fit: %v", f.what, err)
		}
	})
	f.what = fmt.Sprintf("%s fitted on %d rows", f.what, len(rows))
	mustSame("input-changed", f.what+": fitting changes the frame", d, before)
	if cols := f.p.TransformedColumns(); !(f.scaler && f.opt == pp.ScalerOptions{}) && !sameSet(cols, f.fit) {
		zzrt.Fail("wrong-columns", "%s: TransformedColumns() is %q after fitting on %q", f.what, cols, f.fit)
	}
}

// check compares a table before and after the transformation of some rows.
func (f *fitted) check(what string, t *Tab, rows map[int]bool, after *Snap) {
	for _, c := range t.Cols {
		a := after.Cols[c.Name]
		if a == nil || a.T != c.T || len(a.V) != t.N {
			zzrt.Fail("wrong-columns", "%s: column %q is lost: {%s} of %d rows", what, c.Name, after.schema(), after.N)
		}
		st, fitted := f.st[c.Name]
		for i := range c.V {
			at := fmt.Sprintf("%s: column %q row %d", what, c.Name, i)
			if !fitted || !rows[i] {
				if !eq(c.V[i], a.V[i]) {
					zzrt.Fail("changed-outside", "%s: changes from %s to %s (fitted column: %v, viewed row: %v)", at, show(c.V[i]), show(a.V[i]), fitted, rows[i])
				}
				continue
			}
			x, y := c.V[i].(float64), a.V[i].(float64)
			if f.scaler {
				st.scaled(at, f.opt, x, y)
				continue
			}
			if !math.IsNaN(x) {
				if !eq(c.V[i], a.V[i]) {
					zzrt.Fail("wrong-value", "%s: the imputer changes %v to %v", at, x, y)
				}
				continue
			}
			if math.IsNaN(y) || math.IsInf(y, 0) {
				zzrt.Fail("missing-left", "%s: a missing value becomes %v (%d training values)", at, y, st.n)
			}
			e := st.mean
			switch f.pol {
			case pp.Zero:
				e = 0
			case pp.One:
				e = 1
			default:
				if st.none {
					e = y // anything
				}
			}
			if !near(y, e, 1e-9*(1+math.Max(math.Abs(st.min), math.Abs(st.max)))) && y != e {
				zzrt.Fail("wrong-value", "%s: a missing value becomes %v instead of %v", at, y, e)
			}
		}
	}
	if len(after.Cols) != len(t.Cols) {
		zzrt.Fail("wrong-columns", "%s: columns {%s} appear", what, after.schema())
	}
}

// apply transforms a view of a new frame with the content of t, and back.
func (f *fitted) apply(t *Tab) {
	root := build(t)
	d, rows := root, seq(t.N)
	if chance(60) {
		d, rows = genView(root, rows)
	}
	what := f.what + fmt.Sprintf(", transforming %d of %d rows", len(rows), t.N)
	detached := false
	switch w(4) {
	case 0:
		d = d.DetachedView(f.fit...)
		detached = true
	case 1:
		if d2 := d.ShallowCopy(); w(2) == 1 {
			d = d2
		}
	}
	tr := func(fn func(*df.DataFrame) error, name string) {
		guard(f.what+"."+name, func() {
			if err := fn(d); err != nil {
				zzrt.Fail("unexpected-error", "%s.%s: %v", f.what, name, err)
			}
		})
	}
	// what happens in the underlying table
	whole := func() *Snap {
		if !detached {
			return snap(root)
		}
		if x := snap(root).diff(want(t, seq(t.N))); x != "" {
			zzrt.Fail("input-changed", "%s: transforming a detached view changes the frame: %s", what, x)
		}
		s := want(t, seq(t.N))
		v := snap(d)
		for name, c := range v.Cols {
			if x := s.Cols[name]; x != nil && x.T == c.T {
				for i, r := range rows {
					x.V[r] = c.V[i]
				}
			}
		}
		return s
	}
	if len(f.fit) == 0 && detached {
		return // DetachedView() of nothing detaches everything
	}
	tr(f.p.TransformInplace, "TransformInplace")
	after := whole()
	f.check(what, t, distinct(rows), after)
	// the view and the frame agree
	v := snap(d)
	if v.N != len(rows) {
		zzrt.Fail("wrong-size", "%s: the view has %d rows", what, v.N)
	}
	for name, c := range v.Cols {
		for i, r := range rows {
			if !eq(c.V[i], after.Cols[name].V[r]) {
				zzrt.Fail("not-shared", "%s: column %q row %d is %s in the view and %s in the frame", what, name, r, show(c.V[i]), show(after.Cols[name].V[r]))
			}
		}
	}
	if s, ok := f.p.(*pp.Scaler); ok && w(2) == 1 {
		tr(s.InverseTransformInplace, "InverseTransformInplace")
		back := whole()
		for _, c := range t.Cols {
			st := f.st[c.Name]
			for i := range c.V {
				x, xo := c.V[i].(float64)
				y, yo := back.Cols[c.Name].V[i].(float64)
				if eq(c.V[i], back.Cols[c.Name].V[i]) {
					continue
				}
				tol := 1e-9 * (1 + math.Abs(x))
				if !st.none && st.n > 0 {
					tol += 1e-9 * (math.Abs(st.min) + math.Abs(st.max))
				}
				if !xo || !yo || !(math.Abs(x-y) <= tol) {
					zzrt.Fail("wrong-inverse", "%s: after the inverse transformation column %q row %d is %s instead of %s", what, c.Name, i, show(back.Cols[c.Name].V[i]), show(c.V[i]))
				}
			}
		}
		zzrt.Probe("inverse checked")
	}
}

func c08(s *zzrt.Sim) {
	t := genStatTab(genLarge(300), 0, 6)
	root := build(t)
	rootSnap := snap(root)
	var fs []*fitted
	var fns []func()
	for k := 1 + w(3); k > 0; k-- {
		f := genFitted(t)
		d, rows := root, seq(t.N)
		if chance(60) {
			d, rows = genView(root, rows)
		}
		fs = append(fs, f)
		fns = append(fns, func() {
			if chance(15) {
				// an earlier training on something else is forgotten
				o := genStatTab(genN(20), 1, 3)
				f.p.Fit(build(o))
			}
			f.train(t, d, rows)
		})
	}
	if chance(50) {
		together(fns...)
	} else {
		for _, fn := range fns {
			fn()
		}
	}
	mustSame("input-changed", "fitting changes the frame", root, rootSnap)
	rest("fitting")
	fns = nil
	for _, f := range fs {
		for k := 1 + w(2); k > 0; k-- {
			f := f
			t2 := t
			if chance(60) {
				t2 = redraw(t, genLarge(300))
			}
			fns = append(fns, func() { f.apply(t2) })
		}
	}
	if chance(50) {
		together(fns...)
	} else {
		for _, fn := range fns {
			fn()
		}
	}
	mustSame("input-changed", "transforming other frames changes the frame", root, rootSnap)
	rest("transforming")
	checked()
}

func init() {
	register(&Scenario{ID: "C08", Run: c08})
}

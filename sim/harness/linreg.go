//go:build go1.22

package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"

	alg "github.com/rom1mouret/ml-essentials/algorithms"
	df "github.com/rom1mouret/ml-essentials/dataframe"
	pp "github.com/rom1mouret/ml-essentials/preprocessing"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// rowIDs are the names of columns that identify the rows.
var rowIDs = []string{"zz-id1", "zz-id2"}

func genFeature(name string, t CT, n int) *Col {
	c := &Col{Name: name, T: t, V: make([]interface{}, n)}
	r := bulk()
	mode := w(3)
	for i := range c.V {
		if t == TB {
			c.V[i] = r.Intn(2) == 1
		} else {
			c.V[i] = genFloat(&*r, mode)
		}
	}
	return c
}

// genRegTab draws a table with features, other columns and identified rows.
func genRegTab(n, minFeatures int) (*Tab, []string) {
	t := &Tab{N: n, CPU: genCPU()}
	k := minFeatures + w(5)
	names := genNames(k + 3)
	for _, name := range names[:k] {
		t.Cols = append(t.Cols, genFeature(name, oneOf(TF, TF, TB), n))
	}
	features := names[:k]
	for _, name := range names[k : k+w(4)] {
		t.Cols = append(t.Cols, genCol(name, oneOf(TS, TI, TO), n))
	}
	for _, name := range rowIDs {
		t.withID(name)
	}
	return t, features
}

// affine is the inverse of the transformation of the target.
func affine(s *pp.Scaler) (mul, add float64) {
	mul = 1
	for _, v := range s.Scale {
		mul = 1 / v
	}
	for _, v := range s.Shift {
		add = -v
	}
	return mul, add
}

// trainable is a small valid training set, to get a fitted model.
func trainable(features []string) *df.DataFrame {
	t := &Tab{N: 5, CPU: 1}
	r := bulk()
	for _, f := range append([]string{"zz target"}, features...) {
		c := &Col{Name: f, T: TF, V: make([]interface{}, t.N)}
		for i := range c.V {
			c.V[i] = float64(r.Intn(20)) / 4
		}
		t.Cols = append(t.Cols, c)
	}
	return build(t)
}

// genModel returns a model with the given features and arbitrary weights.
func genModel(features []string) *alg.LinearRegressor {
	m := alg.NewLinearRegressor()
	guard("Fit", func() {
		if err := m.Fit(trainable(features), "zz target", alg.LinRegTrainParams{Epochs: 1, LR: 0.001, BatchSize: 3}); err != nil {
			zzrt.Fail("spurious-failure", "Fit: %v", err)
		}
	})
	if !sameSet(m.Features, features) || len(m.Weights) != len(m.Features) {
		zzrt.Fail("wrong-features", "Fit uses the features %q with %d weights instead of %q", m.Features, len(m.Weights), features)
	}
	if len(m.TargetScaler.Scale) != 1 || len(m.TargetScaler.Shift) != 1 {
		zzrt.Fail("wrong-scaler", "Fit makes a target scaler with %d scales and %d shifts", len(m.TargetScaler.Scale), len(m.TargetScaler.Shift))
	}
	r := bulk()
	for i := range m.Weights {
		m.Weights[i] = (r.Float() - 0.5) * 8
		if r.Intn(6) == 0 {
			m.Weights[i] = 0
		}
	}
	for k := range m.TargetScaler.Scale {
		m.TargetScaler.Scale[k] = 0.01 + r.Float()*10
	}
	for k := range m.TargetScaler.Shift {
		m.TargetScaler.Shift[k] = (r.Float() - 0.5) * 100
	}
	if w(3) == 2 { // a model that was stored
		data, err := json.Marshal(m)
		if err != nil {
			zzrt.Fail("spurious-failure", "Marshal: %v", err)
		}
		m = new(alg.LinearRegressor)
		if err := json.Unmarshal(data, m); err != nil {
			zzrt.Fail("spurious-failure", "Unmarshal: %v", err)
		}
	}
	return m
}

// dot is the expected prediction of a row, and a bound of its rounding error.
func dot(m *alg.LinearRegressor, t *Tab, row int) (y, tol float64) {
	abs := 0.0
	for i, f := range m.Features {
		v := number(t.col(f).V[row]) * m.Weights[i]
		y += v
		abs += math.Abs(v)
	}
	mul, add := affine(m.TargetScaler)
	return y*mul + add, 1e-9 * (abs*math.Abs(mul) + math.Abs(add) + 1e-9)
}

// predicted checks the result of a prediction.
func predicted(what string, m *alg.LinearRegressor, t *Tab, rows []int, out *df.DataFrame, column string) {
	got := snap(out)
	p := got.Cols[column]
	if p == nil || p.T != TF {
		zzrt.Fail("no-prediction", "%s: the columns are %s", what, got.schema())
	}
	e := want(t, rows).drop(column)
	if x := got.drop(column).sameRows(e); x != "" {
		zzrt.Fail("wrong-rows", "%s: %s", what, x)
	}
	id := rowIDs[0]
	if id == column || t.col(id).T != TI {
		id = rowIDs[1]
	}
	for i, v := range got.Cols[id].V {
		row := v.(int) / 3
		y, tol := dot(m, t, row)
		if x := p.V[i].(float64); !(math.Abs(x-y) <= tol) {
			zzrt.Fail("wrong-prediction", "%s: row %d is %v instead of %v (weights %v of %q, scaler %+v)", what, row, x, y, m.Weights, m.Features, *m.TargetScaler)
		}
	}
}

// book of frames that must not change.
type kept struct {
	d    *df.DataFrame
	rows []int
	name string
}

// predictions predicts with models on frames, views and results.
func predictions(t *Tab, features []string) []func() {
	root := build(t)
	frames := []kept{{root, seq(t.N), "frame"}}
	for k := w(4); k > 0; k-- {
		f := frames[w(len(frames))]
		d, rows := genView(f.d, f.rows)
		frames = append(frames, kept{d, rows, "view"})
	}
	models := []*alg.LinearRegressor{}
	for k := 1 + w(2); k > 0; k-- {
		var l []string
		for _, f := range features {
			if w(5) < 4 {
				l = append(l, f)
			}
		}
		if len(l) == 0 {
			l = features[:1]
		}
		models = append(models, genModel(l))
	}
	var fns []func()
	for k := 1 + w(3); k > 0; k-- {
		f := frames[w(len(frames))]
		m := models[w(len(models))]
		column := oneOf("prediction", "_target", rowIDs[0], "other")
		if w(2) == 1 {
			column = t.Cols[w(len(t.Cols))].Name
		}
		fns = append(fns, func() {
			what := fmt.Sprintf("Predict(%q) on %s: %d rows of %s", column, f.name, len(f.rows), t)
			var out *df.DataFrame
			var err error
			guard(what, func() { out, err = m.Predict(f.d, column) })
			if err != nil {
				zzrt.Fail("spurious-failure", "%s: %v", what, err)
			}
			for _, f := range frames {
				mustSame("input-changed", what+" changes "+f.name, f.d, want(t, f.rows))
			}
			predicted(what, m, t, f.rows, out, column)
			// the prediction does not depend on other columns of the result
			if t.col(column) == nil || !contains(m.Features, column) {
				var again *df.DataFrame
				guard(what+" again", func() { again, err = m.Predict(out, "zz again") })
				if err != nil {
					zzrt.Fail("spurious-failure", "%s again: %v", what, err)
				}
				t2 := t.clone()
				c := t2.col(column)
				if c == nil {
					c = &Col{Name: column, T: TF}
					t2.Cols = append(t2.Cols, c)
				}
				c.T, c.V = TF, make([]interface{}, t.N)
				id := rowIDs[0]
				if id == column {
					id = rowIDs[1]
				}
				got := snap(out)
				for i, v := range got.Cols[id].V {
					c.V[v.(int)/3] = got.Cols[column].V[i]
				}
				predicted(what+" again", m, t2, f.rows, again, "zz again")
			}
			zzrt.Probe("prediction")
		})
	}
	return fns
}

// manyBatches predicts with so many weights that there are several batches.
func manyBatches(t *Tab, features []string) {
	m := genModel(features)
	names, r := m.Features, bulk()
	for len(m.Weights) < 70000 {
		m.Features = append(m.Features, names[r.Intn(len(names))])
		m.Weights = append(m.Weights, r.Float()-0.5)
	}
	out, err := m.Predict(build(t), "prediction")
	if err != nil {
		zzrt.Fail("spurious-failure", "Predict: %v", err)
	}
	predicted(fmt.Sprintf("Predict with %d weights", len(m.Weights)), m, t, seq(t.N), out, "prediction")
	zzrt.Probe("several batches")
}

// trainer fits a model on a frame and checks what is always true.
func trainer(t *Tab, features []string) []func() {
	root := build(t)
	frames := []kept{{root, seq(t.N), "frame"}}
	for k := w(3); k > 0; k-- {
		d, rows := genView(root, seq(t.N))
		frames = append(frames, kept{d, rows, "view"})
	}
	var targets []string
	for _, f := range features {
		if t.col(f).T == TF {
			targets = append(targets, f)
		}
	}
	var fns []func()
	for k := 1 + w(3); k > 0; k-- {
		f := frames[w(len(frames))]
		target := targets[w(len(targets))]
		p := alg.LinRegTrainParams{Epochs: oneOf(1, 2, 5, 0), LR: oneOf(0.001, 1e-5, 0), BatchSize: oneOf(1, 3, 64, 1000, len(f.rows)+1, 0),
			WeightDecay: oneOf(0, 0.01), Momentum: oneOf(0, 0.5), LowMemory: w(2) == 1, Verbose: w(2) == 1}
		m := alg.NewLinearRegressor()
		if w(4) == 3 && len(fns) == 0 { // a model that was trained before
			m = genModel(features)
		}
		fns = append(fns, func() {
			what := fmt.Sprintf("Fit(%q, %+v) on %s: %d rows of %s", target, p, f.name, len(f.rows), t)
			var err error
			guard(what, func() { err = m.Fit(f.d, target, p) })
			if err != nil {
				zzrt.Fail("spurious-failure", "%s: %v", what, err)
			}
			var e []string
			for _, x := range features {
				if x != target {
					e = append(e, x)
				}
			}
			if !sameSet(m.Features, e) || len(m.Weights) != len(e) {
				zzrt.Fail("wrong-features", "%s: the features are %q with %d weights", what, m.Features, len(m.Weights))
			}
			for _, f := range frames {
				mustSame("input-changed", what+" changes "+f.name, f.d, want(t, f.rows))
			}
			// the scaler is that of the target
			st := statsOf(t.col(target).V, f.rows)
			mul, add := affine(m.TargetScaler)
			if !st.none && !st.constant && !(near(mul, st.std, 1e-6*(1+math.Abs(st.mean)/st.std)) && near(add, st.mean, 1e-6*(1+math.Abs(st.mean)))) {
				zzrt.Fail("wrong-scaler", "%s: the target scaler has the mean %v instead of %v and the deviation %v instead of %v", what, add, st.mean, mul, st.std)
			}
			zzrt.Probe("fit")
		})
	}
	return fns
}

// converge fits a model on noiseless linear data.
func converge() {
	d := 1 + w(3)
	n := oneOf(40, 30, 60, 97)
	names := genNames(d + 3)
	t := &Tab{N: n, CPU: genCPU()}
	r := bulk()
	coef := map[string]float64{}
	y := &Col{Name: names[d], T: TF, V: make([]interface{}, n)}
	sum := make([]float64, n)
	norms := make([]float64, n)
	var x [][]float64
	for _, name := range names[:d] {
		c := &Col{Name: name, T: TF, V: make([]interface{}, n)}
		v := make([]float64, n)
		mean := 0.0
		for i := range v {
			v[i] = float64(r.Intn(3)-1) + r.Float() - 0.5
			mean += v[i] / float64(n)
		}
		k := float64(r.Intn(9)-4) / 2
		coef[name] = k
		for i := range v {
			v[i] -= mean
			c.V[i] = v[i]
			sum[i] += k * v[i]
			norms[i] += v[i] * v[i]
		}
		x = append(x, v)
		t.Cols = append(t.Cols, c)
	}
	if chance(30) { // complementary bools, whose sum is an intercept
		a, b := &Col{Name: names[d+1], T: TB, V: make([]interface{}, n)}, &Col{Name: names[d+2], T: TB, V: make([]interface{}, n)}
		va, vb := make([]float64, n), make([]float64, n)
		for i := range a.V {
			v := r.Intn(2) == 1
			a.V[i], b.V[i] = v, !v
			va[i], vb[i] = number(v), number(!v)
			sum[i] += 2 * va[i]
			norms[i]++
		}
		t.Cols = append(t.Cols, a, b)
		coef[a.Name], coef[b.Name] = 1, -1
		x = append(x, va, vb)
	}
	max, varY := 0.0, 0.0
	shift := float64(r.Intn(21) - 10)
	for i := range sum {
		y.V[i] = sum[i] + shift
		max = math.Max(max, norms[i])
	}
	t.Cols = append(t.Cols, y)
	st := statsOf(y.V, seq(n))
	varY = st.std
	if varY < 0.1 {
		return // constant target
	}
	lmin := smallestEigen(x)
	if !(lmin >= 0.05) {
		return
	}
	batch := oneOf(8, 1, 3, 16, n, n+5, 1000)
	eff := batch
	if eff > n {
		eff = n
	}
	p := alg.LinRegTrainParams{BatchSize: batch, LR: 0.7 / (float64(eff) * max), LowMemory: w(2) == 1, Momentum: oneOf(0, 0, 0.3, 0.5)}
	p.LR *= 1 - p.Momentum
	// the error is divided by e in so many epochs, to first order
	per := 1 + 1/(0.7/(float64(eff)*max)*float64(n)*lmin)
	p.Epochs = int(45 * per)
	if p.Epochs > 3000 {
		return
	}
	zero := w(6) // hyper-parameters left to their default value
	switch zero {
	case 1:
		p.Epochs = 0
	case 2:
		p.LR = 0
	case 3:
		p.BatchSize = 0
	case 4:
		p.Epochs, p.LR, p.BatchSize = 0, 0, 0
	}
	frame, rows := build(t), seq(n)
	if chance(30) { // a view with all rows
		idx := seq(n)
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			idx[i], idx[j] = idx[j], idx[i]
		}
		frame, rows = frame.IndexView(idx), idx
	}
	what := fmt.Sprintf("Fit(%q, %+v) on %d rows of %s", y.Name, p, len(rows), t)
	m := alg.NewLinearRegressor()
	guard(what, func() {
		if err := m.Fit(frame, y.Name, p); err != nil {
			zzrt.Fail("spurious-failure", "%s: %v", what, err)
		}
	})
	mustSame("input-changed", what+" changes the frame", frame, want(t, rows))
	out, err := m.Predict(frame, "zz prediction")
	if err != nil {
		zzrt.Fail("spurious-failure", "Predict: %v", err)
	}
	mse := 0.0
	got := snap(out)
	for i, v := range got.Cols["zz prediction"].V {
		d := v.(float64) - got.Cols[y.Name].V[i].(float64)
		mse += d * d / float64(n)
	}
	if zero != 0 && zero <= 4 {
		defaults(what, zero)
		return
	}
	if !(math.Sqrt(mse) < 0.002*varY) {
		zzrt.Fail("no-convergence", "%s: the error is %v, the deviation of the target is %v (smallest eigenvalue %v)", what, math.Sqrt(mse), varY, lmin)
	}
	mul, _ := affine(m.TargetScaler)
	if len(coef) == d { // with an intercept, the solution is unique too
		for i, f := range m.Features {
			if k := m.Weights[i] * mul; !(math.Abs(k-coef[f]) < 0.02*(1+math.Abs(coef[f]))) {
				zzrt.Fail("wrong-coefficient", "%s: the coefficient of %q is %v instead of %v", what, f, k, coef[f])
			}
		}
	}
	zzrt.Probe("convergence")
}

// defaults trains a very simple model with hyper-parameters left to 0.
func defaults(what string, zero int) {
	n := 200
	t := &Tab{N: n, CPU: 1}
	a, y := &Col{Name: "a", T: TF}, &Col{Name: "y", T: TF}
	for i := 0; i < n; i++ {
		v := float64(i%2*2 - 1)
		a.V = append(a.V, v)
		y.V = append(y.V, 5*v+1)
	}
	t.Cols = []*Col{a, y}
	p := alg.LinRegTrainParams{LowMemory: true}
	switch zero {
	case 1: // one epoch is enough
		p.LR, p.BatchSize = 0.1, 5
	case 2: // enough even for a very small rate
		p.BatchSize, p.Epochs = 50, 500
	case 3: // suits any size
		p.LR, p.Epochs = 1/float64(n), 30
	case 4:
	}
	m := alg.NewLinearRegressor()
	what = fmt.Sprintf("Fit with %+v", p)
	guard(what, func() {
		if err := m.Fit(build(t), "y", p); err != nil {
			zzrt.Fail("spurious-failure", "%s: %v", what, err)
		}
	})
	mul, _ := affine(m.TargetScaler)
	tol := 0.5
	if zero == 4 {
		// the initial weights are random: only a bound on their distance
		// to the solution can be promised
		tol = 12
	}
	if k := m.Weights[0] * mul; !(math.Abs(k-5) < tol) {
		zzrt.Fail("no-default", "%s: the coefficient is %v instead of 5, as if there were no default values", what, k)
	}
	zzrt.Probe("defaults")
}

// smallestEigen is the smallest eigenvalue of the second moments, by power
// iteration on the complement.
func smallestEigen(x [][]float64) float64 {
	d, n := len(x), float64(len(x[0]))
	a := make([][]float64, d)
	tr := 0.0
	for i := range a {
		a[i] = make([]float64, d)
		for j := range a[i] {
			for k := range x[i] {
				a[i][j] += x[i][k] * x[j][k] / n
			}
		}
		tr += a[i][i]
	}
	if d == 1 {
		return tr
	}
	v := make([]float64, d)
	for i := range v {
		v[i] = 1 / float64(i+1)
	}
	l := 0.0
	for it := 0; it < 300; it++ {
		u := make([]float64, d)
		norm := 0.0
		for i := range u {
			u[i] = tr * v[i]
			for j := range v {
				u[i] -= a[i][j] * v[j]
			}
			norm += u[i] * u[i]
		}
		l = math.Sqrt(norm)
		for i := range u {
			v[i] = u[i] / l
		}
	}
	return tr - l
}

func c18(s *zzrt.Sim) {
	switch k := w(40); {
	case k == 39 && w(4) == 3:
		t, f := genRegTab(40+w(60), 1)
		manyBatches(t, f)
	case k >= 30:
		converge()
	default:
		t, f := genRegTab(genLarge(150), 2)
		sort.Strings(f)
		if t.names(TF) == nil {
			t.Cols[0] = genFeature(t.Cols[0].Name, TF, t.N)
		}
		var fns []func()
		if w(2) == 1 {
			fns = append(fns, predictions(t, f)...)
		}
		if len(fns) == 0 || w(2) == 1 {
			fns = append(fns, trainer(t, f)...)
		}
		together(fns...)
	}
	rest("linear regression")
	checked()
}

func init() {
	register(&Scenario{ID: "C18", Run: c18, MaxSteps: 60000000})
}

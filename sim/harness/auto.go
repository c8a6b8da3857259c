//go:build go1.22

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	pp "github.com/rom1mouret/ml-essentials/preprocessing"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// autoPre is an AutoPreprocessor, its options and training data.
type autoPre struct {
	p     *pp.AutoPreprocessor
	opt   pp.AutoPreprocOptions
	what  string
	fl    []string         // floats to transform
	cat   []string         // columns to one-hot encode; hashed first if hash
	hash  bool             // the categories are strings
	vague bool             // every string is excluded: integers may be encoded or not
	st    map[string]stats // of the training data
	stImp map[string]stats // of the imputed training data
	seen  map[string]map[interface{}]int
}

func genAutoOptions(t *Tab) pp.AutoPreprocOptions {
	o := pp.AutoPreprocOptions{Imputing: w(3) > 0, Scaling: w(3) > 0, Verbose: w(6) == 5}
	if chance(50) {
		r := bulk()
		pct := oneOf(30, 30, 70, 100)
		for _, c := range t.Cols {
			if r.Intn(100) < pct {
				o.Exclude = append(o.Exclude, c.Name)
			}
		}
		if w(4) == 3 {
			o.Exclude = append(o.Exclude, "no such column")
		}
	}
	return o
}

func except(l, ex []string) []string {
	var r []string
	for _, x := range l {
		if !contains(ex, x) {
			r = append(r, x)
		}
	}
	return r
}

func newAuto(opt pp.AutoPreprocOptions) *autoPre {
	a := &autoPre{opt: opt, p: pp.NewAutoPreprocessor(opt)}
	a.what = fmt.Sprintf("AutoPreprocessor%+v", opt)
	return a
}

// expect prepares the model of the training on the given rows.
func (a *autoPre) expect(t *Tab, rows []int) {
	a.fl, a.cat = nil, nil
	if a.opt.Imputing || a.opt.Scaling {
		a.fl = except(t.names(TF), a.opt.Exclude)
	}
	str := t.names(TS)
	a.cat = except(str, a.opt.Exclude)
	a.hash = true
	a.vague = false
	if len(a.cat) == 0 {
		a.hash = false
		a.cat = except(t.names(TI), a.opt.Exclude)
		a.vague = len(str) > 0 && len(a.cat) > 0
	}
	a.st, a.stImp = map[string]stats{}, map[string]stats{}
	for _, name := range a.fl {
		v := t.col(name).V
		st := statsOf(v, rows)
		a.st[name] = st
		imp := append([]interface{}{}, v...)
		for i := range imp {
			if math.IsNaN(imp[i].(float64)) {
				imp[i] = st.mean
			}
		}
		a.stImp[name] = statsOf(imp, rows)
	}
	a.seen = map[string]map[interface{}]int{}
	for _, name := range a.cat {
		m := map[interface{}]int{}
		for _, r := range rows {
			m[t.col(name).V[r]]++
		}
		a.seen[name] = m
	}
}

// canonical renames the one-hot columns after their categories.
func (a *autoPre) canonical(s *Snap) *Snap {
	if a.p.IntToBool == nil {
		return s
	}
	roles := map[string][]string{}
	for name, m := range a.p.IntToBool.Categories {
		for cat, c := range m {
			roles[c] = append(roles[c], fmt.Sprintf("%q=%d", name, cat))
		}
	}
	for name, l := range a.p.IntToBool.Fallback {
		for i, c := range l {
			// the category that replaces missing ones may be one of several
			if c != "" && len(roles[c]) == 0 {
				roles[c] = append(roles[c], fmt.Sprintf("%q fallback %d", name, i))
			}
		}
	}
	r := &Snap{N: s.N, CPU: s.CPU, Cols: map[string]*Col{}}
	for name, c := range s.Cols {
		if l := roles[name]; l != nil && c.T == TB {
			sort.Strings(l)
			name = "one-hot " + strings.Join(l, " ")
		}
		r.Cols[name] = &Col{name, c.T, c.V}
	}
	return r
}

// ties is true if several categories of a column without missing values are
// the most frequent, so that any of them may replace missing ones.
func (a *autoPre) ties() bool {
	for _, name := range a.cat {
		best, n, missing := 0, 0, false
		for cat, k := range a.seen[name] {
			if cat == nil || cat == -1 {
				missing = true
			} else if k > best {
				best, n = k, 1
			} else if k == best {
				n++
			}
		}
		if n > 1 && !missing {
			return true
		}
	}
	return false
}

// verify checks the transformation of a frame.
func (a *autoPre) verify(what string, in, s *Snap) {
	isOneHot := map[string]bool{}
	cat := a.cat
	if a.vague && a.p.IntToBool == nil {
		cat = nil
	}
	if len(cat) > 0 {
		if a.p.IntToBool == nil {
			zzrt.Fail("not-encoded", "%s: the columns %q are not one-hot encoded", what, cat)
		}
		for _, c := range a.p.IntToBool.NewColumns {
			isOneHot[c] = true
		}
	}
	for name, c := range in.Cols {
		o := s.Cols[name]
		if contains(cat, name) {
			if o != nil {
				zzrt.Fail("wrong-columns", "%s: the categorical column %q is still there", what, name)
			}
			continue
		}
		if o == nil || o.T != c.T || len(o.V) != len(c.V) {
			zzrt.Fail("wrong-columns", "%s: column %q is lost or changes its type: {%s} of %d rows", what, name, s.schema(), s.N)
		}
		fl := contains(a.fl, name)
		for i := range c.V {
			at := fmt.Sprintf("%s: column %q row %d", what, name, i)
			if !fl {
				if !eq(c.V[i], o.V[i]) {
					zzrt.Fail("changed-outside", "%s: %s becomes %s, the column is not to be transformed", at, show(c.V[i]), show(o.V[i]))
				}
				continue
			}
			x, y := c.V[i].(float64), o.V[i].(float64)
			st := a.st[name]
			if math.IsNaN(x) && a.opt.Imputing {
				if math.IsNaN(y) {
					zzrt.Fail("missing-left", "%s: a missing value is left", at)
				}
				x = st.mean // 0 if there is none: anything is fine then
				if st.none {
					continue
				}
			}
			if !a.opt.Scaling {
				if math.IsNaN(x) != math.IsNaN(y) || !near(x, y, 1e-9*(1+math.Max(math.Abs(st.min), math.Abs(st.max)))) && !math.IsNaN(x) {
					zzrt.Fail("wrong-value", "%s: %v becomes %v", at, x, y)
				}
				continue
			}
			opt := pp.ScalerOptions{Centering: true, Scaling: true}
			si := a.stImp[name]
			if a.opt.Imputing && !st.constant && !st.none && !math.IsNaN(x) {
				// the deviation may be computed before or after the imputation
				if near(y, (x-si.mean)/si.std, 1e-7*(1+math.Abs(si.mean)/si.std)) {
					continue
				}
			}
			st.scaled(at, opt, x, y)
		}
	}
	for name, c := range s.Cols {
		if in.Cols[name] == nil && !isOneHot[name] || isOneHot[name] && c.T != TB {
			zzrt.Fail("wrong-columns", "%s: an unexpected column %q appears", what, name)
		}
	}
	// categories: one column for each, the same for equal ones
	for _, name := range cat {
		cats := a.p.IntToBool.Categories[name]
		fb := a.p.IntToBool.Fallback[name]
		var g []string
		for _, c := range cats {
			g = append(g, c)
		}
		for _, c := range fb {
			if c != "" && !contains(g, c) {
				g = append(g, c)
			}
		}
		col := map[interface{}]string{}
		by := map[string]interface{}{}
		for i, v := range in.Cols[name].V {
			hot := ""
			for _, f := range g {
				if s.Cols[f] == nil {
					zzrt.Fail("wrong-columns", "%s: the one-hot column %q is missing", what, f)
				}
				if s.Cols[f].V[i].(bool) {
					if hot != "" {
						zzrt.Fail("not-one-hot", "%s: row %d of %q sets %q and %q", what, i, name, hot, f)
					}
					hot = f
				}
			}
			if hot == "" {
				zzrt.Fail("not-one-hot", "%s: row %d of %q (%s) sets none of %q", what, i, name, show(v), g)
			}
			if p, ok := col[v]; ok && p != hot {
				zzrt.Fail("wrong-category", "%s: %s in column %q sets both %q and %q", what, show(v), name, p, hot)
			}
			col[v] = hot
			if a.seen[name][v] > 0 && v != nil && v != -1 {
				if p, ok := by[hot]; ok && p != v {
					zzrt.Fail("wrong-category", "%s: %s and %s in column %q both set %q", what, show(p), show(v), name, hot)
				}
				by[hot] = v
			} else {
				missing := v == nil || v == -1
				sepMissing := a.seen[name][nil]+a.seen[name][-1] > 0
				if missing && sepMissing {
					for _, c := range cats {
						if c == hot {
							zzrt.Fail("wrong-category", "%s: a missing value of %q sets %q although the training data has missing values", what, name, hot)
						}
					}
				}
			}
		}
	}
}

// genAutoTab draws a table of all kinds of columns.
func genAutoTab(n int) *Tab {
	t := &Tab{N: n, CPU: genCPU()}
	names := genNames(12)
	add := func(max int, mk func(name string) *Col) {
		for k := w(max + 1); k > 0; k-- {
			t.Cols = append(t.Cols, mk(names[len(t.Cols)]))
		}
	}
	add(3, func(name string) *Col { return genStatCol(name, n) })
	if w(3) > 0 {
		add(3, func(name string) *Col { return genWordCol(name, n) })
	}
	add(3, func(name string) *Col { return genCatCol(name, n, w(6), oneOf(0, 0, 20, 60, 100)) })
	add(1, func(name string) *Col { return genCol(name, TB, n) })
	add(1, func(name string) *Col { return genCol(name, TO, n) })
	if len(t.Cols) == 0 {
		t.withID(idCol)
	}
	t.clash()
	return t
}

// genWordCol draws a string column with few categories.
func genWordCol(name string, n int) *Col {
	c := &Col{Name: name, T: TS, V: make([]interface{}, n)}
	r := bulk()
	miss, m := oneOf(0, 0, 20, 60, 100), oneOf(1, 2, 4, 12, len(words))
	for i := range c.V {
		if r.Intn(100) >= miss {
			c.V[i] = words[r.Intn(m)]
		}
	}
	return c
}

// redrawAuto draws other rows for a table.
func redrawAuto(t *Tab, n int) *Tab {
	r := redrawCats(t, n)
	for _, c := range r.Cols {
		switch c.T {
		case TF:
			*c = *genStatCol(c.Name, n)
		case TS:
			*c = *genWordCol(c.Name, n)
		}
	}
	return r
}

func c10(s *zzrt.Sim) {
	t := genAutoTab(genLarge(200))
	root := build(t)
	rootSnap := snap(root)
	d, rows := root, seq(t.N)
	if chance(60) {
		d, rows = genView(root, rows)
	}
	in := snap(d)
	opt := genAutoOptions(t)
	a, b := newAuto(opt), newAuto(opt)
	call := func(name string, fn func()) {
		guard(a.what+"."+name, fn)
		mustSame("input-changed", a.what+"."+name+" changes its input", d, in)
		mustSame("input-changed", a.what+"."+name+" changes the frame", root, rootSnap)
	}
	a.expect(t, rows)
	b.expect(t, rows)
	columns := func(p *autoPre) {
		var l []string
		call("TransformedColumns", func() { l = p.p.TransformedColumns() })
		if wantCols := append(append([]string{}, p.fl...), p.cat...); !sameSet(l, wantCols) && !p.vague {
			zzrt.Fail("wrong-columns", "%s: TransformedColumns() is %q instead of %q", p.what, sorted(l), sorted(wantCols))
		}
	}
	if w(4) == 0 {
		call("TransformedColumns", func() {
			if l := a.p.TransformedColumns(); len(l) > 0 {
				zzrt.Fail("wrong-columns", "%s: TransformedColumns() is %q before the training", a.what, l)
			}
		})
	}
	forget := func(p *autoPre) {
		// an earlier training on something else is forgotten
		o := build(genAutoTab(genN(20)))
		if w(2) == 0 {
			call("FitTransform", func() { p.p.FitTransform(o) })
		} else {
			call("Fit", func() { p.p.Fit(o) })
		}
		zzrt.Probe("trained twice")
	}
	if chance(30) {
		forget(a)
	}
	if chance(30) {
		forget(b)
	}
	var x, y *df.DataFrame
	ft := func() { call("FitTransform", func() { x = a.p.FitTransform(d) }) }
	ftv := func() {
		call("Fit", func() {
			if err := b.p.Fit(d); err != nil {
				zzrt.Fail("unexpected-error", "%s.Fit: %v", b.what, err)
			}
		})
		call("TransformView", func() {
			var err error
			if y, err = b.p.TransformView(d); err != nil {
				zzrt.Fail("unexpected-error", "%s.TransformView: %v", b.what, err)
			}
		})
	}
	if chance(40) {
		together(ft, ftv)
	} else {
		ft()
		ftv()
	}
	rest("AutoPreprocessor")
	columns(a)
	columns(b)
	sx, sy := snap(x), snap(y)
	a.verify(a.what+".FitTransform", in, sx)
	b.verify(b.what+".TransformView", in, sy)
	if diff := approx(a.canonical(sx), b.canonical(sy)); diff != "" {
		zzrt.Fail("fit-transform-differs", "%s: FitTransform differs from Fit and TransformView: %s", a.what, diff)
	}
	if x2, err := a.p.TransformView(d); err != nil {
		zzrt.Fail("unexpected-error", "%s.TransformView after FitTransform: %v", a.what, err)
	} else if diff := approx(sx, snap(x2)); diff != "" {
		zzrt.Fail("fit-transform-differs", "%s: FitTransform differs from a later TransformView: %s", a.what, diff)
	}
	// the results are frames of their own
	for i, o := range []*df.DataFrame{x, y} {
		if other := []*df.DataFrame{y, x}[i]; w(2) == 0 {
			want := snap(other)
			call([]string{"FitTransform", "TransformView"}[i], func() { a.alter(o) })
			if i == 0 {
				mustSame("input-changed", a.what+": altering the result of FitTransform changes that of TransformView", other, want)
			}
		}
	}
	// other frames, also at the same time
	ties := a.ties()
	var fns []func()
	for k := 1 + w(3); k > 0; k-- {
		t2 := redrawAuto(t, genN(200))
		fns = append(fns, func() {
			root2 := build(t2)
			d2, rows2 := root2, seq(t2.N)
			if chance(50) {
				d2, rows2 = genView(root2, rows2)
			}
			in2 := snap(d2)
			var r [2]*Snap
			for i, p := range []*autoPre{a, b} {
				guard(p.what+".TransformView", func() {
					o, err := p.p.TransformView(d2)
					if err != nil {
						zzrt.Fail("unexpected-error", "%s.TransformView: %v", p.what, err)
					}
					r[i] = snap(o)
					p.verify(p.what+".TransformView of other rows", in2, r[i])
					// the transformed floats are new
					for _, name := range p.fl {
						if len(rows2) > 0 {
							o.Floats(name).Set(w(len(rows2)), 4711)
						}
					}
				})
				mustSame("input-changed", p.what+".TransformView changes its input", d2, in2)
			}
			if !ties {
				if diff := approx(a.canonical(r[0]), b.canonical(r[1])); diff != "" {
					zzrt.Fail("fit-transform-differs", "%s: after FitTransform, TransformView differs from after Fit: %s", a.what, diff)
				}
			}
			mustSame("input-changed", a.what+".TransformView changes the frame", root2, want(t2, seq(t2.N)))
		})
	}
	if chance(50) {
		together(fns...)
	} else {
		for _, fn := range fns {
			fn()
		}
	}
	rest("AutoPreprocessor")
	mustSame("input-changed", a.what+" changes the frame", root, rootSnap)
	checked()
}

// alter changes the structure of a transformed frame, or its floats.
func (a *autoPre) alter(d *df.DataFrame) {
	l := d.Header().NameList()
	switch k := w(4); {
	case k == 0 && len(l) > 0:
		d.Drop(l[w(len(l))])
	case k == 1 && len(l) > 0:
		d.Rename(l[w(len(l))], "renamed")
	case k == 2:
		d.AllocFloats("added")
	default:
		for _, name := range a.fl {
			if n := d.NumRows(); n > 0 {
				d.Floats(name).Set(w(n), 4711)
			}
		}
	}
}

// approx is diff up to rounding.
func approx(a, b *Snap) string {
	if x, y := a.schema(), b.schema(); x != y {
		return fmt.Sprintf("columns are {%s} and {%s}", x, y)
	}
	if a.N != b.N {
		return fmt.Sprintf("%d and %d rows", a.N, b.N)
	}
	for _, n := range a.names() {
		for i, v := range a.Cols[n].V {
			u := b.Cols[n].V[i]
			if x, ok := v.(float64); ok && near(x, u.(float64), 1e-7) {
				continue
			}
			if !eq(v, u) {
				return fmt.Sprintf("column %q row %d is %s and %s", n, i, show(v), show(u))
			}
		}
	}
	return ""
}

func init() {
	register(&Scenario{ID: "C10", Run: c10})
}

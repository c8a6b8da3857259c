//go:build go1.22

package main

import (
	"fmt"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	pp "github.com/rom1mouret/ml-essentials/preprocessing"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// genCatCol draws an int column of categories.
func genCatCol(name string, n int, mode, miss int) *Col {
	c := &Col{Name: name, T: TI, V: make([]interface{}, n)}
	r := bulk()
	off := r.Intn(3)
	for i := range c.V {
		if r.Intn(100) < miss {
			c.V[i] = -1
			continue
		}
		switch mode {
		case 0:
			c.V[i] = r.Intn(2) + off
		case 1:
			c.V[i] = r.Intn(6)
		case 2:
			c.V[i] = []int{0, 0, 0, 1, 1 << 40, -2, -7, 1<<62 + 1, 10, 11, 1, 101}[r.Intn(12)]
		case 3:
			c.V[i] = r.Intn(60)
		case 4:
			c.V[i] = i + off
		default:
			c.V[i] = off
		}
	}
	return c
}

// onehot is a trained encoder and what it has to do.
type onehot struct {
	enc  *pp.OneHotEncoder
	what string
	opt  pp.OneHotOptions // as given
	cols []string
	freq map[string]map[int]int
	fail bool // the training had to fail
}

var policyName = map[pp.CategoryPolicy]string{pp.SeparateCategoryIfSeen: "SeparateCategoryIfSeen", pp.SharedSeparateCategory: "SharedSeparateCategory",
	pp.SeparateCategory: "SeparateCategory", pp.ImputeWithMostFrequent: "ImputeWithMostFrequent", pp.ReturnError: "ReturnError"}

func genOneHotOptions() pp.OneHotOptions {
	all := []pp.CategoryPolicy{pp.SeparateCategoryIfSeen, pp.SharedSeparateCategory, pp.SeparateCategory, pp.ImputeWithMostFrequent, pp.ReturnError}
	return pp.OneHotOptions{MissingPolicy: oneOf(all...), UnknownPolicy: oneOf(all...), KeepUsedColumns: w(3) == 0}
}

// train fits an encoder on the rows of a table.
func (o *onehot) train(t *Tab, d *df.DataFrame, rows []int) {
	before := snap(d)
	o.what = fmt.Sprintf("OneHotEncoder(missing %s, unknown %s, keep %v)", policyName[o.opt.MissingPolicy], policyName[o.opt.UnknownPolicy], o.opt.KeepUsedColumns)
	o.cols = t.names(TI)
	v := d
	if len(o.cols) > 0 && !t.Clash && chance(40) {
		o.cols = o.cols[:1+w(len(o.cols))]
		v = d.ColumnView(append(append([]string{}, o.cols...), t.names(TF, TS)...)...)
	}
	empty := false
	o.freq = map[string]map[int]int{}
	for _, name := range o.cols {
		f := map[int]int{}
		for _, r := range rows {
			f[t.col(name).V[r].(int)]++
		}
		o.freq[name] = f
		if len(f) == 0 || len(f) == 1 && f[-1] > 0 {
			empty = true // no category to impute with
		}
	}
	var err error
	guard(o.what+".Fit", func() { err = o.enc.Fit(v) })
	mustSame("input-changed", o.what+": fitting changes the frame", d, before)
	if err != nil {
		o.fail = true
		imputes := o.opt.MissingPolicy == pp.ImputeWithMostFrequent || o.opt.UnknownPolicy == pp.ImputeWithMostFrequent
		if !empty || !imputes {
			zzrt.Fail("unexpected-error", "%s.Fit: %v", o.what, err)
		}
		zzrt.Probe("no category to impute with")
		return
	}
	if !sameSet(o.enc.TransformedColumns(), o.cols) {
		zzrt.Fail("wrong-columns", "%s: TransformedColumns() is %q after fitting on %q", o.what, o.enc.TransformedColumns(), o.cols)
	}
	// the columns of the categories
	owner := map[string]string{}
	for _, name := range o.cols {
		own := map[string]bool{}
		for cat, newCol := range o.enc.Categories[name] {
			if cat == -1 || o.freq[name][cat] == 0 {
				zzrt.Fail("wrong-categories", "%s: %q has the category %d, the training data does not", o.what, name, cat)
			}
			if own[newCol] {
				zzrt.Fail("shared-column", "%s: two categories of %q have the column %q", o.what, name, newCol)
			}
			own[newCol] = true
		}
		for cat := range o.freq[name] {
			if _, ok := o.enc.Categories[name][cat]; !ok && cat != -1 {
				zzrt.Fail("wrong-categories", "%s: category %d of %q is lost", o.what, cat, name)
			}
		}
		for _, f := range o.enc.Fallback[name] {
			if f != "" {
				own[f] = true
			}
		}
		for f := range own {
			if p, ok := owner[f]; ok {
				zzrt.Fail("shared-column", "%s: %q and %q share the column %q", o.what, p, name, f)
			}
			owner[f] = name
		}
	}
	var l []string
	for f := range owner {
		l = append(l, f)
	}
	if !sameSet(l, o.enc.NewColumns) {
		zzrt.Fail("wrong-columns", "%s: NewColumns is %q, the categories have %q", o.what, sorted(o.enc.NewColumns), sorted(l))
	}
}

// group lists the new columns of a categorical column.
func (o *onehot) group(name string) []string {
	set := map[string]bool{}
	for _, c := range o.enc.Categories[name] {
		set[c] = true
	}
	for _, f := range o.enc.Fallback[name] {
		if f != "" {
			set[f] = true
		}
	}
	var l []string
	for f := range set {
		l = append(l, f)
	}
	return sorted(l)
}

// mostFrequent is true if no category of the column is more frequent.
func (o *onehot) mostFrequent(name, newCol string) bool {
	best := 0
	for cat, n := range o.freq[name] {
		if cat != -1 && n > best {
			best = n
		}
	}
	for cat, c := range o.enc.Categories[name] {
		if c == newCol {
			return o.freq[name][cat] == best
		}
	}
	return false
}

// separate is true if the column belongs to no category.
func (o *onehot) separate(name, newCol string) bool {
	for _, c := range o.enc.Categories[name] {
		if c == newCol {
			return false
		}
	}
	return true
}

// transform checks the transformation of a frame.
func (o *onehot) transform(t *Tab, d *df.DataFrame, rows []int) {
	what := fmt.Sprintf("%s on %d rows", o.what, len(rows))
	before := snap(d)
	var out *df.DataFrame
	var err error
	guard(what, func() { out, err = o.enc.TransformView(d) })
	mustSame("input-changed", what+": the transformation changes its input", d, before)
	missing, unknown := false, false
	for _, name := range o.cols {
		for _, v := range before.Cols[name].V {
			if v.(int) == -1 {
				missing = true
			} else if o.freq[name][v.(int)] == 0 {
				unknown = true
			}
		}
	}
	zzrt.ProbeIf(missing, "missing categories")
	zzrt.ProbeIf(unknown, "unknown categories")
	if missing && o.opt.MissingPolicy == pp.ReturnError || unknown && o.opt.UnknownPolicy == pp.ReturnError {
		if err == nil {
			zzrt.Fail("error-lost", "%s: no error (missing %v, unknown %v)", what, missing, unknown)
		}
		if out != nil {
			zzrt.Fail("partial-result", "%s: a frame comes along with the error", what)
		}
		zzrt.Probe("policy error")
		return
	}
	if err != nil {
		zzrt.Fail("unexpected-error", "%s: %v (missing %v, unknown %v)", what, err, missing, unknown)
	}
	o.verify(what, t, before, snap(out))
	// forwarded columns are shared
	for _, c := range t.Cols {
		if !contains(o.cols, c.Name) && w(2) == 0 {
			writeThrough(what, out, d, c.Name, c.T, rows)
			writeThrough(what, d, out, c.Name, c.T, rows)
		}
	}
	if l := o.enc.NewColumns; len(l) > 0 && len(rows) > 0 {
		out.Bools(l[0]).Set(w(len(rows)), true)
		mustSame("input-changed", what+", writing to the result", d, before)
	}
}

// verify checks the result of a transformation.
func (o *onehot) verify(what string, t *Tab, in, s *Snap) {
	var gone []string
	if !o.opt.KeepUsedColumns {
		gone = o.cols
	}
	if x := s.drop(o.enc.NewColumns...).diff(in.drop(gone...)); x != "" {
		zzrt.Fail("other-columns", "%s: %s", what, x)
	}
	for _, f := range o.enc.NewColumns {
		if c := s.Cols[f]; c == nil || c.T != TB {
			zzrt.Fail("wrong-columns", "%s: %q is no bool column of the result {%s}", what, f, s.schema())
		}
	}
	for _, name := range o.cols {
		g := o.group(name)
		missCol, unkCol := "", ""
		for i, v := range in.Cols[name].V {
			hot := ""
			for _, f := range g {
				if s.Cols[f].V[i].(bool) {
					if hot != "" {
						zzrt.Fail("not-one-hot", "%s: row %d of %q (%v) sets both %q and %q", what, i, name, v, hot, f)
					}
					hot = f
				}
			}
			if hot == "" {
				zzrt.Fail("not-one-hot", "%s: row %d of %q (%v) sets none of %q", what, i, name, v, g)
			}
			cat := v.(int)
			switch {
			case cat == -1:
				o.routed(what, name, hot, true)
				missCol = hot
			case o.freq[name][cat] == 0:
				o.routed(what, name, hot, false)
				unkCol = hot
			default:
				if e := o.enc.Categories[name][cat]; hot != e {
					zzrt.Fail("wrong-category", "%s: row %d of %q (%d) sets %q instead of %q", what, i, name, cat, hot, e)
				}
			}
		}
		if missCol != "" && unkCol != "" {
			shared := o.opt.MissingPolicy == pp.SharedSeparateCategory || o.opt.UnknownPolicy == pp.SharedSeparateCategory
			if shared && missCol != unkCol {
				zzrt.Fail("wrong-category", "%s: missing values of %q set %q, unknown values %q", what, name, missCol, unkCol)
			}
			zzrt.ProbeIf(shared, "missing and unknown share")
			if o.opt.MissingPolicy == pp.SeparateCategory && o.opt.UnknownPolicy == pp.SeparateCategory && missCol == unkCol {
				zzrt.Fail("wrong-category", "%s: missing and unknown values of %q both set %q", what, name, missCol)
			}
		}
	}
}

// routed checks the column of missing or unknown values.
func (o *onehot) routed(what, name, hot string, missing bool) {
	kind, pol, other := "missing", o.opt.MissingPolicy, o.opt.UnknownPolicy
	if !missing {
		kind, pol, other = "unknown", other, pol
	}
	bad := func() {
		zzrt.Fail("wrong-category", "%s: %s values of %q set %q (policy %s; frequencies %v, columns %v)", what, kind, name, hot, policyName[pol], o.freq[name], o.enc.Categories[name])
	}
	none := len(o.freq[name]) == 0 || len(o.freq[name]) == 1 && o.freq[name][-1] > 0
	switch pol {
	case pp.ImputeWithMostFrequent:
		// there may be nothing to impute with
		if other != pp.SharedSeparateCategory && !none && !o.mostFrequent(name, hot) {
			bad()
		}
	case pp.SeparateCategory:
		if !o.separate(name, hot) {
			bad()
		}
	case pp.SeparateCategoryIfSeen:
		if other == pp.SharedSeparateCategory {
			// the documentation does not say which of the two policies wins
		} else if !missing {
			// unknown values are never seen
			if !o.separate(name, hot) {
				bad()
			}
		} else if o.freq[name][-1] > 0 {
			if !o.separate(name, hot) {
				bad()
			}
		} else if !none && !o.mostFrequent(name, hot) {
			bad()
		}
	case pp.SharedSeparateCategory:
		if other == pp.ReturnError || other == pp.SeparateCategory {
			if !o.separate(name, hot) {
				bad()
			}
		}
	}
}

// genCatTab draws a table with categories.
func genCatTab(n, minInts, maxInts int) *Tab {
	t := &Tab{N: n, CPU: genCPU()}
	k := minInts + w(maxInts-minInts+1)
	names := genNames(k + 3)
	for i := 0; i < k; i++ {
		t.Cols = append(t.Cols, genCatCol(names[i], n, w(6), oneOf(0, 0, 20, 60, 100)))
	}
	for i, m := k, k+w(4); i < m; i++ {
		t.Cols = append(t.Cols, genCol(names[i], oneOf(TB, TF, TS, TO), n))
	}
	if len(t.Cols) == 0 {
		t.withID(idCol)
	}
	t.clash()
	return t
}

// clash gives a column, sometimes, a name that another column's categories
// could have.
func (t *Tab) clash() {
	l := t.names(TI, TS)
	if len(l) == 0 || len(t.Cols) < 2 || !chance(12) {
		return
	}
	c := t.Cols[w(len(t.Cols))]
	name := oneOf(l...) + oneOf("_missing", "_unk", "_onehot0", "_onehot1", "_onehot2", "_missing_")
	if t.col(name) == nil {
		c.Name = name
		t.Clash = true
	}
}

// redrawCats draws other rows for a table, mostly with the same categories.
func redrawCats(t *Tab, n int) *Tab {
	r := &Tab{N: n, CPU: t.CPU}
	for _, c := range t.Cols {
		if c.T != TI {
			r.Cols = append(r.Cols, genCol(c.Name, c.T, n))
			continue
		}
		k := genCatCol(c.Name, n, w(6), oneOf(0, 0, 20))
		b := bulk()
		foreign := oneOf(0, 0, 10, 100)
		for i := range k.V {
			if t.N > 0 && b.Intn(100) >= foreign {
				k.V[i] = c.V[b.Intn(t.N)]
			}
		}
		r.Cols = append(r.Cols, k)
	}
	return r
}

func c09(s *zzrt.Sim) {
	t := genCatTab(genLarge(300), 0, 5)
	root := build(t)
	rootSnap := snap(root)
	o := &onehot{opt: genOneHotOptions()}
	o.enc = pp.NewOneHotEncoder(o.opt)
	d, rows := root, seq(t.N)
	if chance(60) {
		d, rows = genView(root, rows)
	}
	if chance(15) {
		// an earlier training on something else is forgotten
		other := genCatTab(genN(20), 1, 3)
		guard("Fit", func() { o.enc.Fit(build(other)) })
	}
	if chance(30) {
		// another encoder learns at the same time
		o2 := &onehot{opt: genOneHotOptions()}
		o2.enc = pp.NewOneHotEncoder(o2.opt)
		together(func() { o.train(t, d, rows) }, func() { o2.train(t, root, seq(t.N)) })
	} else {
		o.train(t, d, rows)
	}
	mustSame("input-changed", "fitting changes the frame", root, rootSnap)
	rest("fitting")
	if o.fail {
		checked()
		return
	}
	var fns []func()
	for k := 1 + w(3); k > 0; k-- {
		t2, d2, rows2 := t, root, seq(t.N)
		if chance(70) {
			t2 = redrawCats(t, genN(300))
			d2, rows2 = build(t2), seq(t2.N)
		}
		d2 = d2.Copy() // the tasks write to their frames
		if chance(60) {
			d2, rows2 = genView(d2, rows2)
		}
		fns = append(fns, func() { o.transform(t2, d2, rows2) })
	}
	if chance(50) {
		together(fns...)
	} else {
		for _, fn := range fns {
			fn()
		}
	}
	mustSame("input-changed", "transforming other frames changes the frame", root, rootSnap)
	rest("transforming")
	checked()
}

func init() {
	register(&Scenario{ID: "C09", Run: c09})
}

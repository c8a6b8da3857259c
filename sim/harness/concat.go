//go:build go1.22

package main

import (
	"fmt"
	"strings"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

func (f *mframe) schema() string {
	var l []string
	for _, n := range f.names() {
		l = append(l, fmt.Sprintf("%q:%s", n, f.cols[n].t))
	}
	return strings.Join(l, " ")
}

// nearIdx changes a selection of n rows so that simple checksums do not notice.
func nearIdx(idx []int, n int) []int {
	r := append([]int(nil), idx...)
	var cand []int
	for p := 0; p+1 < len(r); p++ {
		if r[p+1] >= 7 && r[p]+1 < n {
			cand = append(cand, p)
		}
	}
	if len(cand) > 0 && w(2) == 1 {
		p := cand[w(len(cand))]
		r[p]++
		r[p+1] -= 7
	} else if len(r) > 1 {
		i, j := w(len(r)), w(len(r))
		r[i], r[j] = r[j], r[i]
	} else if len(r) == 1 {
		r[0] = w(n)
	}
	return r
}

// opRowConcat concatenates rows.
func opRowConcat(h *hist, f *mframe) bool {
	l := []*mframe{f}
	for k := w(4); k > 0; k-- {
		switch w(4) {
		case 0:
			l = append(l, h.any())
		case 1: // a frame that differs in one column only
			g := f.all()
			g.d, g.name = f.d.View(), f.name+"'"
			names := f.ofType(TB, TI, TF, TS, TO)
			if len(names) == 0 {
				continue
			}
			n := names[w(len(names))]
			c := g.cols[n]
			switch w(3) {
			case 0:
				g.d.Drop(n)
				delete(g.cols, n)
			case 1:
				g.d.Rename(n, "other")
				if g.cols["other"] != nil {
					continue
				}
				delete(g.cols, n)
				g.cols["other"] = c
			default:
				g.d.Drop(n)
				t := oneOf(TB, TI, TF, TS, TO)
				switch t {
				case TB:
					g.d.AllocBools(n)
				case TI:
					g.d.AllocInts(n)
				case TF:
					g.d.AllocFloats(n)
				case TS:
					g.d.AllocStrings(n)
				default:
					g.d.AllocObjects(n)
				}
				g.cols[n] = g.fresh(t, func(int) interface{} { return zeroOf(t) })
			}
			l = append(l, g)
		case 2: // more columns
			g := f.all()
			g.d, g.name = f.d.View(), f.name+"+"
			n := h.freshName(f)
			g.d.AllocInts(n)
			g.cols[n] = g.fresh(TI, func(int) interface{} { return 0 })
			l = append(l, g)
		default:
			idx := randIdx(f.n())
			g := f.pick(idx)
			g.d, g.name = f.d.IndexView(idx), fmt.Sprintf("%s%v", f.name, idx)
			l = append(l, g)
		}
	}
	if w(2) == 0 { // more often something that works
		k := 0
		for _, g := range l {
			if g.schema() == f.schema() {
				l[k] = g
				k++
			}
		}
		l = l[:k]
	}
	ok := true
	var ds []*df.DataFrame
	var names []string
	n := 0
	for _, g := range l {
		ok = ok && g.schema() == f.schema()
		ds = append(ds, g.d)
		names = append(names, g.name)
		n += g.n()
	}
	if n > 600 {
		return false
	}
	h.note("RowConcat(%s) -> f%d", strings.Join(names, ", "), h.made)
	d, err := df.RowConcat(ds...)
	if !ok {
		zzrt.Probe("concat error case")
		if err == nil || d != nil {
			var sch []string
			for _, g := range l {
				sch = append(sch, "{"+g.schema()+"}")
			}
			h.fail("missing-error", "%s: no error for different columns %s", h.last, strings.Join(sch, " "))
		}
		return true
	}
	if err != nil {
		h.fail("unexpected-error", "%s: %v", h.last, err)
	}
	zzrt.Probe("rows concatenated")
	h.families++
	m := &mframe{cols: map[string]*mcol{}, cpu: f.cpu, from: h.families}
	for _, name := range f.names() {
		m.cols[name] = &mcol{t: f.cols[name].t, own: true}
	}
	for _, g := range l {
		for range g.rows {
			h.nextRow++
			m.rows = append(m.rows, h.nextRow)
		}
		for _, name := range f.names() {
			for _, x := range g.cols[name].cells {
				m.cols[name].cells = append(m.cols[name].cells, &mcell{x.v})
			}
		}
	}
	h.reID(h.add(d, m))
	return true
}

func sameInts(a, b []int) bool { return fmt.Sprint(a) == fmt.Sprint(b) }

func indicesOf(d *df.DataFrame) []int { return df.DataFrameInternals{DF: d}.GetIndices() }

// opColConcat concatenates columns.
func opColConcat(h *hist, f *mframe) bool {
	l := []*mframe{f}
	if w(3) == 0 && f.n() > 0 { // another selection of rows to begin with
		idx := randIdx(f.n())
		g := f.pick(idx)
		g.d, g.name = f.d.IndexView(idx), fmt.Sprintf("%s%v", f.name, idx)
		l[0] = g
	}
	overlap := false
	used := map[string]bool{}
	for n := range l[0].cols {
		used[n] = true
	}
	for k := 1 + w(2); k > 0; k-- {
		// rows
		var g *mframe
		src := l[0]
		if w(4) == 0 {
			src = h.any()
		}
		switch w(5) {
		case 0:
			idx := nearIdx(seq(src.n()), src.n())
			g = src.pick(idx)
			g.d, g.name = src.d.IndexView(idx), fmt.Sprintf("%s%v", src.name, idx)
		case 1:
			// the same positions of another frame
			o := h.any()
			var idx []int
			for i := 0; i < src.n() && o.n() > 0; i++ {
				idx = append(idx, i%o.n())
			}
			if idx == nil {
				idx = []int{}
			}
			g = o.pick(idx)
			g.d, g.name = o.d.IndexView(idx), fmt.Sprintf("%s%v", o.name, idx)
		case 2:
			g = src.deep2(h)
		default:
			g = src.all()
			g.d, g.name = src.d.View(), src.name
		}
		// columns
		names := some(g.ofType(TB, TI, TF, TS, TO))
		if len(names) == 0 {
			return false
		}
		for _, n := range g.names() {
			if !contains(names, n) {
				delete(g.cols, n)
			}
		}
		d := g.d.ColumnView(names...)
		for _, n := range names {
			h.ops++
			to := fmt.Sprint("k", h.ops)
			if chance(12) {
				to = n
			}
			if to != n {
				d.Rename(n, to)
				g.cols[to] = g.cols[n]
				delete(g.cols, n)
			}
			overlap = overlap || used[to]
			used[to] = true
		}
		g.d = d
		g.name += fmt.Sprintf("%q", names)
		l = append(l, g)
	}
	var ds []*df.DataFrame
	var names []string
	sameN, sameIdx := true, true
	for _, g := range l {
		ds = append(ds, g.d)
		names = append(names, g.name)
		sameN = sameN && g.n() == l[0].n()
		sameIdx = sameIdx && sameInts(indicesOf(g.d), indicesOf(l[0].d))
	}
	var d *df.DataFrame
	var err error
	kind := w(3)
	h.note("%s(%s) -> f%d", []string{"ColumnConcatView", "ColumnCopyConcat", "ColumnSmartConcat"}[kind], strings.Join(names, ", "), h.made)
	ok := sameN && !overlap
	shared := true
	switch kind {
	case 0:
		d, err = df.ColumnConcatView(ds...)
		ok = ok && sameIdx
	case 1:
		d, err = df.ColumnCopyConcat(ds...)
		shared = false
	default:
		d, err = df.ColumnSmartConcat(ds...)
		shared = sameIdx
	}
	if !ok {
		zzrt.Probe("concat error case")
		if err == nil || d != nil {
			h.fail("missing-error", "%s: no error (same number of rows: %v, same rows: %v, overlapping names: %v)", h.last, sameN, sameIdx, overlap)
		}
		return true
	}
	if err != nil {
		h.fail("unexpected-error", "%s: %v", h.last, err)
	}
	zzrt.Probe("columns concatenated")
	m := l[0].all()
	for _, g := range l[1:] {
		for n, c := range g.cols {
			m.cols[n] = &mcol{t: c.t, cells: append([]*mcell(nil), c.cells...)}
		}
	}
	if shared {
		h.add(d, m)
	} else {
		h.reID(h.add(d, h.deep(m)))
	}
	return true
}

// deep2 is a copy of a frame that is not in the pool.
func (f *mframe) deep2(h *hist) *mframe {
	g := h.deep(f)
	g.d, g.name = f.d.Copy(), f.name+".Copy()"
	return g
}

func opConcat(h *hist, f *mframe) bool {
	if w(2) == 0 {
		return opRowConcat(h, f)
	}
	return opColConcat(h, f)
}

func c19(s *zzrt.Sim) {
	if chance(5) {
		for i, fn := range []func(...*df.DataFrame) (*df.DataFrame, error){df.RowConcat, df.ColumnConcatView, df.ColumnCopyConcat, df.ColumnSmartConcat} {
			guard(fmt.Sprint("concatenating nothing, function ", i), func() {
				if d, err := fn(); err == nil || d != nil {
					zzrt.Fail("missing-error", "concatenating nothing gives no error")
				}
			})
		}
	}
	runHistory([]histOp{{"concat", opColConcat}, {"concat", opRowConcat}, {"concat", opConcat}, {"derive", opDerive}, {"write", opWrite}, {"write", opWrite},
		{"order", opOrder}, {"copy", opCopy}, {"struct", opStruct}, {"read", opRead}, {"detach", opDetach}}, 10)
}

func init() {
	register(&Scenario{ID: "C19", Run: c19})
}

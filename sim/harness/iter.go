//go:build go1.22

package main

import (
	"fmt"
	"math"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
	"gonum.org/v1/gonum/mat"
)

// source is a frame, its rows and the table behind.
type source struct {
	t    *Tab
	d    *df.DataFrame
	rows []int
	all  int // allocated rows
	// positions in the data are relative to a slice that the library has chosen
	sliced bool
}

// position is the position of a row of the view in the data.
func (s *source) position(i int) int {
	if s.sliced {
		for _, c := range s.t.Cols {
			switch c.T {
			case TB:
				return s.d.Bools(c.Name).SharedIndex(i)
			case TI:
				return s.d.Ints(c.Name).SharedIndex(i)
			case TF:
				return s.d.Floats(c.Name).SharedIndex(i)
			}
		}
		for _, c := range s.t.Cols {
			return s.d.Objects(c.Name).SharedIndex(i) // there are only strings
		}
	}
	return s.rows[i]
}

func (s *source) allocated() int {
	if s.sliced {
		return s.d.NumAllocatedRows()
	}
	return s.all
}

func number(v interface{}) float64 {
	switch x := v.(type) {
	case bool:
		if x {
			return 1
		}
		return 0
	case int:
		return float64(x)
	default:
		return v.(float64)
	}
}

func number32(v interface{}) float32 {
	if x, ok := v.(int); ok {
		return float32(x)
	}
	return float32(number(v))
}

func same32(a, b float32) bool { return a == b || a != a && b != b }
func same64(a, b float64) bool {
	return math.Float64bits(a) == math.Float64bits(b) || math.IsNaN(a) && math.IsNaN(b)
}

// iterate uses an iterator on several frames, and leaves it anywhere.
func iterate(srcs []*source, cols []string) {
	src := srcs[w(len(srcs))]
	ite := df.NewFloat32Iterator(src.d, cols)
	for k := 1 + w(4); k > 0; k-- {
		what := fmt.Sprintf("Float32Iterator(%q) on %d of %d rows", cols, len(src.rows), src.all)
		if !sameInts2(ite.Columns(), cols) {
			zzrt.Fail("wrong-columns", "%s: Columns() is %q", what, ite.Columns())
		}
		n := len(src.rows)
		stop := n + 1 + w(3)
		if w(2) == 1 {
			stop = w(n + 1)
		}
		for i := 0; i < stop; i++ {
			row, vi, di := ite.NextRow()
			if i >= n {
				if row != nil || vi != n || di != src.allocated() {
					zzrt.Fail("wrong-end", "%s: call %d returns %v, %d, %d", what, i, row, vi, di)
				}
				continue
			}
			if row == nil {
				zzrt.Fail("lost-row", "%s: ends after %d rows", what, i)
			}
			if vi != i || di != src.position(i) {
				zzrt.Fail("wrong-position", "%s: row %d is said to be row %d of the view and row %d of the data instead of %d", what, i, vi, di, src.position(i))
			}
			if len(row) != len(cols) {
				zzrt.Fail("wrong-row", "%s: row %d has %d values", what, i, len(row))
			}
			for j, c := range cols {
				v := src.t.col(c).V[src.rows[i]]
				if e := number32(v); !same32(row[j], e) {
					zzrt.Fail("wrong-row", "%s: row %d column %q is %v instead of %v", what, i, c, row[j], e)
				}
				row[j] = -77 // delivered rows can be changed
			}
		}
		src = srcs[w(len(srcs))]
		check := w(2) == 0
		guard(what+".Reset", func() { ite.Reset(src.d, check) })
	}
}

func sameInts2(a, b []string) bool { return fmt.Sprintf("%q", a) == fmt.Sprintf("%q", b) }

// batch makes matrices of several frames with the same batching.
func batch(srcs []*source, cols []string) {
	b := df.NewDense64Batching(cols)
	for k := 1 + w(5); k > 0; k-- {
		src := srcs[w(len(srcs))]
		if len(src.rows) == 0 {
			continue // gonum has no matrices without rows
		}
		what := fmt.Sprintf("Dense64Batching(%q) on %d of %d rows", cols, len(src.rows), src.all)
		var m mat.Matrix
		guard(what, func() { m = b.DenseMatrix(src.d) })
		r, c := m.Dims()
		if r != len(src.rows) || c != len(cols) {
			zzrt.Fail("wrong-size", "%s: the matrix is %dx%d", what, r, c)
		}
		for i, at := range src.rows {
			for j, name := range cols {
				if e, v := number(src.t.col(name).V[at]), m.At(i, j); !same64(e, v) {
					zzrt.Fail("wrong-row", "%s: row %d column %q is %v instead of %v", what, i, name, v, e)
				}
			}
		}
		// the matrix can be changed
		if t, ok := m.(mat.Untransposer); ok {
			m = t.Untranspose()
			r, c = c, r
		}
		if d, ok := m.(*mat.Dense); ok {
			for i := 0; i < r; i++ {
				for j := 0; j < c; j++ {
					d.Set(i, j, -77)
				}
			}
			zzrt.Probe("matrix changed")
		}
	}
}

// vectors reads float columns as vectors.
func vectors(srcs []*source, cols []string) {
	for k := 1 + w(3); k > 0; k-- {
		src := srcs[w(len(srcs))]
		for _, name := range cols {
			if src.t.col(name).T != TF || len(src.rows) == 0 {
				continue
			}
			a := src.d.Floats(name)
			copied := w(2) == 0
			var v *mat.VecDense
			if copied {
				v = a.VecDenseCopy()
			} else {
				v = a.VecDense()
			}
			what := fmt.Sprintf("VecDense of %q on %d of %d rows", name, len(src.rows), src.all)
			if v.Len() != len(src.rows) {
				zzrt.Fail("wrong-size", "%s has %d elements", what, v.Len())
			}
			for i, at := range src.rows {
				if x := v.AtVec(i); !same64(x, src.t.col(name).V[at].(float64)) {
					zzrt.Fail("wrong-row", "%s: element %d is %v instead of %v", what, i, x, src.t.col(name).V[at])
				}
				if !src.sliced && a.SharedIndex(i) != at {
					zzrt.Fail("wrong-position", "%s: SharedIndex(%d) is %d instead of %d", what, i, a.SharedIndex(i), at)
				}
			}
			if copied {
				for i := range src.rows {
					v.SetVec(i, -77)
				}
			}
		}
	}
}

func c16(s *zzrt.Sim) {
	t := genTab(genLarge(300), 1, 6, TB, TI, TF, TF, TS)
	var srcs []*source
	var frames []*df.DataFrame
	var before []*Snap
	for k := 1 + w(3); k > 0; k-- {
		if len(srcs) > 0 {
			o := &Tab{N: genLarge(300), CPU: t.CPU}
			for _, c := range t.Cols {
				o.Cols = append(o.Cols, genCol(c.Name, c.T, o.N))
			}
			t = o
		}
		root := build(t)
		frames = append(frames, root)
		before = append(before, snap(root))
		srcs = append(srcs, &source{t, root, seq(t.N), t.N, false})
		for j := w(4); j > 0; j-- {
			d, rows, sliced := genViewS(root, seq(t.N))
			all := t.N
			tt := t
			switch w(4) {
			case 0: // a copy has its own data
				d = d.Copy()
				tt = &Tab{N: len(rows), CPU: t.CPU}
				for _, c := range t.Cols {
					tt.Cols = append(tt.Cols, &Col{c.Name, c.T, want(t, rows).Cols[c.Name].V})
				}
				rows = seq(tt.N)
				all = tt.N
				sliced = false
				frames = append(frames, d)
				before = append(before, snap(d))
			case 1: // part of the columns only
				if l := t.names(TB, TI, TF); len(l) > 0 {
					d = d.ColumnView(l...)
				}
			}
			srcs = append(srcs, &source{tt, d, rows, all, sliced})
		}
	}
	num := t.names(TB, TI, TF)
	var fns []func()
	for k := 1 + w(3); k > 0; k-- {
		var cols []string
		for _, i := range genIndices(len(num)) {
			if w(8) == 7 || !contains(cols, num[i]) {
				cols = append(cols, num[i])
			}
		}
		fns = append(fns, func() {
			switch w(5) {
			case 0, 1:
				iterate(srcs, cols)
			case 2, 3:
				if len(cols) > 0 {
					batch(srcs, cols)
				}
			default:
				vectors(srcs, cols)
			}
		})
	}
	together(fns...)
	for i, d := range frames {
		mustSame("input-changed", "iterating over a frame changes it", d, before[i])
	}
	rest("iterating")
	checked()
}

func init() {
	register(&Scenario{ID: "C16", Run: c16})
}

//go:build go1.22

package main

import (
	"fmt"
	"math"
	"sort"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// orderOf returns the position in the table of each row of d.
func orderOf(what string, d *df.DataFrame, t *Tab) []int {
	a := d.Ints(idCol)
	r := make([]int, a.Size())
	for i := range r {
		v := a.Get(i)
		if v%3 != 0 || v/3 < 0 || v/3 >= t.N {
			zzrt.Fail("wrong-rows", "%s: the id %d of row %d does not exist", what, v, i)
		}
		r[i] = v / 3
	}
	return r
}

// intact checks that the rows of d are rows of the table, unmixed.
func intact(what string, d *df.DataFrame, t *Tab) []int {
	r := orderOf(what, d, t)
	if x := snap(d).same(want(t, r)); x != "" {
		zzrt.Fail("mixed-rows", "%s: %s", what, x)
	}
	return r
}

func multiset(l []int) map[int]int {
	m := map[int]int{}
	for _, x := range l {
		m[x]++
	}
	return m
}

// subOf checks that the rows in l are taken from those in from, none more often.
func subOf(what string, l, from []int) {
	m := multiset(from)
	for i, x := range l {
		if m[x] == 0 {
			zzrt.Fail("wrong-rows", "%s: row %d of the table comes back too often (position %d)", what, x, i)
		}
		m[x]--
	}
}

func c15(s *zzrt.Sim) {
	for k := 1 + w(2); k > 0; k-- {
		t := genTab(genLarge(300), 0, 5)
		if t.N > 0 || len(t.Cols) == 0 {
			t.N = genLarge(300)
			for _, c := range t.Cols {
				*c = *genCol(c.Name, c.T, t.N)
			}
		}
		t.withID(idCol)
		root := build(t)
		rootSnap := snap(root)
		if kind := w(6); kind == 3 {
			together(func() { c15Case(t, root, kind, 0) }, func() { c15Reader(t, root, false) })
		} else {
			var fns []func()
			for i := 1 + w(3); i > 0; i-- {
				kind := w(5)
				if kind >= 3 {
					kind++
				} else if kind == 0 && chance(15) {
					kind = 6
				}
				client := i
				fns = append(fns, func() { c15Case(t, root, kind, client) })
			}
			if w(2) == 1 {
				fns = append(fns, func() { c15Reader(t, root, true) })
			}
			together(fns...)
		}
		mustSame("input-changed", "deriving shuffled views changes the frame", root, rootSnap)
		checked()
	}
	rest("shuffling")
}

// c15Reader reads, and may derive views that are not shuffled.
func c15Reader(t *Tab, root *df.DataFrame, derive bool) {
	for k := 1 + w(3); k > 0; k-- {
		zzrt.Yield()
		// Seeding promises nothing about the numbers of a concurrent client, and
		// deriving views draws numbers too (for the identifiers that are printed).
		d, rows := root, seq(t.N)
		if derive {
			d, rows = genView(root, rows)
		}
		if r := intact("a view", d, t); !sameInts(r, rows) {
			zzrt.Fail("wrong-rows", "a view has the rows %v instead of %v", r, rows)
		}
	}
}

func c15Case(t *Tab, root *df.DataFrame, kind, client int) {
	d, rows := root, seq(t.N)
	if chance(60) {
		d, rows = genView(root, rows)
	}
	n := len(rows)
	before := snap(d)
	what := ""
	switch kind {
	case 0: // permutations
		what = fmt.Sprintf("ShuffleView of %d rows", n)
		r := intact(what, d.ShuffleView(), t)
		if len(r) != n {
			zzrt.Fail("wrong-size", "%s gives %d rows", what, len(r))
		}
		subOf(what, r, rows)
	case 1: // samples
		m := w(n + 1)
		what = fmt.Sprintf("SampleView(%d) of %d rows", m, n)
		r := intact(what, d.SampleView(m, false), t)
		if len(r) != m {
			zzrt.Fail("wrong-size", "%s gives %d rows", what, len(r))
		}
		subOf(what, r, rows)
	case 2: // partitions of a shuffled frame
		sh := d
		if w(2) == 1 {
			sh = d.ShuffleView()
			rows = intact("ShuffleView", sh, t)
		}
		var parts []*df.DataFrame
		ok := true
		size := func(i int) int { return 0 }
		switch w(3) {
		case 0:
			b := 1 + w(n+2)
			what = fmt.Sprintf("SplitView(%d) of %d rows", b, n)
			parts = sh.SplitView(b)
			ok = len(parts) == (n+b-1)/b || n == 0 && len(parts) <= 1
			size = func(i int) int {
				if i == len(parts)-1 && n > 0 && n%b > 0 {
					return n % b
				} else if n == 0 {
					return 0
				}
				return b
			}
		case 1:
			k := 1 + w(12)
			what = fmt.Sprintf("SplitNView(%d) of %d rows", k, n)
			parts = sh.SplitNView(k)
			ok = len(parts) == k
			size = func(i int) int { return -1 }
			for i, p := range parts {
				if p.NumRows() > (n+k-1)/k {
					zzrt.Fail("wrong-size", "%s: part %d has %d rows", what, i, p.NumRows())
				}
			}
		default:
			r := genRatio(n)
			what = fmt.Sprintf("SplitTrainTestViews(%v) of %d rows", r, n)
			a, b := sh.SplitTrainTestViews(r)
			parts = []*df.DataFrame{a, b}
			size = func(i int) int {
				if i == 0 {
					return n - int(float64(n)*r)
				}
				return int(float64(n) * r)
			}
		}
		if !ok {
			zzrt.Fail("wrong-size", "%s gives %d parts", what, len(parts))
		}
		at := 0
		for i, p := range parts {
			if z := size(i); z >= 0 && p.NumRows() != z {
				zzrt.Fail("wrong-size", "%s: part %d of %d has %d rows instead of %d", what, i, len(parts), p.NumRows(), z)
			}
			r := intact(what, p, t)
			if at+len(r) > n || !sameInts(r, rows[at:at+len(r)]) {
				zzrt.Fail("wrong-rows", "%s: part %d has the rows %v", what, i, r)
			}
			at += len(r)
		}
		if at != n {
			zzrt.Fail("wrong-rows", "%s: the parts have %d rows", what, at)
		}
	case 3: // reproducible
		if n < 2 {
			return
		}
		seed := int64(w(1000))
		what = fmt.Sprintf("ShuffleView of %d rows", n)
		var runs [2][][]int
		for i := range runs {
			zzrt.RandSeed(seed)
			for j := 0; j < 3; j++ {
				v := d
				if j == 2 {
					v = d.SampleView(n-n/3, false)
				} else {
					v = d.ShuffleView()
				}
				runs[i] = append(runs[i], orderOf(what, v, t))
			}
		}
		if fmt.Sprint(runs[0]) != fmt.Sprint(runs[1]) {
			zzrt.Fail("not-reproducible", "%s: the orders after seeding with %d are %v and then %v", what, seed, runs[0], runs[1])
		}
	case 4: // varying; the rows of a large frame practically never come in the same order twice
		big := &Tab{N: 25 + w(60), CPU: t.CPU}
		big.withID(idCol)
		bd := build(big)
		v, _ := genViewLarge(bd, big.N)
		seen := map[string]string{}
		what = "ShuffleView"
		for j := 0; j < 8; j++ {
			if j >= 4 {
				// no seed is used twice, even by another client between this
				// statement and the next
				zzrt.RandSeed(int64(100000*client + 1000*j + w(50)))
			}
			var o []int
			if w(3) == 2 {
				o = orderOf(what, v.SampleView(20, false), big)
			} else {
				o = orderOf(what, v.ShuffleView(), big)[:20]
			}
			key := fmt.Sprint(o)
			if prev, ok := seen[key]; ok {
				zzrt.Fail("not-random", "shuffles %s and %d of %d rows give the same order %v", prev, j, big.N, o)
			}
			seen[key] = fmt.Sprint(j)
		}
	case 6: // large frames are shuffled thoroughly
		n := 500 + w(1000)
		if x := dictN(20000) + w(3) - 1; x > 500 && w(2) == 1 {
			n = x
		}
		zzrt.AllowSteps(200 * n)
		b := df.DataBuilder{RawData: df.NewRawData()}
		v := b.AddInts(idCol, seq(n)...).ToDataFrame()
		what = fmt.Sprintf("ShuffleView of %d rows", n)
		thorough(what, v.ShuffleView(), n)
		for k := 1 + w(3); k > 0; k-- {
			m := n / oneOf(2, 3, 5, 9, 20)
			differentRows(fmt.Sprintf("SampleView(%d) of %d rows", m, n), v.SampleView(m, false), m, n)
		}
	default: // every permutation can occur
		m := 2 + w(2)
		small := &Tab{N: m, CPU: t.CPU}
		small.withID(idCol)
		sd := build(small)
		total, tries := 2, 60
		if m == 3 {
			total, tries = 6, 200
		}
		seen := map[string]int{}
		first := map[int]int{}
		for j := 0; j < tries; j++ {
			var o []int
			if j%2 == 0 {
				o = orderOf("ShuffleView", sd.ShuffleView(), small)
			} else {
				o = orderOf("SampleView", sd.SampleView(m, false), small)
			}
			seen[fmt.Sprint(o)]++
			first[o[0]]++
		}
		if len(seen) != total {
			var l []string
			for x := range seen {
				l = append(l, x)
			}
			sort.Strings(l)
			zzrt.Fail("not-random", "%d shuffles of %d rows give only the orders %v", tries, m, l)
		}
		zzrt.Probe("all permutations")
	}
	mustSame("input-changed", what+" changes its input", d, before)
}

// thorough checks that the rows 0, 1, 2... of a large frame are in an order
// without an obvious pattern: the distances between neighbours and those to the
// original place must be distributed like those of independent rows. The limits
// are at 10 standard deviations.
func thorough(what string, d *df.DataFrame, n int) {
	ids := d.Ints(idCol)
	if d.NumRows() != n {
		zzrt.Fail("wrong-size", "%s gives %d rows", what, d.NumRows())
	}
	seen := make([]bool, n)
	var m, m2 [2]float64
	last := 0
	for i := 0; i < n; i++ {
		x := ids.Get(i)
		if x < 0 || x >= n || seen[x] {
			zzrt.Fail("wrong-rows", "%s: row %d is %d, which does not exist or is repeated", what, i, x)
		}
		seen[x] = true
		for j, y := range []int{last, i} {
			e := math.Abs(float64(x-y)) / float64(n)
			m[j] += e / float64(n)
			m2[j] += e * e / float64(n)
		}
		last = x
	}
	tol := 10 / math.Sqrt(float64(n))
	for j, to := range []string{"the row before", "its original place"} {
		if math.Abs(m[j]-1.0/3) > 0.236*tol || math.Abs(m2[j]-1.0/6) > 0.198*tol {
			zzrt.Fail("not-random", "%s: the distance of a row to %s is %.3f rows on average, its square %.4g", what, to, m[j]*float64(n), m2[j]*float64(n)*float64(n))
		}
	}
	zzrt.Probe("large shuffle")
}

// differentRows checks that the ids of the rows of a sample are m different rows of n.
func differentRows(what string, d *df.DataFrame, m, n int) {
	ids := d.Ints(idCol)
	if d.NumRows() != m {
		zzrt.Fail("wrong-size", "%s gives %d rows", what, d.NumRows())
	}
	seen := make([]bool, n)
	for i := 0; i < m; i++ {
		x := ids.Get(i)
		if x < 0 || x >= n || seen[x] {
			zzrt.Fail("wrong-rows", "%s: row %d is %d, which does not exist or is repeated", what, i, x)
		}
		seen[x] = true
	}
}

// genViewLarge derives a view that has all the rows.
func genViewLarge(d *df.DataFrame, n int) (*df.DataFrame, int) {
	for k := w(3); k > 0; k-- {
		switch w(3) {
		case 0:
			d = d.ReverseView()
		case 1:
			d = d.ShuffleView()
		default:
			d = d.View()
		}
	}
	return d, n
}

func init() {
	register(&Scenario{ID: "C15", Run: c15})
}

//go:build go1.22

package main

import (
	"fmt"
	"math"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	pp "github.com/rom1mouret/ml-essentials/preprocessing"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// hashBook records which string has which hash, for the life of the process.
type hashBook struct {
	of map[string]int
	by map[int]string
}

var book = hashBook{map[string]int{}, map[int]string{}}

func (b *hashBook) see(what, s string, h int) {
	if h < 0 {
		zzrt.Fail("negative-hash", "%s: the hash of %q is %d", what, s, h)
	}
	if o, ok := b.of[s]; ok && o != h {
		zzrt.Fail("hash-differs", "%s: the hash of %q is %d, it was %d before", what, s, h, o)
	}
	if o, ok := b.by[h]; ok && o != s {
		zzrt.Fail("hash-collision", "%s: %q and %q both have the hash %d", what, s, o, h)
	}
	if len(b.of) < 200000 {
		b.of[s], b.by[h] = h, s
	}
}

// checkHashed verifies the result of hashing the given columns of in.
func checkHashed(what string, in *Snap, d *df.DataFrame, cols []string) {
	out := snap(d)
	if x := out.drop(cols...).diff(in.drop(cols...)); x != "" {
		zzrt.Fail("other-columns", "%s: %s", what, x)
	}
	if out.N != in.N || len(out.Cols) != len(in.Cols) {
		zzrt.Fail("wrong-shape", "%s: columns {%s} of %d rows become {%s} of %d rows", what, in.schema(), in.N, out.schema(), out.N)
	}
	for _, name := range cols {
		c := out.Cols[name]
		if c == nil || c.T != TI {
			zzrt.Fail("wrong-shape", "%s: column %q is not an int column: {%s}", what, name, out.schema())
		}
		for i, v := range in.Cols[name].V {
			h := c.V[i].(int)
			if v == nil {
				if h != -1 {
					zzrt.Fail("missing-hash", "%s: a missing string of column %q row %d becomes %d", what, name, i, h)
				}
				continue
			}
			book.see(what, v.(string), h)
		}
	}
}

// sharesCells writes to some cells of one frame and looks at them in another;
// rows with the same number are the same cells.
func writeThrough(what string, from, to *df.DataFrame, col string, t CT, rows []int) {
	if len(rows) == 0 {
		return
	}
	i := w(len(rows))
	var old, now, fresh interface{}
	switch t {
	case TB:
		a, b := from.Bools(col), to.Bools(col)
		old = a.Get(i)
		fresh = !a.Get(i)
		a.Set(i, !a.Get(i))
		now = b.Get(i)
		a.Set(i, old.(bool))
	case TI:
		a, b := from.Ints(col), to.Ints(col)
		old = a.Get(i)
		fresh = a.Get(i) ^ 0x5a5a
		a.Set(i, fresh.(int))
		now = b.Get(i)
		a.Set(i, old.(int))
	case TF:
		a, b := from.Floats(col), to.Floats(col)
		old = a.Get(i)
		fresh = 12345.678
		a.Set(i, 12345.678)
		now = b.Get(i)
		a.Set(i, old.(float64))
	default:
		a, b := from.Objects(col), to.Objects(col)
		old = a.Get(i)
		fresh = "fresh value"
		a.Set(i, fresh)
		now = b.Get(i)
		a.Set(i, old)
	}
	if !eq(now, fresh) {
		zzrt.Fail("not-shared", "%s: column %q is not shared: row %d, written %s, seen %s", what, col, i, show(fresh), show(now))
	}
}

// together runs functions in tasks of their own and waits for them.
func together(fns ...func()) {
	var wg zzrt.WaitGroup
	wg.Add(len(fns))
	for i, fn := range fns {
		fn := fn
		zzrt.Go(fmt.Sprint("client", i), func() {
			defer wg.Done()
			fn()
		})
	}
	wg.Wait()
}

// genHashTab draws a table with string columns that share a vocabulary.
func genHashTab(n int) *Tab {
	t := genTab(n, 0, 3)
	names := genNames(len(t.Cols) + 4)
	k := 1 + w(4)
	r := bulk()
	for _, name := range names {
		if t.col(name) == nil && k > 0 {
			k--
			c := &Col{Name: name, T: TS, V: make([]interface{}, n)}
			miss := oneOf(0, 25, 100)
			for i := range c.V {
				if r.Intn(100) < miss {
					continue
				}
				switch r.Intn(4) {
				case 0:
					c.V[i] = words[r.Intn(len(words))]
				case 1:
					c.V[i] = fmt.Sprint("w", r.Intn(20))
				case 2:
					c.V[i] = string([]byte{byte(r.Intn(256)), byte(r.Intn(256)), byte(r.Intn(4))}[:r.Intn(4)])
				default:
					c.V[i] = fmt.Sprintf("prefix-%d-%x", r.Intn(3), r.Intn(1<<24))
				}
			}
			t.Cols = append(t.Cols, c)
		}
	}
	t.N = n
	for _, c := range t.Cols {
		if len(c.V) != n {
			*c = *genCol(c.Name, c.T, n)
		}
	}
	return t
}

func c07(s *zzrt.Sim) {
	for k := 1 + w(2); k > 0; k-- {
		t := genHashTab(genLarge(400))
		root := build(t)
		rootSnap := snap(root)
		str := t.names(TS)
		cols := str
		if chance(40) {
			cols = str[:1+w(len(str))]
		}
		zzrt.ProbeIf(len(cols) == len(t.Cols), "every column hashed")
		type job struct {
			d    *df.DataFrame
			rows []int
			in   *Snap
			out  *df.DataFrame
		}
		var jobs []*job
		for i := 1 + w(3); i > 0; i-- {
			d, rows := root, seq(t.N)
			if chance(60) {
				d, rows = genView(root, rows)
			}
			jobs = append(jobs, &job{d: d, rows: rows, in: snap(d)})
		}
		var fns []func()
		for _, j := range jobs {
			j := j
			enc := chance(30)
			fns = append(fns, func() {
				if enc {
					e := pp.NewHashEncoder(pp.HashEncoderOptions{})
					var sub []string
					sub = append(sub, cols...)
					if err := e.Fit(j.d.ColumnView(sub...)); err != nil {
						zzrt.Fail("unexpected-error", "HashEncoder.Fit: %v", err)
					}
					if !sameSet(e.TransformedColumns(), cols) {
						zzrt.Fail("wrong-columns", "HashEncoder.TransformedColumns() is %q after fitting on %q", e.TransformedColumns(), cols)
					}
					var err error
					if j.out, err = e.TransformView(j.d); err != nil {
						zzrt.Fail("unexpected-error", "HashEncoder.TransformView: %v", err)
					}
				} else {
					j.out = j.d.HashStringsView(cols...)
				}
			})
		}
		if chance(60) {
			together(fns...)
		} else {
			for _, f := range fns {
				guard("HashStringsView", f)
			}
		}
		rest("HashStringsView")
		for i, j := range jobs {
			what := fmt.Sprintf("HashStringsView(%q) on view %d", cols, i)
			checkHashed(what, j.in, j.out, cols)
			mustSame("input-changed", what+" changes its input", j.d, j.in)
			for _, c := range t.Cols {
				if !contains(cols, c.Name) {
					if w(2) == 0 {
						writeThrough(what, j.out, j.d, c.Name, c.T, j.rows)
					} else {
						writeThrough(what, j.d, j.out, c.Name, c.T, j.rows)
					}
				}
			}
			// writing hashes changes nothing else
			if len(j.rows) > 0 {
				j.out.Ints(cols[0]).Set(w(len(j.rows)), 77)
				mustSame("input-changed", what+", writing to the result", j.d, j.in)
			}
		}
		mustSame("input-changed", "hashing views", root, rootSnap)
		checked()
	}
}

// c07Digest hashes fixed strings.
func c07Digest(s *zzrt.Sim, put func(k, v string)) {
	var l []interface{}
	for i := 0; i < 300; i++ {
		l = append(l, fmt.Sprint("digest", i))
	}
	for _, x := range words {
		l = append(l, x)
	}
	c := &Col{Name: "c", T: TS, V: l}
	d := build(&Tab{N: len(l), Cols: []*Col{c, {Name: "d", T: TS, V: l}}, CPU: 2})
	h := d.HashStringsView("c", "d")
	for i, v := range l {
		put("hash of "+show(v), fmt.Sprint(h.Ints("c").Get(i)))
		if h.Ints("c").Get(i) != h.Ints("d").Get(i) {
			zzrt.Fail("hash-differs", "%s has the hashes %d and %d in two columns", show(v), h.Ints("c").Get(i), h.Ints("d").Get(i))
		}
	}
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

func near(a, b, tol float64) bool {
	if math.IsNaN(a) || math.IsNaN(b) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	if a == b {
		return true
	}
	d := math.Abs(a - b)
	return d <= tol*(1+math.Max(math.Abs(a), math.Abs(b)))
}

func init() {
	register(&Scenario{ID: "C07", Run: c07, Digest: c07Digest})
}

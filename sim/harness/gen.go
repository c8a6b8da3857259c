//go:build go1.22

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
	"golang.org/x/text/encoding"
)

// CT is the type of a column.
type CT int

const (
	TB CT = iota
	TI
	TF
	TS
	TO
)

var ctNames = []string{"bool", "int", "float", "string", "object"}

func (t CT) String() string { return ctNames[t] }

// Col is a column of a generated table; cells are bool, int, float64,
// string or nil, or *Obj or nil.
type Col struct {
	Name string
	T    CT
	V    []interface{}
}

// Obj is the content of object columns.
type Obj struct{ N int }

// Tab is a generated table.
type Tab struct {
	N     int
	Cols  []*Col
	CPU   int
	Enc   encoding.Encoding
	Clash bool // a column has the name that a category of another could have
}

func (t *Tab) col(name string) *Col {
	for _, c := range t.Cols {
		if c.Name == name {
			return c
		}
	}
	return nil
}

func (t *Tab) names(types ...CT) []string {
	var l []string
	for _, c := range t.Cols {
		for _, ty := range types {
			if c.T == ty {
				l = append(l, c.Name)
			}
		}
	}
	return l
}

func (t *Tab) clone() *Tab {
	r := *t
	r.Cols = nil
	for _, c := range t.Cols {
		r.Cols = append(r.Cols, &Col{c.Name, c.T, append([]interface{}(nil), c.V...)})
	}
	return &r
}

func (t *Tab) String() string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d rows, cpu %d:", t.N, t.CPU)
	for _, c := range t.Cols {
		fmt.Fprintf(&sb, " %q %s %s;", c.Name, c.T, short(c.V))
	}
	return sb.String()
}

func show(v interface{}) string {
	if o, ok := v.(*Obj); ok && o != nil {
		return fmt.Sprintf("obj%d", o.N)
	}
	if s, ok := v.(string); ok {
		return fmt.Sprintf("%q", s)
	}
	return fmt.Sprint(v)
}

func short(v []interface{}) string {
	var l []string
	for i, x := range v {
		if i == 8 && len(v) > 9 {
			l = append(l, fmt.Sprintf("...(%d)", len(v)))
			break
		}
		l = append(l, show(x))
	}
	return "[" + strings.Join(l, " ") + "]"
}

// ------------------------------------------------------------------ choices

func w(n int) int { return zzrt.W(n) }

// chance is true in pct percent of the runs; the minimiser prefers false.
func chance(pct int) bool { return zzrt.W(100) >= 100-pct }

func oneOf[T any](l ...T) T { return l[zzrt.W(len(l))] }

// bulk returns a generator for values that need not be minimised one by one.
func bulk() *zzrt.PRNG {
	r := zzrt.PRNG(zzrt.Mix(uint64(zzrt.W(1<<20)), 7))
	return &r
}

// genN draws a number of rows.
func genN(max int) int {
	var n int
	switch w(9) {
	case 8: // a size that the code mentions, or nearly so
		n = dictN(1100) + w(3) - 1
	case 0, 1:
		n = w(4)
	case 2, 3, 4:
		n = 1 + w(12)
	case 5:
		n = 5 + w(60)
	case 6:
		n = oneOf(127, 128, 129, 130, 255, 256, 257, 258)
	default:
		n = oneOf(100, 200, 384, 511, 512, 513, 640, 1025)
	}
	if n > max {
		n = n % (max + 1)
	}
	return n
}

// genLarge draws a number of rows that, rarely, is one of the larger numbers
// that the code mentions. It is for operations whose cost is linear.
func genLarge(max int) int {
	if w(32) == 31 {
		if n := dictN(6000) + w(3) - 1; n > max {
			zzrt.AllowSteps(4000 * n)
			return n
		}
	}
	return genN(max)
}

// dictN draws a number of rows from the constants of the code, up to max.
func dictN(max int) int {
	var l []int
	for _, n := range dictInts {
		if n >= 2 && n <= max {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		return 7
	}
	return l[w(len(l))]
}

var plainNames = []string{"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o", "p"}
var oddNames = []string{"", "x y", "é", "\"q\"", "p,q", "_target", "mask", "0", " lead", "a;b", "#c", "-1", "A", "日本", "long-" + "name-name-name-name-name-name-name-name-name"}

// genNames draws n distinct column names.
func genNames(n int) []string {
	pool := append([]string(nil), plainNames...)
	if chance(40) {
		pool = append(append([]string(nil), oddNames...), pool...)
	}
	if n > len(pool) {
		for i := 0; len(pool) < n; i++ {
			pool = append(pool, fmt.Sprint("col", i))
		}
	}
	if chance(15) { // names that the code mentions
		for _, s := range dictStrings {
			if !contains(pool, s) {
				pool = append(pool, s)
			}
		}
	}
	r := bulk()
	for i := len(pool) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		pool[i], pool[j] = pool[j], pool[i]
	}
	return pool[:n]
}

var words = []string{"red", "green", "blue", "x", "Red", "re", "d", "", " ", "a,b", "q\"q", "é", "line\nbreak", "0", "1", "true", "-1", "3.5", "日本語", "red ", "nil", "NaN", "a b c", "#h", "zz;z", "\ttab"}

func genFloat(r *zzrt.PRNG, mode int) float64 {
	switch mode {
	case 0:
		return float64(r.Intn(41)-20) / 4
	case 1:
		return (r.Float() - 0.5) * 10
	case 2:
		return math.Ldexp(r.Float()-0.5, r.Intn(60)-30)
	case 3:
		return 1000 + r.Float()
	case 4:
		if len(dictFloats) > 0 && r.Intn(5) == 0 {
			return dictFloats[r.Intn(len(dictFloats))]
		}
		return []float64{0, math.Copysign(0, -1), 1, -1, 0.5, 1e300, -1e-300, 3, math.MaxFloat64, math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1)}[r.Intn(12)]
	default:
		return 2.5
	}
}

// genCol draws the values of a column.
func genCol(name string, t CT, n int) *Col {
	c := &Col{Name: name, T: t, V: make([]interface{}, n)}
	r := bulk()
	switch t {
	case TB:
		mode := w(3)
		for i := range c.V {
			switch mode {
			case 0:
				c.V[i] = r.Intn(2) == 1
			case 1:
				c.V[i] = r.Intn(8) == 0
			default:
				c.V[i] = true
			}
		}
	case TI:
		mode := w(7)
		for i := range c.V {
			switch mode {
			case 6:
				c.V[i] = r.Intn(3)
				if len(dictInts) > 0 && r.Intn(2) == 0 {
					c.V[i] = dictInts[r.Intn(len(dictInts))]
				}
			case 0:
				c.V[i] = r.Intn(5)
			case 1:
				c.V[i] = r.Intn(7) - 1
			case 2:
				c.V[i] = i*7 + 3
			case 3:
				c.V[i] = int(r.Next())
			case 4:
				c.V[i] = r.Intn(2000) - 1000
			default:
				c.V[i] = 1<<53 + r.Intn(8)
			}
		}
	case TF:
		mode := w(6)
		nan := oneOf(0, 0, 0, 20, 60, 100)
		if mode == 5 {
			nan = oneOf(0, 30)
		}
		for i := range c.V {
			if r.Intn(100) < nan {
				c.V[i] = math.NaN()
			} else {
				c.V[i] = genFloat(r, mode)
			}
		}
	case TS:
		mode := w(4)
		miss := oneOf(0, 0, 20, 60, 100)
		for i := range c.V {
			if r.Intn(100) < miss {
				continue
			}
			switch mode {
			case 0:
				c.V[i] = words[r.Intn(4)]
			case 1:
				k := r.Intn(len(words) + len(dictStrings))
				if k < len(words) {
					c.V[i] = words[k]
				} else {
					c.V[i] = dictStrings[k-len(words)]
				}
			case 2:
				c.V[i] = fmt.Sprint("s", r.Intn(50))
			default:
				c.V[i] = fmt.Sprint("u", i, "-", r.Intn(1000000))
			}
		}
	case TO:
		for i := range c.V {
			if r.Intn(5) > 0 {
				c.V[i] = &Obj{i}
			}
		}
	}
	return c
}

// genTab draws a table with up to maxCols columns of the given types (all
// types if none is given).
func genTab(n, minCols, maxCols int, types ...CT) *Tab {
	if len(types) == 0 {
		types = []CT{TB, TI, TF, TS, TO}
	}
	k := minCols + w(maxCols-minCols+1)
	if k == 0 {
		n = 0
	}
	t := &Tab{N: n, CPU: genCPU()}
	for _, name := range genNames(k) {
		t.Cols = append(t.Cols, genCol(name, oneOf(types...), n))
	}
	return t
}

func genCPU() int { return oneOf(1, 2, 3, 4, 8, 0, -1, 16, 200) }

// wantCPU is the documented meaning of a CPU limit.
func wantCPU(c int) int {
	if n := zzrt.RuntimeNumCPU(); c <= 0 || c > n {
		return n
	}
	return c
}

// withID appends an int column with distinct values.
func (t *Tab) withID(name string) *Tab {
	c := &Col{Name: name, T: TI, V: make([]interface{}, t.N)}
	for i := range c.V {
		c.V[i] = i * 3
	}
	t.Cols = append(t.Cols, c)
	return t
}

func bools(v []interface{}) []bool {
	r := make([]bool, len(v))
	for i := range v {
		r[i] = v[i].(bool)
	}
	return r
}

func ints(v []interface{}) []int {
	r := make([]int, len(v))
	for i := range v {
		r[i] = v[i].(int)
	}
	return r
}

func floats(v []interface{}) []float64 {
	r := make([]float64, len(v))
	for i := range v {
		r[i] = v[i].(float64)
	}
	return r
}

// build makes a frame from a table.
func build(t *Tab) *df.DataFrame {
	b := df.DataBuilder{RawData: df.NewRawData()}
	style := w(8)
	cut := t.N / 2 // the values may be added in two parts
	for _, c := range t.Cols {
		v, rest := c.V, []interface{}{}
		if style >= 6 {
			v, rest = c.V[:cut:cut], c.V[cut:]
		}
		switch c.T {
		case TB:
			if style == 5 {
				b.SetBools(c.Name, bools(v))
			} else {
				b.AddBools(c.Name, bools(v)...).AddBools(c.Name, bools(rest)...)
			}
		case TI:
			if style < 4 {
				b.SetInts(c.Name, ints(v))
			} else {
				b.AddInts(c.Name, ints(v)...).AddInts(c.Name, ints(rest)...)
			}
		case TF:
			if style == 5 {
				b.SetFloats(c.Name, floats(v))
			} else {
				b.AddFloats(c.Name, floats(v)...).AddFloats(c.Name, floats(rest)...)
			}
		case TS:
			var l []string
			for _, x := range v {
				if s, ok := x.(string); ok {
					l = append(l, s)
				}
			}
			if style >= 4 && len(l) == len(v) {
				b.AddStrings(c.Name, l...).AddObjects(c.Name, rest...)
			} else {
				b.AddObjects(c.Name, append([]interface{}(nil), v...)...).AddObjects(c.Name, rest...).MarkAsString(c.Name)
			}
		case TO:
			b.SetObjects(c.Name, append(append([]interface{}(nil), v...), rest...))
		}
	}
	if t.Enc != nil {
		b.TextEncoding(t.Enc)
	}
	b.RawData.SetMaxCPU(t.CPU)
	d := b.ToDataFrame()
	if style == 7 && w(4) == 3 {
		d.Debug(true)
	}
	return d
}

func seq(n int) []int {
	r := make([]int, n)
	for i := range r {
		r[i] = i
	}
	return r
}

func pickRows(rows, idx []int) []int {
	r := make([]int, len(idx))
	for i, j := range idx {
		r[i] = rows[j]
	}
	return r
}

// genIndices draws a selection of n rows.
func genIndices(n int) []int {
	if n == 0 {
		return []int{}
	}
	r := bulk()
	switch w(4) {
	case 0: // subset in order
		l := []int{}
		for i := 0; i < n; i++ {
			if r.Intn(3) > 0 {
				l = append(l, i)
			}
		}
		return l
	case 1: // permutation
		l := seq(n)
		for i := n - 1; i > 0; i-- {
			j := r.Intn(i + 1)
			l[i], l[j] = l[j], l[i]
		}
		return l
	case 2: // with repetitions, possibly larger
		m := 1 + r.Intn(2*n)
		l := make([]int, m)
		for i := range l {
			l[i] = r.Intn(n)
		}
		return l
	default: // a few
		m := 1 + r.Intn(3)
		l := make([]int, m)
		for i := range l {
			l[i] = r.Intn(n)
		}
		return l
	}
}

// genView derives a view of d, whose rows are the given rows of a table, and
// returns it with its rows.  Views made here never share structure changes.
func genView(d *df.DataFrame, rows []int) (*df.DataFrame, []int) {
	d, rows, _ = genViewS(d, rows)
	return d, rows
}

// genViewS also tells whether the view may be a slice of the data, so that
// positions in the data are relative to the slice.
func genViewS(d *df.DataFrame, rows []int) (*df.DataFrame, []int, bool) {
	sliced := false
	for k := w(4); k > 0; k-- {
		n := len(rows)
		switch w(6) {
		case 0:
			idx := genIndices(n)
			d, rows = d.IndexView(idx), pickRows(rows, idx)
		case 1:
			a, b := w(n+1), w(n+1)
			if a > b {
				a, b = b, a
			}
			d, rows = d.SliceView(a, b), rows[a:b]
			sliced = true
		case 2:
			mask := make([]bool, n)
			r := bulk()
			var keep []int
			for i := range mask {
				mask[i] = r.Intn(3) > 0
				if mask[i] {
					keep = append(keep, rows[i])
				}
			}
			d, rows = d.MaskView(mask), keep
		case 3:
			rev := make([]int, n)
			for i := range rev {
				rev[i] = rows[n-1-i]
			}
			d, rows = d.ReverseView(), rev
		case 4:
			d = d.View()
		default:
			d = d.ShallowCopy()
		}
	}
	return d, rows, sliced
}

// ----------------------------------------------------------------- snapshot

// Snap is the observable content of a frame.
type Snap struct {
	N    int
	CPU  int
	Cols map[string]*Col
}

// snap reads all cells of a frame through its public accessors.
func snap(d *df.DataFrame) *Snap {
	s := &Snap{N: d.NumRows(), CPU: d.ActualMaxCPU(), Cols: map[string]*Col{}}
	n := s.N
	add := func(name string, t CT) *Col {
		if s.Cols[name] != nil {
			zzrt.Fail("corrupt-frame", "column %q has two types: %s and %s", name, s.Cols[name].T, t)
		}
		c := &Col{name, t, make([]interface{}, n)}
		s.Cols[name] = c
		return c
	}
	for _, name := range d.BoolHeader().NameList() {
		c, a := add(name, TB), d.Bools(name)
		for i := range c.V {
			c.V[i] = a.Get(i)
		}
	}
	for _, name := range d.IntHeader().NameList() {
		c, a := add(name, TI), d.Ints(name)
		for i := range c.V {
			c.V[i] = a.Get(i)
		}
	}
	for _, name := range d.FloatHeader().NameList() {
		c, a := add(name, TF), d.Floats(name)
		for i := range c.V {
			c.V[i] = a.Get(i)
		}
	}
	str := map[string]bool{}
	for _, name := range d.StringHeader().NameList() {
		str[name] = true
	}
	for _, name := range d.ObjectHeader().NameList() {
		t := TO
		if str[name] {
			t = TS
			delete(str, name)
		}
		c, a := add(name, t), d.Objects(name)
		for i := range c.V {
			c.V[i] = a.Get(i)
		}
	}
	for name := range str {
		zzrt.Fail("corrupt-frame", "%q is marked as a string column but is no object column", name)
	}
	return s
}

func eq(a, b interface{}) bool {
	if x, ok := a.(float64); ok {
		if y, ok := b.(float64); ok {
			return math.Float64bits(x) == math.Float64bits(y) || math.IsNaN(x) && math.IsNaN(y)
		}
		return false
	}
	return a == b
}

func (s *Snap) names() []string {
	var l []string
	for n := range s.Cols {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func (s *Snap) schema() string {
	var l []string
	for _, n := range s.names() {
		l = append(l, fmt.Sprintf("%q:%s", n, s.Cols[n].T))
	}
	return strings.Join(l, " ")
}

// diff describes the first difference, "" if there is none.
func (s *Snap) diff(o *Snap) string {
	if a, b := s.schema(), o.schema(); a != b {
		return fmt.Sprintf("columns are {%s} instead of {%s}", a, b)
	}
	if s.N != o.N {
		return fmt.Sprintf("%d rows instead of %d", s.N, o.N)
	}
	for _, n := range s.names() {
		a, b := s.Cols[n].V, o.Cols[n].V
		for i := range a {
			if !eq(a[i], b[i]) {
				return fmt.Sprintf("column %q row %d is %s instead of %s (%s instead of %s)", n, i, show(a[i]), show(b[i]), short(a), short(b))
			}
		}
	}
	return ""
}

// same is diff including the CPU limit.
func (s *Snap) same(o *Snap) string {
	if d := s.diff(o); d != "" {
		return d
	}
	if s.CPU != o.CPU {
		return fmt.Sprintf("CPU limit is %d instead of %d", s.CPU, o.CPU)
	}
	return ""
}

// rowKeys returns one string per row.
func (s *Snap) rowKeys() []string {
	names := s.names()
	l := make([]string, s.N)
	for i := range l {
		var sb strings.Builder
		for _, n := range names {
			sb.WriteString(show(s.Cols[n].V[i]))
			sb.WriteByte('|')
		}
		l[i] = sb.String()
	}
	return l
}

// sameRows compares the rows in any order.
func (s *Snap) sameRows(o *Snap) string {
	if a, b := s.schema(), o.schema(); a != b {
		return fmt.Sprintf("columns are {%s} instead of {%s}", a, b)
	}
	if s.N != o.N {
		return fmt.Sprintf("%d rows instead of %d", s.N, o.N)
	}
	a, b := s.rowKeys(), o.rowKeys()
	sort.Strings(a)
	sort.Strings(b)
	for i := range a {
		if a[i] != b[i] {
			return fmt.Sprintf("the rows differ: %.200s <> %.200s", a[i], b[i])
		}
	}
	return ""
}

// want is the expected content of the given rows of a table.
func want(t *Tab, rows []int) *Snap {
	s := &Snap{N: len(rows), CPU: wantCPU(t.CPU), Cols: map[string]*Col{}}
	for _, c := range t.Cols {
		k := &Col{c.Name, c.T, make([]interface{}, len(rows))}
		for i, j := range rows {
			k.V[i] = c.V[j]
		}
		s.Cols[c.Name] = k
	}
	return s
}

func (s *Snap) drop(names ...string) *Snap {
	r := &Snap{N: s.N, CPU: s.CPU, Cols: map[string]*Col{}}
	for n, c := range s.Cols {
		r.Cols[n] = c
	}
	for _, n := range names {
		delete(r.Cols, n)
	}
	return r
}

func (s *Snap) keep(names ...string) *Snap {
	r := &Snap{N: s.N, CPU: s.CPU, Cols: map[string]*Col{}}
	for _, n := range names {
		if c := s.Cols[n]; c != nil {
			r.Cols[n] = c
		}
	}
	return r
}

// mustSame fails unless the frame has the given content.
func mustSame(class, what string, d *df.DataFrame, o *Snap) {
	if x := snap(d).diff(o); x != "" {
		zzrt.Fail(class, "%s: %s", what, x)
	}
}

// checked counts a completed comparison.
func checked() { zzrt.Probe("checked") }

// rest waits until all goroutines of the calls are gone and checks that they
// have closed their files.
func rest(what string) {
	if n := zzrt.Quiesce(); n > 0 {
		zzrt.Fail("goroutine-left-behind", "%s left %d goroutine(s) behind: %s", what, n, zzrt.Describe())
	}
	if n := zzrt.OpenFiles(); n > 0 {
		zzrt.Fail("file-left-open", "%s left %d file(s) open", what, n)
	}
}

// guard runs a call and turns a panic into a violation.
func guard(what string, fn func()) {
	defer func() {
		if r := recover(); r != nil {
			if h, ok := r.(zzrt.HarnessError); ok {
				panic(h)
			}
			zzrt.Fail("panic", "%s panics: %v", what, r)
		}
	}()
	fn()
}

func sorted(l []string) []string {
	r := append([]string(nil), l...)
	sort.Strings(r)
	return r
}

func sameSet(a, b []string) bool { return fmt.Sprintf("%q", sorted(a)) == fmt.Sprintf("%q", sorted(b)) }

// genRatio draws a number between 0 and 1: common ones, fractions of n, their
// neighbours, and numbers with a rounding error.
func genRatio(n int) float64 {
	switch w(4) {
	case 0:
		return oneOf(0, 0.1, 0.2, 0.25, 0.3, 1.0/3, 0.5, 0.75, 0.9, 0.99, 1)
	case 1:
		r := float64(w(n+1)) / float64(n+1)
		if n > 0 {
			r = float64(w(n+1)) / float64(n)
		}
		switch w(3) {
		case 1:
			r = math.Nextafter(r, 0)
		case 2:
			r = math.Nextafter(r, 1)
		}
		return r
	case 2:
		r := 0.0
		for k := w(21); k > 0; k-- {
			r += 0.05
		}
		return math.Min(r, 1)
	}
	return float64(w(1<<16)) / (1 << 16)
}

//go:build go1.22

package main

import (
	"fmt"
	"math"
	"sort"
	"strings"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// The reference model of frames: every column of a frame is a list of
// pointers to cells, one for every row of the frame.  Frames that share data
// point to the same cells.

type mcell struct{ v interface{} }

type mcol struct {
	t     CT
	cells []*mcell
	own   bool // not shared with a frame that this one is derived from
}

type mframe struct {
	name string
	d    *df.DataFrame
	rows []int // identity of the rows; rows with the same identity are the same
	cols map[string]*mcol
	cpu  int
	raw  bool // the frame belongs to a RawData
	from int  // family: frames with different numbers never share cells
}

const idCol = "id"

func (f *mframe) names() []string {
	var l []string
	for n := range f.cols {
		l = append(l, n)
	}
	sort.Strings(l)
	return l
}

func (f *mframe) ofType(types ...CT) []string {
	var l []string
	for _, n := range f.names() {
		if n == idCol {
			continue
		}
		for _, t := range types {
			if f.cols[n].t == t {
				l = append(l, n)
			}
		}
	}
	return l
}

func (f *mframe) n() int { return len(f.rows) }

func (f *mframe) snap() *Snap {
	s := &Snap{N: f.n(), CPU: f.cpu, Cols: map[string]*Col{}}
	for n, c := range f.cols {
		k := &Col{n, c.t, make([]interface{}, len(c.cells))}
		for i, x := range c.cells {
			k.V[i] = x.v
		}
		s.Cols[n] = k
	}
	return s
}

// pick is the model of a view of the given positions.
func (f *mframe) pick(idx []int) *mframe {
	r := &mframe{rows: pickRows(f.rows, idx), cols: map[string]*mcol{}, cpu: f.cpu, from: f.from}
	for n, c := range f.cols {
		k := &mcol{t: c.t, cells: make([]*mcell, len(idx))}
		for i, j := range idx {
			k.cells[i] = c.cells[j]
		}
		r.cols[n] = k
	}
	return r
}

func (f *mframe) all() *mframe { return f.pick(seq(f.n())) }

// fresh is a new column with one cell for every different row.
func (f *mframe) fresh(t CT, val func(pos int) interface{}) *mcol {
	c := &mcol{t: t, cells: make([]*mcell, f.n()), own: true}
	by := map[int]*mcell{}
	for i, r := range f.rows {
		x := by[r]
		if x == nil {
			x = &mcell{val(i)}
			by[r] = x
		}
		c.cells[i] = x
	}
	return c
}

func zeroOf(t CT) interface{} {
	switch t {
	case TB:
		return false
	case TI:
		return 0
	case TF:
		return 0.0
	}
	return nil
}

// deep is the model of a copy: every position becomes a row of its own.
func (h *hist) deep(f *mframe) *mframe {
	r := f.all()
	h.families++
	r.from = h.families
	for i := range r.rows {
		h.nextRow++
		r.rows[i] = h.nextRow
	}
	for _, c := range r.cols {
		c.own = true
		for i, x := range c.cells {
			c.cells[i] = &mcell{x.v}
		}
	}
	return r
}

// hist is a history of operations on a pool of frames.
type hist struct {
	tall     bool // next roots are tall
	pool     []*mframe
	nextRow  int
	families int
	made     int
	ops      int
	last     string
	log      []string
	structOK bool
}

func (h *hist) fail(class, format string, args ...interface{}) {
	l := h.log
	if len(l) > 25 {
		l = l[len(l)-25:]
	}
	zzrt.Fail(class, "%s; operations: %s", fmt.Sprintf(format, args...), strings.Join(l, "; "))
}

func (h *hist) note(format string, args ...interface{}) {
	h.last = fmt.Sprintf(format, args...)
	h.log = append(h.log, h.last)
	zzrt.Log("op %s", h.last)
}

// verify compares a frame with its model.
func (h *hist) verify(f *mframe, why string) {
	if f.d.NumRows() != f.n() {
		h.fail("wrong-rows", "%s: frame %s has %d rows instead of %d", why, f.name, f.d.NumRows(), f.n())
	}
	s := snap(f.d)
	if x := s.same(f.snap()); x != "" {
		h.fail("wrong-frame", "%s: frame %s: %s", why, f.name, x)
	}
	if f.d.NumColumns() != len(f.cols) {
		h.fail("wrong-frame", "%s: frame %s: NumColumns() is %d instead of %d", why, f.name, f.d.NumColumns(), len(f.cols))
	}
	in := df.DataFrameInternals{DF: f.d}
	idx := in.GetIndices()
	if len(idx) != f.n() {
		h.fail("wrong-frame", "%s: frame %s has %d indices for %d rows", why, f.name, len(idx), f.n())
	}
	for i, a := range idx {
		if !f.d.AreIndicesAltered() && a != i {
			h.fail("wrong-frame", "%s: frame %s claims to have unaltered indices but row %d is %d", why, f.name, i, a)
		}
	}
}

func (h *hist) verifyAll(why string) {
	for _, f := range h.pool {
		h.verify(f, why)
	}
}

// add registers a frame.
func (h *hist) add(d *df.DataFrame, m *mframe) *mframe {
	m.d = d
	m.name = fmt.Sprint("f", h.made)
	h.made++
	h.verify(m, "new frame after "+h.last)
	if len(h.pool) >= 9 {
		i := w(len(h.pool))
		h.pool[i] = m
	} else {
		h.pool = append(h.pool, m)
	}
	return m
}

func (h *hist) any() *mframe { return h.pool[w(len(h.pool))] }

func (h *hist) newRoot() {
	n, cols := genN(40), 5
	if chance(20) { // many rows per column
		n, cols = 25+w(60), 2
	}
	if h.tall { // a number of rows that the code mentions
		n, cols = dictN(3000)+w(3)-1, 2
		zzrt.AllowSteps(20000 * n)
	}
	t := genTab(n, 1, cols)
	t.N = n
	for _, c := range t.Cols {
		if len(c.V) != n {
			*c = *genCol(c.Name, c.T, n)
		}
		if c.Name == idCol {
			c.Name = "not id"
		}
	}
	h.families++
	m := &mframe{cols: map[string]*mcol{}, cpu: wantCPU(t.CPU), from: h.families}
	for i := 0; i < n; i++ {
		h.nextRow++
		m.rows = append(m.rows, h.nextRow)
	}
	ids := &Col{Name: idCol, T: TI, V: make([]interface{}, n)}
	for i, r := range m.rows {
		ids.V[i] = r
	}
	t.Cols = append(t.Cols, ids)
	for _, c := range t.Cols {
		c := c
		m.cols[c.Name] = m.fresh(c.T, func(i int) interface{} { return c.V[i] })
	}
	h.note("build %s", t)
	h.add(build(t), m)
}

// reID gives the rows of a frame that shares no data with others unique ids.
func (h *hist) reID(f *mframe) {
	if f.cols[idCol] == nil {
		return
	}
	f.d.OverwriteInts(idCol, append([]int(nil), f.rows...))
	for i, x := range f.cols[idCol].cells {
		x.v = f.rows[i]
	}
}

// adopt finds which rows of a frame a derived frame selects, by their ids.
func (h *hist) adopt(f *mframe, d *df.DataFrame) []int {
	at := map[int][]int{}
	for i, r := range f.rows {
		at[r] = append(at[r], i)
	}
	a := d.Ints(idCol)
	idx := make([]int, a.Size())
	for i := range idx {
		id := a.Get(i)
		l := at[id]
		if len(l) == 0 {
			h.fail("wrong-rows", "%s: row %d has the id %d, which is not in the frame or too often", h.last, i, id)
		}
		idx[i] = l[0]
		at[id] = l[1:]
	}
	return idx
}

func genVal(t CT, r *zzrt.PRNG) interface{} {
	switch t {
	case TB:
		return r.Intn(2) == 1
	case TI:
		return r.Intn(1000000) - 10
	case TF:
		if r.Intn(8) == 0 {
			return math.NaN()
		}
		return genFloat(r, r.Intn(5))
	case TS:
		if r.Intn(6) == 0 {
			return nil
		}
		return words[r.Intn(len(words))] + fmt.Sprint(r.Intn(100))
	}
	if r.Intn(6) == 0 {
		return nil
	}
	return &Obj{r.Intn(100)}
}

func (h *hist) freshName(f *mframe) string {
	for {
		n := oneOf("new", "z1", "z2", "", "x y", "a", "b", "c", "_target") + oneOf("", "", fmt.Sprint(h.ops))
		if f.cols[n] == nil && n != idCol {
			return n
		}
		h.ops++
	}
}

func randIdx(n int) []int { return genIndices(n) }

// ---------------------------------------------------------------- operations

type histOp struct {
	name string
	run  func(h *hist, f *mframe) bool // false if it does not apply
}

func opView(h *hist, f *mframe) bool {
	h.note("%s.View() -> f%d", f.name, h.made)
	h.add(f.d.View(), f.all())
	return true
}

func opShallow(h *hist, f *mframe) bool {
	h.note("%s.ShallowCopy() -> f%d", f.name, h.made)
	h.add(f.d.ShallowCopy(), f.all())
	return true
}

func opCopy(h *hist, f *mframe) bool {
	h.note("%s.Copy() -> f%d", f.name, h.made)
	h.reID(h.add(f.d.Copy(), h.deep(f)))
	return true
}

func opIndex(h *hist, f *mframe) bool {
	idx := randIdx(f.n())
	h.note("%s.IndexView(%v) -> f%d", f.name, idx, h.made)
	arg := append([]int(nil), idx...)
	m := h.add(f.d.IndexView(arg), f.pick(idx))
	if len(arg) > 0 { // the caller's slice is not kept
		arg[w(len(arg))] = 0
		h.verify(m, "changing the slice given to IndexView")
	}
	return true
}

func opSlice(h *hist, f *mframe) bool {
	n := f.n()
	a, b := w(n+1), w(n+1)
	if n > 4 && chance(35) { // nearly everything
		a, b = w(3), n-w(3)
	}
	to := b
	var idx []int
	if a <= b {
		idx = seq(n)[a:b]
		if b == n && w(2) == 1 {
			to = -1
		}
	} else {
		rev := make([]int, n)
		for i := range rev {
			rev[i] = n - 1 - i
		}
		idx = rev[b:a]
	}
	h.note("%s.SliceView(%d, %d) -> f%d", f.name, a, to, h.made)
	h.add(f.d.SliceView(a, to), f.pick(idx))
	return true
}

func opMask(h *hist, f *mframe) bool {
	n := f.n()
	var mask []bool
	kind := w(3)
	switch kind {
	case 0:
		mask = f.d.ZeroMask()
		for i, b := range mask {
			if b {
				h.fail("wrong-mask", "ZeroMask of %s is set at %d", f.name, i)
			}
		}
	case 1:
		mask = f.d.EmptyMask()
	default:
		mask = make([]bool, n)
	}
	if len(mask) != n {
		h.fail("wrong-mask", "the mask of %s has %d values for %d rows", f.name, len(mask), n)
	}
	r := bulk()
	idx := []int{}
	all := w(5)
	for i := range mask {
		mask[i] = r.Intn(2) == 1
		if all == 0 {
			mask[i] = true
		}
		if mask[i] {
			idx = append(idx, i)
		}
	}
	h.note("%s.MaskView(%v) -> f%d", f.name, idx, h.made)
	h.add(f.d.MaskView(mask), f.pick(idx))
	return true
}

func opColumns(h *hist, f *mframe) bool {
	names := f.names()
	if len(names) == 0 {
		return false
	}
	var l []string
	for _, n := range names {
		if n == idCol && chance(90) || w(3) > 0 {
			l = append(l, n)
		}
	}
	if len(l) == 0 {
		l = names[:1]
	}
	h.note("%s.ColumnView(%q) -> f%d", f.name, l, h.made)
	m := f.all()
	for _, n := range names {
		if !contains(l, n) {
			delete(m.cols, n)
		}
	}
	h.add(f.d.ColumnView(l...), m)
	return true
}

func opReverse(h *hist, f *mframe) bool {
	n := f.n()
	idx := make([]int, n)
	for i := range idx {
		idx[i] = n - 1 - i
	}
	h.note("%s.ReverseView() -> f%d", f.name, h.made)
	h.add(f.d.ReverseView(), f.pick(idx))
	return true
}

func less(a, b interface{}) bool {
	switch x := a.(type) {
	case bool:
		return !x && b.(bool)
	case int:
		return x < b.(int)
	case float64:
		// missing values come first
		return x < b.(float64) || isNaN(x) && !isNaN(b)
	}
	return false
}

func isNaN(v interface{}) bool {
	x, ok := v.(float64)
	return ok && math.IsNaN(x)
}

// checkOrder verifies that the values are in order.
func (h *hist) checkOrder(vals []interface{}, ascending bool) {
	var prev interface{}
	for i, v := range vals {
		if prev != nil && (ascending && less(v, prev) || !ascending && less(prev, v)) {
			h.fail("wrong-order", "%s: %s at %d comes after %s", h.last, show(v), i, show(prev))
		}
		prev = v
	}
}

func cellVals(c *mcol, idx []int) []interface{} {
	l := make([]interface{}, len(idx))
	for i, j := range idx {
		l[i] = c.cells[j].v
	}
	return l
}

func opSorted(h *hist, f *mframe) bool {
	cols := f.ofType(TB, TI, TF)
	if len(cols) == 0 || f.cols[idCol] == nil {
		return false
	}
	by := cols[w(len(cols))]
	h.note("%s.SortedView(%q) -> f%d", f.name, by, h.made)
	d := f.d.SortedView(by)
	idx := h.adopt(f, d)
	if len(idx) != f.n() {
		h.fail("wrong-rows", "%s: %d rows instead of %d", h.last, len(idx), f.n())
	}
	h.checkOrder(cellVals(f.cols[by], idx), true)
	h.add(d, f.pick(idx))
	return true
}

func opTop(h *hist, f *mframe) bool {
	cols := f.ofType(TB, TI, TF)
	if len(cols) == 0 || f.cols[idCol] == nil {
		return false
	}
	by := cols[w(len(cols))]
	n := w(f.n() + 3)
	asc, srt := w(2) == 1, w(2) == 1
	h.note("%s.TopView(%q, %d, asc=%v, sorted=%v) -> f%d", f.name, by, n, asc, srt, h.made)
	d := f.d.TopView(by, n, asc, srt)
	idx := h.adopt(f, d)
	k := n
	if k > f.n() {
		k = f.n()
	}
	if len(idx) != k {
		h.fail("wrong-rows", "%s: %d rows instead of %d", h.last, len(idx), k)
	}
	vals := cellVals(f.cols[by], idx)
	if srt {
		h.checkOrder(vals, asc)
	}
	// no row that is left out is better than a returned one
	in := map[int]bool{}
	for _, i := range idx {
		in[i] = true
	}
	for i, x := range f.cols[by].cells {
		if in[i] {
			continue
		}
		for _, v := range vals {
			if asc && less(x.v, v) || !asc && less(v, x.v) {
				h.fail("wrong-rows", "%s: %s is returned but %s is not", h.last, show(v), show(x.v))
			}
		}
	}
	h.add(d, f.pick(idx))
	return true
}

func opReset(h *hist, f *mframe) bool {
	if f.cols[idCol] == nil {
		return false
	}
	h.note("%s.ResetIndexView() -> f%d", f.name, h.made)
	d := f.d.ResetIndexView()
	idx := h.adopt(f, d)
	if len(idx) != f.n() {
		h.fail("wrong-rows", "%s: %d rows instead of %d", h.last, len(idx), f.n())
	}
	h.add(d, f.pick(idx))
	return true
}

func opShuffle(h *hist, f *mframe) bool {
	if f.cols[idCol] == nil {
		return false
	}
	n := f.n()
	var d *df.DataFrame
	if w(2) == 0 {
		h.note("%s.ShuffleView() -> f%d", f.name, h.made)
		d = f.d.ShuffleView()
	} else {
		n = w(n + 1)
		h.note("%s.SampleView(%d) -> f%d", f.name, n, h.made)
		d = f.d.SampleView(n, false)
	}
	idx := h.adopt(f, d)
	if len(idx) != n {
		h.fail("wrong-rows", "%s: %d rows instead of %d", h.last, len(idx), n)
	}
	h.add(d, f.pick(idx))
	return true
}

// checkParts verifies that parts partition the rows in order.
func (h *hist) checkParts(f *mframe, parts []*df.DataFrame, keep int) {
	at := 0
	for i, p := range parts {
		k := p.NumRows()
		if at+k > f.n() {
			h.fail("wrong-rows", "%s: the first %d parts have %d rows of %d", h.last, i+1, at+k, f.n())
		}
		m := f.pick(seq(f.n())[at : at+k])
		at += k
		if i == keep {
			h.add(p, m)
		} else {
			m.d, m.name = p, fmt.Sprintf("part %d", i)
			h.verify(m, h.last)
		}
	}
	if at != f.n() {
		h.fail("wrong-rows", "%s: the parts have %d rows instead of %d", h.last, at, f.n())
	}
}

func opSplit(h *hist, f *mframe) bool {
	n := f.n()
	switch w(3) {
	case 0:
		b := 1 + w(n+2)
		h.note("%s.SplitView(%d) -> f%d", f.name, b, h.made)
		parts := f.d.SplitView(b)
		for i, p := range parts {
			if i < len(parts)-1 && p.NumRows() != b || p.NumRows() > b || p.NumRows() == 0 && n > 0 {
				h.fail("wrong-size", "%s: part %d of %d has %d rows", h.last, i, len(parts), p.NumRows())
			}
		}
		h.checkParts(f, parts, w(len(parts)+1))
	case 1:
		k := w(9)
		h.note("%s.SplitNView(%d) -> f%d", f.name, k, h.made)
		parts := f.d.SplitNView(k)
		if len(parts) != k {
			h.fail("wrong-size", "%s: %d parts", h.last, len(parts))
		}
		if k == 0 {
			return true
		}
		for i, p := range parts {
			if p.NumRows() > (n+k-1)/k {
				h.fail("wrong-size", "%s: part %d has %d of %d rows", h.last, i, p.NumRows(), n)
			}
		}
		h.checkParts(f, parts, w(len(parts)))
	default:
		r := genRatio(n)
		h.note("%s.SplitTrainTestViews(%v) -> f%d", f.name, r, h.made)
		a, b := f.d.SplitTrainTestViews(r)
		if b.NumRows() != int(float64(n)*r) {
			h.fail("wrong-size", "%s: %d test rows of %d", h.last, b.NumRows(), n)
		}
		h.checkParts(f, []*df.DataFrame{a, b}, w(2))
	}
	return true
}

// some returns a non-empty subset.
func some(l []string) []string {
	if len(l) == 0 {
		return nil
	}
	var r []string
	for _, x := range l {
		if w(2) == 1 {
			r = append(r, x)
		}
	}
	if len(r) == 0 {
		r = []string{l[w(len(l))]}
	}
	return r
}

// opUnshare detaches columns of a derived frame in place.
func opUnshare(h *hist, f *mframe) bool {
	var l []string
	for _, n := range f.names() {
		if !f.cols[n].own {
			l = append(l, n)
		}
	}
	all := len(l) == len(f.cols)
	l = some(l)
	if len(l) == 0 {
		return false
	}
	arg := l
	if all && w(3) == 0 {
		l, arg = f.names(), nil
	}
	h.note("%s.Unshare(%q)", f.name, arg)
	f.d.Unshare(arg...)
	for _, n := range l {
		c := f.cols[n]
		f.cols[n] = f.fresh(c.t, func(i int) interface{} { return c.cells[i].v })
	}
	h.verify(f, h.last)
	for _, n := range l {
		if n != idCol && f.n() > 0 && w(2) == 1 {
			h.verifyAll("after " + h.last)
			h.set(f, n)
		}
	}
	return true
}

func opDetach(h *hist, f *mframe) bool {
	if w(3) == 2 {
		return opUnshare(h, f)
	}
	l := some(f.ofType(TB, TI, TF, TS, TO))
	if w(3) == 0 {
		l = nil
	}
	h.note("%s.DetachedView(%q) -> f%d", f.name, l, h.made)
	m := f.all()
	d := f.d.DetachedView(l...)
	all := len(l) == 0
	for _, n := range m.names() {
		if all || contains(l, n) {
			c := m.cols[n]
			m.cols[n] = m.fresh(c.t, func(i int) interface{} { return c.cells[i].v })
		}
	}
	m.d = d
	h.add(d, m)
	return true
}

func opRename(h *hist, f *mframe) bool {
	l := f.ofType(TB, TI, TF, TS, TO)
	if len(l) == 0 {
		return false
	}
	n := l[w(len(l))]
	to := h.freshName(f)
	if chance(10) {
		to = n
	}
	h.note("%s.Rename(%q, %q)", f.name, n, to)
	f.d.Rename(n, to)
	c := f.cols[n]
	delete(f.cols, n)
	f.cols[to] = c
	h.verify(f, h.last)
	return true
}

func opDrop(h *hist, f *mframe) bool {
	l := some(f.ofType(TB, TI, TF, TS, TO))
	if len(l) == 0 {
		return false
	}
	if chance(20) { // dropping an absent column does nothing
		l = append(l, "no such column")
		i := w(len(l))
		l[i], l[len(l)-1] = l[len(l)-1], l[i]
	}
	h.note("%s.Drop(%q)", f.name, l)
	f.d.Drop(l...)
	for _, n := range l {
		delete(f.cols, n)
	}
	h.verify(f, h.last)
	return true
}

func opAlloc(h *hist, f *mframe) bool {
	t := oneOf(TB, TI, TF, TS, TO)
	l := []string{h.freshName(f)}
	if w(3) == 0 {
		h.ops++
		l = append(l, fmt.Sprint("two", h.ops))
	}
	if old := f.ofType(t); len(old) > 0 && w(4) == 0 {
		l = append(l, old[w(len(old))])
	}
	h.note("%s.Alloc %ss(%q)", f.name, t, l)
	switch t {
	case TB:
		f.d.AllocBools(l...)
	case TI:
		f.d.AllocInts(l...)
	case TF:
		f.d.AllocFloats(l...)
	case TS:
		f.d.AllocStrings(l...)
	case TO:
		f.d.AllocObjects(l...)
	}
	for _, n := range l {
		f.cols[n] = f.fresh(t, func(int) interface{} { return zeroOf(t) })
	}
	h.verify(f, h.last)
	return true
}

func opConvert(h *hist, f *mframe) bool {
	t := oneOf(TI, TB)
	l := some(f.ofType(t))
	if len(l) == 0 {
		return false
	}
	h.note("%s.%sToFloats(%q)", f.name, t, l)
	if t == TI {
		f.d.IntToFloats(l...)
	} else {
		f.d.BoolToFloats(l...)
	}
	for _, n := range l {
		c := f.cols[n]
		f.cols[n] = f.fresh(TF, func(i int) interface{} {
			switch v := c.cells[i].v.(type) {
			case int:
				return float64(v)
			case bool:
				if v {
					return 1.0
				}
			}
			return 0.0
		})
	}
	h.verify(f, h.last)
	return true
}

func opSet(h *hist, f *mframe) bool {
	l := f.ofType(TB, TI, TF, TS, TO)
	if len(l) == 0 || f.n() == 0 {
		return false
	}
	h.set(f, l[w(len(l))])
	return true
}

// set changes a value of a column.
func (h *hist) set(f *mframe, n string) {
	i := w(f.n())
	c := f.cols[n]
	v := genVal(c.t, bulk())
	h.note("%s.%s(%q).Set(%d, %s)", f.name, c.t, n, i, show(v))
	switch c.t {
	case TB:
		f.d.Bools(n).Set(i, v.(bool))
	case TI:
		f.d.Ints(n).Set(i, v.(int))
	case TF:
		f.d.Floats(n).Set(i, v.(float64))
	case TS:
		if s, ok := v.(string); ok {
			f.d.Strings(n).Set(i, s)
		} else {
			f.d.Objects(n).Set(i, nil)
		}
	case TO:
		f.d.Objects(n).Set(i, v)
	}
	c.cells[i].v = v
}

func opOverwrite(h *hist, f *mframe) bool {
	var n string
	var t CT
	l := f.ofType(TB, TI, TF, TS, TO)
	isNew := len(l) == 0 || w(3) == 0
	if isNew {
		n, t = h.freshName(f), oneOf(TB, TI, TF, TS, TO)
	} else {
		n = l[w(len(l))]
		t = f.cols[n].t
	}
	r := bulk()
	vals := make([]interface{}, f.n())
	noNil := true
	for i := range vals {
		vals[i] = genVal(t, r)
		if vals[i] == nil {
			noNil = false
		}
	}
	if t == TS && !noNil && w(2) == 0 {
		for i := range vals {
			if vals[i] == nil {
				vals[i] = "s"
			}
		}
		noNil = true
	}
	h.note("%s.Overwrite %ss(%q, %s)", f.name, t, n, short(vals))
	f32 := false
	var arg interface{}
	switch t {
	case TB:
		a := bools(vals)
		f.d.OverwriteBools(n, a)
		arg = a
	case TI:
		a := ints(vals)
		f.d.OverwriteInts(n, a)
		arg = a
	case TF:
		if w(3) == 0 {
			f32 = true
			l := make([]float32, len(vals))
			for i := range l {
				l[i] = float32(vals[i].(float64))
			}
			f.d.OverwriteFloats32(n, l)
			for i := range l {
				vals[i] = float64(l[i])
			}
		} else {
			a := floats(vals)
			f.d.OverwriteFloats64(n, a)
			arg = a
		}
	case TS:
		if noNil && w(2) == 0 {
			l := make([]string, len(vals))
			for i := range l {
				l[i] = vals[i].(string)
			}
			f.d.OverwriteStrings(n, l)
		} else {
			f.d.OverwriteObjects(n, append([]interface{}(nil), vals...), df.StringObject)
		}
	case TO:
		a := append([]interface{}(nil), vals...)
		f.d.OverwriteObjects(n, a, df.AnyObject)
		arg = a
	}
	_ = f32
	if isNew {
		f.cols[n] = f.fresh(t, func(int) interface{} { return zeroOf(t) })
	}
	for i, v := range vals {
		f.cols[n].cells[i].v = v
	}
	// the given slice is copied
	if len(vals) > 0 {
		i := w(len(vals))
		switch a := arg.(type) {
		case []bool:
			a[i] = !a[i]
		case []int:
			a[i]++
		case []float64:
			a[i] += 17
		case []interface{}:
			a[i] = "changed"
		}
	}
	h.verify(f, h.last)
	return true
}

func opHash(h *hist, f *mframe) bool {
	l := some(f.ofType(TS))
	if len(l) == 0 {
		return false
	}
	h.note("%s.HashStringsView(%q) -> f%d", f.name, l, h.made)
	d := f.d.HashStringsView(l...)
	m := f.all()
	for _, n := range l {
		c := f.cols[n]
		a := d.Ints(n)
		m.cols[n] = m.fresh(TI, func(i int) interface{} { return a.Get(i) })
		for i := range c.cells {
			if c.cells[i].v != nil {
				book.see(h.last, c.cells[i].v.(string), a.Get(i))
			} else if a.Get(i) != -1 {
				h.fail("missing-hash", "%s: the hash of a missing string is %d", h.last, a.Get(i))
			}
		}
	}
	h.add(d, m)
	return true
}

func opTransfer(h *hist, f *mframe) bool {
	// a raw structure with the same columns, upgraded to a frame of its own
	if f.d.AreIndicesAltered() {
		return false
	}
	h.note("MergeRawDataColumns(%s).ToDataFrame() -> f%d", f.name, h.made)
	raw := df.MergeRawDataColumns([]*df.RawData{&f.d.RawData})
	if raw.NumAllocatedRows() != f.n() {
		return false // the frame is a slice of larger columns
	}
	d := raw.ToDataFrame()
	if w(2) == 0 { // the raw data is still changed by the frame
		m := f.all()
		for _, c := range m.cols {
			c.own = true // the upgraded frame has no parent
		}
		h.add(d, m)
	} else {
		h.add(d.View(), f.all())
	}
	return true
}

// opTransferInto adds the columns of another frame to a frame.
func opTransferInto(h *hist, f *mframe) bool {
	g := h.any()
	if f == g || f.n() != g.n() || f.d.AreIndicesAltered() || g.d.AreIndicesAltered() {
		return false
	}
	for n, c := range g.cols {
		if o := f.cols[n]; n != idCol && o != nil && o.t != c.t {
			return false
		}
	}
	src := g.d.View()
	if g.cols[idCol] != nil {
		src.Drop(idCol)
	}
	h.note("%s.TransferRawDataFrom(%s)", f.name, g.name)
	f.d.TransferRawDataFrom(&src.RawData)
	for n, c := range g.cols {
		if n != idCol {
			f.cols[n] = &mcol{t: c.t, cells: append([]*mcell(nil), c.cells...)}
		}
	}
	h.verify(f, h.last)
	return true
}

func opEmpty(h *hist, f *mframe) bool {
	n := w(12)
	cpu := genCPU()
	h.note("EmptyDataFrame(%d, %d) -> f%d", n, cpu, h.made)
	h.families++
	m := &mframe{cols: map[string]*mcol{}, cpu: wantCPU(cpu), from: h.families}
	for i := 0; i < n; i++ {
		h.nextRow++
		m.rows = append(m.rows, h.nextRow)
	}
	h.add(df.EmptyDataFrame(n, cpu), m)
	m.d.OverwriteInts(idCol, append([]int(nil), m.rows...))
	m.cols[idCol] = m.fresh(TI, func(i int) interface{} { return m.rows[i] })
	h.verify(m, h.last)
	return true
}

func opRead(h *hist, f *mframe) bool {
	l := f.ofType(TB, TI, TF, TS, TO)
	if len(l) == 0 {
		return false
	}
	n := l[w(len(l))]
	c := f.cols[n]
	vals := f.d.CopyValuesToInterfaces(n)
	h.note("%s.CopyValuesToInterfaces(%q)", f.name, n)
	if len(vals) != f.n() {
		h.fail("wrong-read", "%s: %d values for %d rows", h.last, len(vals), f.n())
	}
	for i, v := range vals {
		if !eq(v, c.cells[i].v) {
			h.fail("wrong-read", "%s: value %d is %s instead of %s", h.last, i, show(v), show(c.cells[i].v))
		}
		vals[i] = "changed"
	}
	if c.t == TF && f.n() > 0 {
		h.note("%s.Floats(%q).VecDense", f.name, n)
		a := f.d.Floats(n)
		v, k := a.VecDense(), a.VecDenseCopy()
		if v.Len() != f.n() || k.Len() != f.n() || a.Size() != f.n() {
			h.fail("wrong-read", "%s: vectors of %d and %d values for %d rows", h.last, v.Len(), k.Len(), f.n())
		}
		for i := range c.cells {
			if !eq(v.AtVec(i), c.cells[i].v) || !eq(k.AtVec(i), c.cells[i].v) {
				h.fail("wrong-read", "%s: value %d is %v and %v instead of %s", h.last, i, v.AtVec(i), k.AtVec(i), show(c.cells[i].v))
			}
		}
		k.SetVec(w(f.n()), 4711)
	}
	switch w(8) {
	case 1: // printing is reading
		h.note("%s.Print*", f.name)
		short := f.d.GoodShortNames(w(5))
		seen := map[string]bool{}
		for name, s := range short {
			if f.cols[name] == nil || seen[s] || !strings.HasPrefix(name, s) {
				h.fail("wrong-read", "GoodShortNames of %q is %q", f.names(), short)
			}
			seen[s] = true
		}
		f.d.PrintSummary().PrintHead(w(5)-1, oneOf("", "%.1f")).PrintRecords(w(5)-1, "", short)
	case 2: // what headers return belongs to the caller
		h.note("%s.*Header() changed", f.name)
		for _, x := range []df.ColumnHeader{f.d.Header(), f.d.FloatHeader(), f.d.IntHeader(), f.d.BoolHeader(), f.d.ObjectHeader(), f.d.StringHeader()} {
			x.NameSet()["zz no column"] = true
			for _, name := range x.NameList() {
				if w(2) == 0 {
					x = x.Except(name)
				}
			}
			x.And(df.Columns(n, "zz no column either"))
		}
	case 3:
		if c.t == TS {
			h.note("%s.LabelToInt(%q)", f.name, n)
			l, m := f.d.LabelToInt(n)
			for i, x := range c.cells {
				s, isString := x.v.(string)
				if k, ok := m[s]; len(l) != f.n() || isString && (!ok || l[i] != k) || !isString && l[i] != -1 {
					h.fail("wrong-read", "%s: %v and %v for %s", h.last, l, m, show(x.v))
				}
			}
			m["changed"] = 1
		}
	}
	return true
}

func opDerive(h *hist, f *mframe) bool {
	ops := []histOp{{"", opView}, {"", opIndex}, {"", opSlice}, {"", opMask}, {"", opColumns}, {"", opReverse}, {"", opShallow}}
	return ops[w(len(ops))].run(h, f)
}

func opOrder(h *hist, f *mframe) bool {
	ops := []histOp{{"", opSorted}, {"", opTop}, {"", opReset}, {"", opShuffle}, {"", opSplit}}
	return ops[w(len(ops))].run(h, f)
}

func opStruct(h *hist, f *mframe) bool {
	ops := []histOp{{"", opRename}, {"", opDrop}, {"", opAlloc}, {"", opConvert}, {"", opOverwrite}}
	return ops[w(len(ops))].run(h, f)
}

func opWrite(h *hist, f *mframe) bool {
	ops := []histOp{{"", opSet}, {"", opOverwrite}}
	return ops[w(len(ops))].run(h, f)
}

// runHistory lets several clients perform operations on a pool of frames; the
// scheduler decides whose turn it is.
func runHistory(ops []histOp, maxOps int) *hist {
	h := &hist{tall: w(40) == 39}
	h.newRoot()
	var mu zzrt.Mutex
	clients := 1 + w(4)
	if h.tall {
		clients = 1
		h.tall = w(2) == 1
	}
	var fns []func()
	for c := 0; c < clients; c++ {
		fns = append(fns, func() {
			for k := 2 + w(maxOps); k > 0; k-- {
				mu.Lock()
				if len(h.pool) < 3 && w(6) == 5 {
					h.newRoot()
				}
				f := h.any()
				op := ops[w(len(ops))]
				done := false
				guard("an operation after "+h.last, func() { done = op.run(h, f) })
				if done {
					h.ops++
					h.verifyAll("after " + h.last)
				}
				mu.Unlock()
				zzrt.Yield()
			}
		})
	}
	together(fns...)
	rest("the history")
	h.verifyAll("at the end")
	zzrt.ProbeIf(h.ops > 10, "more than 10 operations")
	zzrt.ProbeIf(len(h.pool) > 4, "more than 4 frames")
	checked()
	return h
}

func c12(s *zzrt.Sim) {
	runHistory([]histOp{{"derive", opDerive}, {"derive", opDerive}, {"detach", opDetach}, {"copy", opCopy}, {"struct", opStruct}, {"struct", opStruct}, {"struct", opStruct},
		{"write", opWrite}, {"hash", opHash}, {"transfer", opTransfer}, {"transfer", opTransferInto}, {"empty", opEmpty}, {"split", opSplit}, {"order", opOrder}, {"concat", opConcat}}, 14)
}

func c13(s *zzrt.Sim) {
	runHistory([]histOp{{"derive", opDerive}, {"derive", opDerive}, {"derive", opDerive}, {"order", opOrder}, {"order", opOrder}, {"write", opWrite}, {"write", opWrite},
		{"struct", opStruct}, {"detach", opDetach}, {"read", opRead}, {"split", opSplit}, {"copy", opCopy}}, 14)
}

func init() {
	register(&Scenario{ID: "C12", Run: c12})
	register(&Scenario{ID: "C13", Run: c13})
}

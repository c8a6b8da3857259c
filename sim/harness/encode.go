//go:build go1.22

package main

import (
	"errors"
	"fmt"
	"sync/atomic"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
	"golang.org/x/text/encoding"
	"golang.org/x/text/encoding/charmap"
	"golang.org/x/text/encoding/japanese"
	"golang.org/x/text/encoding/korean"
	"golang.org/x/text/encoding/simplifiedchinese"
	"golang.org/x/text/encoding/traditionalchinese"
	"golang.org/x/text/encoding/unicode"
	"golang.org/x/text/transform"
)

var encodings = []encoding.Encoding{
	nil, charmap.ISO8859_1, charmap.Windows1252, charmap.KOI8R, charmap.CodePage437, charmap.ISO8859_15,
	korean.EUCKR, japanese.ShiftJIS, japanese.EUCJP, japanese.ISO2022JP, simplifiedchinese.GBK, simplifiedchinese.HZGB2312,
	traditionalchinese.Big5, unicode.UTF8,
	unicode.UTF16(unicode.BigEndian, unicode.IgnoreBOM), unicode.UTF16(unicode.LittleEndian, unicode.IgnoreBOM),
	unicode.UTF16(unicode.BigEndian, unicode.UseBOM), unicode.UTF16(unicode.LittleEndian, unicode.ExpectBOM),
}

// flaky is an encoding whose coders fail when they are told to.
type flaky struct {
	encoding.Encoding
	id     int
	encs   left // number of calls of the encoders before they fail
	decs   left
	failed atomic.Bool
}

// left is a number of calls; -1: unlimited.  Coders may be called by several
// goroutines.
type left struct{ n atomic.Int64 }

func (l *left) set(n int) { l.n.Store(int64(n)) }

// take is false if there is no call left.
func (l *left) take() bool {
	n := l.n.Load()
	if n > 0 {
		l.n.Add(-1) // nothing else runs between the two
	}
	return n != 0
}

var errCoder = errors.New("injected failure of the coder")

type flakyCoder struct {
	transform.Transformer
	left   *left
	failed *atomic.Bool
}

func (c *flakyCoder) Transform(dst, src []byte, atEOF bool) (int, int, error) {
	if !c.left.take() {
		zzrt.Fault("coder fails")
		c.failed.Store(true)
		return 0, 0, errCoder
	}
	return c.Transformer.Transform(dst, src, atEOF)
}

func (f *flaky) heal() {
	f.encs.set(-1)
	f.decs.set(-1)
	f.failed.Store(false)
}

func (f *flaky) NewEncoder() *encoding.Encoder {
	return &encoding.Encoder{Transformer: &flakyCoder{f.Encoding.NewEncoder().Transformer, &f.encs, &f.failed}}
}

func (f *flaky) NewDecoder() *encoding.Decoder {
	return &encoding.Decoder{Transformer: &flakyCoder{f.Encoding.NewDecoder().Transformer, &f.decs, &f.failed}}
}

func (f *flaky) String() string { return fmt.Sprint("flaky ", f.Encoding) }

// sound is the encoding without its faults.
func sound(e encoding.Encoding) encoding.Encoding {
	if f, ok := e.(*flaky); ok {
		return f.Encoding
	}
	return e
}

func genEncoding() encoding.Encoding { return encodings[w(len(encodings))] }

// recode converts a string, ok is false if it cannot be.
func recode(s string, from, to encoding.Encoding) (r string, ok bool) {
	var err error
	if from = sound(from); from != nil {
		if s, err = from.NewDecoder().String(s); err != nil {
			return "", false
		}
	}
	if to = sound(to); to != nil {
		if s, err = to.NewEncoder().String(s); err != nil {
			return "", false
		}
	}
	return s, true
}

var texts = []string{"red", "", "é", "naïve", "日本語", "고랭", "привет", "¥~\\", "a\x00b", "€", "\uFEFFbom", "𝄞", "ß→", "中文", "ﾊﾝｶｸ",
	"bad\xff", "\xe2\x1c\xa1\x00", "\xe9t\xe9", "{~", "long " + "long long long long long long long long long long long long long long long é"}

// genText draws the strings of a column: mode 0 is plain ASCII.
func genText(r *zzrt.PRNG, mode int) string {
	switch mode {
	case 0:
		return fmt.Sprint("w", r.Intn(30))
	case 1:
		return texts[r.Intn(4)]
	case 2:
		return texts[r.Intn(len(texts)-6)]
	case 3:
		return texts[4+r.Intn(2)]
	default:
		return texts[r.Intn(len(texts))]
	}
}

// recoded is a frame and what is expected of it: the cells of its rows are
// those of a table that is shared with the frames it was derived from.
type recoded struct {
	d    *df.DataFrame
	t    *Tab
	rows []int
	enc  encoding.Encoding
	name string
}

// expect computes the cells after a change of the encoding.
func (f *recoded) expect(to encoding.Encoding) (cells map[*Col]map[int]string, ok bool) {
	cells = map[*Col]map[int]string{}
	for _, c := range f.t.Cols {
		if c.T != TS {
			continue
		}
		m := map[int]string{}
		for i := range distinct(f.rows) {
			if c.V[i] == nil {
				continue
			}
			s, ok := recode(c.V[i].(string), f.enc, to)
			if !ok {
				return nil, false
			}
			m[i] = s
		}
		cells[c] = m
	}
	return cells, true
}

func (f *recoded) what(to encoding.Encoding) string {
	return fmt.Sprintf("%s.Encode from %v to %v, %s", f.name, f.enc, to, f.copied())
}

// encode changes the encoding of a frame.
func (f *recoded) encode(to encoding.Encoding) {
	what := f.what(to)
	cells, ok := f.expect(to)
	if f.enc == to {
		cells, ok = nil, true
	}
	for _, e := range []encoding.Encoding{f.enc, to} {
		if x, is := e.(*flaky); is && x.failed.Load() {
			x.failed.Store(false)
		}
	}
	var err error
	guard(what, func() { err = f.d.Encode(to) })
	injected := false
	for _, e := range []encoding.Encoding{f.enc, to} {
		if x, is := e.(*flaky); is && x.failed.Load() {
			injected = true
		}
	}
	switch {
	case err == nil && injected:
		zzrt.Fail("failure-hidden", "%s: the failure of the coder is not reported", what)
	case err == nil && !ok:
		zzrt.Fail("failure-hidden", "%s: there are strings that cannot be converted", what)
	case err != nil && ok && !injected:
		zzrt.Fail("spurious-failure", "%s: %v", what, err)
	}
	if err != nil {
		zzrt.Probe("failed encoding")
		return
	}
	for c, m := range cells {
		for i, s := range m {
			c.V[i] = s
		}
	}
	f.enc = to
	zzrt.ProbeIf(len(cells) > 0, "encoded")
}

func (f *recoded) check(after string) {
	if x := snap(f.d).diff(want(f.t, f.rows)); x != "" {
		zzrt.Fail("wrong-strings", "after %s: %s: %s", after, f.name, x)
	}
}

func genTextTab() *Tab {
	t := &Tab{N: genLarge(140), CPU: genCPU()}
	names := genNames(1 + w(5))
	worst := w(5)
	noText := chance(10)
	miss := oneOf(0, 0, 20, 60)
	for i, n := range names {
		c := &Col{Name: n, T: TS, V: make([]interface{}, t.N)}
		if noText {
			c.T = oneOf(TO, TI, TF, TB)
		} else if i > 0 {
			c.T = oneOf(TS, TS, TS, TO, TI, TF, TB)
		}
		r := bulk()
		if c.T == TS || c.T == TO {
			mode := w(worst + 1)
			for j := range c.V {
				if r.Intn(100) >= miss {
					c.V[j] = genText(r, mode)
				}
			}
		} else {
			c = genCol(n, c.T, t.N)
		}
		t.Cols = append(t.Cols, c)
	}
	// what is marked as encoded is encoded, if possible
	if w(2) == 1 {
		t.Enc = genEncoding()
		f := &recoded{t: t, rows: seq(t.N)}
		if cells, ok := f.expect(t.Enc); ok {
			for c, m := range cells {
				for i, s := range m {
					c.V[i] = s
				}
			}
		}
	}
	// a single string that resists
	if l := t.names(TS); t.N > 0 && len(l) > 0 && chance(30) {
		t.col(l[w(len(l))]).V[w(t.N)] = texts[4+w(len(texts)-4)]
	}
	return t
}

// copied is the table of the data of a copy.
func (f *recoded) copied() *Tab {
	t := &Tab{N: len(f.rows), CPU: f.t.CPU}
	for _, c := range f.t.Cols {
		k := &Col{c.Name, c.T, make([]interface{}, len(f.rows))}
		for i, j := range f.rows {
			k.V[i] = c.V[j]
		}
		t.Cols = append(t.Cols, k)
	}
	return t
}

func c17(s *zzrt.Sim) {
	t := genTextTab()
	root := &recoded{build(t), t, seq(t.N), t.Enc, "frame"}
	frames := []*recoded{root}
	healed := []*flaky{}
	pickEnc := func() encoding.Encoding {
		e := genEncoding()
		switch {
		case len(healed) > 0 && w(4) == 3:
			return healed[w(len(healed))]
		case e != nil && chance(35):
			f := &flaky{Encoding: e, id: len(healed)}
			f.heal()
			healed = append(healed, f)
			return f
		}
		return e
	}
	text := func() string { return genText(bulk(), w(5)) }
	for k := 1 + w(6); k > 0; k-- {
		f := frames[w(len(frames))]
		for _, x := range healed { // new faults
			x.heal()
		}
		op := w(11)
		after := ""
		switch op {
		case 0, 1, 2, 3:
			to := pickEnc()
			if x, ok := to.(*flaky); ok && chance(70) {
				x.encs.set(w(3 + 2*len(f.rows)))
			}
			if x, ok := f.enc.(*flaky); ok && chance(50) {
				x.decs.set(w(3 + 2*len(f.rows)))
			}
			after = f.what(to)
			f.encode(to)
		case 4: // back
			to := f.enc
			after = "encoding back and forth, " + f.what(nil)
			f.encode(nil)
			f.encode(to)
		case 5, 6: // a view shares the strings, not what is recorded about them
			after = "deriving a view"
			if len(frames) < 6 {
				d, rows := genView(f.d.View(), f.rows)
				frames = append(frames, &recoded{d, f.t, rows, f.enc, fmt.Sprint("view", len(frames), " of ", f.name)})
			}
		case 7: // a copy has its own strings
			after = "copying"
			if len(frames) < 6 {
				t := f.copied()
				var d *df.DataFrame
				switch w(4) {
				case 0:
					d = f.d.Copy()
				case 1:
					c := f.t.clone()
					t = c
					d = f.d.DetachedView()
					frames = append(frames, &recoded{d, c, f.rows, f.enc, fmt.Sprint("detached", len(frames), " of ", f.name)})
					d = nil
				case 2:
					var err error
					if d, err = df.ColumnCopyConcat(f.d); err != nil {
						zzrt.Fail("spurious-failure", "ColumnCopyConcat: %v", err)
					}
				default:
					var err error
					if d, err = df.RowConcat(f.d); err != nil {
						zzrt.Fail("spurious-failure", "RowConcat: %v", err)
					}
				}
				if d != nil {
					frames = append(frames, &recoded{d, t, seq(t.N), f.enc, fmt.Sprint("copy", len(frames), " of ", f.name)})
				}
			}
		case 8: // a new column, in the current encoding or not
			name := fmt.Sprint("new", k)
			after = "adding a column to " + f.name
			c := &Col{Name: name, T: TS, V: make([]interface{}, f.t.N)}
			vals := make([]interface{}, len(f.rows))
			strs := make([]string, len(f.rows))
			mode, miss := w(5), oneOf(0, 20)
			r := bulk()
			for j := range vals {
				strs[j] = genText(r, mode)
				if vals[j] = strs[j]; r.Intn(100) < miss {
					vals[j] = nil
				}
			}
			switch w(3) {
			case 0:
				f.d.OverwriteObjects(name, vals, df.StringObject)
			case 1:
				for j := range vals {
					vals[j] = strs[j]
				}
				f.d.OverwriteStrings(name, strs)
			default:
				f.d.AllocStrings(name)
				a := f.d.Objects(name)
				for j, v := range vals {
					a.Set(j, v)
				}
			}
			for j, i := range f.rows {
				c.V[i] = vals[j]
			}
			// the cells of the other columns are still those of the other frames
			f.t = &Tab{N: f.t.N, CPU: f.t.CPU, Enc: f.t.Enc, Cols: append(append([]*Col{}, f.t.Cols...), c)}
		default: // other strings, in the current encoding or not
			after = "writing"
			if l := f.t.names(TS); len(f.rows) > 0 && len(l) > 0 {
				c := l[w(len(l))]
				i := w(len(f.rows))
				var v interface{} = text()
				if w(5) == 4 {
					v = nil
				}
				f.d.Objects(c).Set(i, v)
				f.t.col(c).V[f.rows[i]] = v
			}
		}
		zzrt.Log("%s", after)
		for _, g := range frames {
			g.check(after)
		}
	}
	// several goroutines encode their own rows
	f := frames[w(len(frames))]
	for _, x := range healed {
		x.heal()
	}
	d := distinct(f.rows)
	parts := 1 + w(4)
	l := make([][]int, parts)
	r := bulk()
	for i, j := range f.rows {
		if d[j] {
			p := r.Intn(parts)
			l[p] = append(l[p], i)
			delete(d, j)
			if r.Intn(8) == 0 {
				l[p] = append(l[p], i)
			}
		}
	}
	var fns []func()
	for _, idx := range l {
		if idx == nil {
			idx = []int{}
		}
		g := &recoded{f.d.IndexView(idx), f.t, pickRows(f.rows, idx), f.enc, "part of " + f.name}
		to := encodings[w(len(encodings))]
		frames = append(frames, g)
		fns = append(fns, func() { g.encode(to) })
	}
	together(fns...)
	for _, g := range frames {
		g.check("encoding several parts of " + f.name)
	}
	rest("Encode")
	checked()
}

func init() {
	register(&Scenario{ID: "C17", Run: c17})
}

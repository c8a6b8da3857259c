//go:build go1.22

package main

import (
	"encoding/csv"
	"fmt"
	"io"
	"sort"
	"strconv"
	"strings"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
)

// genOutTab draws a table to be written.
func genOutTab(maxRows int) *Tab {
	t := genTab(genLarge(maxRows), 0, 7)
	wr := t.names(TB, TI, TF, TS)
	// a record with one empty field is an empty line, which csv readers skip
	if len(wr) == 1 && (wr[0] == "" || len(t.names(TS)) == 1) {
		t.Cols = append(t.Cols, genCol("second", TI, t.N))
	}
	if len(t.Cols) > 0 && chance(3) {
		// a header that does not fit the buffer of the csv writer
		c := t.Cols[w(len(t.Cols))]
		c.Name += strings.Repeat("long", oneOf(1022, 1100, 3000))
	}
	return t
}

func genOutSpec() df.CSVWritingSpec {
	return df.CSVWritingSpec{
		StringMissingMarker: oneOf("", "-", "NA", "a,b"),
		MinRowsPerFile:      oneOf(0, 1, 2, 3, 10, 50, -1, 512),
		MaintainOrder:       w(2) == 1,
		Comma:               oneOf(rune(0), 0, ',', ';', '\t', '|'),
		UseCRLF:             chance(25),
	}
}

// parsed is the content of one output.
type parsed struct {
	header []string
	recs   [][]string
}

func parseOut(what string, data []byte, spec df.CSVWritingSpec, t *Tab) *parsed {
	bad := func(format string, args ...interface{}) {
		zzrt.Fail("bad-output", "%s: %s in %.300q", what, fmt.Sprintf(format, args...), data)
	}
	if len(t.names(TB, TI, TF, TS)) == 0 {
		return &parsed{}
	}
	if spec.UseCRLF {
		if !strings.HasSuffix(string(data), "\r\n") || strings.Count(string(data), "\n") != strings.Count(string(data), "\r\n") {
			bad("line endings are not CRLF")
		}
	} else if strings.Contains(string(data), "\r") || !strings.HasSuffix(string(data), "\n") {
		bad("line endings are not LF")
	}
	r := csv.NewReader(strings.NewReader(string(data)))
	if spec.Comma != 0 {
		r.Comma = spec.Comma
	}
	recs, err := r.ReadAll()
	if err != nil {
		bad("unparseable: %v", err)
	}
	if len(recs) == 0 {
		bad("no header")
	}
	if !sameSet(recs[0], t.names(TB, TI, TF, TS)) {
		bad("header %q for columns %q", recs[0], t.names(TB, TI, TF, TS))
	}
	return &parsed{recs[0], recs[1:]}
}

// cellKey parses a text according to the type of its column.
func cellKey(what, text string, c *Col) string {
	switch c.T {
	case TB:
		if b, err := strconv.ParseBool(text); err == nil {
			return fmt.Sprint(b)
		}
	case TI:
		if v, err := strconv.ParseInt(text, 10, 64); err == nil {
			return fmt.Sprint(v)
		}
	case TF:
		if v, err := strconv.ParseFloat(text, 64); err == nil {
			return strconv.FormatFloat(v, 'b', -1, 64)
		}
	default:
		return fmt.Sprintf("%q", text)
	}
	zzrt.Fail("bad-output", "%s: %q in %s column %q", what, text, c.T, c.Name)
	return ""
}

func wantKey(v interface{}, marker string) string {
	switch x := v.(type) {
	case float64:
		return strconv.FormatFloat(x, 'b', -1, 64)
	case nil:
		return fmt.Sprintf("%q", marker)
	case string:
		return fmt.Sprintf("%q", x)
	}
	return fmt.Sprint(v)
}

// checkOutputs verifies the outputs of a successful call.
func checkOutputs(what string, outs [][]byte, t *Tab, rows []int, spec df.CSVWritingSpec) []*parsed {
	var cols []*Col
	for _, c := range t.Cols {
		if c.T != TO {
			cols = append(cols, c)
		}
	}
	sort.Slice(cols, func(i, j int) bool { return cols[i].Name < cols[j].Name })
	max := (len(rows) + len(outs) - 1) / len(outs)
	var got []string
	var res []*parsed
	for k, data := range outs {
		p := parseOut(fmt.Sprintf("%s: output %d of %d", what, k, len(outs)), data, spec, t)
		res = append(res, p)
		if len(p.recs) > max {
			zzrt.Fail("unbalanced", "%s: output %d of %d has %d of %d rows", what, k, len(outs), len(p.recs), len(rows))
		}
		pos := map[string]int{}
		for j, h := range p.header {
			pos[h] = j
		}
		for _, rec := range p.recs {
			var sb strings.Builder
			for _, c := range cols {
				sb.WriteString(cellKey(what, rec[pos[c.Name]], c))
				sb.WriteByte('|')
			}
			got = append(got, sb.String())
		}
	}
	if len(cols) == 0 {
		checked()
		return res
	}
	var exp []string
	for _, i := range rows {
		var sb strings.Builder
		for _, c := range cols {
			sb.WriteString(wantKey(c.V[i], spec.StringMissingMarker))
			sb.WriteByte('|')
		}
		exp = append(exp, sb.String())
	}
	if len(got) != len(exp) {
		zzrt.Fail("rows-lost", "%s: %d outputs have %d rows, the frame has %d", what, len(outs), len(got), len(exp))
	}
	if !spec.MaintainOrder {
		sort.Strings(got)
		sort.Strings(exp)
	}
	for i := range got {
		if got[i] != exp[i] {
			zzrt.Fail("wrong-rows", "%s: %d outputs, row %d is %.200s instead of %.200s (MaintainOrder=%v)", what, len(outs), i, got[i], exp[i], spec.MaintainOrder)
		}
	}
	checked()
	return res
}

// readBack reads the files by pattern if their types are determined.
func readBack(pattern string, outs []*parsed, spec df.CSVWritingSpec) {
	rs := df.CSVReadingSpec{MaxCPU: genCPU(), Comma: spec.Comma, MissingValues: []string{spec.StringMissingMarker}}
	c := &csvCase{names: outs[0].header, spec: rs, missing: map[string]bool{spec.StringMissingMarker: true}}
	pos := map[string]int{}
	for j, h := range outs[0].header {
		pos[h] = j
	}
	for _, o := range outs {
		for _, rec := range o.recs {
			r := make([]string, len(rec))
			for j, h := range o.header {
				r[pos[h]] = rec[j]
			}
			c.recs = append(c.recs, r)
		}
	}
	if len(c.recs) == 0 || len(c.names) == 0 {
		return
	}
	c.expect()
	for _, o := range outs {
		if len(o.recs) == 0 {
			continue
		}
		for j, h := range o.header {
			cells := make([]string, len(o.recs))
			for i, rec := range o.recs {
				cells[i] = rec[j]
			}
			if t, _ := infer(cells, c.missing, rs); t != c.want.Cols[h].T {
				return
			}
		}
	}
	var raw *df.RawData
	var err error
	guard("FromCSVFilePattern", func() { raw, err = df.FromCSVFilePattern(pattern, rs) })
	if err != nil || raw == nil {
		zzrt.Fail("read-back", "FromCSVFilePattern(%s) on written files: table %v error %v", pattern, raw != nil, err)
	}
	guard("ToDataFrame", func() {
		if x := snap(raw.ToDataFrame()).sameRows(c.want); x != "" {
			zzrt.Fail("read-back", "%d files read by pattern: %s", len(outs), x)
		}
	})
	zzrt.Probe("read back")
}

// numFiles is the largest number of files of ToCSVDir.
func numFiles(t *Tab, n int, spec df.CSVWritingSpec) int {
	m := spec.MinRowsPerFile
	if m <= 0 {
		m = 512
	}
	k := 1 + n/m
	if c := wantCPU(t.CPU); c < k {
		k = c
	}
	return k
}

func readOuts(what string, paths []string) [][]byte {
	var outs [][]byte
	for _, p := range paths {
		data, ok := zzrt.GetFile(p)
		if !ok {
			zzrt.Fail("missing-file", "%s: %s does not exist", what, p)
		}
		outs = append(outs, data)
	}
	return outs
}

// checkDir verifies a successful ToCSVDir.
func checkDir(t *Tab, rows []int, spec df.CSVWritingSpec, prefix string, paths []string, before map[string]bool) []*parsed {
	if len(paths) == 0 || len(paths) > numFiles(t, len(rows), spec) {
		zzrt.Fail("file-count", "ToCSVDir makes %d files of %d rows, CPU limit %d, MinRowsPerFile %d", len(paths), len(rows), wantCPU(t.CPU), spec.MinRowsPerFile)
	}
	seen := map[string]bool{}
	for _, p := range paths {
		if seen[p] || !strings.HasPrefix(p, prefix) {
			zzrt.Fail("bad-path", "ToCSVDir(%q) returns %q", prefix, paths)
		}
		seen[p] = true
	}
	for _, p := range zzrt.ListFiles() {
		if !seen[p] && !before[p] {
			zzrt.Fail("stray-file", "ToCSVDir makes %s but returns %q", p, paths)
		}
	}
	return checkOutputs("ToCSVDir", readOuts("ToCSVDir", paths), t, rows, spec)
}

func fileSetNow() map[string]bool {
	m := map[string]bool{}
	for _, p := range zzrt.ListFiles() {
		m[p] = true
	}
	return m
}

func c04(s *zzrt.Sim) {
	t := genOutTab(700)
	root := build(t)
	d, rows := genView(root, seq(t.N))
	rootSnap, viewSnap := snap(root), snap(d)
	spec := genOutSpec()
	var err error
	var what string
	for k := 1 + w(2); k > 0; k-- {
		zzrt.SetFS(zzrt.FSConfig{Rate: w(200), Kinds: zzrt.FaultEINTR, Latency: int64(w(2)) * 20000000})
		switch w(4) {
		case 0:
			what = "To1CSV"
			wr := newWriter()
			guard(what, func() { err = d.To1CSV(wr, spec) })
			noError(what, err)
			rest(what)
			checkOutputs(what, [][]byte{wr.data}, t, rows, spec)
		case 1:
			what = "ToCSVs"
			n := 1 + w(9)
			wrs := make([]*flakyWriter, n)
			ws := make([]io.Writer, n)
			for i := range ws {
				wrs[i] = newWriter()
				ws[i] = wrs[i]
			}
			guard(what, func() { err = d.ToCSVs(ws, spec) })
			noError(what, err)
			rest(what)
			outs := make([][]byte, n)
			for i := range outs {
				outs[i] = wrs[i].data
			}
			checkOutputs(what, outs, t, rows, spec)
		case 2:
			what = "ToCSVFiles"
			n := 1 + w(9)
			var paths []string
			for i := 0; i < n; i++ {
				p := fmt.Sprintf("/sim/out%d.csv", i)
				paths = append(paths, p)
				if chance(10) {
					zzrt.PutFile(p, []byte(strings.Repeat("old,stuff\n", 3000)))
				}
			}
			guard(what, func() { err = d.ToCSVFiles(spec, paths...) })
			noError(what, err)
			rest(what)
			checkOutputs(what, readOuts(what, paths), t, rows, spec)
		default:
			what = "ToCSVDir"
			dir := fmt.Sprintf("/sim/dir%d", k)
			zzrt.PutDir(dir)
			prefix := dir + oneOf("/part-", "/", "/p")
			before := fileSetNow()
			var paths []string
			guard(what, func() { paths, err = d.ToCSVDir(spec, prefix) })
			noError(what, err)
			rest(what)
			outs := checkDir(t, rows, spec, prefix, paths, before)
			readBack(dir+"/*.csv", outs, spec)
			rest("reading back")
		}
		if x := snap(root).same(rootSnap); x != "" {
			zzrt.Fail("frame-changed", "%s changes the frame: %s", what, x)
		}
		if x := snap(d).same(viewSnap); x != "" {
			zzrt.Fail("frame-changed", "%s changes the view: %s", what, x)
		}
		spec.MaintainOrder = w(2) == 1
	}
	zzrt.ProbeIf(len(rows) == 0, "no rows")
	zzrt.ProbeIf(len(rows) > 256, "more than 256 rows")
}

func noError(what string, err error) {
	if err != nil {
		zzrt.Fail("unexpected-error", "%s: %v", what, err)
	}
}

func c05(s *zzrt.Sim) {
	t := genOutTab(500)
	root := build(t)
	d, rows := genView(root, seq(t.N))
	rootSnap, viewSnap := snap(root), snap(d)
	spec := genOutSpec()
	var err error
	unchanged := func(what string) {
		if x := snap(root).same(rootSnap); x != "" {
			zzrt.Fail("frame-changed", "%s changes the frame: %s", what, x)
		}
		if x := snap(d).same(viewSnap); x != "" {
			zzrt.Fail("frame-changed", "%s changes the view: %s", what, x)
		}
	}
	kind := w(4)
	if chance(5) || len(rows) == 0 && chance(40) {
		badDelimiter(d, spec, kind)
		unchanged("an invalid delimiter")
	}
	if kind < 2 {
		what := "To1CSV"
		n := 1
		if kind == 1 {
			what = "ToCSVs"
			n = 1 + w(6)
		}
		call := func(wrs []*flakyWriter) {
			guard(what, func() {
				if kind == 0 {
					err = d.To1CSV(wrs[0], spec)
					return
				}
				ws := make([]io.Writer, n)
				for i := range ws {
					ws[i] = wrs[i]
				}
				err = d.ToCSVs(ws, spec)
			})
			rest(what)
		}
		fresh := func() []*flakyWriter {
			wrs := make([]*flakyWriter, n)
			for i := range wrs {
				wrs[i] = newWriter()
			}
			return wrs
		}
		good := fresh()
		call(good)
		noError(what, err)
		wrs := fresh()
		some := false
		for i, wr := range wrs {
			if l := len(good[i].data); l > 0 && (n == 1 || zzrt.F(2) == 1) {
				switch zzrt.F(4) {
				case 0:
					wr.failAt = l - 1
				case 1:
					wr.failAt = 0
				default:
					wr.failAt = zzrt.F(l)
				}
				wr.short = zzrt.F(2) == 1
				wr.once = zzrt.F(2) == 1
			}
		}
		call(wrs)
		for _, wr := range wrs {
			some = some || wr.failed
		}
		if some {
			if err == nil {
				zzrt.Fail("error-lost", "%s returns nil although a writer failed (%d outputs, %d rows)", what, n, len(rows))
			}
			checked()
		} else {
			noError(what, err)
		}
		unchanged(what)
		wrs = fresh()
		call(wrs)
		noError(what+" after the fault", err)
		outs := make([][]byte, n)
		for i := range outs {
			outs[i] = wrs[i].data
		}
		checkOutputs(what, outs, t, rows, spec)
		return
	}
	what := "ToCSVFiles"
	zzrt.PutDir("/sim/o")
	prefix := "/sim/o/p"
	missing := chance(10)
	if missing {
		prefix = "/sim/none/p"
	}
	n := 1 + w(6)
	call := func(prefix string) (paths []string) {
		if kind == 2 {
			for i := 0; i < n; i++ {
				paths = append(paths, fmt.Sprintf("%s%d.csv", prefix, i))
			}
			guard(what, func() { err = d.ToCSVFiles(spec, paths...) })
		} else {
			guard(what, func() { paths, err = d.ToCSVDir(spec, prefix) })
		}
		return
	}
	if kind == 3 {
		what = "ToCSVDir"
	}
	cfg := zzrt.FSConfig{Rate: oneOf(20, 100, 300, 700), OneShot: chance(60), Latency: int64(w(2)) * 20000000,
		Kinds: oneOf(uint32(zzrt.FaultCreate|zzrt.FaultWrite|zzrt.FaultShortWrite|zzrt.FaultClose|zzrt.FaultEINTR), zzrt.FaultWrite, zzrt.FaultShortWrite, zzrt.FaultClose, zzrt.FaultCreate)}
	if chance(20) {
		cfg = zzrt.FSConfig{Capacity: int64(1 + zzrt.F(oneOf(30, 300, 6000)))}
	} else if chance(8) {
		cfg = zzrt.FSConfig{MaxFDs: 1 + w(3)}
	}
	zzrt.SetFS(cfg)
	call(prefix)
	hard := zzrt.HardFaults()
	rest(what)
	zzrt.SetFS(zzrt.FSConfig{})
	if hard > 0 || missing {
		if err == nil {
			zzrt.Fail("error-lost", "%s returns nil although %d operations failed (missing directory: %v, %d rows)", what, hard, missing, len(rows))
		}
		checked()
	} else {
		noError(what, err)
	}
	unchanged(what)
	zzrt.ProbeIf(len(rows) == 0 && hard > 0, "empty frame with a fault")
	paths := call("/sim/o/p")
	rest(what)
	noError(what+" after the fault", err)
	checkOutputs(what, readOuts(what, paths), t, rows, spec)
}

// badDelimiter verifies that the error of the csv writer is forwarded.
func badDelimiter(d *df.DataFrame, spec df.CSVWritingSpec, kind int) {
	spec.Comma = oneOf('"', '\n', '\r', rune(0xFFFD), rune(-1), rune(0xD800))
	var err error
	var what string
	zzrt.PutDir("/sim/bad")
	n := 1 + w(3)
	var ws []io.Writer
	var paths []string
	for i := 0; i < n; i++ {
		ws = append(ws, newWriter())
		paths = append(paths, fmt.Sprintf("/sim/bad/q%d", i))
	}
	guard("an invalid delimiter", func() {
		switch kind {
		case 0:
			what, err = "To1CSV", d.To1CSV(ws[0], spec)
		case 1:
			what, err = "ToCSVs", d.ToCSVs(ws, spec)
		case 2:
			what, err = "ToCSVFiles", d.ToCSVFiles(spec, paths...)
		default:
			what = "ToCSVDir"
			_, err = d.ToCSVDir(spec, "/sim/bad/q")
		}
	})
	rest(what)
	if err == nil {
		zzrt.Fail("error-lost", "%s returns nil although the delimiter %q is invalid (%d rows)", what, spec.Comma, d.NumRows())
	}
	checked()
	zzrt.Probe("invalid delimiter")
}

// c06Tab draws a table whose cell texts are simple.
func c06Tab() *Tab {
	t := &Tab{N: genLarge(800), CPU: genCPU()}
	names := genNames(2 + w(4))
	for _, name := range names {
		r := bulk()
		c := &Col{Name: name, T: oneOf(TB, TI, TF, TS), V: make([]interface{}, t.N)}
		for i := range c.V {
			switch c.T {
			case TB:
				c.V[i] = r.Intn(2) == 1
			case TI:
				c.V[i] = 2 + r.Intn(100000)
			case TF:
				c.V[i] = float64(r.Intn(100000))/8 + 0.0625
			case TS:
				c.V[i] = []string{"s", "x,", "q\"", "w\n"}[r.Intn(4)] + fmt.Sprint(r.Intn(1000)) + "z"
			}
		}
		t.Cols = append(t.Cols, c)
	}
	return t
}

func c06(s *zzrt.Sim) {
	t := c06Tab()
	spec := genOutSpec()
	spec.StringMissingMarker = "-"
	rows := seq(t.N)
	var idx []int
	if chance(30) {
		idx = genIndices(t.N)
		rows = idx
	}
	frame := func() *df.DataFrame {
		d := build(t)
		if idx != nil {
			d = d.IndexView(idx)
		}
		return d
	}
	files := w(2) == 0
	older := false
	n := 1 + w(6)
	zzrt.PutDir("/sim/o")
	var paths []string
	var err error
	call := func(what string) func() {
		return func() {
			paths, err = nil, nil
			if files {
				for i := 0; i < n; i++ {
					paths = append(paths, fmt.Sprintf("/sim/o/p%d.csv", i))
				}
				err = frame().ToCSVFiles(spec, paths...)
			} else {
				paths, err = frame().ToCSVDir(spec, "/sim/o/p")
			}
		}
	}
	cfg := zzrt.FSConfig{Rate: w(100), Kinds: zzrt.FaultEINTR, Latency: int64(w(3)) * 10000000}
	if files && chance(40) {
		// the files of an earlier dump of another frame, complete or not
		now := t
		idxNow := idx
		t, idx = c06Tab(), nil
		kill := 0
		if chance(70) {
			kill = 1 + zzrt.F(1<<uint(4+zzrt.F(14)))
		}
		zzrt.SetFS(cfg)
		done := zzrt.Process("earlier dump", kill, call("earlier dump"))
		zzrt.ProbeIf(!done, "earlier dump killed")
		zzrt.SetFS(zzrt.FSConfig{})
		t, idx = now, idxNow
		older = true
	}
	for k := 1 + w(2); k > 0; k-- {
		zzrt.SetFS(cfg)
		done := zzrt.Process("dump", 1+zzrt.F(1<<uint(4+zzrt.F(14))), call("dump"))
		zzrt.ProbeIf(!done, "killed")
		zzrt.SetFS(zzrt.FSConfig{})
		if done {
			break
		}
		if !older {
			leftovers(t, rows, spec)
		}
	}
	before := fileSetNow()
	if !zzrt.Process("dump again", 0, call("dump again")) {
		zzrt.Broken("the process did not end")
	}
	noError("the second dump", err)
	rest("the second dump")
	var outs []*parsed
	if files {
		outs = checkOutputs("ToCSVFiles after a crash", readOuts("ToCSVFiles", paths), t, rows, spec)
	} else {
		outs = checkDir(t, rows, spec, "/sim/o/p", paths, before)
	}
	readBack("/sim/o/p*.csv", outs, spec)
	rest("reading back")
}

// leftovers reads what a killed dump has left.
func leftovers(t *Tab, rows []int, spec df.CSVWritingSpec) {
	rs := df.CSVReadingSpec{MaxCPU: genCPU(), Comma: spec.Comma, MissingValues: []string{"-"}}
	var raw *df.RawData
	var err error
	guard("FromCSVFilePattern on leftovers", func() { raw, err = df.FromCSVFilePattern("/sim/o/p*.csv", rs) })
	rest("reading leftovers")
	if err != nil {
		zzrt.Probe("leftovers: error")
		if raw != nil {
			zzrt.Fail("partial-table", "FromCSVFilePattern on leftovers returns a table and the error %v", err)
		}
		return
	}
	if raw == nil {
		return
	}
	zzrt.Probe("leftovers: table")
	var d *df.DataFrame
	guard("ToDataFrame of leftovers", func() { d = raw.ToDataFrame() })
	for name, got := range snap(d).Cols {
		c := t.col(name)
		if c == nil {
			// a torn header: a prefix of a column name
			ok := false
			for _, o := range t.Cols {
				ok = ok || strings.HasPrefix(o.Name, name)
			}
			if !ok {
				zzrt.Fail("invented-column", "leftovers have a column %q", name)
			}
			continue
		}
		texts := map[string]bool{}
		for _, i := range rows {
			var full string
			switch x := c.V[i].(type) {
			case float64:
				full = strconv.FormatFloat(x, 'f', -1, 64)
			default:
				full = fmt.Sprint(x)
			}
			for l := 0; l <= len(full); l++ {
				texts[full[:l]] = true
			}
		}
		for i, v := range got.V {
			var text string
			switch x := v.(type) {
			case nil:
				continue
			case float64:
				text = strconv.FormatFloat(x, 'f', -1, 64)
			default:
				text = fmt.Sprint(x)
			}
			ok := texts[text]
			if b, isBool := v.(bool); isBool {
				// "1", "t"... are torn cells that read as booleans
				for cell := range texts {
					x, err := strconv.ParseBool(cell)
					ok = ok || err == nil && x == b
				}
			}
			if !ok {
				zzrt.Fail("invented-cell", "leftovers: column %q row %d holds %q, which is no cell of the frame", name, i, text)
			}
		}
	}
	checked()
}

func init() {
	register(&Scenario{ID: "C04", Run: c04})
	register(&Scenario{ID: "C05", Run: c05})
	register(&Scenario{ID: "C06", Run: c06})
}

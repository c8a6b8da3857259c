//go:build go1.22

package main

import (
	"fmt"
	"io/fs"
	"math"
	"path/filepath"
	"strconv"
	"strings"

	df "github.com/rom1mouret/ml-essentials/dataframe"
	zzrt "github.com/rom1mouret/ml-essentials/zzverif/simrt"
	"golang.org/x/text/encoding/charmap"
)

// csvCase is a generated CSV text with its expected table.
type csvCase struct {
	names   []string
	recs    [][]string
	spec    df.CSVReadingSpec
	text    []byte
	want    *Snap // expected table, nil if the text is malformed
	bad     string
	inFile  bool // the header is in the text
	crlf    bool
	missing map[string]bool
}

var boolWords = []string{"true", "false", "T", "F", "True", "FALSE", "t", "f", "0", "1", "TRUE", "False"}
var intWords = []string{"-5", "+7", "007", "0", "1", "-1", "9223372036854775807", "-9223372036854775808", "12", "2"}
var floatWords = []string{"1.5", "1e3", "-0.25", ".5", "5.", "inf", "-Inf", "0.1", "1e-300", "3", "-0", "9223372036854775808", "NaN", "0x1p-2", "123456.789"}

// genCells draws the texts of a column.
func genCells(n int, missing []string, latin bool) []string {
	cells := make([]string, n)
	r := bulk()
	class := w(10)
	miss := func(pct int) (string, bool) {
		if len(missing) > 0 && r.Intn(100) < pct {
			return missing[r.Intn(len(missing))], true
		}
		return "", false
	}
	for i := range cells {
		switch class {
		case 0:
			cells[i] = strconv.Itoa(r.Intn(2))
		case 1:
			cells[i] = boolWords[r.Intn(len(boolWords))]
		case 2, 3:
			cells[i] = intWords[r.Intn(len(intWords))]
			if r.Intn(2) == 0 {
				cells[i] = strconv.Itoa(r.Intn(2000) - 1000)
			}
		case 4, 5:
			cells[i] = floatWords[r.Intn(len(floatWords))]
			if r.Intn(2) == 0 {
				cells[i] = strconv.FormatFloat(r.Float()*100-50, 'g', -1, 64)
			}
		case 6, 7:
			cells[i] = words[r.Intn(len(words))]
			if r.Intn(2) == 0 {
				cells[i] = fmt.Sprint("s", r.Intn(100))
			}
			if latin && r.Intn(3) == 0 {
				cells[i] = "caf\xe9" + strconv.Itoa(r.Intn(9))
			}
		case 8: // one row decides about the type
			cells[i] = "5"
		}
		switch class {
		case 3, 5, 7:
			if m, ok := miss(30); ok {
				cells[i] = m
			}
		case 9:
			if m, ok := miss(100); ok {
				cells[i] = m
			} else {
				cells[i] = "1"
			}
		}
	}
	if class == 8 && n > 0 {
		cells[r.Intn(n)] = []string{"x", "5.5", "0", "true", "", "1e400", "9223372036854775808", "5 ", "0x5"}[r.Intn(9)]
		if r.Intn(3) == 0 {
			for i := range cells {
				if cells[i] == "5" {
					cells[i] = "1"
				}
			}
		}
	}
	return cells
}

func allOf(cells []string, pred func(s string) bool) bool {
	for _, c := range cells {
		if !pred(c) {
			return false
		}
	}
	return true
}

// infer is the documented type inference.
func infer(cells []string, missing map[string]bool, spec df.CSVReadingSpec) (CT, []interface{}) {
	v := make([]interface{}, len(cells))
	isBin := allOf(cells, func(s string) bool { return s == "0" || s == "1" })
	isBool := allOf(cells, func(s string) bool { _, err := strconv.ParseBool(s); return err == nil })
	if isBool {
		asFloat := spec.BoolAsFloat || spec.BinaryAsFloat && isBin
		for i, c := range cells {
			b, _ := strconv.ParseBool(c)
			switch {
			case !asFloat:
				v[i] = b
			case b:
				v[i] = 1.0
			default:
				v[i] = 0.0
			}
		}
		if asFloat {
			return TF, v
		}
		return TB, v
	}
	isInt := allOf(cells, func(s string) bool { _, err := strconv.ParseInt(s, 10, 64); return err == nil || missing[s] })
	if isInt && !spec.IntAsFloat {
		for i, c := range cells {
			if missing[c] {
				v[i] = -1
			} else {
				x, _ := strconv.ParseInt(c, 10, 64)
				v[i] = int(x)
			}
		}
		return TI, v
	}
	isFloat := allOf(cells, func(s string) bool { _, err := strconv.ParseFloat(s, 64); return err == nil || missing[s] })
	for i, c := range cells {
		switch {
		case isFloat && missing[c]:
			v[i] = math.NaN()
		case isFloat:
			v[i], _ = strconv.ParseFloat(c, 64)
		case missing[c]:
		default:
			v[i] = c
		}
	}
	if isFloat {
		return TF, v
	}
	return TS, v
}

// render writes one record.
func (c *csvCase) render(sb *strings.Builder, rec []string, r *zzrt.PRNG) {
	comma := ","
	if c.spec.Comma != 0 {
		comma = string(c.spec.Comma)
	}
	for i, f := range rec {
		if i > 0 {
			sb.WriteString(comma)
		}
		if c.spec.TrimLeadingSpace && r.Intn(4) == 0 {
			sb.WriteString("  ")
		}
		lazy := c.spec.LazyQuotes && strings.Contains(f, "\"") && !strings.HasPrefix(f, "\"") && !strings.ContainsAny(f, "\n\r \t"+comma) && r.Intn(2) == 0
		quote := !lazy && (strings.ContainsAny(f, "\"\n\r#"+comma) || f != strings.TrimSpace(f) || f == "" && len(rec) == 1 || r.Intn(6) == 0)
		if !quote {
			sb.WriteString(f)
			continue
		}
		sb.WriteString("\"" + strings.ReplaceAll(f, "\"", "\"\"") + "\"")
	}
	c.eol(sb)
}

func (c *csvCase) eol(sb *strings.Builder) {
	if c.crlf {
		sb.WriteString("\r")
	}
	sb.WriteString("\n")
}

func (c *csvCase) renderAll() {
	r := bulk()
	var sb strings.Builder
	if c.spec.Comment != 0 && r.Intn(2) == 0 {
		sb.WriteString("# a comment, \"with\" stuff")
		c.eol(&sb)
	}
	if c.inFile {
		c.render(&sb, c.names, r)
	}
	for _, rec := range c.recs {
		if r.Intn(10) == 0 {
			c.eol(&sb)
		}
		if c.spec.Comment != 0 && r.Intn(6) == 0 {
			sb.WriteString("#")
			c.eol(&sb)
		}
		c.render(&sb, rec, r)
	}
	c.text = []byte(sb.String())
	if n := len(c.text); n > 1 && !c.crlf && c.text[n-2] != '\n' && r.Intn(4) == 0 {
		c.text = c.text[:n-1] // no final newline
	}
}

// expect computes the expected table from the records.
func (c *csvCase) expect() {
	excl := map[string]bool{}
	for _, e := range c.spec.Exclude {
		excl[e] = true
	}
	c.want = &Snap{N: len(c.recs), CPU: wantCPU(c.spec.MaxCPU), Cols: map[string]*Col{}}
	for j, name := range c.names {
		if excl[name] {
			continue
		}
		cells := make([]string, len(c.recs))
		for i, rec := range c.recs {
			cells[i] = rec[j]
		}
		t, v := infer(cells, c.missing, c.spec)
		c.want.Cols[name] = &Col{name, t, v}
	}
}

func genSpec(names []string) df.CSVReadingSpec {
	spec := df.CSVReadingSpec{MaxCPU: genCPU()}
	if chance(60) {
		all := []string{"-", "", "NA", "?", "NaN"}
		for k := 1 + w(2); k > 0; k-- {
			spec.MissingValues = append(spec.MissingValues, oneOf(all...))
		}
	}
	spec.IntAsFloat = chance(20)
	spec.BoolAsFloat = chance(20)
	spec.BinaryAsFloat = chance(20)
	spec.Comma = oneOf(rune(0), 0, ',', ';', '\t', '|')
	spec.Comment = oneOf(rune(0), 0, 0, '#')
	spec.LazyQuotes = chance(20)
	spec.TrimLeadingSpace = spec.Comma != '\t' && chance(20)
	if chance(30) {
		for k := 1 + w(2); k > 0; k-- {
			spec.Exclude = append(spec.Exclude, oneOf(append([]string{"not-there"}, names...)...))
		}
	}
	if chance(30) {
		spec.Encoding = charmap.ISO8859_1
	}
	return spec
}

func genCSV(maxRows, maxCols int) *csvCase {
	c := &csvCase{missing: map[string]bool{}}
	n := genLarge(maxRows)
	c.names = genNames(1 + w(maxCols))
	c.spec = genSpec(c.names)
	for _, m := range c.spec.MissingValues {
		c.missing[m] = true
	}
	c.recs = make([][]string, n)
	for i := range c.recs {
		c.recs[i] = make([]string, len(c.names))
	}
	for j := range c.names {
		for i, s := range genCells(n, c.spec.MissingValues, c.spec.Encoding != nil) {
			c.recs[i][j] = s
		}
	}
	c.inFile = !chance(25)
	c.crlf = chance(20)
	if !c.inFile {
		c.spec.Header = append([]string(nil), c.names...)
	}
	c.renderAll()
	c.expect()
	return c
}

// corrupt makes the text malformed.
func (c *csvCase) corrupt() {
	c.want = nil
	n := len(c.recs)
	c.spec.LazyQuotes = false
	c.spec.TrimLeadingSpace = false
	kind := w(5)
	if n == 0 && kind < 3 {
		kind = 3
	}
	if n == 1 && !c.inFile && kind < 2 {
		kind = 4 // one record of another width than the Header option
	}
	switch kind {
	case 0:
		i := w(n)
		c.recs[i] = append(append([]string(nil), c.recs[i]...), "extra")
		c.bad = "a record with an additional field"
		c.renderAll()
	case 1:
		i := w(n)
		if len(c.recs[i]) == 1 {
			c.recs[i] = []string{"p", "q"}
		} else {
			c.recs[i] = c.recs[i][:len(c.recs[i])-1]
			if len(c.recs[i]) == 1 && c.recs[i][0] == "" {
				c.recs[i][0] = "p"
			}
		}
		c.bad = "a record of another width"
		c.renderAll()
	case 2:
		c.renderAll()
		c.text = append(c.text, "\nab\"c"...)
		for j := 1; j < len(c.names); j++ {
			c.text = append(c.text, string(c.comma())+"1"...)
		}
		c.bad = "a bare quote"
	case 3:
		c.renderAll()
		c.text = append(c.text, "\n\"never closed"...)
		c.bad = "an unterminated quote"
	default:
		if n == 0 {
			c.renderAll()
			c.text = append(c.text, "\n\"x\"y"...)
			c.bad = "garbage after a quoted field"
			return
		}
		// Header option longer than the records
		if c.inFile {
			c.inFile = false
			c.recs = append([][]string{c.names}, c.recs...)
		}
		c.renderAll()
		c.spec.Header = append(append([]string(nil), c.names...), "one-more")
		c.bad = "records shorter than the Header option"
	}
}

func (c *csvCase) comma() rune {
	if c.spec.Comma != 0 {
		return c.spec.Comma
	}
	return ','
}

func (c *csvCase) describe() string {
	return fmt.Sprintf("spec %+v text %.300q", c.spec, c.text)
}

// checkTable compares the result of a read with the expected table.
func (c *csvCase) checkTable(what string, raw *df.RawData, err error) {
	if c.want == nil {
		if err == nil || raw != nil {
			zzrt.Fail("malformed-accepted", "%s of a text with %s: table %v error %v; %s", what, c.bad, raw != nil, err, c.describe())
		}
		checked()
		return
	}
	if err != nil || raw == nil {
		zzrt.Fail("read-failed", "%s: table %v error %v; %s", what, raw != nil, err, c.describe())
	}
	var d *df.DataFrame
	guard("ToDataFrame of the result of "+what, func() { d = raw.ToDataFrame() })
	checkSnap(what, d, c.want, c.describe)
	c.checkEncoding(what, d)
	checked()
}

// checkSnap compares a frame with the expected table.  The types of columns
// without rows, and the number of rows without columns, are not determined.
func checkSnap(what string, d *df.DataFrame, want *Snap, describe func() string) {
	s := snap(d)
	if len(want.Cols) == 0 {
		if len(s.Cols) != 0 {
			zzrt.Fail("wrong-table", "%s: columns are {%s}, expected none; %s", what, s.schema(), describe())
		}
		return
	}
	if want.N == 0 {
		if s.N != 0 || !sameSet(s.names(), want.names()) {
			zzrt.Fail("wrong-table", "%s: %d rows, columns {%s}, expected none of {%s}; %s", what, s.N, s.schema(), want.schema(), describe())
		}
	} else if x := s.diff(want); x != "" {
		zzrt.Fail("wrong-table", "%s: %s; %s", what, x, describe())
	}
	if s.CPU != want.CPU {
		zzrt.Fail("wrong-table", "%s: CPU limit is %d instead of %d", what, s.CPU, want.CPU)
	}
}

// checkEncoding converts the strings from the announced encoding to UTF-8.
func (c *csvCase) checkEncoding(what string, d *df.DataFrame) {
	if c.spec.Encoding == nil || c.want.N == 0 || len(c.want.Cols) == 0 {
		return
	}
	if err := d.Encode(nil); err != nil {
		zzrt.Fail("wrong-encoding", "%s: Encode(nil) fails: %v", what, err)
	}
	conv := func(s *Snap) *Snap {
		r := &Snap{N: s.N, Cols: map[string]*Col{}}
		for n, col := range s.Cols {
			k := &Col{n, col.T, append([]interface{}(nil), col.V...)}
			if col.T == TS {
				for i, v := range k.V {
					if str, ok := v.(string); ok {
						u, _ := charmap.ISO8859_1.NewDecoder().String(str)
						k.V[i] = u
					}
				}
			}
			r.Cols[n] = k
		}
		return r
	}
	if x := snap(d).diff(conv(c.want)); x != "" {
		zzrt.Fail("wrong-encoding", "%s: after Encode to UTF-8: %s", what, x)
	}
	zzrt.Probe("encoding checked")
}

func c01(s *zzrt.Sim) {
	c := genCSV(300, 8)
	if chance(20) {
		c.corrupt()
	}
	times := 1 + w(2)
	for k := 0; k < times; k++ {
		var raw *df.RawData
		var err error
		what := "FromCSV"
		if w(2) == 0 {
			guard(what, func() { raw, err = df.FromCSV(newReader(c.text), c.spec) })
		} else {
			what = "FromCSVFile"
			zzrt.PutFile("/sim/in.csv", c.text)
			zzrt.SetFS(zzrt.FSConfig{Rate: 1 + w(300), Kinds: zzrt.FaultShortRead | zzrt.FaultEINTR, Latency: int64(w(2)) * 20000000})
			guard(what, func() { raw, err = df.FromCSVFile("/sim/in.csv", c.spec) })
			zzrt.SetFS(zzrt.FSConfig{})
		}
		rest(what)
		c.checkTable(what, raw, err)
		// another CPU limit must not make a difference
		c.spec.MaxCPU = genCPU()
		if c.want != nil {
			c.want.CPU = wantCPU(c.spec.MaxCPU)
		}
	}
	zzrt.ProbeIf(c.want == nil, "malformed text")
	zzrt.ProbeIf(len(c.recs) == 0, "no rows")
	zzrt.ProbeIf(len(c.recs) > 128, "more than 128 rows")
}

// safeCells draws texts whose type does not depend on which rows are seen.
func safeCells(n int, class int, missing []string) []string {
	cells := make([]string, n)
	r := bulk()
	for i := range cells {
		switch class {
		case 0:
			cells[i] = []string{"true", "false"}[r.Intn(2)]
		case 1:
			cells[i] = strconv.Itoa(2 + r.Intn(5000))
		case 2:
			cells[i] = strconv.Itoa(r.Intn(900)) + ".5"
		case 3:
			cells[i] = "s" + []string{"", "a", "b,c", "d\"e", "f\ng", "é"}[r.Intn(6)] + strconv.Itoa(r.Intn(60))
		default:
			cells[i] = "caf\xe9" + strconv.Itoa(r.Intn(60))
		}
	}
	return cells
}

// permuted is the text of the same table with its columns in another order.
func (c *csvCase) permuted() []byte {
	o := *c
	r := bulk()
	order := seq(len(c.names))
	for i := len(order) - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		order[i], order[j] = order[j], order[i]
	}
	o.names = pickStrings(c.names, order)
	o.recs = make([][]string, len(c.recs))
	for i := range o.recs {
		o.recs[i] = pickStrings(c.recs[i], order)
	}
	o.renderAll()
	return o.text
}

func pickStrings(l []string, order []int) []string {
	r := make([]string, len(order))
	for i, j := range order {
		r[i] = l[j]
	}
	return r
}

// odd changes the columns of a file, or their types.
func (c *csvCase) odd() *csvCase {
	o := *c
	o.names = append([]string(nil), c.names...)
	o.recs = nil
	n := len(c.recs)
	if n == 0 || chance(20) {
		n = 1 + w(3)
	}
	cols := make([][]string, len(o.names))
	for j := range cols {
		for i := 0; i < n; i++ {
			cell := "x"
			if len(c.recs) > 0 {
				cell = c.recs[i%len(c.recs)][j]
			}
			cols[j] = append(cols[j], cell)
		}
	}
	j := w(len(o.names))
	kind := w(5)
	if !c.inFile && kind < 3 {
		kind = 3
	}
	fresh := "other"
	for contains(o.names, fresh) {
		fresh += "_"
	}
	switch {
	case kind == 0: // another name
		o.names[j] = fresh
	case kind == 1 || kind == 2 && len(o.names) == 1: // one column more
		o.names = append(o.names, fresh)
		cols = append(cols, safeCells(n, w(4), nil))
	case kind == 2: // one column less
		o.names = append(o.names[:j:j], o.names[j+1:]...)
		cols = append(cols[:j:j], cols[j+1:]...)
	case kind == 3: // another type
		cols[j] = safeCells(n, w(4), nil)
	default: // types exchanged between two columns
		k := w(len(cols))
		cols[j], cols[k] = cols[k], cols[j]
	}
	for i := 0; i < n; i++ {
		var rec []string
		for _, col := range cols {
			rec = append(rec, col[i])
		}
		o.recs = append(o.recs, rec)
	}
	o.renderAll()
	o.expect()
	return &o
}

// agree tells whether the files that have rows have the same columns and types.
func (fset *fileSet) agree() bool {
	first := ""
	for _, f := range fset.files {
		if len(f.recs) == 0 || len(f.want.Cols) == 0 {
			continue
		}
		if first == "" {
			first = f.want.schema()
		} else if f.want.schema() != first {
			return false
		}
	}
	return true
}

// fileSet is a set of CSV files matching /sim/d/*.csv.
type fileSet struct {
	files []*csvCase
	paths []string
	pat   string
	want  *Snap
	spec  df.CSVReadingSpec
}

// genFiles draws files with the same header and types.
func genFiles(maxFiles int) *fileSet {
	fset := &fileSet{pat: "/sim/d/p*.csv"}
	k := oneOf(0, 1, 2, 2, 3, 3, 4, 5, 6, 8, 9, 12, 16, 17)
	if k > maxFiles {
		k = maxFiles
	}
	layout := w(5)
	switch layout {
	case 3:
		fset.pat = "/sim/d/*/p.csv"
	case 4:
		fset.pat = "/sim/d/s?/p*.csv"
	}
	twins := chance(20)
	names := genNames(1 + w(5))
	spec := df.CSVReadingSpec{MaxCPU: genCPU(), Comma: oneOf(rune(0), ';', '\t')}
	if chance(30) {
		spec.Encoding = charmap.ISO8859_1
	}
	if chance(40) {
		spec.MissingValues = []string{"-"}
	}
	if chance(20) {
		spec.Exclude = []string{oneOf(names...)}
	}
	inFile := !chance(20)
	if !inFile {
		spec.Header = append([]string(nil), names...)
	}
	classes := make([]int, len(names))
	for j := range classes {
		classes[j] = w(4)
		if classes[j] == 3 && spec.Encoding != nil && w(2) == 1 {
			classes[j] = 4
		}
	}
	zzrt.PutDir("/sim/d")
	var all [][]string
	for f := 0; f < k; f++ {
		c := &csvCase{names: names, spec: spec, inFile: inFile, crlf: chance(10), missing: map[string]bool{}}
		for _, m := range spec.MissingValues {
			c.missing[m] = true
		}
		n := genLarge(140)
		if chance(15) {
			n = 0
		}
		c.recs = make([][]string, n)
		for i := range c.recs {
			c.recs[i] = make([]string, len(names))
		}
		for j := range names {
			cells := safeCells(n, classes[j], spec.MissingValues)
			if len(spec.MissingValues) > 0 && classes[j] > 0 {
				r := bulk()
				for i := 1; i < n; i++ {
					if r.Intn(6) == 0 {
						cells[i] = "-"
					}
				}
			}
			for i := range cells {
				c.recs[i][j] = cells[i]
			}
		}
		if shuffled := c.permuted(); inFile && chance(20) {
			c.text = shuffled
		} else {
			c.renderAll()
		}
		c.expect()
		if twins && f > 0 && chance(40) { // a file with the same content
			c = fset.files[f-1]
		}
		all = append(all, c.recs...)
		fset.files = append(fset.files, c)
		path := fmt.Sprintf("/sim/d/p%d.csv", f*7%19)
		if f >= 19 {
			path = fmt.Sprintf("/sim/d/pp%d.csv", f)
		}
		switch layout {
		case 3: // the same name in several directories
			dir := fmt.Sprintf("/sim/d/n%d", f*7%19)
			zzrt.PutDir(dir)
			path = dir + "/p.csv"
		case 4:
			dir := fmt.Sprintf("/sim/d/s%d", f%3)
			zzrt.PutDir(dir)
			path = fmt.Sprintf("%s/p%d.csv", dir, f/3)
		}
		fset.paths = append(fset.paths, path)
		zzrt.PutFile(path, c.text)
	}
	sum := &csvCase{names: names, spec: spec, recs: all, missing: map[string]bool{"-": len(spec.MissingValues) > 0}}
	sum.expect()
	fset.want = sum.want
	fset.spec = spec
	return fset
}

// checkPattern compares the result of FromCSVFilePattern with the files.
func (fset *fileSet) checkPattern(raw *df.RawData, err error) {
	describe := func() string {
		var l []string
		for _, f := range fset.files {
			l = append(l, fmt.Sprint(len(f.recs)))
		}
		return fmt.Sprintf("%d files with %s rows, spec %+v, %d processors", len(fset.files), strings.Join(l, "+"), fset.spec, zzrt.RuntimeNumCPU())
	}
	if len(fset.files) == 0 {
		if raw != nil || err != nil {
			zzrt.Fail("wrong-table", "no matching file: table %v error %v", raw != nil, err)
		}
		checked()
		return
	}
	if err != nil || raw == nil {
		zzrt.Fail("read-failed", "FromCSVFilePattern: table %v error %v; %s", raw != nil, err, describe())
	}
	var d *df.DataFrame
	guard("ToDataFrame of the result of FromCSVFilePattern", func() { d = raw.ToDataFrame() })
	if fset.want.N == 0 || len(fset.want.Cols) == 0 {
		checkSnap("FromCSVFilePattern", d, fset.want, describe)
		checked()
		return
	}
	got := snap(d)
	if x := got.sameRows(fset.want); x != "" {
		zzrt.Fail("wrong-rows", "FromCSVFilePattern: %s; %s", x, describe())
	}
	if got.CPU != fset.want.CPU {
		zzrt.Fail("wrong-table", "FromCSVFilePattern: CPU limit is %d instead of %d; %s", got.CPU, fset.want.CPU, describe())
	}
	// the rows of one file are in order and together
	keys := got.rowKeys()
	at := 0
	left := map[int]bool{}
	var fkeys [][]string
	for i, f := range fset.files {
		if len(f.recs) > 0 {
			left[i] = true
			fkeys = append(fkeys, f.want.rowKeys())
		} else {
			fkeys = append(fkeys, nil)
		}
	}
	if !matchFiles(keys, fkeys, left, at, new(int)) {
		zzrt.Fail("wrong-order", "FromCSVFilePattern: the rows of a file are not in file order; %s", describe())
	}
	if c := fset.files[0]; c.spec.Encoding != nil {
		c2 := *c
		c2.want = got
		c2.checkEncoding("FromCSVFilePattern", d)
	}
	checked()
}

// matchFiles tells whether keys is a concatenation of the lists of all files.
func matchFiles(keys []string, files [][]string, left map[int]bool, at int, work *int) bool {
	*work++
	if len(left) == 0 || *work > 20000 {
		return true
	}
	tried := map[string]bool{}
	for i := range files {
		if !left[i] {
			continue
		}
		f := files[i]
		if at+len(f) > len(keys) {
			continue
		}
		ok := true
		for j := range f {
			if keys[at+j] != f[j] {
				ok = false
				break
			}
		}
		if !ok || tried[strings.Join(f, "\n")] {
			continue
		}
		tried[strings.Join(f, "\n")] = true
		delete(left, i)
		if matchFiles(keys, files, left, at+len(f), work) {
			return true
		}
		left[i] = true
	}
	return false
}

func c03(s *zzrt.Sim) {
	fset := genFiles(17)
	if chance(40) {
		zzrt.PutDir("/sim/d/pdir.csv")
		zzrt.PutFile("/sim/d/pdir.csv/p1.csv", []byte("other\n1\n"))
		zzrt.Probe("directory matches")
	}
	if chance(30) {
		zzrt.PutSpecial("/sim/d/pfifo.csv", oneOf(fs.ModeNamedPipe, fs.ModeSocket, fs.ModeDevice))
		zzrt.Probe("special file matches")
	}
	zzrt.PutFile("/sim/d/q.csv", []byte("not,matching\n1,2\n"))
	zzrt.SetFS(zzrt.FSConfig{Rate: w(200), Kinds: zzrt.FaultShortRead | zzrt.FaultEINTR, Latency: int64(w(2)) * 20000000})
	zzrt.MaxOpenFiles()
	var raw *df.RawData
	var err error
	guard("FromCSVFilePattern", func() { raw, err = df.FromCSVFilePattern(fset.pat, fset.spec) })
	rest("FromCSVFilePattern")
	limit := wantCPU(fset.spec.MaxCPU)
	if m := zzrt.MaxOpenFiles(); m > limit {
		zzrt.Fail("too-many-open-files", "%d files open at once, CPU limit %d (%d files, %d processors)", m, limit, len(fset.files), zzrt.RuntimeNumCPU())
	}
	zzrt.SetFS(zzrt.FSConfig{})
	fset.checkPattern(raw, err)
	zzrt.ProbeIf(len(fset.files) > 1, "several files")
	zzrt.ProbeIf(fset.want.N == 0, "no rows")
}

// differing reads files one of which has other columns or types.
func differing() {
	var fset *fileSet
	for try := 0; ; try++ {
		fset = genFiles(9)
		if len(fset.files) > 1 {
			break
		}
		if try > 20 {
			return
		}
	}
	i := w(len(fset.files))
	keep := fset.files[i]
	odd := keep.odd()
	// twins share one table
	fset.files[i] = odd
	zzrt.PutFile(fset.paths[i], odd.text)
	agree := fset.agree()
	zzrt.SetFS(zzrt.FSConfig{Rate: w(100), Kinds: zzrt.FaultShortRead | zzrt.FaultEINTR, Latency: int64(w(2)) * 20000000})
	var raw *df.RawData
	var err error
	pat := fset.pat
	badPattern := false
	if chance(5) {
		pat = oneOf("/sim/d/[", "[", "/sim/d/p[a-.csv", "/sim/d/[]a]*.csv", "/sim/[d/p*.csv")
		if _, x := filepath.Match(pat, ""); x == nil {
			zzrt.Broken("the pattern %q is not malformed", pat)
		}
		badPattern, agree = true, false
	}
	guard("FromCSVFilePattern", func() { raw, err = df.FromCSVFilePattern(pat, fset.spec) })
	rest("FromCSVFilePattern")
	zzrt.SetFS(zzrt.FSConfig{})
	if !agree {
		if err == nil || raw != nil {
			var l []string
			for _, f := range fset.files {
				l = append(l, fmt.Sprintf("%d rows of %s", len(f.recs), f.want.schema()))
			}
			zzrt.Fail("error-lost", "FromCSVFilePattern(%q) of files with different columns (%s), spec %+v: table %v error %v", pat, strings.Join(l, "; "), fset.spec, raw != nil, err)
		}
		zzrt.ProbeIf(badPattern, "malformed pattern")
		zzrt.ProbeIf(!badPattern, "files differ")
		checked()
	} else if odd.want.schema() == keep.want.schema() && raw == nil {
		zzrt.Fail("read-failed", "FromCSVFilePattern of files with the same columns: %v", err)
	}
	zzrt.PutFile(fset.paths[i], keep.text)
	fset.files[i] = keep
	guard("FromCSVFilePattern", func() { raw, err = df.FromCSVFilePattern(fset.pat, fset.spec) })
	rest("FromCSVFilePattern")
	fset.checkPattern(raw, err)
}

func c02(s *zzrt.Sim) {
	const hard = zzrt.FaultOpen | zzrt.FaultVanish | zzrt.FaultRead | zzrt.FaultStat
	switch w(4) {
	case 3:
		differing()
	case 0: // failing reader
		c := genCSV(140, 5)
		r := newReader(c.text)
		r.failAt = zzrt.F(len(c.text) + 1)
		if zzrt.F(3) == 0 {
			r.failAt = len(c.text)
		}
		var raw *df.RawData
		var err error
		guard("FromCSV", func() { raw, err = df.FromCSV(r, c.spec) })
		rest("FromCSV")
		if r.failed {
			if err == nil || raw != nil {
				zzrt.Fail("error-lost", "the reader failed after %d of %d bytes but FromCSV returns table %v error %v; %s", r.failAt, len(c.text), raw != nil, err, c.describe())
			}
			checked()
		}
		guard("FromCSV", func() { raw, err = df.FromCSV(newReader(c.text), c.spec) })
		c.checkTable("FromCSV after the fault", raw, err)
	case 1: // failing file
		c := genCSV(140, 5)
		zzrt.PutFile("/sim/in.csv", c.text)
		zzrt.SetFS(zzrt.FSConfig{Rate: oneOf(30, 100, 300, 700), Kinds: hard | zzrt.FaultShortRead | zzrt.FaultEINTR, OneShot: chance(50)})
		path := "/sim/in.csv"
		gone := chance(10)
		if gone {
			path = oneOf("/sim/none.csv", "/sim/nodir/in.csv", "", "/sim")
		}
		var raw *df.RawData
		var err error
		guard("FromCSVFile", func() { raw, err = df.FromCSVFile(path, c.spec) })
		n := zzrt.HardFaults()
		zzrt.SetFS(zzrt.FSConfig{})
		rest("FromCSVFile")
		if n > 0 || gone {
			if err == nil || raw != nil {
				zzrt.Fail("error-lost", "FromCSVFile(%q): %d failed operations, table %v error %v", path, n, raw != nil, err)
			}
			checked()
		} else if !gone {
			c.checkTable("FromCSVFile", raw, err)
		}
		zzrt.PutFile("/sim/in.csv", c.text)
		guard("FromCSVFile", func() { raw, err = df.FromCSVFile("/sim/in.csv", c.spec) })
		c.checkTable("FromCSVFile after the fault", raw, err)
	default:
		fset := genFiles(9)
		bad := -1
		if len(fset.files) > 0 && chance(30) {
			bad = w(len(fset.files))
			c := *fset.files[bad]
			kind := w(2)
			text := append([]byte(nil), c.text...)
			if kind == 0 {
				text = append(text, "\n\"never closed"...)
			} else if len(c.recs) > 0 {
				text = append(text, ("\n1" + strings.Repeat(string(c.comma())+"2", len(c.names)))...)
			} else {
				text = append(text, "\n\"x\"y"...)
			}
			zzrt.PutFile(fset.paths[bad], text)
		}
		zzrt.SetFS(zzrt.FSConfig{Rate: oneOf(0, 10, 50, 100, 300), Kinds: hard | zzrt.FaultShortRead | zzrt.FaultEINTR, OneShot: chance(50), Latency: int64(w(2)) * 20000000})
		if chance(15) {
			zzrt.SetFS(zzrt.FSConfig{MaxFDs: 1 + w(3)})
		}
		var raw *df.RawData
		var err error
		guard("FromCSVFilePattern", func() { raw, err = df.FromCSVFilePattern(fset.pat, fset.spec) })
		n := zzrt.HardFaults()
		rest("FromCSVFilePattern")
		zzrt.SetFS(zzrt.FSConfig{})
		if n > 0 || bad >= 0 {
			if err == nil || raw != nil {
				zzrt.Fail("error-lost", "FromCSVFilePattern: %d files, %d failed operations, malformed file %d; table %v error %v", len(fset.files), n, bad, raw != nil, err)
			}
			checked()
		} else {
			fset.checkPattern(raw, err)
		}
		for i, c := range fset.files {
			zzrt.PutFile(fset.paths[i], c.text)
		}
		guard("FromCSVFilePattern", func() { raw, err = df.FromCSVFilePattern(fset.pat, fset.spec) })
		rest("FromCSVFilePattern")
		fset.checkPattern(raw, err)
	}
}

func init() {
	register(&Scenario{ID: "C01", Run: c01})
	register(&Scenario{ID: "C02", Run: c02})
	register(&Scenario{ID: "C03", Run: c03})
}

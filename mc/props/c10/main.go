// C10: annotated feature matrices are read exactly, and written losslessly.
package main

import (
	"archive/zip"
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
)

// tokens of a file and their meaning ("" is missing)
type token struct{ text, num, cat string }

var tokens = []token{
	{"a", "", "a"}, {"2", "2", "2"}, {"NA", "", ""}, {"-1.5e2", "-150", "-1.5e2"}, {"A", "", "A"}, {"?", "", ""}, {"na", "", ""}, {"NaN", "", ""}, {"nan", "", ""},
	{"Null", "", ""}, {"null", "", ""}, {"", "", ""}, {"a b", "", "a b"}, {"+.5", "0.5", "+.5"}, {"Na", "", ""}, {"NAN", "", ""}, {"NULL", "", ""}, {"nano", "", "nano"}, {"0", "0", "0"}, {"2.0", "2", "2.0"}, {"nA", "", ""}, {"none", "", "none"}, {"-", "", "-"}, {" a", "", " a"}, {"a ", "", "a "},
}

type header struct {
	name string
	num  bool
}

var headers = []header{{"N:x", true}, {"C:y", false}, {"B:z", false}, {"plain", false}, {"n:lower", false}, {"Q", false}, {"N:", true}, {"N::C:", true}, {"N", false}, {"C:N:", false}, {"N:x y,z=1", true}}

func isType(s string) bool {
	return strings.HasPrefix(s, "N:") || strings.HasPrefix(s, "C:") || strings.HasPrefix(s, "B:")
}

func read(c *mc.Ctx, text string, want cf.Table) *C.FeatureMatrix {
	var fm *C.FeatureMatrix
	c.State(text)
	c.Step(1)
	p := c.Try(func() { fm = C.ParseAFM(strings.NewReader(text)) })
	c.Check(p == "", "reading panics: %s; file:\n%s", p, text)
	got, bad := cf.TableOf(fm)
	c.Check(bad == "", "%s; file:\n%s", bad, text)
	c.Check(got.String() == want.String(), "read as\n%s\nthe file says\n%s\nfile:\n%s", got, want, text)
	for i, f := range fm.Data {
		any := false
		for _, v := range want.Cols[i].Vals {
			any = any || v == ""
		}
		c.Check(f.MissingVals() == any, "feature %q says it has missing values: %v; file:\n%s", f.GetName(), f.MissingVals(), text)
		if !want.Cols[i].Num {
			seen := map[string]bool{}
			for _, v := range want.Cols[i].Vals {
				if v != "" {
					seen[v] = true
				}
			}
			c.Check(f.NCats() == len(seen), "feature %q has %d categories, the file has %d; file:\n%s", f.GetName(), f.NCats(), len(seen), text)
		}
	}
	c.Eval(1)
	return fm
}

func layout(c *mc.Ctx, cases int) (inCols bool, corner, eol string, final bool) {
	inCols = c.Bool("features in columns")
	switch c.Choose(4, "layout") {
	case 0:
		return inCols, ".", "\n", true
	case 1:
		if cases == 0 {
			c.Discard() // a blank line, not a header
		}
		return inCols, "", "\n", false
	case 2:
		return inCols, "feature", "\r\n", true
	}
	return inCols, ".", "\r\n", false
}

// one column, every token at every position
func column(c *mc.Ctx) {
	h := headers[c.Choose(2, "type")]
	n := c.Choose(4, "cases")
	col := cf.Column{Name: h.name, Num: h.num}
	t := cf.Table{}
	raw := cf.Table{}
	rc := col
	nt := len(tokens)
	if n == 3 {
		nt = c.Int(14, nt)
	}
	for i := 0; i < n; i++ {
		k := tokens[c.Choose(nt, "token")]
		v := k.cat
		if h.num {
			v = k.num
		}
		col.Vals = append(col.Vals, v)
		rc.Vals = append(rc.Vals, k.text)
		t.Labels = append(t.Labels, fmt.Sprintf("s%d", i))
	}
	raw.Labels = t.Labels
	t.Cols = []cf.Column{col}
	raw.Cols = []cf.Column{rc}
	inCols, corner, eol, final := layout(c, n)
	text := raw.AFM(inCols, corner, "", eol, final)
	read(c, text, t)
	c.Outcome("%v", h.num)
}

var values = []string{"1", "b", ""}

// several columns of every type
func tables(c *mc.Ctx) {
	var t cf.Table
	nc := 1 + c.Choose(3, "columns - 1")
	nr := c.Choose(c.Int(3, 3), "cases")
	used := map[string]bool{}
	for j := 0; j < nc; j++ {
		h := headers[c.Choose(len(headers), "header")]
		if used[h.name] {
			c.Discard()
		}
		used[h.name] = true
		col := cf.Column{Name: h.name, Num: h.num}
		for i := 0; i < nr; i++ {
			k := 0
			if nc < 3 {
				k = c.Choose(3, "value")
			} else {
				k = (i + j + c.Choose(2, "value")) % 3
			}
			v := values[k]
			if v == "b" && h.num {
				v = "-2.5"
			}
			col.Vals = append(col.Vals, v)
		}
		t.Cols = append(t.Cols, col)
	}
	for i := 0; i < nr; i++ {
		t.Labels = append(t.Labels, fmt.Sprintf("case %d", i))
	}
	inCols, corner, eol, final := layout(c, nr)
	if inCols && (!isType(t.Cols[0].Name)) {
		c.Discard() // the orientation is told by the type of the first feature
	}
	text := t.AFM(inCols, corner, "NA", eol, final)
	read(c, text, t)
	c.Outcome("%d %d", nc, nr)
}

// awkward names and labels
func names(c *mc.Ctx) {
	all := []string{"x", "N:x", "B:", "long name with blanks", "a,b", "a:b=c", "#1", "N", "Ünïcödé", "1", "-", "%", "'q'", "NA", ".", "5\" pipe", "a\"b\"c", "x ", strings.Repeat("long ", 200) + "name"}
	labels := append([]string{""}, all...)
	l0, l1 := mc.Pick(c, labels, "label"), mc.Pick(c, labels, "label")
	cat := mc.Pick(c, all, "category")
	feat := mc.Pick(c, all, "feature")
	inCols := c.Bool("features in columns")
	if !inCols && isType(l0) {
		c.Discard()
	}
	if cat == "NA" {
		cat = ""
	}
	t := cf.Table{Labels: []string{l0, l1}, Cols: []cf.Column{{Name: "C:first", Num: false, Vals: []string{"u", cat}}, {Name: feat, Num: strings.HasPrefix(feat, "N:"), Vals: []string{"7", "7.5"}}}}
	fm := read(c, t.AFM(inCols, ".", "NA", "\n", true), t)
	if !isType(l0) {
		write(c, fm, t, []int{0, 1})
	}
}

func write(c *mc.Ctx, fm *C.FeatureMatrix, t cf.Table, cases []int) {
	before, _ := cf.TableOf(fm)
	var buf bytes.Buffer
	var err error
	p := c.Try(func() { err = fm.WriteCases(&buf, cases) })
	c.Check(p == "" && err == nil, "writing cases %v of %s: %s %v", cases, t, p, err)
	after, _ := cf.TableOf(fm)
	c.Check(before.String() == after.String(), "writing cases %v changed the data from\n%s\nto\n%s", cases, before, after)
	want := t.Rows(cases)
	read(c, buf.String(), want)
}

// every selection of cases
func selections(c *mc.Ctx) {
	n := 3
	t := cf.Table{Cols: []cf.Column{{Name: "N:x", Num: true}, {Name: "C:y"}, {Name: "B:z"}}}
	for i := 0; i < n; i++ {
		t.Labels = append(t.Labels, fmt.Sprintf("s%d", i))
	}
	for j := range t.Cols {
		for i := 0; i < n; i++ {
			k := c.Choose(3, "value")
			v := []string{[]string{"1.25", "-3", ""}[k], []string{"b", "a", ""}[k], []string{"true", "false", ""}[k]}[j]
			if j == 2 && i > 0 && k == 1 {
				c.Discard()
			}
			t.Cols[j].Vals = append(t.Cols[j].Vals, v)
		}
	}
	k := c.Choose(4, "selected")
	if len(t.Cols) == 0 {
		k = 0
	}
	var cases []int
	for i := 0; i < k; i++ {
		cases = append(cases, c.Choose(n, "case"))
	}
	write(c, t.Build(), t, cases)
	c.Outcome("%v", cases)
}

// numbers survive exactly
func numbers(c *mc.Ctx) {
	fs := []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.0 / 3, 1e21, 1e20, 123456789, 1e-7, 5e-324, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), 16777217, 9007199254740993, 0.30000000000000004, 3.4e38, 1e39, 2.5e-45, math.Pi, 1e15 + 0.5, 1 << 53}
	var v []string
	for i := 0; i < 3; i++ {
		v = append(v, cf.CanonNum(mc.Pick(c, fs, "number")))
	}
	t := cf.Table{Labels: []string{"a", "b", "c"}, Cols: []cf.Column{{Name: "N:v", Num: true, Vals: v}}}
	fm := read(c, t.AFM(c.Bool("features in columns"), ".", "NA", "\n", true), t)
	for i, s := range v {
		w, _ := strconv.ParseFloat(s, 64)
		g := fm.Data[0].(*C.DenseNumFeature).Get(i)
		c.Check(math.Float64bits(w) == math.Float64bits(g), "%s read as %v", s, g)
	}
	write(c, fm, t, []int{2, 0, 1})
}

// quotation marks
func quotes(c *mc.Ctx) {
	v := mc.Pick(c, []string{"\"quoted\"", "\"open", "\"\""}, "value")
	t := cf.Table{Labels: []string{"a", "b"}, Cols: []cf.Column{{Name: "C:v", Num: false, Vals: []string{v, "u"}}, {Name: "N:w", Num: true, Vals: []string{"1", "2"}}}}
	inCols := c.Bool("features in columns")
	text := t.AFM(inCols, ".", "NA", "\n", true)
	var fm *C.FeatureMatrix
	p := c.Try(func() { fm = C.ParseAFM(strings.NewReader(text)) })
	got, bad := cf.Table{}, p
	if p == "" {
		got, bad = cf.TableOf(fm)
	}
	c.Step(1)
	c.State(text)
	if bad != "" || got.String() != t.String() {
		c.Known("leading-quotation-mark", "%s read as %s %s", t, got, bad)
	}
}

// files on disk, plain and zipped; long ones
func files(c *mc.Ctx) {
	n := mc.Pick(c, []int{2, 1500, 20000, 180000}, "cases")
	zipped := c.Bool("zipped")
	inCols := c.Bool("features in columns")
	final := c.Bool("final newline")
	t := cf.Table{Cols: []cf.Column{{Name: "N:x", Num: true}, {Name: "C:y"}, {Name: "B:z"}}}
	for i := 0; i < n; i++ {
		t.Labels = append(t.Labels, fmt.Sprintf("s%d", i))
		x, y, z := strconv.Itoa(i*7919%1001), fmt.Sprintf("cat%d", i%97), "true"
		if i%5 == 3 {
			x = ""
		}
		if i%7 == 2 {
			y = ""
		}
		if i%3 == 1 {
			z = "false"
		}
		t.Cols[0].Vals = append(t.Cols[0].Vals, x)
		t.Cols[1].Vals = append(t.Cols[1].Vals, y)
		t.Cols[2].Vals = append(t.Cols[2].Vals, z)
	}
	dir, err := ioutil.TempDir("", "c10")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, mc.Pick(c, []string{"data.fm", "data.afm.zip", "arff.tsv"}, "name"))
	text := t.AFM(inCols, ".", "NA", "\n", final)
	f, err := os.Create(fn)
	if err != nil {
		panic(err)
	}
	if zipped {
		w := zip.NewWriter(f)
		e, _ := w.Create("data.fm")
		e.Write([]byte(text))
		w.Close()
	} else {
		f.WriteString(text)
	}
	f.Close()
	var fm *C.FeatureMatrix
	c.Step(1)
	p := c.Try(func() { fm, err = C.LoadAFM(fn) })
	c.Check(p == "" && err == nil, "LoadAFM: %s %v", p, err)
	got, bad := cf.TableOf(fm)
	c.Check(bad == "", "%s", bad)
	if got.String() != t.String() {
		c.Failf("table of %d cases not read exactly (first columns %.200s)", n, got)
	}
	p = c.Try(func() { fm, err = C.LoadAFM(filepath.Join(dir, "absent")) })
	c.Check(p == "" && err != nil, "LoadAFM of an absent file: %s %v", p, err)
}

// nothing to read
func empty(c *mc.Ctx) {
	text := mc.Pick(c, []string{"", ".\n", ".", "\n", ".\ta\n", ".\ta\tb"}, "file")
	var fm *C.FeatureMatrix
	p := c.Try(func() { fm = C.ParseAFM(strings.NewReader(text)) })
	c.State(text)
	c.Check(p == "", "reading %q panics: %s", text, p)
	c.Check(fm != nil && len(fm.Data) == 0 && len(fm.Map) == 0, "reading %q gives features", text)
	want := strings.Count(text, "\t")
	c.Check(len(fm.CaseLabels) == want, "reading %q gives case labels %q", text, fm.CaseLabels)
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C10", Quick: 150, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one file read by the real parser (and, where stated, written by the real writer first); the oracle is the table the file was generated from",
		Assumptions: []string{"the first case label does not look like a typed feature name (it tells the orientation)", "feature names are distinct", "a number that is out of range or not a number at all is missing"},
		Scenarios: []mc.Scenario{
			{Name: "column", Run: column, Bound: "a numeric or categorical column of 0..3 cases, every sequence of 25 tokens (14 at length 3 in the quick tier), both orientations, 4 line ending layouts"},
			{Name: "tables", Run: tables, Bound: "1..3 columns of 11 headers, 0..2 cases, 3 values each (2 for three columns), both orientations, 4 layouts"},
			{Name: "names", Run: names, Bound: "every choice of 19 awkward names (one of 1000 letters) for two case labels (or none), a category and a feature; read, written and read"},
			{Name: "selections", Run: selections, Bound: "every table of 3 typed columns over 3 cases and 3 values, every sequence of 0..3 selected cases, written and read back"},
			{Name: "numbers", Run: numbers, Bound: "every triple of 24 extreme numbers, bit for bit, both orientations, written and read back"},
			{Name: "quotes", Run: quotes, Bound: "3 values starting with quotation marks (recorded finding)"},
			{Name: "files", Run: files, Bound: "plain and zipped files of 2, 1500, 20000 and 180000 cases (some MB), with misleading names"},
			{Name: "empty", Run: empty, Bound: "6 files without features"},
		},
	})
}

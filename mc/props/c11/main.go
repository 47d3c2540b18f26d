// C11: ARFF and libsvm data are read exactly and written data reads back.
package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
)

func expect(c *mc.Ctx, what string, f func() *C.FeatureMatrix, text string, want cf.Table) *C.FeatureMatrix {
	var fm *C.FeatureMatrix
	c.State(text)
	c.Step(1)
	p := c.Try(func() { fm = f() })
	c.Check(p == "", "reading %s panics: %s; file:\n%s", what, p, text)
	got, bad := cf.TableOf(fm)
	c.Check(bad == "", "%s: %s; file:\n%s", what, bad, text)
	c.Check(got.String() == want.String(), "%s read as\n%s\nthe file says\n%s\nfile:\n%s", what, got, want, text)
	c.Eval(1)
	return fm
}

func arff(c *mc.Ctx, text string, want cf.Table) *C.FeatureMatrix {
	return expect(c, "arff", func() *C.FeatureMatrix { return C.ParseARFF(strings.NewReader(text)) }, text, want)
}

func svm(c *mc.Ctx, text string, want cf.Table) *C.FeatureMatrix {
	return expect(c, "libsvm", func() *C.FeatureMatrix { return C.ParseLibSVM(strings.NewReader(text)) }, text, want)
}

func labels(n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprint(i))
	}
	return
}

// ---- ARFF

type attr struct {
	decl string
	num  bool
}

var attrs = []attr{{"NUMERIC", true}, {"{a,b,1,-2.5}", false}, {"real", true}, {"{ a, b, 1, -2.5 }", false}, {"Integer", true}, {"numeric", true}, {"string", false}, {"REAL", true}}

func arffShapes(c *mc.Ctx) {
	nc := 1 + c.Choose(2, "attributes - 1")
	nr := c.Choose(3, "cases")
	style := c.Choose(6, "keywords")
	lay := c.Choose(6, "layout")
	t := cf.Table{Labels: labels(nr)}
	kw := func(s string) string {
		if style%2 == 1 {
			return strings.ToUpper(s)
		}
		if style == 4 {
			return "@" + strings.ToUpper(s[1:2]) + s[2:]
		}
		return s
	}
	var lines []string
	if style < 4 {
		lines = append(lines, kw("@relation")+" r")
	}
	if style == 2 {
		lines = append(lines, "", "% @attribute comment numeric", "%@data")
	}
	for j := 0; j < nc; j++ {
		a := attrs[c.Choose(len(attrs), "type")]
		name := []string{"sepal", "N:width"}[j]
		sep := " "
		if style == 3 || style == 5 {
			sep = " \t "
		}
		lines = append(lines, kw("@attribute")+sep+name+sep+a.decl)
		col := cf.Column{Name: name, Num: a.num}
		for i := 0; i < nr; i++ {
			v := []string{"1", "a", "?", "-2.5"}[c.Choose(4, "value")]
			if v == "a" && a.num {
				v = "1e2"
			}
			if v == "?" {
				v = ""
			}
			col.Vals = append(col.Vals, v)
		}
		t.Cols = append(t.Cols, col)
	}
	if style == 1 {
		lines = append(lines, "", "%", "% data follow")
	}
	lines = append(lines, kw("@data"))
	sep, eol := ",", "\n"
	if lay == 3 {
		sep = ", "
	}
	if lay == 4 || lay == 5 {
		eol = "\r\n"
	}
	for i := 0; i < nr; i++ {
		if lay == 1 {
			lines = append(lines, "% a comment, with commas", "")
		}
		var v []string
		for _, col := range t.Cols {
			s := col.Vals[i]
			if s == "" {
				s = "?"
			}
			v = append(v, s)
		}
		lines = append(lines, strings.Join(v, sep))
	}
	if lay == 1 {
		lines = append(lines, "%")
	}
	text := strings.Join(lines, eol)
	if lay != 2 && lay != 5 || nr == 0 {
		text += eol
	}
	fm := arff(c, text, t)
	// the same table as an annotated feature matrix
	if nr > 0 {
		for j := range t.Cols {
			p := "C:"
			if t.Cols[j].Num {
				p = "N:"
			}
			t.Cols[j].Name = p + t.Cols[j].Name
		}
		afm := C.ParseAFM(strings.NewReader(t.AFM(false, ".", "NA", "\n", true)))
		for j, f := range fm.Data {
			for i := 0; i < nr; i++ {
				c.Check(f.GetStr(i) == afm.Data[j].GetStr(i) && f.IsMissing(i) == afm.Data[j].IsMissing(i), "case %d of attribute %d is %q in the arff file and %q in the feature matrix", i, j, f.GetStr(i), afm.Data[j].GetStr(i))
			}
			c.Check(f.NCats() == afm.Data[j].NCats() && f.MissingVals() == afm.Data[j].MissingVals(), "attribute %d differs from the same in a feature matrix", j)
		}
	}
	c.Outcome("%d %d", nc, nr)
}

var arffCats = []string{"b", "a", "x y", "p,q", "{z}", "it's", "100%", "u=v", "5\" pipe", "  lead", "Ü", "-", "?!"}

// ARFF files written and read back
func arffWrite(c *mc.Ctx) {
	n := 3
	t := cf.Table{Cols: []cf.Column{{Name: "C:y"}, {Name: "N:x", Num: true}}}
	t.Labels = []string{"p", "q", "r"}
	for i := 0; i < n; i++ {
		v := ""
		if k := c.Choose(len(arffCats)+1, "category"); k > 0 {
			v = arffCats[k-1]
		}
		t.Cols[0].Vals = append(t.Cols[0].Vals, v)
		x := ""
		if i == 0 {
			x = []string{"", "0.1", "-1e300", "5e-324"}[c.Choose(4, "number")]
		} else {
			x = []string{"", "7"}[i%2]
		}
		t.Cols[1].Vals = append(t.Cols[1].Vals, x)
	}
	k := c.Choose(3, "selected")
	var cases []int
	for i := 0; i < k; i++ {
		cases = append(cases, c.Choose(n, "case"))
	}
	fm := t.Build()
	var buf bytes.Buffer
	var err error
	p := c.Try(func() { err = C.WriteArffCases(fm, cases, "rel", &buf) })
	c.Check(p == "" && err == nil, "writing cases %v of %s as arff: %s %v", cases, t, p, err)
	after, bad := cf.TableOf(fm)
	c.Check(bad == "" && after.String() == t.String(), "writing arff changed the data to %s %s", after, bad)
	want := t.Rows(cases)
	want.Labels = labels(k)
	arff(c, buf.String(), want)
}

// ---- libsvm

func svmShapes(c *mc.Ctx) {
	numTarget := c.Bool("numeric response")
	n := 1 + c.Choose(c.Int(3, 3), "cases - 1")
	maxI := 2
	var lines []string
	var cells []map[int]string
	t := cf.Table{Labels: labels(n)}
	t.Cols = []cf.Column{{Name: "0", Num: numTarget}}
	ncol := 0
	for i := 0; i < n; i++ {
		y := []string{"1", "-1", "a"}[c.Choose(2, "response")]
		if numTarget {
			y = []string{"1.5", "-2", "0.25"}[c.Choose(2, "response")]
			if i == 0 && y == "-2" {
				y = "-2.0" // the response is numeric if the first one has a decimal point
			}
		}
		t.Cols[0].Vals = append(t.Cols[0].Vals, y)
		l := y
		m := map[int]string{}
		for j := 1; j <= maxI; j++ {
			idx := j
			v := []string{"absent", "3", "0", "-0.5"}[c.Choose(c.Int(3, 4), "value")]
			if v == "absent" {
				continue
			}
			if j == 2 && c.Bool("skip an index") {
				idx = 4
			}
			m[idx] = v
			if idx > ncol {
				ncol = idx
			}
			l += " " + fmt.Sprint(idx) + ":" + v
		}
		cells = append(cells, m)
		lines = append(lines, l)
	}
	for j := 1; j <= ncol; j++ {
		col := cf.Column{Name: fmt.Sprint(j), Num: true}
		for i := range cells {
			v := cells[i][j]
			if v == "" {
				v = "0"
			}
			col.Vals = append(col.Vals, v)
		}
		t.Cols = append(t.Cols, col)
	}
	eol, end := "\n", "\n"
	switch c.Choose(5, "layout") {
	case 1:
		end = ""
	case 2:
		eol, end = "\r\n", "\r\n"
	case 3:
		for i := range lines {
			lines[i] = strings.Replace(lines[i], " ", "  ", -1) + " "
		}
	case 4:
		eol, end = "\n\n", "\n\n"
	}
	svm(c, strings.Join(lines, eol)+end, t)
	c.Outcome("%v %d", numTarget, ncol)
}

// encodeRef is the documented encoding of the predictors of a table.
func encodeRef(t cf.Table, target int) ([][]float64, bool) {
	var out [][]float64
	ambiguous := false
	for j, col := range t.Cols {
		if j == target {
			continue
		}
		if col.Num {
			sum, n := 0.0, 0
			v := make([]float64, len(col.Vals))
			for i, s := range col.Vals {
				if s != "" {
					v[i], _ = strconv.ParseFloat(s, 64)
					sum += v[i]
					n++
				}
			}
			for i, s := range col.Vals {
				if s == "" {
					v[i] = sum / float64(n)
				}
			}
			out = append(out, v)
			continue
		}
		num := map[string]int{}
		count := map[string]int{}
		var back []string
		for _, s := range col.Vals {
			if s == "" {
				continue
			}
			if _, ok := num[s]; !ok {
				num[s] = len(back)
				back = append(back, s)
			}
			count[s]++
		}
		mode, ties := "", 0
		for _, s := range back {
			if mode == "" || count[s] > count[mode] {
				mode, ties = s, 1
			} else if count[s] == count[mode] {
				ties++
			}
		}
		for _, s := range col.Vals {
			if s == "" && ties > 1 {
				ambiguous = true
			}
		}
		val := func(s string) int {
			if s == "" {
				s = mode
			}
			return num[s]
		}
		if len(back) <= 2 {
			v := make([]float64, len(col.Vals))
			for i, s := range col.Vals {
				v[i] = float64(val(s))
			}
			out = append(out, v)
			continue
		}
		for k := range back {
			v := make([]float64, len(col.Vals))
			for i, s := range col.Vals {
				if val(s) == k {
					v[i] = 1
				}
			}
			out = append(out, v)
		}
	}
	return out, ambiguous
}

func anyValue(v []string) bool {
	for _, s := range v {
		if s != "" {
			return true
		}
	}
	return false
}

// writing libsvm and reading it back
func svmWrite(cats bool) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		n := 4
		t := cf.Table{}
		t.Labels = []string{"p", "q", "r", "s"}
		kind := c.Choose(3, "response")
		tcol := cf.Column{Name: "T", Num: kind == 1}
		for i := 0; i < n; i++ {
			v := []string{"yes", "no", "maybe"}[i%3]
			if kind == 1 {
				v = []string{"0.1234567891", "2", "-1.25e-07"}[i%3]
			}
			tcol.Vals = append(tcol.Vals, v)
		}
		if kind == 2 {
			tcol.Vals[2] = ""
		}
		x := cf.Column{Name: "N:x", Num: true}
		y := cf.Column{Name: "C:y"}
		for i := 0; i < n; i++ {
			k := c.Choose(4, "number")
			x.Vals = append(x.Vals, []string{"0", "2.123456789012", "", "-1e-07"}[k])
			if cats {
				k = c.Choose(4, "category")
				y.Vals = append(y.Vals, []string{"b", "a", "", "c"}[k])
			} else {
				y.Num = true
				y.Vals = append(y.Vals, []string{"1", "0", "", "4"}[i])
			}
		}
		if !anyValue(x.Vals) || !anyValue(y.Vals) {
			c.Discard() // no mean, no mode
		}
		pos := c.Choose(c.Int(2, 3), "position of the response")
		switch pos {
		case 0:
			t.Cols = []cf.Column{x, y, tcol}
		case 1:
			t.Cols = []cf.Column{tcol, x, y}
			pos = 0
		case 2:
			t.Cols = []cf.Column{y, tcol, x}
		}
		for j := range t.Cols {
			if t.Cols[j].Name == "T" {
				pos = j
			}
		}
		ref, ambiguous := encodeRef(t, pos)
		if ambiguous {
			c.Discard() // two most frequent categories
		}
		whole := c.Bool("whole table")
		sel := [][]int{{0, 1, 2, 3}, {2, 0}, {3}, {}}[0]
		if !whole {
			sel = [][]int{{2, 0}, {3}, {1, 3, 0}, {}, {0, 1, 2, 3}}[c.Choose(c.Int(3, 5), "selection")]
		}
		fm := t.Build()
		var buf bytes.Buffer
		var err error
		p := c.Try(func() {
			if whole {
				err = C.WriteLibSvm(fm, "T", &buf)
			} else {
				err = C.WriteLibSvmCases(fm, sel, "T", &buf)
			}
		})
		c.Check(p == "" && err == nil, "writing cases %v of %s as libsvm: %s %v", sel, t, p, err)
		after, bad := cf.TableOf(fm)
		c.Check(bad == "" && after.String() == t.String(), "writing libsvm changed the data from\n%s\nto\n%s %s", t, after, bad)
		text := buf.String()
		c.State(text)
		c.Step(2)
		if len(sel) == 0 {
			c.Check(text == "", "no cases written as %q", text)
			return
		}
		var back *C.FeatureMatrix
		p = c.Try(func() { back = C.ParseLibSVM(strings.NewReader(text)) })
		c.Check(p == "", "reading back panics: %s; file:\n%s", p, text)
		got, bad := cf.TableOf(back)
		c.Check(bad == "", "%s; file:\n%s", bad, text)
		c.Check(len(got.Labels) == len(sel), "%d cases written, %d read; file:\n%s", len(sel), len(got.Labels), text)
		code := map[string]string{}
		for _, v := range tcol.Vals {
			if _, ok := code[v]; !ok && v != "" {
				code[v] = fmt.Sprint(len(code))
			}
		}
		for k, i := range sel {
			y := back.Data[0].GetStr(k)
			w := tcol.Vals[i]
			switch {
			case w == "":
				c.Check(back.Data[0].IsMissing(k), "the response of case %d is missing but was written as %q; table %s file:\n%s", i, y, t, text)
			case tcol.Num:
				a, _ := strconv.ParseFloat(w, 64)
				b, e := strconv.ParseFloat(y, 64)
				c.Check(e == nil && a == b, "the response of case %d, %s, was written as %q; table %s file:\n%s", i, w, y, t, text)
			default:
				c.Check(y == code[w], "the response of case %d, %s, number %s, was written as %q; table %s file:\n%s", i, w, code[w], y, t, text)
			}
			c.Check(len(back.Data)-1 <= len(ref), "%d predictors written, %d expected; table %s file:\n%s", len(back.Data)-1, len(ref), t, text)
			for j := range ref {
				g := 0.0
				if j+1 < len(back.Data) {
					g = back.Data[j+1].(*C.DenseNumFeature).Get(k)
					if back.Data[j+1].IsMissing(k) {
						g = math.NaN()
					}
				}
				c.Check(cf.Close(g*1e7, ref[j][i]*1e7, 1e-12), "predictor %d of case %d is %v, written as %v; table %s file:\n%s", j+1, i, ref[j][i], g, t, text)
			}
			c.Eval(1)
		}
		c.Outcome("%v %d", whole, len(ref))
	}
}

func svmBad(c *mc.Ctx) {
	t := cf.Table{Labels: []string{"a"}, Cols: []cf.Column{{Name: "x", Num: true, Vals: []string{"1"}}}}
	var err error
	whole := c.Bool("whole table")
	p := c.Try(func() {
		if whole {
			err = C.WriteLibSvm(t.Build(), "absent", ioutil.Discard)
		} else {
			err = C.WriteLibSvmCases(t.Build(), []int{0}, "absent", ioutil.Discard)
		}
	})
	c.Check(p == "" && err != nil, "writing libsvm with an absent response: %s %v", p, err)
	c.State(fmt.Sprint(whole))
}

// files by name, long ones
func files(c *mc.Ctx) {
	n := mc.Pick(c, []int{3, 9000, 180000}, "cases")
	isArff := c.Bool("arff")
	final := c.Bool("final newline")
	t := cf.Table{Labels: labels(n)}
	y := cf.Column{Name: "0"}
	x := cf.Column{Name: "1", Num: true}
	z := cf.Column{Name: "2", Num: true}
	var lines []string
	if isArff {
		lines = append(lines, "@relation r", "@attribute 0 {u,v,w}", "@attribute 1 real", "@attribute 2 numeric", "@data")
	}
	for i := 0; i < n; i++ {
		yy, xx, zz := []string{"u", "v", "w"}[i*i%3], fmt.Sprint(i*31%17), fmt.Sprint(float64(i%1000)/8)
		y.Vals, x.Vals, z.Vals = append(y.Vals, yy), append(x.Vals, xx), append(z.Vals, zz)
		if isArff {
			lines = append(lines, yy+","+xx+","+zz)
		} else {
			l := yy
			if xx != "0" {
				l += " 1:" + xx
			}
			if zz != "0" {
				l += " 2:" + zz
			}
			lines = append(lines, l)
		}
	}
	t.Cols = []cf.Column{y, x, z}
	text := strings.Join(lines, "\n")
	if final {
		text += "\n"
	}
	dir, err := ioutil.TempDir("", "c11")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, map[bool]string{true: "d.arff", false: "d.libsvm"}[isArff])
	if err := ioutil.WriteFile(fn, []byte(text), 0644); err != nil {
		panic(err)
	}
	var fm *C.FeatureMatrix
	p := c.Try(func() { fm, err = C.LoadAFM(fn) })
	c.Check(p == "" && err == nil, "LoadAFM: %s %v", p, err)
	c.Step(1)
	got, bad := cf.TableOf(fm)
	c.Check(bad == "" && got.String() == t.String(), "file of %d cases read wrongly: %s %.200s", n, bad, got)
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C11", Quick: 150, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one file read by the real parser (and, where stated, written by the real writer first); the oracle is the table the file was generated from, and the documented encoding computed separately",
		Assumptions: []string{"ARFF names without blanks or quotation marks; dense ARFF data", "libsvm files are untyped: the response is numeric if the first one has a decimal point, trailing predictors that are zero throughout are not written"},
		Scenarios: []mc.Scenario{
			{Name: "arff", Run: arffShapes, Bound: "1..2 attributes of 8 declarations, 0..2 cases over 4 values, 6 styles of header, 6 layouts (comments, blank lines, blanks after commas, CRLF, no final newline)"},
			{Name: "arff written", Run: arffWrite, Bound: "3 cases over 13 awkward categories or missing and 4 numbers, every selection of 0..2 cases"},
			{Name: "libsvm", Run: svmShapes, Bound: "1..3 cases, 2 entries each absent, zero or one of 2 values, possibly leaving out indices, numeric or categorical response, 5 layouts"},
			{Name: "libsvm written", Run: svmWrite(true), Bound: "a numeric and a categorical predictor over 4 cases and 4 values including missing, 3 responses, every position of the response, whole table or selections"},
			{Name: "libsvm written, numbers only", Run: svmWrite(false), Bound: "the same with numeric predictors only"},
			{Name: "libsvm without response", Run: svmBad, Bound: "an absent response is an error"},
			{Name: "files", Run: files, Bound: "files of 3, 9000 and 180000 cases loaded by name"},
		},
	})
}

// C27: format conversions preserve the data.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	growforest "github.com/ryanbressler/CloudForest/growforest"
	toafm "github.com/ryanbressler/CloudForest/utils/toafm"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/model"
	"verifmc/sched"
)

// ---- toafm

// run converts a file and returns what was written; ok is false if toafm
// reported an error.
func run(c *mc.Ctx, what, name, text string, args ...string) (string, bool) {
	cmd.Keep(name, text)
	// an output file that exists is replaced
	cmd.Put("out", strings.Repeat("old\tcontents\n", 3)+strings.Repeat("x", 2*len(text)+400))
	_, res := cmd.Run(c, sched.Config{NoRaces: true, KeepRand: true}, toafm.Main, append([]string{"-data", cmd.Path(name), "-out", cmd.Path("out")}, args...)...)
	c.Check(res.Deadlock == "", "%s: %s\n%s", what, res.Deadlock, res.Stack)
	if res.Exit != "" {
		c.Check(!strings.HasPrefix(res.Exit, "panic"), "%s: %s\n%s", what, res.Exit, res.Stack)
		return res.Exit, false
	}
	out, ok := cmd.Get("out")
	c.Check(ok, "%s: nothing is written", what)
	return out, true
}

// read parses an annotated feature matrix with features in rows, plainly.
func read(c *mc.Ctx, what, text string) cf.Table {
	var t cf.Table
	c.Check(strings.HasSuffix(text, "\n"), "%s: the last line is not finished: %q", what, text)
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	head := strings.Split(lines[0], "\t")
	t.Labels = head[1:]
	for _, l := range lines[1:] {
		f := strings.Split(l, "\t")
		c.Check(len(f) == len(head), "%s: %d fields under %d headers: %q", what, len(f), len(head), text)
		o := cf.Column{Name: f[0], Num: strings.HasPrefix(f[0], "N:")}
		for _, v := range f[1:] {
			if v == "NA" {
				v = ""
			}
			o.Vals = append(o.Vals, v)
		}
		t.Cols = append(t.Cols, o)
	}
	return t
}

// annotated gives the names their prefixes.
func annotated(t cf.Table) cf.Table {
	out := cf.Table{Labels: t.Labels}
	for _, o := range t.Cols {
		switch {
		case o.Num && !strings.HasPrefix(o.Name, "N:"):
			o.Name = "N:" + o.Name
		case !o.Num && !strings.HasPrefix(o.Name, "C:") && !strings.HasPrefix(o.Name, "B:"):
			o.Name = "C:" + o.Name
		}
		out.Cols = append(out.Cols, o)
	}
	return out
}

// same checks what was written against the data, reading it both plainly and
// with the library.
func same(c *mc.Ctx, what, text string, want cf.Table) {
	got := read(c, what, text)
	c.Check(got.String() == want.String(), "%s: it says\n%s\nthe data\n%s", what, got, want)
	var fm *C.FeatureMatrix
	p := c.Try(func() { fm = C.ParseAFM(strings.NewReader(text)) })
	c.Check(p == "", "%s: it cannot be read: %s\n%s", what, p, text)
	back, bad := cf.TableOf(fm)
	c.Check(bad == "" && back.String() == want.String(), "%s: it reads as\n%s %s\nthe data\n%s", what, back, bad, want)
	c.Eval(2)
}

func labels(n int) (out []string) {
	for i := 0; i < n; i++ {
		out = append(out, fmt.Sprint(i))
	}
	return
}

// arff writes a table.
func arff(t cf.Table) string {
	s := "@relation r\n"
	for _, o := range t.Cols {
		typ := "numeric"
		if !o.Num {
			typ = "{" + strings.Join(append(model.Cats(o), "never"), ",") + "}"
		}
		s += "@attribute " + o.Name + " " + typ + "\n"
	}
	s += "@data\n"
	for i := range t.Labels {
		var f []string
		for _, o := range t.Cols {
			v := o.Vals[i]
			if v == "" {
				v = "?"
			}
			f = append(f, v)
		}
		s += strings.Join(f, ",") + "\n"
	}
	return s
}

// source writes the file of a format.
func source(t cf.Table, format string) (name, text string) {
	switch format {
	case "arff":
		return "in.arff", arff(t)
	case "columns":
		return "in.afm", t.AFM(true, ".", "NA", "\n", true)
	}
	return "in.afm", t.AFM(false, ".", "NA", "\n", true)
}

var numbers = []string{"1", "", "-2.5", "1e+300"}
var cats = []string{"a", "", "B b", "0"}

// values: every small table, from every format.
func values(c *mc.Ctx) {
	format := mc.Pick(c, []string{"rows", "columns", "arff"}, "format")
	nc := 1 + c.Choose(c.Int(2, 3), "features - 1")
	nr := 1 + c.Choose(2, "cases - 1")
	var t cf.Table
	t.Labels = labels(nr)
	if format != "arff" {
		t.Labels = []string{"case one", "TCGA-2"}[:nr]
	}
	for j := 0; j < nc; j++ {
		var o cf.Column
		kinds := 4
		switch c.Choose(kinds, "kind") {
		case 0:
			o = cf.Column{Name: fmt.Sprint("N:x", j), Num: true}
		case 1:
			o = cf.Column{Name: fmt.Sprint("C:x", j)}
		case 2:
			o = cf.Column{Name: fmt.Sprint("B:x", j)}
		case 3:
			// a name without a prefix: numeric only if the format says so
			o = cf.Column{Name: fmt.Sprint("x", j), Num: format == "arff" && c.Bool("numeric")}
			if format == "columns" && j == 0 {
				c.Discard() // the first name says where the features are
			}
		}
		for i := 0; i < nr; i++ {
			vs := cats
			if o.Num {
				vs = numbers
			}
			k := 4
			if nc == 3 {
				k = 2
			}
			o.Vals = append(o.Vals, vs[c.Choose(k, "value")])
		}
		t.Cols = append(t.Cols, o)
	}
	what := format + " " + t.String()
	name, text := source(t, format)
	out, ok := run(c, what, name, text)
	c.Check(ok, "%s: %s", what, out)
	same(c, what, out, annotated(t))
	c.State(what)
	c.Outcome("%s %d", format, nc)
}

// svm: libsvm data.
func svm(c *mc.Ctx) {
	nr := 1 + c.Choose(c.Int(2, 3), "cases - 1")
	kind := c.Choose(2, "response")
	t := cf.Table{Labels: labels(nr), Cols: []cf.Column{{Name: "0", Num: kind == 1}, {Name: "1", Num: true}, {Name: "2", Num: true}, {Name: "3", Num: true}}}
	text := ""
	top := 0
	for i := 0; i < nr; i++ {
		y := [][]string{{"1", "-1", "b"}, {"0.5", "2", "-1.25"}}[kind][i%3]
		t.Cols[0].Vals = append(t.Cols[0].Vals, y)
		text += y
		for j := 1; j < 4; j++ {
			v := []string{"0", "3", "-0.125"}[c.Choose(3-j%2, "entry")]
			if v != "0" {
				text += fmt.Sprintf(" %d:%s", j, v)
				if j > top {
					top = j
				}
			}
			t.Cols[j].Vals = append(t.Cols[j].Vals, v)
		}
		text += "\n"
	}
	t.Cols = t.Cols[:top+1]
	what := "libsvm " + strconv.Quote(text)
	out, ok := run(c, what, "in.libsvm", text)
	c.Check(ok, "%s: %s", what, out)
	same(c, what, out, annotated(t))
	c.State(text)
	c.Outcome("%d", top)
}

// sample is a table with all kinds of features; nothing in it occurs in
// anonymous data.
func sample(format string) cf.Table {
	t := cf.Table{Labels: []string{"patient a", "patient b", "patient c", "patient d", "patient e"}}
	if format == "arff" {
		t.Labels = labels(5)
	}
	t.Cols = []cf.Column{
		{Name: "N:age", Num: true, Vals: []string{"1.5", "-2", "", "40", "0"}},
		{Name: "C:site", Vals: []string{"", "oslo", "paris", "oslo", "rome"}},
		{Name: "B:smoker", Vals: []string{"yes", "no", "no", "", "yes"}},
		{Name: "N:dose", Num: true, Vals: []string{"0.25", "7", "3", "3", "-1"}},
		{Name: "C:gene", Vals: []string{"tp53", "tp53", "", "kras", "tp53"}},
		{Name: "C:same", Vals: []string{"alike", "alike", "alike", "alike", "alike"}},
	}
	if format == "arff" {
		t.Cols[0].Name, t.Cols[4].Name = "age", "gene"
	}
	return t
}

func find(t cf.Table, name string) int {
	for j, o := range t.Cols {
		if o.Name == name {
			return j
		}
	}
	return -1
}

// options: blacklists, anonymous data, libsvm.
func options(c *mc.Ctx) {
	format := mc.Pick(c, []string{"rows", "columns", "arff"}, "format")
	all := sample(format)
	k := len(all.Cols)
	var black []string
	for _, o := range all.Cols {
		if c.Bool("blacklisted") {
			black = append(black, o.Name)
		}
	}
	layout := c.Choose(3, "blacklist")
	target := c.Choose(k+2, "target") // k is none, k+1 absent
	mode := "anonymous"
	if target < k+1 && c.Bool("libsvm") {
		mode = "libsvm"
	}
	name, text := source(all, format)
	var args []string
	tn := ""
	if target < k {
		tn = all.Cols[target].Name
	}
	if target == k+1 {
		tn = "N:absent"
	}
	if target == k && mode == "libsvm" {
		mode, tn = "libsvm absent", "N:absent"
	}
	switch {
	case mode != "anonymous":
		args = append(args, "-libsvmtarget", tn)
	case tn != "":
		args = append(args, "-anontarget", tn)
	}
	list := append([]string{}, black...)
	switch layout {
	case 1:
		list = append(append([]string{"N:unknown"}, list...), list...)
	case 2:
		// more columns than names
		for i := range list {
			list[i] += "\t" + all.Cols[k-1].Name
		}
	}
	if len(list) > 0 {
		args = append(args, "-blacklist", cmd.Keep("black", strings.Join(list, "\n")+"\n"))
	}
	isBlack := map[string]bool{}
	for _, b := range black {
		isBlack[b] = b != tn
	}
	t := model.Without(all, func(o cf.Column) bool { return isBlack[o.Name] })
	if len(t.Cols) == 0 {
		c.Discard()
	}
	what := fmt.Sprintf("%s %v, blacklist %q", format, args, list)
	out, ok := run(c, what, name, text, args...)
	c.State(what)
	c.Outcome("%s %s", format, mode)
	if mode == "libsvm absent" {
		c.Check(!ok, "%s: there is no response but no error was reported", what)
		return
	}
	c.Check(ok, "%s: %s", what, out)
	switch {
	case mode == "libsvm":
		libsvm(c, what, t, tn, out)
	case tn == "":
		same(c, what, out, annotated(t))
	default:
		anonymous(c, what, all, t, tn, out)
	}
}

// libsvm checks the encoded data.
func libsvm(c *mc.Ctx, what string, t cf.Table, tn, out string) {
	enc := model.Encode(model.Impute(model.Without(t, func(o cf.Column) bool { return o.Name == tn })))
	y := t.Cols[find(t, tn)]
	lines := strings.Split(strings.TrimSuffix(out, "\n"), "\n")
	c.Check(len(lines) == len(t.Labels), "%s: %d cases instead of %d\n%s", what, len(lines), len(t.Labels), out)
	for i, l := range lines {
		f := strings.Fields(l)
		w := y.Vals[i]
		switch {
		case w == "":
			w = "NA"
		case !y.Num:
			w = fmt.Sprint(model.CatIndex(y, w))
		}
		c.Check(len(f) > 0 && (f[0] == w || y.Num && w != "NA" && num(f[0]) == num(w)), "%s: the response of case %d is %s\n%s", what, i, w, out)
		got := map[int]float64{}
		for _, e := range f[1:] {
			p := strings.Split(e, ":")
			c.Check(len(p) == 2, "%s: entry %q", what, e)
			j, err := strconv.Atoi(p[0])
			_, dup := got[j]
			c.Check(err == nil && j >= 1 && j <= len(enc.Cols) && !dup, "%s: entry %q of case %d", what, e, i)
			got[j] = num(p[1])
		}
		for j, o := range enc.Cols {
			c.Check(cf.Close(got[j+1], num(o.Vals[i]), 1e-12), "%s: entry %d, %s, of case %d is %v instead of %s\n%s", what, j+1, o.Name, i, got[j+1], o.Vals[i], out)
		}
		c.Eval(1)
	}
}

func num(s string) float64 {
	x, err := strconv.ParseFloat(s, 64)
	if err != nil {
		return math.NaN()
	}
	return x
}

// anonymous checks that everything but the names is kept.
func anonymous(c *mc.Ctx, what string, all, t cf.Table, tn, out string) {
	got := read(c, what, out)
	c.Check(len(got.Labels) == len(t.Labels), "%s: %d cases instead of %d\n%s", what, len(got.Labels), len(t.Labels), out)
	c.Check(len(got.Cols) == len(t.Cols), "%s: %d features instead of %d\n%s", what, len(got.Cols), len(t.Cols), out)
	seen := map[string]bool{}
	for _, l := range got.Labels {
		c.Check(!seen[l], "%s: two cases are labelled %q\n%s", what, l, out)
		seen[l] = true
	}
	// nothing that names something is left
	words := append([]string{}, all.Labels...)
	for _, o := range all.Cols {
		words = append(words, o.Name, strings.TrimLeft(o.Name, "NCB:"))
		if !o.Num {
			words = append(words, model.Cats(o)...)
		}
	}
	for _, w := range words {
		if len(w) > 1 && math.IsNaN(num(w)) {
			c.Check(!strings.Contains(out, w), "%s: %q is still there\n%s", what, w, out)
		}
	}
	// the features are the same, in some order, the target first
	used := make([]bool, len(t.Cols))
	if ti := find(t, tn); ti >= 0 {
		c.Check(alike(got.Cols[0], t.Cols[ti]), "%s: the first feature is %v instead of %v", what, got.Cols[0], t.Cols[ti])
		used[ti] = true
	}
	names := map[string]bool{}
	for j, o := range got.Cols {
		c.Check(!names[o.Name], "%s: two features are called %q\n%s", what, o.Name, out)
		names[o.Name] = true
		if j == 0 && find(t, tn) >= 0 {
			continue
		}
		found := false
		for i, p := range t.Cols {
			if !used[i] && alike(o, p) {
				used[i], found = true, true
				break
			}
		}
		c.Check(found, "%s: feature %v is none of %v", what, o, t)
	}
	var fm *C.FeatureMatrix
	p := c.Try(func() { fm = C.ParseAFM(strings.NewReader(out)) })
	c.Check(p == "", "%s: it cannot be read: %s\n%s", what, p, out)
	back, bad := cf.TableOf(fm)
	c.Check(bad == "" && back.String() == got.String(), "%s: it reads as\n%s %s\nit says\n%s", what, back, bad, got)
	c.Eval(2)
}

// alike: the same numbers, or the same categories under other names.
func alike(a, b cf.Column) bool {
	if a.Num != b.Num || len(a.Vals) != len(b.Vals) {
		return false
	}
	to, from := map[string]string{}, map[string]string{}
	for i, v := range a.Vals {
		w := b.Vals[i]
		if (v == "") != (w == "") {
			return false
		}
		if v == "" {
			continue
		}
		if a.Num {
			if num(v) != num(w) {
				return false
			}
			continue
		}
		if x, ok := to[v]; ok && x != w {
			return false
		}
		if x, ok := from[w]; ok && x != v {
			return false
		}
		to[v], from[w] = w, v
	}
	return true
}

// codes: every categorical feature, stripped of its strings in the library.
func codes(c *mc.Ctx) {
	n := 1 + c.Choose(c.Int(4, 5), "cases - 1")
	t := cf.Table{}
	names := []string{"1", "0", "2", "x"}
	if c.Bool("other names") {
		names = []string{"10", "b", "3", "1"}
	}
	y := cf.Column{Name: "C:y"}
	m := 0
	for i := 0; i < n; i++ {
		t.Labels = append(t.Labels, fmt.Sprint("p", n-i))
		v := c.Choose(min(m+1, 4)+1, "category") - 1
		if v == m {
			m++
		}
		if v < 0 {
			y.Vals = append(y.Vals, "")
		} else {
			y.Vals = append(y.Vals, names[v])
		}
	}
	x := cf.Column{Name: "N:0", Num: true}
	for i := range y.Vals {
		x.Vals = append(x.Vals, []string{"1", "", "3"}[i%3])
	}
	z := cf.Column{Name: "C:0", Vals: append([]string{}, y.Vals...)}
	z.Vals[0], z.Vals[n-1] = z.Vals[n-1], z.Vals[0]
	t.Cols = []cf.Column{x, y, z}
	first := c.Choose(3, "target")
	fm := t.Build()
	p := c.Try(func() { fm.StripStrings(t.Cols[first].Name) })
	c.Step(1)
	c.Check(p == "", "stripping strings from %v: %s", t, p)
	got, bad := cf.TableOf(fm)
	c.Check(bad == "", "stripping strings from %v: %s", t, bad)
	var out strings.Builder
	p = c.Try(func() { fm.WriteCases(&out, cf.Seq(n)) })
	c.Check(p == "", "stripped of strings %v cannot be written: %s", t, p)
	c.Check(alike(got.Cols[0], t.Cols[first]), "stripped of strings, %v begins with %v", t, got.Cols[0])
	what := fmt.Sprintf("%v stripped of strings with target %s", t, t.Cols[first].Name)
	want := cf.Table{Labels: got.Labels}
	anonymous(c, what, want, t, t.Cols[first].Name, out.String())
	c.State(what)
	c.Outcome("%d", m)
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// long files.
func long(c *mc.Ctx) {
	n := mc.Pick(c, []int{2, 3000, 40000}, "cases")
	format := mc.Pick(c, []string{"rows", "columns", "arff"}, "format")
	t := cf.Table{Labels: labels(n), Cols: []cf.Column{{Name: "N:a", Num: true}, {Name: "C:b"}}}
	anon := n <= 3000 && c.Bool("anonymous") // with more than 1000 categories
	if anon {
		if format != "arff" {
			for i := range t.Labels {
				t.Labels[i] = fmt.Sprint("person ", i)
			}
		}
		t.Cols = append(t.Cols, cf.Column{Name: "C:d"})
		for i := 0; i < n; i++ {
			t.Cols[2].Vals = append(t.Cols[2].Vals, fmt.Sprint("of", i%1500))
		}
	}
	for i := 0; i < n; i++ {
		t.Cols[0].Vals = append(t.Cols[0].Vals, fmt.Sprint(float64(i*7919%100003)/8))
		t.Cols[1].Vals = append(t.Cols[1].Vals, fmt.Sprint("k", i*i%101))
	}
	name, text := source(t, format)
	if anon {
		out, ok := run(c, "long "+format, name, text, "-anontarget", "C:b")
		c.Check(ok, "%s of %d cases: %.200s", format, n, out)
		anonymous(c, "long "+format, t, t, "C:b", out)
		c.Statef("%s %d anonymous", format, n)
		return
	}
	out, ok := run(c, "long "+format, name, text)
	c.Check(ok, "%s of %d cases: %.200s", format, n, out)
	got := read(c, "long "+format, out)
	c.Check(got.String() == t.String(), "%s of %d cases is not what was written", format, n)
	c.Statef("%s %d", format, n)
	c.Step(n)
}

// missing: files that are not there.
func missing(c *mc.Ctx) {
	cmd.Drop("nowhere")
	cmd.Keep("in.afm", sample("rows").AFM(false, ".", "NA", "\n", true))
	args := [][]string{
		{"-data", cmd.Path("nowhere"), "-out", cmd.Path("out")},
		{"-data", cmd.Path("in.afm"), "-out", cmd.Path("no/where")},
		{"-data", cmd.Path("in.afm"), "-out", cmd.Path("out"), "-blacklist", cmd.Path("nowhere")},
	}[c.Choose(3, "missing")]
	_, res := cmd.Run(c, sched.Config{NoRaces: true, KeepRand: true}, toafm.Main, args...)
	c.Check(res.Exit != "" && !strings.HasPrefix(res.Exit, "panic"), "toafm %v reports no error: %q", args, res.Exit)
	c.Statef("%v", args)
}

// ---- trees in the layout of scikit-learn

type skNode struct {
	Left    *int     `json:"left_child"`
	Right   *int     `json:"right_child"`
	Feature int      `json:"feature"`
	Th      *float64 `json:"threshold"`
}
type skTree struct {
	NFeatures *int     `json:"n_features"`
	MaxDepth  *int     `json:"max_depth"`
	Count     *int     `json:"node_count"`
	Capacity  *int     `json:"capacity"`
	Nodes     []skNode `json:"nodes"`
}

// check compares an exported tree with the tree it was made from: the nodes
// reached from the root, by the children's indexes, are the nodes of the tree,
// in preorder, every index once.
func (k *skTree) check(c *mc.Ctx, what string, root *model.Node, names []string) {
	c.Check(k.NFeatures != nil && k.MaxDepth != nil && k.Count != nil && k.Capacity != nil, "%s: fields are missing", what)
	n, depth, next := 0, 0, 0
	var visit func(at int, m *model.Node, d int)
	visit = func(at int, m *model.Node, d int) {
		n++
		c.Check(at >= 0 && at < len(k.Nodes), "%s: node %d of %d", what, at, len(k.Nodes))
		c.Check(at == next, "%s: node %d is not in preorder", what, at)
		next++
		if d > depth {
			depth = d
		}
		s := k.Nodes[at]
		c.Check(s.Left != nil && s.Right != nil && s.Th != nil, "%s: node %d has missing fields", what, at)
		if !m.Split {
			c.Check(*s.Left == -1 && *s.Right == -1, "%s: leaf %d has children %d and %d", what, at, *s.Left, *s.Right)
			return
		}
		c.Check(s.Feature >= 0 && s.Feature < len(names) && names[s.Feature] == m.Feature, "%s: node %d splits on feature %d, it is %s among %q", what, at, s.Feature, m.Feature, names)
		c.Check(s.Feature < *k.NFeatures, "%s: node %d splits on feature %d of %d", what, at, s.Feature, *k.NFeatures)
		c.Check(*s.Th == m.Th, "%s: node %d splits at %v instead of %v", what, at, *s.Th, m.Th)
		visit(*s.Left, m.L, d+1)
		visit(*s.Right, m.R, d+1)
	}
	visit(0, root, 0)
	c.Check(n == len(k.Nodes) && n == *k.Count, "%s: there are %d nodes, %d are exported, node_count is %d", what, n, len(k.Nodes), *k.Count)
	c.Check(*k.Capacity >= n, "%s: a capacity of %d for %d nodes", what, *k.Capacity, n)
	c.Check(*k.MaxDepth == depth, "%s: max_depth is %d instead of %d", what, *k.MaxDepth, depth)
	c.Eval(1)
}

// route follows a case as scikit-learn does.
func (k *skTree) route(x []float64) int {
	at := 0
	for steps := 0; steps <= len(k.Nodes); steps++ {
		if at < 0 || at >= len(k.Nodes) {
			return -2
		}
		s := k.Nodes[at]
		if *s.Left == -1 {
			return at
		}
		if x[s.Feature] <= *s.Th {
			at = *s.Left
		} else {
			at = *s.Right
		}
	}
	return -1
}

var ths = []float64{0, -1.5, 2.000000001}

// shapes: every tree, exported by the library and routed.
func shapes(depth int) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		names := []string{"N:t", "N:a", "N:b"}
		leaf := 0
		var build func(d int) *C.Node
		build = func(d int) *C.Node {
			if d == 0 || c.Choose(2, "split") == 0 {
				leaf++
				return &C.Node{Pred: fmt.Sprint(leaf), Featurei: 2 * (leaf % 2)}
			}
			f := 1 + c.Choose(2, "feature")
			th := ths[c.Choose(len(ths), "threshold")]
			n := &C.Node{Featurei: f, Splitter: &C.Splitter{Feature: names[f], Numerical: true, Value: th}}
			if c.Int(0, 1) == 1 && depth < 3 && c.Bool("missing") {
				n.Missing = &C.Node{Pred: "m"}
			}
			n.Left = build(d - 1)
			n.Right = build(d - 1)
			return n
		}
		root := build(depth)
		m := model.Of(root)
		st := C.NewScikitTree(3)
		p := c.Try(func() { C.BuildScikitTree(0, root, st) })
		c.Step(1)
		c.Check(p == "", "exporting %v: %s", m, p)
		b, err := json.Marshal(st)
		c.Check(err == nil, "exporting %v: %v", m, err)
		k := &skTree{}
		c.Check(json.Unmarshal(b, k) == nil, "exporting %v: %s", m, b)
		what := m.String()
		k.check(c, what, m, names)
		c.Check(model.Of(root).String() == what, "exporting %s changed it to %v", what, model.Of(root))
		// routing of every case, with the library
		vals := []float64{-2, -1.5, 0, 1, 2.000000001, 2.000000002}
		fm := cf.FM(cf.Num("N:t", make([]float64, 36)), cf.Num("N:a", make([]float64, 36)), cf.Num("N:b", make([]float64, 36)))
		for i := 0; i < 36; i++ {
			fm.Data[1].(*C.DenseNumFeature).NumData[i] = vals[i/6]
			fm.Data[2].(*C.DenseNumFeature).NumData[i] = vals[i%6]
		}
		where := map[string]int{}
		root.Recurse(func(n *C.Node, cases []int, _ int) {
			if n.Splitter == nil {
				for _, i := range cases {
					at := k.route([]float64{0, vals[i/6], vals[i%6]})
					c.Check(at >= 0, "%s: case %d is lost", what, i)
					o, ok := where[n.Pred]
					c.Check(!ok || o == at, "%s: cases of one leaf are sent to nodes %d and %d", what, o, at)
					where[n.Pred] = at
					c.Eval(1)
				}
			}
		}, fm, cf.Seq(36), 0)
		back := map[int]string{}
		for p, at := range where {
			q, ok := back[at]
			c.Check(!ok, "%s: leaves %s and %s are both sent to node %d", what, p, q, at)
			back[at] = p
		}
		c.State(what)
		c.Outcome("%d", len(k.Nodes))
	}
}

// big: deep and bushy trees over many features.
func big(c *mc.Ctx) {
	nf := mc.Pick(c, []int{3, 400, 70000}, "features")
	depth := mc.Pick(c, []int{9, 20, 70, 300, 3000}, "depth")
	shape := c.Choose(4, "shape")
	names := make([]string, nf)
	for i := range names {
		names[i] = fmt.Sprintf("N:%d", i)
	}
	n := 0
	var build func(d int) *C.Node
	build = func(d int) *C.Node {
		n++
		if d == 0 {
			return &C.Node{Pred: fmt.Sprint(n)}
		}
		f := (n*37 + nf - 1) % nf
		nd := &C.Node{Featurei: f, Splitter: &C.Splitter{Feature: names[f], Numerical: true, Value: float64(n) + 1/float64(n+2)}}
		l, r := 0, 0
		switch {
		case shape == 0:
			l = d - 1
		case shape == 1:
			r = d - 1
		case shape == 2 && d%2 == 0:
			l = d - 1
		case shape == 2:
			r = d - 1
		case d < 12: // every branch
			l, r = d-1, d-1
		default:
			l, r = d-1, 1
		}
		nd.Left = build(l)
		nd.Right = build(r)
		return nd
	}
	root := build(depth)
	st := C.NewScikitTree(nf)
	c.Step(1)
	if p := c.Try(func() { C.BuildScikitTree(0, root, st) }); p != "" {
		c.Failf("a tree of depth %d over %d features, shape %d: %s", depth, nf, shape, p)
	}
	b, err := json.Marshal(st)
	c.Check(err == nil, "exporting a tree of depth %d: %v", depth, err)
	k := &skTree{}
	c.Check(json.Unmarshal(b, k) == nil, "exporting a tree of depth %d: not valid json", depth)
	k.check(c, fmt.Sprintf("a tree of depth %d over %d features, shape %d", depth, nf, shape), model.Of(root), names)
	c.Statef("%d %d %d", nf, depth, shape)
	c.Outcome("%d", len(k.Nodes))
}

// forest: growforest -scikitforest exports the forest that -rfpred saves.
func forest(c *mc.Ctx) {
	t := cf.Table{Labels: []string{"p", "q", "r", "s", "t", "u"}}
	a := cf.Column{Name: "N:a", Num: true, Vals: []string{"1", "2", "3", "4", "5", "6"}}
	b := cf.Column{Name: "N:b", Num: true, Vals: []string{"2", "2", "1", "1", "7", "0"}}
	d := cf.Column{Name: "N:c", Num: true, Vals: []string{"0.5", "0.25", "0", "0", "8", "9"}}
	y := cf.Column{Name: "C:y"}
	for i := range t.Labels {
		y.Vals = append(y.Vals, []string{"u", "v"}[c.Choose(2, "class")])
		_ = i
	}
	if c.Bool("regression") {
		y.Num, y.Name = true, "N:y"
		for i, v := range y.Vals {
			y.Vals[i] = map[string]string{"u": "1", "v": "2.5"}[v]
		}
	}
	switch c.Choose(3, "target") {
	case 0:
		t.Cols = []cf.Column{y, a, b, d}
	case 1:
		t.Cols = []cf.Column{a, y, b, d}
	case 2:
		t.Cols = []cf.Column{a, b, d, y}
	}
	trees := 1 + c.Choose(3, "trees - 1")
	args := []string{"-train", cmd.Keep("train.fm", t.AFM(false, ".", "NA", "\n", true)), "-target", y.Name, "-rfpred", cmd.Path("f.sf"), "-scikitforest", cmd.Path("f.json"), "-nTrees", fmt.Sprint(trees), "-progress=false"}
	what := ""
	names := []string{}
	for _, o := range t.Cols {
		names = append(names, o.Name)
	}
	switch opt := c.Choose(c.Int(5, 6), "options"); opt {
	case 1:
		args = append(args, "-leafSize", "2", "-mTry", "2")
	case 2:
		args = append(args, "-nCores", "2")
	case 3:
		args = append(args, "-blacklist", cmd.Keep("black", "N:a\nN:c\n"))
	case 4:
		args = append(args, "-ace", "2")
		for _, o := range append([]cf.Column{}, t.Cols...) {
			names = append(names, o.Name+":SHUFFLED")
		}
	case 5:
		args = append(args, "-adaboost")
		if y.Num {
			args[len(args)-1] = "-gbt"
			args = append(args, "0.5")
		}
	}
	what = fmt.Sprintf("growforest %v on %v", args[6:], t)
	cmd.Drop("f.sf", "f.json")
	c.Rand(func(n int) int { return (n - 1) / 2 })
	c.RandFirst(c.Int(2, 3))
	_, res := cmd.Run(c, sched.Config{NoRaces: true, KeepRand: true}, growforest.Main, args...)
	c.Check(res.Exit == "" && res.Deadlock == "", "%s: %s %s\n%s", what, res.Exit, res.Deadlock, res.Stack)
	sf, ok := cmd.Get("f.sf")
	js, ok2 := cmd.Get("f.json")
	c.Check(ok && ok2, "%s: nothing is written", what)
	fs, err := model.ParseSF(sf)
	c.Check(err == nil && len(fs) <= 1, "%s: %v\n%s", what, err, sf)
	if len(fs) == 0 { // boosting ends before a perfect tree
		fs = []*model.Forest{{}}
	}
	var sk []skTree
	err = json.Unmarshal([]byte(js), &sk)
	c.Check(err == nil, "%s: %v\n%s", what, err, js)
	c.Check(len(sk) == len(fs[0].Trees), "%s: %d trees are exported, the forest has %d", what, len(sk), len(fs[0].Trees))
	for i := range sk {
		sk[i].check(c, fmt.Sprintf("%s, tree %d %v", what, i, fs[0].Trees[i].Root), fs[0].Trees[i].Root, names)
	}
	c.State(js)
	c.Outcome("%s", js)
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C27", Quick: 150, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one conversion by the real toafm command, by the library or by growforest, the output of which is compared with the table or the tree it was made from",
		Assumptions: []string{"libsvm, ARFF and AFM files as in C10 and C11; feature names stay distinct when they are given their prefixes", "trees exported for scikit-learn split on numeric features; its nodes have no missing branch, so cases without missing values are routed"},
		Scenarios: []mc.Scenario{
			{Name: "values", Run: values, Bound: "1..2 (thorough: 3) features of 5 kinds of name, 1..2 cases over 4 values (2 for 3 features), AFM in rows, in columns, ARFF"},
			{Name: "libsvm", Run: svm, Bound: "1..2 (thorough: 3) cases with 3 entries, numeric or categorical response"},
			{Name: "options", Run: options, Bound: "every blacklist of 6 features in 3 layouts, every target, anonymous or libsvm output, 3 formats"},
			{Name: "codes", Run: codes, Bound: "every categorical feature of 1..4 (thorough: 5) cases and 4 categories or missing, some named like codes; every target"},
			{Name: "long files", Run: long, Bound: "2, 3000 and 40000 cases, 3 formats; up to 3000 anonymous, with up to 1500 categories"},
			{Name: "missing files", Run: missing, Bound: "3 files that do not exist"},
			{Name: "exported shapes", Run: shapes(2), Bound: "every tree of depth 2 over 2 features and 3 thresholds, thorough: with and without missing branches, every case over 6 values"},
			{Name: "exported shapes, deep", Run: shapes(3), Bound: "depth 3, without missing branches"},
			{Name: "exported shapes, big", Run: big, Bound: "trees of depth 9 to 3000 in 4 shapes (to the left, to the right, zigzag, full to a depth of 12), over 3, 400 and 70000 features"},
			{Name: "exported forests", Run: forest, Bound: "6 cases, every response of two classes or numbers, 3 positions, 1..3 trees, 5 (thorough: 6) sets of options, every answer to the first 2 (thorough: 3) draws"},
		},
	})
}

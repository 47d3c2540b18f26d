// C09: a forest written to .sf reads back as the same forest.
package main

import (
	"bytes"
	"fmt"
	"io"
	"math"
	"sort"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
)

func dumpNode(n *C.Node) string {
	if n == nil {
		return "-"
	}
	s := strconv.Quote(n.Pred)
	if sp := n.Splitter; sp != nil {
		s += " on " + strconv.Quote(sp.Feature)
		if sp.Numerical {
			s += fmt.Sprintf(" <= %v", sp.Value)
		} else {
			var ks []string
			for k, v := range sp.Left {
				if v && k != "" { // the empty string is a missing value, not a category
					ks = append(ks, strconv.Quote(k))
				}
			}
			sort.Strings(ks)
			s += " in {" + strings.Join(ks, " ") + "}"
		}
	}
	if n.Left != nil || n.Right != nil || n.Missing != nil {
		s += " (" + dumpNode(n.Left) + ", " + dumpNode(n.Right) + ", " + dumpNode(n.Missing) + ")"
	}
	return s
}

func dumpTree(t *C.Tree) string {
	w := t.Weight
	if w < 0 {
		w = -1 // no weight
	}
	return fmt.Sprintf("tree of %q weight %v: %s", t.Target, w, dumpNode(t.Root))
}

func dump(f *C.Forest) string {
	if f == nil {
		return "no forest"
	}
	s := fmt.Sprintf("forest of %q intercept %v", f.Target, f.Intercept+0) // +0: an intercept of -0 is 0
	for _, t := range f.Trees {
		s += "; " + dumpTree(t)
	}
	return s
}

// roundTrip writes forests one after the other and reads them back.
func roundTrip(c *mc.Ctx, what string, cut bool, fail func(string, ...interface{}), forests ...*C.Forest) {
	var buf bytes.Buffer
	w := C.NewForestWriter(&buf)
	for _, f := range forests {
		w.WriteForest(f)
	}
	text := buf.String()
	if cut {
		text = strings.TrimSuffix(text, "\n")
	}
	c.State(text)
	r := C.NewForestReader(strings.NewReader(text))
	for i, f := range forests {
		var g *C.Forest
		var err error
		p := c.Try(func() { g, err = r.ReadForest() })
		c.Eval(1)
		if p != "" {
			fail("%s: reading forest %d panics: %s; file:\n%s", what, i, p, text)
			return
		}
		if err != nil {
			fail("%s: reading forest %d: %v; file:\n%s", what, i, err, text)
			return
		}
		if dump(f) != dump(g) {
			fail("%s: forest %d written as\n%s\nread back as\n%s\nfile:\n%s", what, i, dump(f), dump(g), text)
			return
		}
	}
	p := c.Try(func() {
		g, err := r.ReadForest()
		if err != io.EOF {
			fail("%s: after the last forest: %v, %s", what, err, dump(g))
		}
	})
	if p != "" {
		fail("%s: reading past the last forest panics: %s", what, p)
	}
}

func gen(c *mc.Ctx, depth int, leaves *int) *C.Node {
	k := 0
	if depth > 0 {
		k = c.Choose(4, "")
	}
	n := new(C.Node)
	switch k {
	case 0:
		*leaves++
		n.Pred = fmt.Sprint("p", *leaves)
		if *leaves%2 == 0 {
			n.Pred = fmt.Sprint(float64(*leaves) / 3)
		}
		return n
	case 1:
		n.CodedSplit, n.Featurei = 0.25, 3
		n.Splitter = &C.Splitter{Feature: "N:x", Numerical: true, Value: 0.1 * float64(depth)}
	case 2:
		n.Splitter = &C.Splitter{Feature: "C:z", Left: map[string]bool{"a": true, "b": true}}
	case 3:
		n.CodedSplit = 2
		n.Splitter = &C.Splitter{Feature: "B:q", Left: map[string]bool{"true": true, "false": false}}
	}
	n.Left, n.Right = gen(c, depth-1, leaves), gen(c, depth-1, leaves)
	if c.Bool("") {
		n.Missing = gen(c, depth-2, leaves)
	}
	return n
}

func shapes(depth int) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		leaves := 0
		f := &C.Forest{Target: "C:t"}
		f.Trees = append(f.Trees, &C.Tree{Root: gen(c, depth, &leaves), Target: "C:t", Weight: mc.Pick(c, []float64{-1, 0, 0.5}, "weight")})
		if c.Bool("second tree") {
			f.Trees = append(f.Trees, &C.Tree{Root: &C.Node{Pred: "second"}, Target: "C:t", Weight: -1})
		}
		f.Intercept = mc.Pick(c, []float64{0, -1.5}, "intercept")
		if depth > 2 && (f.Intercept != 0) != (len(f.Trees) == 2) {
			c.Discard()
		}
		roundTrip(c, "shapes", c.Bool("no final newline"), c.Failf, f)
		c.Sample("%s", dump(f))
	}
}

var floats = []float64{0, math.Copysign(0, -1), 1, -1, 0.1, 1.0 / 3, 1e21, 1e20, 123456789, 1e-7, 5e-324, math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.Nextafter(1, 2), 2.5000000000000004, 1e6, 1234567.1}

func numbers(c *mc.Ctx) {
	v := mc.Pick(c, floats, "value")
	w := mc.Pick(c, floats, "other value")
	t := &C.Tree{Root: &C.Node{Splitter: &C.Splitter{Feature: "N:x", Numerical: true, Value: v}, Left: &C.Node{Pred: fmt.Sprint(w)}, Right: &C.Node{Pred: fmt.Sprint(-v)}}, Target: "N:t", Weight: w}
	f := &C.Forest{Target: "N:t", Trees: []*C.Tree{t}, Intercept: mc.Pick(c, floats, "intercept")}
	roundTrip(c, "numbers", c.Bool("no final newline"), c.Failf, f)
	c.Outcome("%v", v)
}

// names that .sf can hold. Categories may not contain a colon, no name a
// quotation mark or line end.
var names = []string{"a", "N:CLIN:Term:NB::::", "a b", "a,b", "a, b", "a=b", "C:f==a", "=", "a=", "==", ",", "é€", "'q'", "NODE", "TREE=1", "PRED", "*", "10", "-1.5e3", "a;b", "a|b", "a\tb", "WEIGHT=3", "F", "T", "true", "a,,b", "a\\b", "%v", "?x"}

func field(role string, name string) bool {
	if role == "category" && strings.Contains(name, ":") {
		return false
	}
	if role == "prediction" && name == "" {
		return false
	}
	return true
}

func named(feature, target, cat1, cat2, pred string) *C.Forest {
	root := &C.Node{Splitter: &C.Splitter{Feature: feature, Left: map[string]bool{cat1: true, cat2: true}},
		Left: &C.Node{Pred: pred}, Right: &C.Node{Splitter: &C.Splitter{Feature: feature, Numerical: true, Value: 2}, Left: &C.Node{Pred: "l"}, Right: &C.Node{Pred: "r"}, Missing: &C.Node{Pred: pred}}}
	return &C.Forest{Target: target, Trees: []*C.Tree{{Root: root, Target: target, Weight: -1}}}
}

func awkward(c *mc.Ctx) {
	role := c.Choose(4, "role")
	a := mc.Pick(c, names, "name")
	b := mc.Pick(c, names, "other name")
	feature, target, cat1, cat2, pred := "N:f", "N:t", "x", "y", "p"
	switch role {
	case 0:
		feature, pred = a, b
	case 1:
		target, feature = a, b
	case 2:
		cat1, cat2 = a, b
	case 3:
		target, pred = a, b
	}
	if strings.Contains(cat1+cat2, ":") {
		c.Discard()
	}
	roundTrip(c, fmt.Sprintf("feature %q target %q categories %q %q prediction %q", feature, target, cat1, cat2, pred), c.Bool("no final newline"), c.Failf, named(feature, target, cat1, cat2, pred))
	c.Outcome("%d", role)
}

// names the format cannot hold: recorded findings
func unholdable(c *mc.Ctx) {
	feature, target, cat1, cat2, pred := "N:f", "N:t", "x", "y", "p"
	key := ""
	switch c.Choose(6, "what") {
	case 0:
		cat1, key = "chr1:100", "colon-in-category"
	case 1:
		pred, key = "a,b=c", "comma-then-equals"
	case 2:
		pred, key = " a", "outer-blank"
	case 3:
		cat1, key = "5\" pipe", "quotation-mark"
	case 4:
		feature, key = "N:a,b==c", "comma-then-equals"
	case 5:
		target, key = "N:\"t\"", "quotation-mark"
	}
	roundTrip(c, "not representable: "+key, false, func(s string, a ...interface{}) { c.Known(key, s, a...) }, named(feature, target, cat1, cat2, pred))
}

// several forests in one file, and the incremental writer
func several(c *mc.Ctx) {
	n := 2 + c.Choose(c.Int(2, 2), "forests - 2")
	var fs []*C.Forest
	leaves := 0
	for i := 0; i < n; i++ {
		f := &C.Forest{Target: mc.Pick(c, []string{"C:t", "N:u"}, "target"), Intercept: mc.Pick(c, []float64{0, 2}, "intercept")}
		k := 1 + c.Choose(2, "trees - 1")
		for j := 0; j < k; j++ {
			d := 0
			if j == 0 && i < 2 {
				d = 1
			}
			f.Trees = append(f.Trees, &C.Tree{Root: gen(c, d, &leaves), Target: f.Target, Weight: []float64{-1, 0.25}[(i+j)%2]})
		}
		fs = append(fs, f)
	}
	roundTrip(c, "several forests", c.Bool("no final newline"), c.Failf, fs...)
	c.Outcome("%d", n)
}

// big forests: deep trees, splits with many categories, long names, many trees
func big(c *mc.Ctx) {
	sizes := []int{1, 2, 32, 64, 65, 256, 257, 1024, 4096}
	if c.Thorough() {
		sizes = append(sizes, 31, 33, 63, 127, 128, 129, 255, 511, 512, 513, 1023, 1025, 2048, 3000, 8192, 16384)
	}
	n := mc.Pick(c, sizes, "size")
	leaf := func(i int) *C.Node { return &C.Node{Pred: fmt.Sprint("p", i)} }
	num := func(i int) *C.Splitter {
		return &C.Splitter{Feature: fmt.Sprint("N:x", i), Numerical: true, Value: float64(i)}
	}
	target := "C:t"
	var trees []*C.Tree
	what := mc.Pick(c, []string{"deep left", "deep right", "deep missing", "deep zigzag", "categories", "long categories", "name", "prediction", "target", "trees"}, "what")
	root := leaf(0)
	switch what {
	case "deep left", "deep right", "deep missing", "deep zigzag":
		if n > 1100 && !c.Thorough() || n > 3000 {
			c.Discard() // a path of n letters in each of n lines
		}
		for i := 1; i <= n; i++ {
			at := &C.Node{Splitter: num(i)}
			switch {
			case what == "deep left", what == "deep zigzag" && i%2 == 0:
				at.Left, at.Right = root, leaf(i)
			case what == "deep missing":
				at.Left, at.Right, at.Missing = leaf(2*i), leaf(2*i+1), root
			default:
				at.Left, at.Right = leaf(i), root
			}
			root = at
		}
	case "categories", "long categories":
		cats := map[string]bool{}
		for i := 0; i < n; i++ {
			cats[fmt.Sprint("c", i, strings.Repeat("_long", 4*(len(what)-10)))] = true
		}
		root = &C.Node{Splitter: &C.Splitter{Feature: "C:z", Left: cats}, Left: leaf(1), Right: leaf(2)}
	case "name":
		s := num(1)
		s.Feature += strings.Repeat("x", n)
		root = &C.Node{Splitter: s, Left: leaf(1), Right: leaf(2)}
	case "prediction":
		root = &C.Node{Splitter: num(1), Left: &C.Node{Pred: strings.Repeat("p", n)}, Right: leaf(2)}
	case "target":
		target += strings.Repeat("t", n)
	case "trees":
		for i := 1; i < n; i++ {
			trees = append(trees, &C.Tree{Target: target, Root: leaf(i), Weight: float64(i%5) - 1})
		}
	}
	trees = append(trees, &C.Tree{Target: target, Root: root, Weight: -1})
	f := &C.Forest{Target: target, Intercept: 0.5, Trees: trees}
	short := func(format string, args ...interface{}) { c.Failf("%.400s", fmt.Sprintf(format, args...)) }
	roundTrip(c, fmt.Sprintf("%s %d", what, n), c.Bool("no final newline"), short, f, &C.Forest{Target: "N:u", Trees: []*C.Tree{{Target: "N:u", Root: leaf(1), Weight: -1}}})
	c.Outcome("%s", what)
}

// tree by tree: what WriteTree wrote, ReadTree returns in order; blank lines
// and unknown lines do not matter.
func incremental(c *mc.Ctx) {
	var buf bytes.Buffer
	w := C.NewForestWriter(&buf)
	leaves := 0
	header := c.Bool("header")
	if header {
		w.WriteForestHeader(0, "C:t", 1.5)
	}
	var ts []*C.Tree
	w0 := mc.Pick(c, []float64{-1, 0, 0.5}, "weight of the first tree")
	k := 1 + c.Choose(3, "trees - 1")
	for j := 0; j < k; j++ {
		d := 1
		if j == 2 {
			d = 0
		}
		t := &C.Tree{Root: gen(c, d, &leaves), Target: "C:t", Weight: []float64{w0, 2, -1}[j]}
		ts = append(ts, t)
		w.WriteTree(t, j)
	}
	text := buf.String()
	switch c.Choose(4, "layout") {
	case 1:
		text = strings.TrimSuffix(text, "\n")
	case 2:
		text += "\n"
	case 3:
		text = strings.Replace(text, "\n", "\r\n", -1)
	}
	c.State(text)
	r := C.NewForestReader(strings.NewReader(text))
	for j, t := range ts {
		var g *C.Tree
		var f *C.Forest
		var err error
		p := c.Try(func() { g, f, err = r.ReadTree() })
		c.Check(p == "", "ReadTree panics: %s; file:\n%s", p, text)
		c.Check(err == nil || err == io.EOF && j == k-1, "tree %d: %v; file:\n%s", j, err, text)
		c.Check(g != nil, "tree %d is missing; file:\n%s", j, text)
		c.Check(dumpTree(g) == dumpTree(t), "tree %d written as\n%s\nread as\n%s\nfile:\n%s", j, dumpTree(t), dumpTree(g), text)
		c.Check((f != nil) == (header && j == 0), "tree %d: forest %s", j, dump(f))
		if f != nil {
			c.Check(f.Target == "C:t" && f.Intercept == 1.5, "forest header read as %s", dump(f))
		}
		c.Eval(1)
	}
	whole, err := C.NewForestReader(strings.NewReader(text)).ReadForest()
	c.Check(err == nil && whole != nil && len(whole.Trees) == k, "ReadForest: %v, %s; file:\n%s", err, dump(whole), text)
	c.Check(whole.Target == "C:t", "ReadForest: target %q", whole.Target)
	for j, t := range ts {
		c.Check(dumpTree(whole.Trees[j]) == dumpTree(t), "ReadForest: tree %d written as\n%s\nread as\n%s", j, dumpTree(t), dumpTree(whole.Trees[j]))
	}
	c.Outcome("%d", k)
}

// malformed files are reported, not half read
func malformed(c *mc.Ctx) {
	files := []string{"", "NODE=*,PRED=a\n", "hello\n", "FOREST=0,TARGET=\"t\"\nNODE=*,PRED=a\n", "TREE=0,TARGET=\"t\"\nNODE=*,PRED=a\nTREE=1,TARGET=\"t\"\nNODE=*,PRED=b\nFOREST=1,TARGET=\"u\"\nNODE=*,PRED=a\n"}
	i := c.Choose(len(files), "file")
	var f *C.Forest
	var err error
	r := C.NewForestReader(strings.NewReader(files[i]))
	p := c.Try(func() { f, err = r.ReadForest() })
	c.Check(p == "", "reading %q panics: %s", files[i], p)
	c.State(files[i])
	if i == 4 {
		c.Check(err == nil && len(f.Trees) == 2, "first forest of %q: %v %s", files[i], err, dump(f))
		p = c.Try(func() { f, err = r.ReadForest() })
		c.Check(p == "", "reading %q panics: %s", files[i], p)
	}
	c.Check(err != nil, "reading %q reports no error, gives %s", files[i], dump(f))
}

// grown forests: the file gives the same predictions
func grown(c *mc.Ctx) {
	n := 6
	y := make([]int, n)
	for i := range y {
		y[i] = c.Choose(2, "")
	}
	nan := math.NaN()
	q := c.Choose(2, "columns")
	x := [][]float64{{1, 2, 3, 4, 5, 6}, {2, nan, 1, 0.5, nan, 3}}[q]
	z := [][]int{{0, 1, 2, 0, 1, 2}, {1, -1, 0, 2, 0, -1}}[q]
	kind := c.Choose(3, "target")
	var t C.Target
	switch kind {
	case 0:
		t, _ = cf.CatTarget("gini", 2, y)
	default:
		yy := make([]float64, n)
		for i := range yy {
			yy[i] = float64(y[i])*1.75 + float64(i)/3
		}
		t, _ = cf.NumTarget([]string{"", "num", "grad"}[kind], yy)
	}
	var ft C.Feature = t.(C.Feature)
	fm := cf.FM(ft, cf.Num("N:x", x), cf.Cat("C:z", cf.Names(3), z))
	f := C.GrowRandomForest(fm, t, []int{1, 2}, n, 1+c.Choose(2, "mTry"), 3, 1, 0, c.Bool("split missing"), true, false, false, nil)
	if kind != 2 {
		c.Check(f.Intercept == 0, "a grown forest has intercept %v", f.Intercept)
	}
	for i, tr := range f.Trees {
		c.Check(tr.Target == ft.GetName(), "tree %d of a grown forest has target %q", i, tr.Target)
	}
	roundTrip(c, "grown forest", false, c.Failf, f)
	c.Outcome("%d", kind)
}

func main() {
	mc.Main(mc.Spec{
		Property: "C09", Quick: 150, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution writes one file and reads it back; forests are compared as structures",
		Assumptions: []string{"predictions follow from equal structure (C08)", "any negative tree weight means no weight"},
		Scenarios: []mc.Scenario{
			{Name: "shapes", Run: shapes(2), Bound: "every tree of depth 2 over three kinds of split with and without missing branches, weights none/0/0.5, intercept or not, one or two trees, with and without final newline"},
			{Name: "shapes deep", Run: shapes(3), ThoroughOnly: true, Bound: "every tree of depth 3 as above"},
			{Name: "numbers", Run: numbers, Bound: "19 extreme numbers as threshold, weight and intercept, all combinations"},
			{Name: "names", Run: awkward, Bound: "every pair of 30 awkward names in every pair of roles: feature, target, category, prediction"},
			{Name: "names the format cannot hold", Run: unholdable, Bound: "recorded findings"},
			{Name: "several forests", Run: several, Bound: "2..3 forests of 1..2 trees, with and without intercept, in one file"},
			{Name: "tree by tree", Run: incremental, Bound: "1..3 trees written incrementally, with and without header; no final newline, a blank last line, CRLF"},
			{Name: "big", Run: big, Bound: "trees of depth 1..1024 (3000) in 4 directions, splits by 1..4096 (16384) short and long categories, names, predictions and targets of as many letters, forests of as many trees"},
			{Name: "malformed", Run: malformed, Bound: "5 malformed files"},
			{Name: "grown forests", Run: grown, Bound: "forests grown on every response of 6 cases, 2 pairs of columns, 3 target types"},
		},
	})
}

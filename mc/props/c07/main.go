// C07: grown trees are well formed and respect their settings.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
	"verifmc/ref"
)

const tol = 1e-9

var nan = math.NaN()

type data struct {
	fm   *C.FeatureMatrix
	cols []*ref.Col
	cats [][]string
	t    C.Target
	r    *ref.T
}

func (d *data) add(f C.Feature, col *ref.Col, cats []string) {
	d.cols = append(d.cols, col)
	d.cats = append(d.cats, cats)
	d.fm.Map[f.GetName()] = len(d.fm.Data)
	d.fm.Data = append(d.fm.Data, f)
}

func (d *data) num(x []float64) {
	d.add(cf.Num(fmt.Sprint("N:", len(d.cols)), x), &ref.Col{Num: x}, nil)
}
func (d *data) cat(k int, x []int) {
	d.add(cf.Cat(fmt.Sprint("C:", len(d.cols)), cf.Names(k), x), &ref.Col{Cat: x}, cf.Names(k))
}

func newData(t C.Target, r *ref.T) *data {
	d := &data{fm: &C.FeatureMatrix{Map: map[string]int{}}, t: t, r: r}
	col := &ref.Col{Num: r.Num}
	if r.Cat != nil {
		col = &ref.Col{Cat: r.Cat}
	}
	d.add(t.(C.Feature), col, nil)
	return d
}

type conf struct {
	mTry, leaf, depth             int
	missing, force, extra, jungle bool
}

func (k conf) String() string {
	return fmt.Sprintf("mTry=%d leafSize=%d maxDepth=%d splitmissing=%v force=%v extraRandom=%v jungle=%v", k.mTry, k.leaf, k.depth, k.missing, k.force, k.extra, k.jungle)
}

func dump(n *C.Node) string {
	if n == nil {
		return "-"
	}
	s := ""
	if n.Splitter != nil {
		s = fmt.Sprintf("[%s %v %v code %v f%d]", n.Splitter.Feature, n.Splitter.Value, n.Splitter.Left, n.CodedSplit, n.Featurei)
	} else if n.CodedSplit != nil {
		s = fmt.Sprintf("[code %v]", n.CodedSplit)
	}
	s += strconv.Quote(n.Pred)
	if n.Left != nil || n.Right != nil || n.Missing != nil {
		s += "(" + dump(n.Left) + "," + dump(n.Right) + "," + dump(n.Missing) + ")"
	}
	return s
}

func (d *data) grow(t *C.Tree, cases, cans []int, k conf, allocs *C.BestSplitAllocs) {
	cs := append([]int{}, cases...)
	cn := append([]int{}, cans...)
	grow := t.Grow
	if k.jungle {
		grow = t.GrowJungle
	}
	grow(d.fm, d.t, cs, cn, nil, k.mTry, k.leaf, k.depth, k.missing, k.force, false, false, k.extra, nil, nil, allocs)
}

// walk checks a grown tree from the top with the training cases.
func (d *data) walk(c *mc.Ctx, what string, n *C.Node, cases []int, depth int, cans map[int]bool, k conf, path string) {
	l, r, m := d.node(c, what+" at "+strconv.Quote(path), n, cases, depth, cans, k)
	if n.Splitter == nil {
		return
	}
	d.walk(c, what, n.Left, l, depth+1, cans, k, path+"L")
	d.walk(c, what, n.Right, r, depth+1, cans, k, path+"R")
	if n.Missing != nil {
		d.walk(c, what, n.Missing, m, depth+1, cans, k, path+"M")
	}
}

// node checks one node and the cases that reach it.
func (d *data) node(c *mc.Ctx, what string, n *C.Node, cases []int, depth int, cans map[int]bool, k conf) (l, r, m []int) {
	where := fmt.Sprintf("%s: node with cases %v", what, cases)
	c.Check(n != nil, "%s does not exist", where)
	c.Check(len(cases) > 0, "%s is empty", where)
	if n.Splitter == nil {
		c.Check(n.Left == nil && n.Right == nil && n.Missing == nil, "%s is a leaf but has children", where)
		c.Check(n.CodedSplit == nil, "%s is a leaf but has a coded split", where)
		num, cat, isCat := d.r.Pred(cases)
		if isCat {
			c.Check(n.Pred == cf.TargetNames[cat], "%s predicts %q, its cases imply %q", where, n.Pred, cf.TargetNames[cat])
		} else {
			v, err := strconv.ParseFloat(n.Pred, 64)
			c.Check(err == nil && cf.Close(v, num, tol), "%s predicts %q, its cases imply %v", where, n.Pred, num)
		}
		c.Eval(1)
		// why was it not split?
		if k.depth > 0 && depth >= k.depth || len(cases) < 2*k.leaf || k.mTry < len(cans) || k.extra {
			return
		}
		if !d.r.IsScore && d.r.Imp(cases) <= ref.MinImp+tol {
			return
		}
		for fi := range cans {
			dec, nm, any := d.r.Best(d.cols[fi], cases, k.leaf)
			if any {
				c.Check(dec <= ref.MinImp+tol || nm <= ref.MinImp+tol, "%s was not split though all candidates were tried and feature %d achieves %v", where, fi, dec)
			}
		}
		return
	}
	c.Check(k.depth <= 0 || depth < k.depth, "%s at depth %d is split", where, depth)
	c.Check(n.Pred == "", "%s is split but predicts %q", where, n.Pred)
	fi, ok := d.fm.Map[n.Splitter.Feature]
	c.Check(ok && cans[fi], "%s splits on %q which is no candidate", where, n.Splitter.Feature)
	c.Check(n.CodedSplit != nil && n.Featurei == fi, "%s: coded split %v on feature %d, splitter on %d", where, n.CodedSplit, n.Featurei, fi)
	col := d.cols[fi]
	l, r, m = col.Part(cases, func(i int) bool {
		if col.Cat != nil {
			return n.Splitter.Left[d.cats[fi][col.Cat[i]]]
		}
		return col.Num[i] <= n.Splitter.Value
	})
	cl, cr, cm := d.fm.Data[fi].Split(n.CodedSplit, append([]int{}, cases...))
	c.Check(cf.SameMultiset(cl, l) && cf.SameMultiset(cr, r) && cf.SameMultiset(cm, m), "%s: coded split sends %v|%v|%v, splitter %v|%v|%v", where, cl, cr, cm, l, r, m)
	c.Check(len(l) >= k.leaf && len(r) >= k.leaf, "%s: split into %v and %v, minimum leaf size %d", where, l, r, k.leaf)
	dec := d.r.Dec(l, r, m)
	c.Check(dec > ref.MinImp-tol, "%s: split on feature %d with decrease %v", where, fi, dec)
	if k.mTry >= len(cans) && !k.extra {
		for fj := range cans {
			if b, nm, any := d.r.Best(d.cols[fj], cases, k.leaf); any && nm > ref.MinImp+tol {
				c.Check(dec >= b-tol*(1+math.Abs(b)), "%s: split on feature %d with decrease %v, feature %d achieves %v", where, fi, dec, fj, b)
			}
		}
	}
	if k.missing && len(m) > 0 {
		c.Check(n.Missing != nil, "%s has no missing branch for %v", where, m)
	} else {
		c.Check(n.Missing == nil, "%s has a missing branch, but %d missing cases (split missing values: %v)", where, len(m), k.missing)
	}
	return
}

func (d *data) String() string {
	var s []string
	for _, f := range d.fm.Data {
		s = append(s, cf.Describe(f))
	}
	return d.r.Kind + " " + strings.Join(s, " ")
}

func check(c *mc.Ctx, d *data, cases, cans []int, k conf) {
	t := C.NewTree()
	given := append([]int{}, cases...)
	allocs := C.NewBestSplitAllocs(len(given)+d.fm.Data[0].Length(), d.t)
	d.grow(t, cases, cans, k, allocs)
	what := fmt.Sprintf("%v cases %v candidates %v %v", d, given, cans, k)
	c.State(what + dump(t.Root))
	c.Outcome("%d", strings.Count(dump(t.Root), "["))
	c.Check(cf.SameMultiset(cases, given), "%s: the caller's cases changed", what)
	cs := map[int]bool{}
	for _, i := range cans {
		cs[i] = true
	}
	d.walk(c, what, t.Root, given, 0, cs, k, "")
	c.Sample("%s -> %s", what, dump(t.Root))
}

func numCol(c *mc.Ctx, n int) []float64 {
	vals := []float64{1, 2, 3.5, nan}
	x := make([]float64, n)
	lo := 0
	for i := range x {
		lo += c.Choose(len(vals)-lo, "")
		x[i] = vals[lo]
	}
	return x
}

var catCols = [][]int{
	{0, 1, 0, 1, 0, 1}, {2, 0, 1, 2, -1, 0}, {-1, 0, 0, 1, 1, 2}, {0, 0, -1, -1, 1, 1}, {1, 1, 1, 1, 1, 1},
}

// settings: every setting and random answer, two candidates
func settings(kind string) mc.Scenario {
	return mc.Scenario{Name: "settings " + kind, Bound: "4 (5) cases: every numeric column over 3 values and missing (up to order) x 3 (5) categorical columns x every binary response; leaf size 1..2, depth limit none/1/2, missing branch, force, mTry 1..3; every answer of the random source", Run: func(c *mc.Ctx) {
		n := c.Int(4, 5)
		x := numCol(c, n)
		z := catCols[c.Choose(c.Int(3, 5), "categorical column")][:n]
		y := make([]int, n)
		for i := range y {
			y[i] = c.Choose(2, "")
		}
		t, r := target(kind, 2, y)
		d := newData(t, r)
		d.num(x)
		d.cat(3, z)
		k := conf{mTry: 1 + c.Choose(3, "mTry - 1"), leaf: 1 + c.Choose(2, "leaf size - 1"), depth: c.Choose(3, "max depth"), missing: c.Bool("split missing")}
		if k.mTry == 1 {
			k.force = c.Bool("force")
		}
		c.RandAll()
		check(c, d, cf.Seq(n), []int{1, 2}, k)
	}}
}

func target(kind string, k int, y []int) (C.Target, *ref.T) {
	for _, nk := range cf.NumKinds {
		if nk == kind {
			vals := []float64{-1.5, 0.25, 4}
			if kind == "ordinal" {
				vals = []float64{0, 1, 3}
			}
			x := make([]float64, len(y))
			for i := range x {
				x[i] = vals[y[i]]
			}
			return cf.NumTarget(kind, x)
		}
	}
	return cf.CatTarget(kind, k, y)
}

// sizes: nodes just above, at and below twice the minimum leaf size
func sizes(c *mc.Ctx) {
	leaf := 2 + c.Choose(4, "leaf size - 2")
	n := 2*leaf + c.Choose(4, "cases above the least") - 1
	kind := mc.Pick(c, []string{"gini", "num"}, "target")
	x := make([]float64, n)
	y := make([]int, n)
	z := make([]int, n)
	step := 1 + c.Choose(n-1, "step")
	step2 := c.Choose(n+1, "second step")
	nm := c.Choose(3, "missing values")
	for i := range x {
		x[i] = float64(i)
		z[i] = (i / 2) % 4
		if i >= step {
			y[i] = 1
		}
		if i >= step2 {
			y[i] = 1 - y[i]
		}
	}
	for i := 0; i < nm; i++ {
		x[(i*7)%n] = nan
	}
	t, r := target(kind, 2, y)
	d := newData(t, r)
	d.num(x)
	cans := []int{1}
	if c.Bool("categorical column") {
		d.cat(4, z)
		cans = []int{1, 2}
	}
	check(c, d, cf.Seq(n), cans, conf{mTry: 2, leaf: leaf, missing: c.Bool("split missing"), force: c.Bool("force")})
}

// kinds: every target type
func kinds(kind string) mc.Scenario {
	return mc.Scenario{Name: "target " + kind, Bound: "5 cases, every response over 3 values/classes (2 for two class targets), 3 pairs of columns, bags with repeated and left out cases, missing branch or not, leaf size 1..2", Run: func(c *mc.Ctx) {
		n := 5
		nc := 3
		if kind == "np" || kind == "trans0" || kind == "hdist" || kind == "gradclass" {
			nc = 2
		}
		y := make([]int, n)
		for i := range y {
			y[i] = c.Choose(nc, "")
		}
		t, r := target(kind, nc, y)
		d := newData(t, r)
		xs := [][]float64{{1, 2, 3, 4, 5}, {2, nan, 1, 1, 3}, {1, 1, 2, nan, nan}}
		zs := [][]int{{0, 1, 2, 0, 1}, {1, -1, 0, 1, 0}, {2, 2, 1, 0, -1}}
		q := c.Choose(3, "columns")
		d.num(xs[q])
		d.cat(3, zs[q])
		k := conf{mTry: 2, leaf: 1 + c.Choose(2, "leaf size - 1"), missing: c.Bool("split missing")}
		cases := mc.Pick(c, [][]int{{0, 1, 2, 3, 4}, {4, 4, 1, 0, 2}, {3, 1, 3}}, "cases")
		if kind == "gradclass" { // the prior is undefined for a single class
			has := map[int]bool{}
			for _, v := range y {
				has[v] = true
			}
			if len(has) < 2 {
				c.Discard()
			}
		}
		cs := append([]int{}, cases...)
		check(c, d, cs, []int{1, 2}, k)
	}}
}

// reuse: growing into a used tree gives what a fresh tree gives
func reuse(c *mc.Ctx) {
	n := 4
	mk := func(label string) (*data, conf) {
		y := make([]int, n)
		y[0] = c.Choose(2, label)
		for i := 1; i < n; i++ {
			y[i] = c.Choose(2, "")
		}
		t, r := cf.CatTarget("gini", 2, y)
		d := newData(t, r)
		q := c.Choose(3, "columns")
		xs := [][]float64{{1, 2, 3, 4}, {2, nan, 1, 3}, {1, nan, 2, nan}}
		zs := [][]int{{0, 1, 1, 0}, {1, -1, 0, 1}, {2, 1, 0, -1}}
		d.num(xs[q])
		d.cat(3, zs[q])
		return d, conf{mTry: 2, leaf: 1 + c.Choose(2, "leaf size - 1"), depth: c.Choose(2, "max depth"), missing: c.Bool("split missing")}
	}
	d1, k1 := mk("first response")
	d2, k2 := mk("second response")
	k1.jungle = c.Bool("jungle")
	k2.jungle = k1.jungle
	used, fresh := C.NewTree(), C.NewTree()
	a1 := C.NewBestSplitAllocs(n, d1.t)
	d1.grow(used, cf.Seq(n), []int{1, 2}, k1, a1)
	before := dump(used.Root)
	a2 := C.NewBestSplitAllocs(n, d2.t)
	a2.Rnd = rand.New(rand.NewSource(1))
	c.SeedRaw(5)
	d2.grow(used, cf.Seq(n), []int{1, 2}, k2, a2)
	c.SeedRaw(5)
	a3 := C.NewBestSplitAllocs(n, d2.t)
	a3.Rnd = rand.New(rand.NewSource(1))
	c.SeedRaw(5)
	d2.grow(fresh, cf.Seq(n), []int{1, 2}, k2, a3)
	_ = a1
	c.Eval(1)
	got, want := shape(used.Root), shape(fresh.Root)
	c.State(before + " -> " + want)
	c.Outcome("%v", want)
	c.Check(got == want, "%v %v grown into a tree that was %s gives %s, into a fresh tree %s", d2, k2, before, got, want)
}

// shape is a tree with ties between equally good splits left out of account:
// both growths answer the random source alike, so dumps must be equal.
func shape(n *C.Node) string { return dump(n) }

// random thresholds are well formed too
func extra(c *mc.Ctx) {
	n := c.Int(4, 5)
	x := numCol(c, n)
	y := make([]int, n)
	for i := range y {
		y[i] = c.Choose(2, "")
	}
	t, r := target(mc.Pick(c, []string{"gini", "num"}, "target"), 2, y)
	d := newData(t, r)
	d.num(x)
	w := make([]float64, n)
	for i := range w {
		w[i] = float64((i * 3) % n)
	}
	d.num(w)
	c.RandAll()
	check(c, d, cf.Seq(n), []int{1, 2}, conf{mTry: 1 + c.Choose(2, "mTry - 1"), leaf: 1 + c.Choose(2, "leaf"), extra: true, missing: c.Bool("split missing")})
}

// jungle: nodes of a level may be shared; what holds of a node of a tree and
// the cases that reach it holds of a shared node and all that reach it.
func jungle(c *mc.Ctx) {
	n := c.Int(6, 7)
	y := make([]int, n)
	for i := range y {
		y[i] = c.Choose(2, "")
	}
	kind := mc.Pick(c, append(append([]string{}, cf.CatKinds...), cf.NumKinds...), "target")
	t, r := target(kind, 2, y)
	d := newData(t, r)
	xs := [][]float64{{1, 2, 3, 4, 5, 6, 7}, {2, nan, 1, 1, 3, 3, nan}, {1, 1, 2, 2, nan, 3, 3}, {6, 1, 4, 2, 5, 3, 7}}
	zs := [][]int{{0, 1, 2, 0, 1, 2, 0}, {1, -1, 0, 1, 0, 0, 1}, {2, 2, 1, 0, -1, 1, 0}, {0, 0, 1, 1, 2, 2, 2}}
	q := c.Choose(4, "columns")
	d.num(xs[q][:n])
	d.cat(3, zs[q][:n])
	k := conf{mTry: 1 + c.Choose(2, "mTry - 1"), leaf: 1 + c.Choose(2, "leaf size - 1"), depth: c.Choose(4, "max depth"), missing: c.Bool("split missing"), jungle: true}
	if k.mTry == 1 {
		c.RandFirst(3)
	}
	d.jungle(c, k, []int{1, 2})
}

// modular is a target of which both splitting and combining nodes often lowers
// the impurity, so that every part of a jungle may be shared.
type modular struct {
	*C.DenseCatFeature
}

func (t *modular) Impurity(cases *[]int, counter *[]int) float64 {
	return ref.Modular(*cases, t.CatData)
}

func (t *modular) SplitImpurity(l, r, m *[]int, allocs *C.BestSplitAllocs) float64 {
	n, s := 0.0, 0.0
	for _, p := range []*[]int{l, r, m} {
		if p != nil {
			n += float64(len(*p))
			s += float64(len(*p)) * t.Impurity(p, nil)
		}
	}
	return s / n
}

func (t *modular) UpdateSImpFromAllocs(l, r, m *[]int, allocs *C.BestSplitAllocs, moved *[]int) float64 {
	return t.SplitImpurity(l, r, m, allocs)
}

func sharing(c *mc.Ctx) {
	n := 8
	y := make([]int, n)
	for i := range y {
		y[i] = c.Choose(3, "")
	}
	g, r := cf.CatTarget("gini", 3, y)
	r.Kind = "modular"
	d := newData(&modular{g.(*C.DenseCatFeature)}, r)
	// columns of two values leave the search no choice but the column
	cols := [][][]float64{
		{{1, 1, 1, 1, 2, 2, 2, 2}, {1, 1, 2, nan, 1, 2, nan, 2}, {1, 2, 1, 2, 1, nan, 2, 1}},
		{{1, 1, nan, 2, 2, 2, 2, 2}, {1, 2, 2, 1, 1, nan, 2, nan}, {2, 2, 1, 1, 2, 2, 1, 1}},
		{{2, 1, 2, 1, 2, 1, 2, 1}, {nan, 1, 1, 2, 2, 1, nan, 2}, {1, nan, 2, nan, nan, 2, 1, 1}},
	}
	for _, x := range cols[c.Choose(3, "columns")] {
		d.num(x[:n])
	}
	k := conf{mTry: 3, leaf: 1, depth: 4 * c.Choose(2, "max depth"), missing: c.Bool("split missing"), jungle: true}
	d.jungle(c, k, []int{1, 2, 3})
}

// constants: what is constant on one side of a jungle need not be on the
// other. A third column separates the sides.
func constants(c *mc.Ctx) {
	a, b := 4, c.Int(5, 6)
	n := a + b
	y := make([]int, n)
	for i := range y {
		y[i] = c.Choose(2, "")
	}
	t, r := target("gini", 2, y)
	d := newData(t, r)
	x, z, w := make([]float64, n), make([]float64, n), make([]float64, n)
	at := float64(c.Choose(a+1, "")) + 0.5
	for i := range x {
		if i < a {
			x[i] = float64(i + 1)
		} else {
			x[i], w[i] = at, 1
			z[i] = float64(c.Choose(2, ""))
		}
	}
	d.num(x)
	d.num(z)
	d.num(w)
	d.jungle(c, conf{mTry: 3, leaf: 1, jungle: true}, []int{1, 2, 3})
}

func (d *data) jungle(c *mc.Ctx, k conf, cans []int) {
	n := d.t.(interface{ Length() int }).Length()
	tree := C.NewTree()
	allocs := C.NewBestSplitAllocs(n, d.t)
	d.grow(tree, cf.Seq(n), cans, k, allocs)
	what := fmt.Sprintf("jungle %v %v", d, k)
	c.State(what + dump(tree.Root))
	reach := map[*C.Node][]int{}
	shared := map[*C.Node]int{}
	level := map[*C.Node]int{}
	var walk func(n *C.Node, cases []int, depth int)
	walk = func(n *C.Node, cases []int, depth int) {
		c.Check(n != nil, "%s: missing child", what)
		c.Check(depth <= 20, "%s: endless", what)
		if l, ok := level[n]; ok {
			c.Check(l == depth, "%s: a node is on level %d and %d", what, l, depth)
		}
		level[n] = depth
		reach[n] = append(reach[n], cases...)
		shared[n]++
		if n.Splitter == nil {
			c.Check(n.Left == nil && n.Right == nil && n.Missing == nil && n.CodedSplit == nil, "%s: a leaf that is split", what)
			return
		}
		l, r, m := d.part(n, cases)
		walk(n.Left, l, depth+1)
		walk(n.Right, r, depth+1)
		if n.Missing != nil {
			walk(n.Missing, m, depth+1)
		}
	}
	walk(tree.Root, cf.Seq(n), 0)
	cs := map[int]bool{}
	for _, i := range cans {
		cs[i] = true
	}
	most := 0
	for nd, cases := range reach {
		if shared[nd] > most {
			most = shared[nd]
		}
		d.node(c, what, nd, cases, level[nd], cs, k)
		c.Eval(1)
	}
	c.Outcome("%d %d", len(reach), most)
}

func (d *data) part(n *C.Node, cases []int) (l, r, m []int) {
	fi := d.fm.Map[n.Splitter.Feature]
	col := d.cols[fi]
	return col.Part(cases, func(i int) bool {
		if col.Cat != nil {
			return n.Splitter.Left[d.cats[fi][col.Cat[i]]]
		}
		return col.Num[i] <= n.Splitter.Value
	})
}

func main() {
	scs := []mc.Scenario{settings("gini"), settings("num"),
		{Name: "leaf sizes", Run: sizes, Bound: "minimum leaf size 2..5, twice that -1..+2 cases, every response of at most two steps over an increasing column with 0..2 missing values, with and without a categorical column, missing branch or not, forced or not"},
		{Name: "reuse of a tree", Run: reuse, Bound: "every pair of binary responses of 4 cases x 3 pairs of columns x settings, growing one after the other into the same tree or jungle"},
		{Name: "jungle", Run: jungle, Bound: "14 targets, 6 (7) cases, every binary response, 4 pairs of columns, settings"},
		{Name: "jungle, much shared", Run: sharing, Bound: "8 cases, every response over 3 classes, each with another impurity that may be lower for more cases, 3 sets of columns with missing values, with and without missing branches"},
		{Name: "jungle, constants", Run: constants, Bound: "9 (10) cases: every binary response, 3 columns of which one varies on one side, one on the other and one between them"},
		{Name: "random thresholds", Run: extra, Bound: "4 (5) cases, every column, every binary response, every answer of the random source"},
	}
	for _, set := range [][]string{cf.NumKinds, cf.CatKinds, cf.TwoKinds} {
		for _, k := range set {
			scs = append(scs, kinds(k))
		}
	}
	mc.Main(mc.Spec{
		Property: "C07", Quick: 150, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution grows one tree; the tree is walked from the root with the training cases by the definition of its splitters",
		Assumptions: []string{"a two class score that is undefined (one class only) counts as no decrease"},
		Scenarios:   scs,
	})
}

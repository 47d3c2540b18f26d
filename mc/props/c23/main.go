// C23: importance reports the accepted decreases, exactly.
package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	growforest "github.com/ryanbressler/CloudForest/growforest"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/model"
	"verifmc/ref"
	"verifmc/sched"
)

// account sums up what trees imply about each feature.
type account struct {
	sum, n, used, depth []float64
}

func newAccount(features int) *account {
	mk := func() []float64 { return make([]float64, features) }
	return &account{mk(), mk(), mk(), mk()}
}

// columns copies the data of a feature matrix.
func columns(c *mc.Ctx, fm *C.FeatureMatrix) (cols []cf.Column) {
	for _, f := range fm.Data {
		switch f.(type) {
		case *C.DenseNumFeature, *C.DenseCatFeature:
		default: // a target made from a feature
			cols = append(cols, cf.Column{Name: f.GetName()})
			continue
		}
		o, bad := cf.Of(f)
		c.Check(bad == "", "%s: %s", f.GetName(), bad)
		cols = append(cols, o)
	}
	return
}

// add walks a tree with its training cases; it returns the least depth of
// each feature, -1 where unused.
func (a *account) add(c *mc.Ctx, what string, root *C.Node, cols []cf.Column, cases []int, r *ref.T) []int {
	depth := make([]int, len(cols))
	for i := range depth {
		depth[i] = -1
	}
	// level by level, as nodes of jungles may have several parents
	level := []*C.Node{root}
	at := map[*C.Node][]int{root: cases}
	for d := 0; len(level) > 0; d++ {
		var next []*C.Node
		nextAt := map[*C.Node][]int{}
		pass := func(n *C.Node, cases []int) {
			if n == nil {
				return
			}
			if _, ok := nextAt[n]; !ok {
				next = append(next, n)
			}
			nextAt[n] = append(nextAt[n], cases...)
		}
		for _, n := range level {
			if n.Splitter == nil {
				continue
			}
			left, right, miss := split(c, what, n, cols, at[n])
			a.sum[n.Featurei] += r.Dec(left, right, miss)
			a.n[n.Featurei]++
			if depth[n.Featurei] < 0 || d < depth[n.Featurei] {
				depth[n.Featurei] = d
			}
			pass(n.Left, left)
			pass(n.Right, right)
			pass(n.Missing, miss)
		}
		level, at = next, nextAt
	}
	for i, d := range depth {
		if d >= 0 {
			a.used[i]++
			a.depth[i] += float64(d)
		}
	}
	return depth
}

// split sends cases to the children of a node.
func split(c *mc.Ctx, what string, n *C.Node, cols []cf.Column, cases []int) (left, right, miss []int) {
	col := cols[n.Featurei]
	c.Check(col.Name == n.Splitter.Feature, "%s: a node splits on feature %d, %q, its splitter on %q", what, n.Featurei, col.Name, n.Splitter.Feature)
	for _, i := range cases {
		v := col.Vals[i]
		l := false
		switch {
		case v == "":
			miss = append(miss, i)
			continue
		case col.Num:
			x, _ := strconv.ParseFloat(v, 64)
			l = x <= n.Splitter.Value
		default:
			l = n.Splitter.Left[v]
		}
		if l {
			left = append(left, i)
		} else {
			right = append(right, i)
		}
	}
	return
}

func (a *account) check(c *mc.Ctx, what string, imp []*C.RunningMean) {
	for i, m := range imp {
		mean, n := m.Read()
		want := 0.0
		if a.n[i] > 0 {
			want = a.sum[i] / a.n[i]
		}
		c.Check(n == a.n[i], "%s: feature %d has %v importances, it is split on %v times", what, i, n, a.n[i])
		c.Check(cf.Close(mean, want, 1e-9), "%s: feature %d has importance %v, its splits achieve %v on average", what, i, mean, want)
	}
	c.Eval(1)
}

// ---- growing trees directly

func direct(c *mc.Ctx, what string, fm *C.FeatureMatrix, t C.Target, r *ref.T, bags [][]int, grow func(t *C.Tree, cases []int, imp *[]*C.RunningMean, depth *[]int)) {
	cols := columns(c, fm)
	imp := C.NewRunningMeans(len(cols))
	du := make([]int, len(cols))
	acc := newAccount(len(cols))
	tree := C.NewTree()
	least := make([]int, len(cols))
	for i := range least {
		least[i] = -1
	}
	for _, bag := range bags {
		given := append([]int{}, bag...)
		grow(tree, bag, imp, &du)
		d := acc.add(c, what, tree.Root, cols, given, r)
		for i, x := range d {
			if x >= 0 && (least[i] < 0 || x < least[i]) {
				least[i] = x
			}
		}
		c.State(what + model.Of(tree.Root).String())
	}
	acc.check(c, what, *imp)
	for i, x := range least {
		c.Check(du[i] == x+1, "%s: feature %d is first used at depth %d, recorded is %d (1 for the root, 0 for unused)", what, i, x, du[i])
	}
	c.Outcome("%v %v", acc.n, least)
}

func describe(fm *C.FeatureMatrix) string {
	var s []string
	for _, f := range fm.Data {
		s = append(s, cf.Describe(f))
	}
	return strings.Join(s, " ")
}

var nan = math.NaN()

func response(c *mc.Ctx, kind string, n int) (C.Target, *ref.T) {
	for _, nk := range cf.NumKinds {
		if nk == kind {
			vals := []float64{-1.5, 0.25, 4}
			if kind == "ordinal" {
				vals = []float64{0, 1, 3}
			}
			x := make([]float64, n)
			for i := range x {
				x[i] = vals[c.Choose(3, "")]
			}
			return cf.NumTarget(kind, x)
		}
	}
	k := 3
	for _, tk := range append([]string{"np", "trans0"}, cf.TwoKinds...) {
		if tk == kind {
			k = 2
		}
	}
	y := make([]int, n)
	has := map[int]bool{}
	for i := range y {
		y[i] = c.Choose(k, "")
		has[y[i]] = true
	}
	if kind == "gradclass" && len(has) < 2 { // the prior is undefined
		c.Discard()
	}
	return cf.CatTarget(kind, k, y)
}

var numCols = [][]float64{{1, 2, 3, 4, 5}, {2, nan, 1, 1, 3}, {1, 1, 2, nan, nan}, {nan, 3, nan, 2, 1}}
var catCols = [][]int{{0, 1, 2, 0, 1}, {1, -1, 0, 1, 0}, {2, 2, 1, 0, -1}, {-1, 0, 0, 1, 2}}
var bags = [][][]int{{{0, 1, 2, 3, 4}}, {{4, 4, 1, 0, 2}, {3, 1, 3, 0}}, {{0, 0, 1}, {2, 3, 4, 1}, {4}}}

func trees(kind string, jungle bool) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		t, r := response(c, kind, 5)
		q := c.Choose(c.Int(3, 4), "columns")
		fm := cf.FM(cf.Num("N:x", numCols[q]), t.(C.Feature), cf.Cat("C:z", cf.Names(3), catCols[q]), cf.Num("N:w", numCols[(q+1)%4]))
		mTry := mc.Pick(c, []int{3, 1}, "mTry")
		leaf := 1 + c.Choose(2, "leaf size - 1")
		depth := c.Choose(3, "maximum depth")
		miss := c.Bool("split missing")
		bs := bags[c.Choose(len(bags), "cases")]
		what := fmt.Sprintf("%s %s mTry=%d leafSize=%d maxDepth=%d splitmissing=%v jungle=%v cases %v", kind, describe(fm), mTry, leaf, depth, miss, jungle, bs)
		var copies [][]int
		for _, b := range bs {
			copies = append(copies, append([]int{}, b...))
		}
		if mTry == 1 {
			c.RandFirst(c.Int(2, 4))
		} else {
			c.RandFirst(0)
		}
		allocs := C.NewBestSplitAllocs(10, t)
		direct(c, what, fm, t, r, copies, func(tr *C.Tree, cases []int, imp *[]*C.RunningMean, du *[]int) {
			f := tr.Grow
			if jungle {
				f = tr.GrowJungle
			}
			f(fm, t, cases, []int{0, 2, 3}, nil, mTry, leaf, depth, miss, false, false, false, false, imp, du, allocs)
		})
	}
}

func scenarioTrees(kind string) mc.Scenario {
	return mc.Scenario{Name: "target " + kind, Run: trees(kind, false), Bound: "5 cases, every response over 3 values/classes (2 for two class targets), 3 (4) sets of columns with missing values, 1..3 trees in a row into the same accumulators, leaf size, depth limit, missing branch; one of three candidates or all, the first 2 (4) random answers explored"}
}

// forests grown by the library
func forests(c *mc.Ctx) {
	kind := mc.Pick(c, []string{"gini", "num", "entropy", "l1"}, "target")
	n := 4
	t, r := response(c, kind, n)
	q := c.Choose(4, "columns")
	fm := cf.FM(cf.Num("N:x", numCols[q][:n]), t.(C.Feature), cf.Cat("C:z", cf.Names(3), catCols[q][:n]))
	k := 1 + c.Choose(2, "trees - 1")
	mTry := 1 + c.Choose(2, "mTry - 1")
	miss := c.Bool("split missing")
	what := fmt.Sprintf("GrowRandomForest %s %s %d trees mTry=%d splitmissing=%v", kind, describe(fm), k, mTry, miss)
	imp := C.NewRunningMeans(3)
	cols := columns(c, fm)
	acc := newAccount(3)
	var cases []int
	grown := 0
	cfg := sched.Config{NoRaces: true, KeepRand: true, Traced: func(leave bool, name string, thread int, lg []sched.Draw, args []interface{}) {
		if !leave {
			cases = append([]int{}, args[3].([]int)...)
		} else {
			acc.add(c, what, args[0].(*C.Tree).Root, cols, cases, r)
			grown++
		}
	}}
	c.RandFirst(c.Int(3, 4))
	_, res := cmd.Run(c, cfg, func() {
		C.GrowRandomForest(fm, t, []int{0, 2}, n, mTry, k, 1, 0, miss, false, false, false, imp)
	})
	c.Check(res.Exit == "", "%s: %s\n%s", what, res.Exit, res.Stack)
	c.Check(grown == k, "%s: %d trees are grown", what, grown)
	acc.check(c, what, *imp)
	c.Statef("%s %v %v", what, acc.sum, acc.n)
	c.Outcome("%v", acc.n)
}

// ---- growforest's files

func table(target cf.Column) cf.Table {
	t := cf.Table{Cols: []cf.Column{
		{Name: "N:x", Num: true, Vals: []string{"1", "2", "3", "4", "5", "2.5"}},
		target,
		{Name: "C:z", Vals: []string{"p", "q", "r", "", "p", "q"}},
		{Name: "N:y", Num: true, Vals: []string{"3", "1", "", "2", "2", "5"}},
	}}
	for i := range t.Cols[0].Vals {
		t.Labels = append(t.Labels, fmt.Sprint("case", i))
	}
	return t
}

type set struct {
	target cf.Column
	kinds  [][]string // flags and the kind of target they make
}

var sets = []set{
	{cf.Column{Name: "C:t", Vals: []string{"a", "b", "b", "a", "c", "a"}}, [][]string{{"gini"}, {"entropy", "-entropy"}, {"gini", "-jungle"}, {"gini", "-balance"}}},
	{cf.Column{Name: "C:t", Vals: []string{"a", "b", "", "a", "a", "b"}}, [][]string{{"gini"}}},
	{cf.Column{Name: "N:t", Num: true, Vals: []string{"1", "2", "4", "8", "16", "-32"}}, [][]string{{"num"}, {"l1", "-l1"}, {"num", "-jungle"}}},
	{cf.Column{Name: "N:t", Num: true, Vals: []string{"1", "", "4", "8", "", "-32"}}, [][]string{{"num"}}},
}

// definition makes the plain target of a column.
func definition(kind string, col cf.Column) *ref.T {
	if col.Num {
		var x []float64
		for _, v := range col.Vals {
			f := nan
			if v != "" {
				f, _ = strconv.ParseFloat(v, 64)
			}
			x = append(x, f)
		}
		_, r := cf.NumTarget(kind, x)
		return r
	}
	var y []int
	for _, v := range col.Vals {
		y = append(y, model.CatIndex(cf.Column{Vals: col.Vals}, v))
	}
	_, r := cf.CatTarget(kind, 3, y)
	return r
}

var extras = [][]string{{}, {"-splitmissing"}, {"-impute"}, {"-maxDepth", "1"}, {"-nobag"}, {"-nContrasts", "2"}, {"-contrastall"}, {"-permute"}, {"-shuffleRE", "N:x"}, {"-force"}, {"-extra"}, {"-nSamples", "3"}, {"-mTry", "3"}}

func commands(c *mc.Ctx) {
	ds := sets[c.Choose(len(sets), "data")]
	kind := mc.Pick(c, ds.kinds, "target")
	trees := 1 + c.Choose(c.Int(2, 3), "trees - 1")
	fl := append(append([]string{}, mc.Pick(c, extras, "flags")...), kind[1:]...)
	ace, cutoff := 0, 0.0
	switch c.Choose(3, "ACE") {
	case 1:
		ace = 2 + c.Choose(2, "permutations")
		fl = append(fl, "-ace", fmt.Sprint(ace))
	case 2:
		ace, cutoff = 3, 0.5
		fl = append(fl, "-ace", "3", "-cutoff", "0.5")
	}
	tb := table(ds.target)
	cmd.Keep("train.afm", tb.AFM(false, ".", "NA", "\n", true))
	cmd.Drop("imp.tsv")
	args := append([]string{"-train", cmd.Path("train.afm"), "-target", ds.target.Name, "-importance", cmd.Path("imp.tsv"), "-nTrees", fmt.Sprint(trees), "-leafSize", "1", "-noseed"}, fl...)
	what := fmt.Sprintf("%v: growforest %v", tb, args)

	var perForest []*account
	var names []string
	var cases []int
	var cols []cf.Column
	var def *ref.T
	grown := 0
	cfg := sched.Config{NoRaces: true, KeepRand: true, Traced: func(leave bool, name string, thread int, lg []sched.Draw, args []interface{}) {
		if !leave {
			cases = append([]int{}, args[3].([]int)...)
			cols = columns(c, args[1].(*C.FeatureMatrix))
			def = definition(kind[0], cols[1])
			names = nil
			for _, k := range cols {
				names = append(names, k.Name)
			}
			return
		}
		if grown%trees == 0 {
			perForest = append(perForest, newAccount(len(cols)))
		}
		grown++
		perForest[len(perForest)-1].add(c, what, args[0].(*C.Tree).Root, cols, cases, def)
	}}
	free, seed := c.Int(1, 2), 1+c.Choose(c.Int(2, 10), "random stream")
	x := uint64(seed) * 0x9e3779b97f4a7c15
	c.Rand(func(n int) int {
		if free > 0 && n > 1 {
			free--
			return c.Choose(n, "answer")
		}
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return int(x>>33) % n
	})
	_, res := cmd.Run(c, cfg, growforest.Main, args...)
	c.Check(res.Exit == "" && res.Deadlock == "", "%s: %s\n%s", what, res.Exit, res.Stack)
	want := 1
	if ace > 0 {
		want = ace
		if cutoff > 0 {
			want++
		}
	}
	c.Check(len(perForest) == want && grown == want*trees, "%s: %d trees are grown", what, grown)
	text, ok := cmd.Get("imp.tsv")
	c.Check(ok, "%s: no importance is written", what)
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	c.Eval(1)
	same := func(s string, w float64) bool {
		g, err := strconv.ParseFloat(s, 64)
		return err == nil && (cf.Close(g, w, 1e-9) || math.IsNaN(w) && math.IsNaN(g))
	}
	if ace == 0 {
		a := perForest[0]
		c.Check(len(lines) == len(names), "%s: importance of %d features\n%s", what, len(lines), text)
		for i, l := range lines {
			f := strings.Split(l, "\t")
			c.Check(len(f) == 7 && f[0] == names[i], "%s: line %d of the importance is %q", what, i, l)
			w := []float64{0, a.n[i], a.sum[i] / float64(trees), a.sum[i] / a.used[i], a.used[i], 0}
			if a.n[i] > 0 {
				w[0] = a.sum[i] / a.n[i]
				w[5] = a.depth[i] / a.used[i]
			}
			for k := range w {
				c.Check(same(f[k+1], w[k]), "%s: column %d of the importance of %s is %s, its trees imply %v\n%s", what, k+2, f[0], f[k+1], w[k], text)
			}
		}
		c.Statef("%s %s", what, text)
		c.Outcome("%v", a.n)
		return
	}
	real := len(names) / 2
	c.Check(len(lines) == real, "%s: importance of %d features\n%s", what, len(lines), text)
	for i, l := range lines {
		f := strings.Split(l, "\t")
		c.Check(len(f) == 4 && f[0] == ds.target.Name && f[1] == names[i], "%s: line %d of the importance is %q", what, i, l)
		var mine, contrast []float64
		for _, a := range perForest[:ace] {
			mine = append(mine, a.sum[i]/float64(trees))
			contrast = append(contrast, a.sum[i+real]/float64(trees))
		}
		m, _ := ref.Moments(mine)
		c.Check(same(f[3], m), "%s: the mean importance of %s is %s, its trees imply %v: %v\n%s", what, f[1], f[3], m, mine, text)
		p, _, _, ok := ref.Welch(mine, contrast)
		g, err := strconv.ParseFloat(f[2], 64)
		switch {
		case !ok:
			c.Check(err == nil && !(g < 0.4), "%s: p of %s is %s though its importances %v and the contrast's %v do not vary", what, f[1], f[2], mine, contrast)
		case !math.IsNaN(p):
			c.Check(err == nil && math.Abs(g-p) < 1e-6, "%s: p of %s is %s, importances %v against %v imply %v", what, f[1], f[2], mine, contrast, p)
		}
	}
	c.Statef("%s %s", what, text)
	c.Outcome("%v %v", ace, perForest[0].n)
}

func main() {
	log.SetOutput(ioutil.Discard)
	var scs []mc.Scenario
	for _, set := range [][]string{cf.NumKinds, cf.CatKinds, cf.TwoKinds} {
		for _, k := range set {
			scs = append(scs, scenarioTrees(k))
		}
	}
	scs = append(scs,
		mc.Scenario{Name: "jungle", Run: func(c *mc.Ctx) { trees(mc.Pick(c, []string{"gini", "num"}, "target"), true)(c) }, Bound: "as for trees, grown level by level"},
		mc.Scenario{Name: "forests", Run: forests, Bound: "GrowRandomForest, 4 cases, every response over 3 values or classes, 4 targets, 4 sets of columns, 1..2 trees; the first 3 (4) random answers explored"},
		mc.Scenario{Name: "growforest", Run: commands, Bound: "4 data sets, 9 target and growing modes, 13 flags, 1..2 (3) trees, without or with ACE (and a cutoff); 2 (10) random streams, the first 1 (2) answers explored"},
	)
	mc.Main(mc.Spec{
		Property: "C23", Quick: 150, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution grows trees or forests; each tree is walked with its own training cases and the decrease of every split is recomputed from its definition; accumulators and files must hold exactly those",
		Assumptions: []string{"vetting and evaluation out of bag, which change what a decrease is, are left to C06", "boosting, which changes the target between trees, is left to C15"},
		Scenarios:   scs,
	})
}

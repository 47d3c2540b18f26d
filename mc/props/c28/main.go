// C28: growforest does what its options say, in every combination of them.
package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	growforest "github.com/ryanbressler/CloudForest/growforest"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/model"
	"verifmc/sched"
)

// ---- data

type dataset struct {
	name   string
	target string
	num    bool
	t      cf.Table
	file   string
	known  int
}

func makeData(name string, target cf.Column) *dataset {
	t := cf.Table{Cols: []cf.Column{
		{Name: "N:x", Num: true, Vals: []string{"1", "2", "3", "4", "5", "2.5", "7", "0.5"}},
		{Name: "C:z", Vals: []string{"p", "q", "r", "", "p", "q", "p", "q"}},
		target,
		{Name: "N:y", Num: true, Vals: []string{"3", "1", "", "2", "2", "5", "-1", "4"}},
		{Name: "B:b", Vals: []string{"u", "u", "v", "v", "u", "v", "u", "v"}},
		{Name: "N:w", Num: true, Vals: []string{"-2", "9", "4", "6", "1", "8", "3", ""}},
	}}
	ds := &dataset{name: name, target: target.Name, num: target.Num}
	for i, v := range target.Vals {
		t.Labels = append(t.Labels, fmt.Sprint("case", i))
		if v != "" {
			ds.known++
		}
	}
	ds.t = t
	ds.file = t.AFM(false, ".", "NA", "\n", true)
	return ds
}

const features = 5 // besides the target

var datasets = []*dataset{
	makeData("classes, one unknown", cf.Column{Name: "C:t", Vals: []string{"a", "b", "", "a", "c", "b", "a", "b"}}),
	makeData("numbers, one unknown", cf.Column{Name: "N:t", Num: true, Vals: []string{"1", "", "4", "8", "16", "-32", "3", "2"}}),
	makeData("two classes", cf.Column{Name: "C:t", Vals: []string{"a", "b", "b", "a", "b", "b", "a", "b"}}),
	makeData("levels", cf.Column{Name: "N:t", Num: true, Vals: []string{"1", "2", "0", "1", "3", "2", "1", "0"}}),
}

// ---- what options mean

// settings is what a command line asks for.
type settings struct {
	args  []string
	given map[string]bool
	later []func(s *settings, ds *dataset)

	trees, mTry, leafSize, maxDepth, nSamples          int
	splitmissing, force, vet, evaloob, extra, jungle   bool
	nobag, balanced, impute, oob, boost, scored, plain bool
	// target makes what is grown for
	target func(fm *C.FeatureMatrix, f C.Feature) C.Target
}

// option is one of the things a command line may ask for.
type option struct {
	name   string
	values []value
}

type value struct {
	args []string
	set  func(s *settings, ds *dataset)
	// only for this kind of target: "", "num" or "cat"
	kind string
}

func flag(name string, set func(s *settings)) option {
	return option{name, []value{{args: []string{name}, set: func(s *settings, _ *dataset) { set(s) }}}}
}

func amounts(name string, total func(ds *dataset) int, set func(s *settings, n int), vals ...string) option {
	o := option{name: name}
	for _, v := range vals {
		v := v
		o.values = append(o.values, value{args: []string{name, v}, set: func(s *settings, ds *dataset) {
			// counts are whole numbers, parts have a point and are rounded up
			if strings.Contains(v, ".") {
				f, _ := strconv.ParseFloat(v, 64)
				k := 0
				for float64(k) < f*float64(total(ds)) {
					k++
				}
				set(s, k)
			} else {
				k, _ := strconv.Atoi(v)
				set(s, k)
			}
		}})
	}
	return o
}

// costs in the forms that are given
var costs = map[string]float64{"a": 2, "b": 1, "c": 0.5}

const costsJSON = `{"a":2,"b":1,"c":0.5}`

type maker func(fm *C.FeatureMatrix, f C.Feature) C.Target

func cat(args []string, m func(f C.CatFeature) C.Target) value {
	return value{args: args, kind: "cat", set: func(s *settings, _ *dataset) {
		s.target = func(fm *C.FeatureMatrix, f C.Feature) C.Target { return m(f.(C.CatFeature)) }
		s.plain = false
	}}
}

func num(args []string, m func(f C.NumFeature) C.Target) value {
	return value{args: args, kind: "num", set: func(s *settings, _ *dataset) {
		s.target = func(fm *C.FeatureMatrix, f C.Feature) C.Target { return m(f.(C.NumFeature)) }
		s.plain = false
	}}
}

func boosted(v value) value {
	set := v.set
	v.set = func(s *settings, ds *dataset) {
		set(s, ds)
		s.boost = true
	}
	return v
}

// scores marks targets of classes that predict numbers.
func scores(v value) value {
	set := v.set
	v.set = func(s *settings, ds *dataset) {
		set(s, ds)
		s.scored = true
	}
	return v
}

func trans(args []string, unlabeled string, alpha, beta float64, in func(f C.CatFeature) C.CatFeature) value {
	return value{args: args, kind: "cat", set: func(s *settings, ds *dataset) {
		s.plain = false
		s.target = func(fm *C.FeatureMatrix, f C.Feature) C.Target {
			return C.NewTransTarget(in(f.(C.CatFeature)), &fm.Data, unlabeled, alpha, beta, ds.known)
		}
	}}
}

func same(f C.CatFeature) C.CatFeature { return f }

func list(s ...string) []string { return s }

var impurity = option{"target", []value{
	num(list("-l1"), func(f C.NumFeature) C.Target { return &C.L1Target{NumFeature: f} }),
	num(list("-ordinal"), func(f C.NumFeature) C.Target { return C.NewOrdinalTarget(f) }),
	boosted(num(list("-gbt", "0.5"), func(f C.NumFeature) C.Target { return C.NewGradBoostTarget(f, 0.5) })),
	boosted(num(list("-gbt", "0.125", "-adaboost=false"), func(f C.NumFeature) C.Target { return C.NewGradBoostTarget(f, 0.125) })),
	boosted(num(list("-adaboost"), func(f C.NumFeature) C.Target { return C.NewNumAdaBoostTarget(f) })),
	boosted(num(list("-gbt", "0.5", "-l1"), func(f C.NumFeature) C.Target {
		return C.NewGradBoostTarget(&C.L1Target{NumFeature: f}, 0.5)
	})),
	cat(list("-entropy"), func(f C.CatFeature) C.Target { return &C.EntropyTarget{CatFeature: f} }),
	scores(cat(list("-hellinger", "-positive", "a"), func(f C.CatFeature) C.Target { return C.NewHDistanceTarget(f, "a") })),
	scores(cat(list("-hellinger", "-positive", "b"), func(f C.CatFeature) C.Target { return C.NewHDistanceTarget(f, "b") })),
	cat(list("-dentropy", costsJSON), func(f C.CatFeature) C.Target {
		t := C.NewDEntropyTarget(f)
		t.SetCosts(costs)
		return t
	}),
	cat(list("-cost", costsJSON), func(f C.CatFeature) C.Target {
		t := C.NewRegretTarget(f)
		t.SetCosts(costs)
		return t
	}),
	cat(list("-cost", `{"b": 2.5e1}`), func(f C.CatFeature) C.Target {
		t := C.NewRegretTarget(f)
		t.SetCosts(map[string]float64{"b": 25})
		return t
	}),
	cat(list("-rfweights", costsJSON), func(f C.CatFeature) C.Target { return C.NewWRFTarget(f, costs) }),
	cat(list("-NP", "-NP_pos", "a"), func(f C.CatFeature) C.Target { return C.NewNPTarget(f, "a", 0.1, 100) }),
	cat(list("-NP", "-NP_pos", "b", "-NP_a", "0.4"), func(f C.CatFeature) C.Target { return C.NewNPTarget(f, "b", 0.4, 100) }),
	cat(list("-NP", "-NP_pos", "b", "-NP_a", "0.25", "-NP_k", "1.5"), func(f C.CatFeature) C.Target { return C.NewNPTarget(f, "b", 0.25, 1.5) }),
	boosted(cat(list("-adaboost"), func(f C.CatFeature) C.Target { return C.NewAdaBoostTarget(f) })),
	boosted(cat(list("-adacost", costsJSON), func(f C.CatFeature) C.Target {
		t := C.NewAdaCostTarget(f)
		t.SetCosts(costs)
		return t
	})),
	boosted(scores(cat(list("-gbt", "0.5", "-positive", "a"), func(f C.CatFeature) C.Target { return C.NewGradBoostClassTarget(f, 0.5, "a") }))),
	boosted(scores(cat(list("-gbt", "0.25", "-positive", "b"), func(f C.CatFeature) C.Target { return C.NewGradBoostClassTarget(f, 0.25, "b") }))),
	trans(list("-trans_unlabeled", "b"), "b", 10, 0, same),
	trans(list("-trans_unlabeled", "a", "-trans_alpha", "0.5"), "a", 0.5, 0, same),
	trans(list("-trans_unlabeled", "b", "-trans_alpha", "2", "-trans_beta", "0.75"), "b", 2, 0.75, same),
	trans(list("-trans_unlabeled", "b", "-trans_alpha", "0", "-trans_beta", "1.25"), "b", 0, 1.25, same),
	trans(list("-trans_unlabeled", "b", "-entropy"), "b", 10, 0, func(f C.CatFeature) C.CatFeature { return &C.EntropyTarget{CatFeature: f} }),
	trans(list("-trans_unlabeled", "b", "-rfweights", costsJSON), "b", 10, 0, func(f C.CatFeature) C.CatFeature { return C.NewWRFTarget(f, costs) }),
	{args: list("-density"), set: func(s *settings, ds *dataset) {
		s.plain, s.scored = false, true
		s.target = func(fm *C.FeatureMatrix, f C.Feature) C.Target {
			return &C.DensityTarget{Features: &fm.Data, N: ds.known}
		}
	}},
}}

func kindOnly(kind string, o option) option {
	for i := range o.values {
		o.values[i].kind = kind
	}
	return o
}

func outputs(args ...string) option {
	return option{args[0], []value{{args: args, set: func(*settings, *dataset) {}}}}
}

var options = []option{
	impurity,
	amounts("-nSamples", func(ds *dataset) int { return ds.known }, func(s *settings, n int) { s.nSamples = n }, "3", "0.4", "1.0", "13"),
	amounts("-mTry", func(*dataset) int { return features }, func(s *settings, n int) { s.mTry = n }, "2", "0.3", ".9", "1", "9"),
	amounts("-leafSize", func(ds *dataset) int { return ds.known }, func(s *settings, n int) { s.leafSize = n }, "2", "0.3", ".1", "3"),
	amounts("-maxDepth", nil, func(s *settings, n int) { s.maxDepth = n }, "1", "2"),
	amounts("-nTrees", nil, func(s *settings, n int) { s.trees = n }, "1", "3"),
	flag("-splitmissing", func(s *settings) { s.splitmissing = true }),
	flag("-force", func(s *settings) { s.force = true }),
	flag("-vet", func(s *settings) { s.vet = true }),
	flag("-evaloob", func(s *settings) { s.evaloob = true }),
	flag("-extra", func(s *settings) { s.extra = true }),
	flag("-jungle", func(s *settings) { s.jungle = true }),
	flag("-nobag", func(s *settings) { s.nobag = true }),
	flag("-impute", func(s *settings) { s.impute = true }),
	kindOnly("cat", flag("-balance", func(s *settings) { s.balanced = true })),
	kindOnly("cat", option{"-balanceby", []value{{args: list("-balanceby", "B:b"), set: func(s *settings, _ *dataset) { s.balanced = true }}}}),
	flag("-oob", func(s *settings) { s.oob = true }),
	flag("-progress", func(s *settings) { s.oob = true }),
	{"-oobpreds", []value{{args: list("-oobpreds", "@oob.tsv"), set: func(s *settings, _ *dataset) { s.oob = true }}}},
	outputs("-importance", "@imp.tsv"),
	outputs("-selftest"),
	outputs("-noseed"),
	outputs("-scikitforest", "@sk.json"),
	outputs("-cpuprofile", "@cpu.prof"),
}

// ---- what is traced

// step is one tree being grown.
type step struct {
	name     string
	cases    []int
	eval     []int
	cans     []int
	mTry     int
	leafSize int
	maxDepth int
	bools    [5]bool
	data     string
	imp, du  bool
	probe    []string
	from     int
	draws    []sched.Draw
	text     string
	weight   float64
}

// probe asks a target for impurities and predictions.
func probe(t C.Target, n int, allocs *C.BestSplitAllocs, missing func(i int) bool) (out []string) {
	var all, some, rest []int
	for i := 0; i < n; i++ {
		if missing(i) {
			continue
		}
		all = append(all, i)
		if i%3 == 0 {
			some = append(some, i)
		} else {
			rest = append(rest, i)
		}
	}
	ncats := len(*allocs.LCounter)
	for _, l := range [][]int{all, some, rest} {
		cnt := make([]int, ncats)
		out = append(out, fmt.Sprint(t.Impurity(&l, &cnt)))
		out = append(out, t.FindPredicted(l))
	}
	out = append(out, fmt.Sprint(t.SplitImpurity(&some, &rest, nil, allocs)))
	return out
}

// data states all values of a matrix.
func contents(fm *C.FeatureMatrix) string {
	t, bad := cf.TableOf(fm)
	return fmt.Sprint(t, bad)
}

func lines(text, prefix string) (out []string) {
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, prefix) {
			out = append(out, strings.TrimPrefix(l, prefix))
		}
	}
	return
}

func equal(a, b float64) bool { return cf.Close(a, b, 1e-9) || math.IsNaN(a) && math.IsNaN(b) }

// conduct runs growforest and the same steps by hand.
func conduct(c *mc.Ctx, ds *dataset, s *settings) {
	cmd.Keep("train.afm", ds.file)
	cmd.Drop("out.sf", "oob.tsv", "imp.tsv", "sk.json", "cpu.prof")
	args := []string{"-train", cmd.Path("train.afm"), "-target", ds.target, "-rfpred", cmd.Path("out.sf")}
	for _, a := range s.args {
		if strings.HasPrefix(a, "@") {
			a = cmd.Path(a[1:])
		}
		args = append(args, a)
	}
	what := fmt.Sprintf("growforest on %s with %v", ds.name, s.args)
	truth := ds.t.Cols[2].Vals
	n := len(truth)
	var steps []*step
	var cur *step
	isMissing := func(i int) bool { return truth[i] == "" }
	fm, err := C.LoadAFM(cmd.Path("train.afm"))
	c.Check(err == nil, "loading the data again: %v", err)
	f := fm.Data[fm.Map[ds.target]]
	own := C.NewBestSplitAllocs(n, f)
	tracer := func(leave bool, name string, thread int, lg []sched.Draw, a []interface{}) {
		if leave {
			cur.draws = append([]sched.Draw{}, lg[cur.from:]...)
			cur.text = model.Of(a[0].(*C.Tree).Root).String()
			return
		}
		cur = &step{name: name, from: len(lg)}
		steps = append(steps, cur)
		cur.data = contents(a[1].(*C.FeatureMatrix))
		cur.cases = append([]int{}, a[3].([]int)...)
		cur.cans = append([]int{}, a[4].([]int)...)
		cur.eval = append([]int{}, a[5].([]int)...)
		cur.mTry, cur.leafSize, cur.maxDepth = a[6].(int), a[7].(int), a[8].(int)
		for i := range cur.bools {
			cur.bools[i] = a[9+i].(bool)
		}
		cur.probe = probe(a[2].(C.Target), n, own, isMissing)
	}
	mc.Seeded = 0
	out, res := cmd.Run(c, sched.Config{NoRaces: true, OneSchedule: true, Traced: tracer}, growforest.Main, args...)
	c.Check((mc.Seeded == 0) == s.given["-noseed"], "%s: the random source is seeded %d times", what, mc.Seeded)
	c.Check(res.Deadlock == "" && res.Exit == "", "%s: %s%s\n%s", what, res.Exit, res.Deadlock, res.Stack)
	c.Eval(1)

	// the settings
	wantName := "Tree.Grow"
	if s.jungle {
		wantName = "Tree.GrowJungle"
	}
	if s.impute {
		fm.ImputeMissing()
	}
	data := contents(fm)
	orig := f.Copy()
	var target C.Target = f
	if s.target != nil {
		target = s.target(fm, f)
	}
	known := 0
	for i := 0; i < n; i++ {
		if !orig.IsMissing(i) {
			known++
		}
	}
	if s.mTry <= 0 {
		for s.mTry = 1; s.mTry*s.mTry < features; s.mTry++ {
		}
	}
	if s.leafSize <= 0 {
		switch {
		case s.boost:
			s.leafSize = known / 3
		case ds.num:
			s.leafSize = 4
		default:
			s.leafSize = 1
		}
	}
	if s.nSamples <= 0 {
		s.nSamples = known
	}

	var trees []*C.Tree
	var bb C.VoteTallyer = C.NewCatBallotBox(n)
	self := C.VoteTallyer(C.NewCatBallotBox(n))
	if ds.num {
		bb, self = C.NewNumBallotBox(n), C.NewNumBallotBox(n)
	}
	imp, mmd := C.NewRunningMeans(len(fm.Data)), C.NewRunningMeans(len(fm.Data))
	c.Rand(func(int) int { return 0 })
	sized, ok := target.(C.Feature)
	if !ok {
		sized = f
	}
	allocs := C.NewBestSplitAllocs(n+s.nSamples, sized)
	stopped := false
	var progress []float64
	for j, g := range steps {
		w := fmt.Sprintf("%s, tree %d", what, j)
		c.Check(!stopped && j < s.trees, "%s: is grown, though there should be %d", w, len(trees))
		c.Check(g.name == wantName, "%s: %s is called", w, g.name)
		c.Check(s.boost || g.data == data, "%s: the data are\n%s instead of\n%s", w, g.data, data)
		sorted := append([]int{}, g.cans...)
		sort.Ints(sorted)
		c.Check(fmt.Sprint(sorted) == "[0 1 3 4 5]", "%s: candidates %v", w, g.cans)
		c.Check(g.mTry == s.mTry, "%s: %d candidates per split instead of %d", w, g.mTry, s.mTry)
		c.Check(g.leafSize == s.leafSize, "%s: leaf size %d instead of %d", w, g.leafSize, s.leafSize)
		c.Check(g.maxDepth == s.maxDepth, "%s: depth %d instead of %d", w, g.maxDepth, s.maxDepth)
		want := [5]bool{s.splitmissing, s.force, s.vet, s.evaloob, s.extra}
		c.Check(g.bools == want, "%s: splitmissing, force, vet, evaloob, extra are %v instead of %v", w, g.bools, want)
		in := map[int]bool{}
		for _, i := range g.cases {
			in[i] = true
			c.Check(!orig.IsMissing(i), "%s: case %d has no target", w, i)
		}
		if s.nobag {
			c.Check(len(in) == len(g.cases), "%s: the sample %v has cases twice", w, g.cases)
		}
		size := s.nSamples
		if s.nobag && size > known {
			size = known // no case is taken twice
		}
		c.Check(s.balanced && !s.nobag || len(g.cases) == size, "%s: the sample %v is not of %d cases", w, g.cases, size)
		if s.oob || s.evaloob {
			var out []int
			for i := 0; i < n; i++ {
				if !in[i] && !orig.IsMissing(i) {
					out = append(out, i)
				}
			}
			c.Check(fmt.Sprint(out) == fmt.Sprint(g.eval), "%s: out of bag %v instead of %v", w, g.eval, out)
		}
		p := probe(target, n, own, isMissing)
		c.Check(fmt.Sprint(p) == fmt.Sprint(g.probe), "%s: the target has impurities and predictions %v instead of %v", w, g.probe, p)

		// grow it again
		pos := 0
		c.Rand(func(k int) int {
			if pos >= len(g.draws) || g.draws[pos].N != k {
				c.Failf("%s: growing it with the settings asked for draws differently: number %d of %d, of %v", w, pos, k, g.draws)
			}
			pos++
			return int(g.draws[pos-1].V)
		})
		t := C.NewTree()
		t.Target = ds.target
		du := make([]int, len(fm.Data))
		grow := t.Grow
		if s.jungle {
			grow = t.GrowJungle
		}
		grow(fm, target, append([]int{}, g.cases...), append([]int{}, g.cans...), append([]int{}, g.eval...), s.mTry, s.leafSize, s.maxDepth, s.splitmissing, s.force, s.vet, s.evaloob, s.extra, imp, &du, allocs)
		c.Rand(nil)
		c.Check(pos == len(g.draws), "%s: growing it with the settings asked for draws differently", w)
		text := model.Of(t.Root).String()
		c.Check(text == g.text, "%s: it is\n%sbut with the settings asked for it would be\n%s", w, g.text, text)
		for i, d := range du {
			if d != 0 {
				(*mmd)[i].Add(float64(d - 1))
			}
		}
		if s.boost {
			ls, ps := t.Partition(fm)
			weight := target.(C.BoostingTarget).Boost(ls, ps)
			if math.IsInf(weight, 1) {
				stopped = true
				break
			}
			t.Weight = weight
		}
		var outs []int
		for i := 0; i < n; i++ {
			if !in[i] {
				outs = append(outs, i)
			}
		}
		t.VoteCases(fm, bb, outs)
		t.Vote(fm, self)
		trees = append(trees, t)
		if !s.scored {
			progress = append(progress, bb.TallyError(orig))
		}
	}
	c.Check(stopped || len(trees) == s.trees, "%s: %d trees are grown instead of %d", what, len(trees), s.trees)

	// the forest
	var want bytes.Buffer
	fw := C.NewForestWriter(&want)
	if ti, ok := target.(C.TargetWithIntercept); ok {
		fw.WriteForestHeader(0, ds.target, ti.Intercept())
	}
	for i, t := range trees {
		fw.WriteTree(t, i)
	}
	sf, ok := cmd.Get("out.sf")
	c.Check(ok, "%s: no forest is written", what)
	got, gw := forest(c, what, sf), forest(c, what, want.String())
	c.Check(got == gw, "%s: the forest written is\n%s\nthe trees grown are\n%s", what, got, gw)

	// the errors
	number := func(name, prefix string, want float64) {
		l := lines(out, prefix)
		c.Check(len(l) == 1, "%s: there are %d lines %q", what, len(l), prefix)
		x, err := strconv.ParseFloat(strings.TrimSpace(l[0]), 64)
		c.Check(err == nil && equal(x, want), "%s: %s is reported as %s, the trees imply %v", what, name, l[0], want)
	}
	number("the number of trees", "nTrees :", float64(s.trees))
	number("candidates per split", "mTry :", float64(s.mTry))
	number("leaf size", "leafSize :", float64(s.leafSize))
	number("number of samples", "nSamples :", float64(s.nSamples))
	number("number of cases with a target", "non-missing cases:", float64(known))
	number("number of features", "Non Target Features :", features)
	if s.given["-progress"] {
		for j := range trees {
			if !s.scored {
				number(fmt.Sprint("out of bag error after tree ", j+1), fmt.Sprintf("Model oob error after tree %d : ", j+1), progress[j])
			}
		}
		c.Check(len(lines(out, "Model oob error after tree ")) == len(trees), "%s: progress is reported %d times", what, len(lines(out, "Model oob error after tree ")))
	}
	if s.oob {
		if !s.scored {
			number("the out of bag error", "Out of Bag Error : ", bb.TallyError(orig))
		}
	} else {
		c.Check(len(lines(out, "Out of Bag Error")) == 0, "%s: an out of bag error is reported", what)
	}
	o, ok := cmd.Get("oob.tsv")
	c.Check(ok == s.given["-oobpreds"], "%s: out of bag predictions are written: %v", what, ok)
	if ok && !s.scored {
		l := strings.Split(strings.TrimSuffix(o, "\n"), "\n")
		c.Check(len(l) == n, "%s: %d out of bag predictions", what, len(l))
		for i := range l {
			p := strings.Split(l[i], "\t")
			c.Check(len(p) == 3 && p[0] == ds.t.Labels[i] && model.Same(p[1], bb.Tally(i), ds.num) && model.Same(p[2], orig.GetStr(i), ds.num),
				"%s: line %d of the out of bag predictions is %q, the trees say %q for %q", what, i, l[i], bb.Tally(i), orig.GetStr(i))
		}
	}
	if s.given["-selftest"] {
		if !s.scored {
			number("the error on the training data", "Error: ", self.TallyError(orig))
		}
	} else {
		c.Check(len(lines(out, "Error:")) == 0, "%s: an error is reported", what)
	}
	o, ok = cmd.Get("imp.tsv")
	c.Check(ok == s.given["-importance"], "%s: importance is written: %v", what, ok)
	if ok {
		l := strings.Split(strings.TrimSuffix(o, "\n"), "\n")
		c.Check(len(l) == len(fm.Data), "%s: importance of %d features", what, len(l))
		for i := range l {
			mean, count := (*imp)[i].Read()
			depth, used := (*mmd)[i].Read()
			want := []float64{mean, count, mean * count / float64(s.trees), mean * count / used, used, depth}
			p := strings.Split(l[i], "\t")
			c.Check(len(p) == 7 && p[0] == ds.t.Cols[i].Name, "%s: line %d of the importance is %q", what, i, l[i])
			for k, x := range want {
				g, err := strconv.ParseFloat(p[k+1], 64)
				c.Check(err == nil && equal(g, x), "%s: column %d of the importance of %s is %s, the trees imply %v", what, k+2, p[0], p[k+1], x)
			}
		}
	}
	for _, x := range [][2]string{{"sk.json", "-scikitforest"}, {"cpu.prof", "-cpuprofile"}} {
		_, ok = cmd.Get(x[0])
		c.Check(ok == s.given[x[1]], "%s: %s is written: %v", what, x[0], ok)
	}
	c.Statef("%s %s", what, got)
	c.Outcome("%s", got)
}

// forest states what a forest file says, apart from the order of categories.
func forest(c *mc.Ctx, what, text string) string {
	fs, err := model.ParseSF(text)
	c.Check(err == nil, "%s: %v\n%s", what, err, text)
	out := ""
	for _, f := range fs {
		out += fmt.Sprintln("forest", f.Target, f.Intercept)
		for _, t := range f.Trees {
			out += fmt.Sprintln("tree", t.Target, t.Weight) + t.Root.String()
		}
	}
	return out
}

// ---- scenarios

func (s *settings) take(c *mc.Ctx, ds *dataset, o option, v value) {
	if v.kind != "" && (v.kind == "num") != ds.num {
		c.Discard()
	}
	s.args = append(s.args, v.args...)
	for _, a := range v.args {
		s.given[a] = true
	}
	if v.args[0] == "-impute" {
		v.set(s, ds)
	} else {
		s.later = append(s.later, v.set)
	}
}

func base(c *mc.Ctx, ds *dataset) *settings {
	s := &settings{given: map[string]bool{}, plain: true}
	return s
}

func finish(c *mc.Ctx, ds *dataset, s *settings) {
	if !s.given["-nTrees"] {
		s.trees = 2
		s.args = append(s.args, "-nTrees", "2")
	}
	if s.impute {
		// imputation leaves no missing value of the target
		ds = &dataset{name: ds.name, target: ds.target, num: ds.num, t: ds.t, file: ds.file, known: len(ds.t.Labels)}
	}
	for _, f := range s.later {
		f(s, ds)
	}
	if ds.name != "levels" && s.given["-ordinal"] {
		c.Discard() // for small numbers
	}
	if s.vet && s.scored {
		c.Discard() // vetting permutes classes
	}
	conduct(c, ds, s)
}

func combinations(c *mc.Ctx) {
	ds := datasets[c.Choose(len(datasets), "data")]
	sched.Seed = uint64(1 + c.Choose(c.Int(1, 2), "random streams"))
	s := base(c, ds)
	for _, o := range options {
		if k := c.Dev(len(o.values)+1, o.name); k > 0 {
			s.take(c, ds, o, o.values[k-1])
		}
	}
	finish(c, ds, s)
}

// streams: each value of an option with many random streams.
func streams(c *mc.Ctx) {
	ds := datasets[c.Choose(len(datasets), "data")]
	o := options[c.Choose(len(options), "option")]
	v := o.values[c.Choose(len(o.values), "value")]
	s := base(c, ds)
	s.take(c, ds, o, v)
	if o.name != "-leafSize" {
		s.take(c, ds, options[3], options[3].values[0])
	}
	if o.name != "-mTry" {
		s.take(c, ds, options[2], options[2].values[3-c.Choose(2, "mTry")])
	}
	sched.Seed = uint64(1 + c.Choose(c.Int(10, 80), "random streams"))
	finish(c, ds, s)
}

// seeding: the random source is seeded unless it must not be, whatever else
// is asked for.
func seeding(c *mc.Ctx) {
	ds := datasets[c.Choose(len(datasets), "data")]
	o := options[c.Choose(len(options), "option")]
	v := o.values[c.Choose(len(o.values), "value")]
	cores := 1 + c.Choose(3, "nCores")
	s := base(c, ds)
	s.take(c, ds, o, v)
	if c.Bool("noseed") && !s.given["-noseed"] {
		s.args = append(s.args, "-noseed")
		s.given["-noseed"] = true
	}
	if !s.given["-nTrees"] {
		s.args = append(s.args, "-nTrees", "3")
	}
	if ds.name != "levels" && s.given["-ordinal"] {
		c.Discard() // for small numbers
	}
	cmd.Keep("train.afm", ds.file)
	args := []string{"-train", cmd.Path("train.afm"), "-target", ds.target, "-nCores", fmt.Sprint(cores)}
	for _, a := range s.args {
		if strings.HasPrefix(a, "@") {
			a = cmd.Path(a[1:])
		}
		args = append(args, a)
	}
	mc.Seeded = 0
	_, res := cmd.Run(c, sched.Config{NoRaces: true, OneSchedule: true}, growforest.Main, args...)
	c.Check(res.Deadlock == "" && res.Exit == "", "growforest %v: %s%s\n%s", args, res.Exit, res.Deadlock, res.Stack)
	c.Check((mc.Seeded == 0) == s.given["-noseed"], "growforest %v: the random source is seeded %d times", args, mc.Seeded)
	c.Eval(1)
	c.Statef("%v", args)
	c.Outcome("%v %d", s.given["-noseed"], cores)
}

// refusals: what can't be done is refused, and not as a crash.
func refusals(c *mc.Ctx) {
	ds := datasets[c.Choose(2, "data")]
	cmd.Keep("train.afm", ds.file)
	cmd.Keep("other.afm", ds.t.AFM(false, ".", "NA", "\n", true)[:0]+".\tu\tv\nN:x\t1\t2\n")
	cmd.Drop("out.sf")
	train, target := cmd.Path("train.afm"), ds.target
	out := cmd.Path("out.sf")
	type no struct {
		what string
		args []string
		cat  bool
	}
	k := mc.Pick(c, []no{
		{what: "no data", args: list("-train", cmd.Path("none.afm"))},
		{what: "no target", args: list("-target", "N:none")},
		{what: "no target named", args: list("-target", "")},
		{what: "no blacklist", args: list("-blacklist", cmd.Path("none.txt"))},
		{what: "no place for the forest", args: list("-rfpred", cmd.Path("none/out.sf"))},
		{what: "no place for the importance", args: list("-importance", cmd.Path("none/imp.tsv"))},
		{what: "no place for predictions", args: list("-oobpreds", cmd.Path("none/oob.tsv"))},
		{what: "no place for the scikit forest", args: list("-scikitforest", cmd.Path("none/sk.json"))},
		{what: "no place for the profile", args: list("-cpuprofile", cmd.Path("none/cpu"))},
		{what: "no test data", args: list("-test", cmd.Path("none.afm"))},
		{what: "no target in the test data", args: list("-test", cmd.Path("other.afm"))},
		{what: "bad costs", args: list("-cost", `{"a":`), cat: true},
		{what: "bad costs", args: list("-cost", `{"a":"x"}`), cat: true},
		{what: "bad disutilities", args: list("-dentropy", `["a"]`), cat: true},
		{what: "bad adacosts", args: list("-adacost", `{a:1}`), cat: true},
		{what: "bad weights", args: list("-rfweights", `1`), cat: true},
	}, "request")
	if k.cat && ds.num {
		c.Discard()
	}
	args := append([]string{"-train", train, "-target", target, "-rfpred", out, "-nTrees", "2"}, k.args...)
	_, res := cmd.Run(c, sched.Config{NoRaces: true, OneSchedule: true}, growforest.Main, args...)
	c.Check(res.Exit != "" && res.Exit != "exit 0" && !strings.HasPrefix(res.Exit, "panic"), "growforest %v: %s, but it ends with %q", args, k.what, res.Exit)
	c.Eval(1)
	c.Statef("%v", args)
	c.Outcome("%s", k.what)
}

// parsed: counts are taken as they are, parts are of the total, rounded up.
func parsed(c *mc.Ctx) {
	digits := c.Int(4, 5)
	totals := []int{0, 1, 2, 3, 7, 8, 10, 30, 100, 1001, 65537, 10000000}
	check := func(term string, want func(total int) int) {
		c.State(term)
		for _, n := range totals {
			got := C.ParseAsIntOrFractionOfTotal(term, n)
			w := want(n)
			c.Check(got == w, "%q of %d is taken as %d instead of %d", term, n, got, w)
			c.Eval(1)
		}
		c.Step(1)
	}
	switch c.Choose(4, "kind") {
	case 0:
		for _, s := range []string{"", " ", "x", ".", "1.5x", "ten", "--1", "1,5", "1 2", "NA", "1e", "1.2.3", "-", "+", "%"} {
			check(s, func(int) int { return 0 })
		}
	case 1:
		for _, k := range []int{32767, 32768, 65535, 65536, 100000, 2147483647, 2147483648, 1 << 40} {
			k := k
			check(fmt.Sprint(k), func(int) int { return k })
		}
	case 2:
		term := ""
		n := 1 + c.Choose(digits, "digits - 1")
		for i := 0; i < n; i++ {
			d := c.Choose(10, "digit")
			if i == 0 && d == 0 && n > 1 {
				c.Discard()
			}
			term += fmt.Sprint(d)
		}
		k, _ := strconv.Atoi(term)
		check(term, func(int) int { return k })
		c.Outcome("%d", n)
	case 3:
		term := ""
		n := 1 + c.Choose(digits, "digits - 1")
		at := c.Choose(n+1, "point")
		num, den := new(big.Int), big.NewInt(1)
		for i := 0; i < n; i++ {
			d := c.Choose(10, "digit")
			if i == at {
				term += "."
			}
			term += fmt.Sprint(d)
			num.Add(num.Mul(num, big.NewInt(10)), big.NewInt(int64(d)))
			if i >= at {
				den.Mul(den, big.NewInt(10))
			}
		}
		if at == n {
			term += "."
		}
		check(term, func(total int) int {
			// exactly, rounded up
			q, r := new(big.Int).QuoRem(new(big.Int).Mul(num, big.NewInt(int64(total))), den, new(big.Int))
			k := int(q.Int64())
			if r.Sign() > 0 {
				k++
			} else if f, _ := strconv.ParseFloat(term, 64); f*float64(total) > float64(k) {
				k++ // the part itself is rounded up when it is read
			}
			return k
		})
		c.Outcome("part %d", n)
	}
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C28", Quick: 150, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one run of growforest with a combination of options on one of four data sets; every tree it grows is traced with its settings and target, which must be the documented ones, and grown again by the library with independently made settings and the same answers of the random source; the forest, errors, predictions and importance written must be those of the trees grown again",
		Assumptions: []string{"one thread (C14 shows that threads do not matter)", "each stream of random answers is one of a few", "at most one choice of target or boosting at a time, apart from transduction over other impurities and l1 gradient boosting", "vetting is not combined with targets of classes that predict numbers"},
		Scenarios: []mc.Scenario{
			{Name: "combinations", Run: combinations, Dev: 3, DevThorough: 4, Bound: "every combination of up to 3 (4) out of 24 options with together 60 values, 4 data sets, 1 (2) random streams"},
			{Name: "streams", Run: streams, Bound: "every option value with leaf size 2 and 1 or 5 candidates, 4 data sets, 10 (80) random streams"},
			{Name: "amounts", Run: parsed, Bound: "every whole number of 1..4 (5) digits and some larger ones, every part of 1..4 (5) digits with the point anywhere, 12 totals, 15 terms that are no amount"},
			{Name: "seeding", Run: seeding, Bound: "each value of an option, 1 to 3 threads, with and without -noseed"},
			{Name: "refusals", Run: refusals, Bound: "16 requests that can't be met, 2 data sets"},
		},
	})
}

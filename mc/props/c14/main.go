// C14: growforest with any number of threads, under every schedule, grows the
// trees it should and reports what they imply.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	growforest "github.com/ryanbressler/CloudForest/growforest"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/model"
	"verifmc/sched"
)

// ---- data

type dataset struct {
	name   string
	target string
	num    bool
	d      *model.Data
	file   string
}

func table(target cf.Column) cf.Table {
	t := cf.Table{Cols: []cf.Column{
		{Name: "N:x", Num: true, Vals: []string{"1", "2", "3", "4", "5", "2.5"}},
		target,
		{Name: "C:z", Vals: []string{"p", "q", "r", "", "p", "q"}},
		{Name: "N:y", Num: true, Vals: []string{"3", "1", "", "2", "2", "5"}},
	}}
	for i := range t.Cols[0].Vals {
		t.Labels = append(t.Labels, fmt.Sprint("case", i))
	}
	return t
}

func makeData(name string, target cf.Column) *dataset {
	t := table(target)
	return &dataset{name: name, target: target.Name, num: target.Num, d: model.NewData(t), file: t.AFM(false, ".", "NA", "\n", true)}
}

var datasets = []*dataset{
	makeData("classes", cf.Column{Name: "C:t", Vals: []string{"a", "b", "b", "a", "c", "a"}}),
	makeData("classes, one unknown", cf.Column{Name: "C:t", Vals: []string{"a", "b", "", "a", "c", "b"}}),
	makeData("numbers", cf.Column{Name: "N:t", Num: true, Vals: []string{"1", "2", "4", "8", "16", "-32"}}),
	makeData("numbers, one unknown", cf.Column{Name: "N:t", Num: true, Vals: []string{"1", "", "4", "8", "16", "-32"}}),
	makeData("levels", cf.Column{Name: "N:t", Num: true, Vals: []string{"1", "2", "0", "1", "3", "2"}}),
}

// ---- what is traced

// grown is a call of Grow or GrowJungle.
type grown struct {
	thread int
	cases  []int // as sampled
	oob    []int
	draws  []sched.Draw
	text   string
	root   *model.Node
	params []interface{}
	name   string
}

// regrown is what growing the same tree alone gives.
type regrown struct {
	text  string
	imp   [][2]float64 // mean, count per feature
	depth []int
}

var memo = map[string]*regrown{}

type config struct {
	ds    *dataset
	flags []string
	// how the target is wrapped, "" when regrowing is not done
	target string
	impute bool
}

func (k *config) has(f string) bool {
	for _, x := range k.flags {
		if x == f {
			return true
		}
	}
	return false
}

func (k *config) makeTarget(fm *C.FeatureMatrix) C.Target {
	f := fm.Data[fm.Map[k.ds.target]]
	switch k.target {
	case "plain":
		return f
	case "l1":
		return &C.L1Target{NumFeature: f.(C.NumFeature)}
	case "ordinal":
		return C.NewOrdinalTarget(f.(C.NumFeature))
	case "entropy":
		return &C.EntropyTarget{CatFeature: f.(C.CatFeature)}
	case "hellinger":
		return C.NewHDistanceTarget(f.(C.CatFeature), "a")
	case "dentropy":
		t := C.NewDEntropyTarget(f.(C.CatFeature))
		t.SetCosts(costs)
		return t
	case "cost":
		t := C.NewRegretTarget(f.(C.CatFeature))
		t.SetCosts(costs)
		return t
	case "rfweights":
		return C.NewWRFTarget(f.(C.CatFeature), costs)
	case "NP":
		return C.NewNPTarget(f.(C.CatFeature), "a", 0.1, 100)
	}
	panic(k.target)
}

var costs = map[string]float64{"a": 2, "b": 1, "c": 0.5}

const costsJSON = `{"a":2,"b":1,"c":0.5}`

// alone grows the tree of g again with the same answers of the random source.
func (k *config) alone(c *mc.Ctx, g *grown) *regrown {
	key := fmt.Sprint(k.ds.name, k.flags, g.cases, g.draws, g.params)
	if r := memo[key]; r != nil {
		return r
	}
	fm, err := C.LoadAFM(cmd.Path("train.afm"))
	c.Check(err == nil, "loading the data again: %v", err)
	if k.impute {
		fm.ImputeMissing()
	}
	tg := k.makeTarget(fm)
	c.Rand(func(n int) int { return 0 })
	allocs := C.NewBestSplitAllocs(len(k.ds.d.Labels), tg)
	pos := 0
	c.Rand(func(n int) int {
		if pos >= len(g.draws) || g.draws[pos].N != n {
			c.Failf("growing tree %s alone draws differently from growing it in thread %d", g.text, g.thread)
		}
		pos++
		return int(g.draws[pos-1].V)
	})
	imp := C.NewRunningMeans(len(fm.Data))
	du := make([]int, len(fm.Data))
	p := g.params
	cans := append([]int{}, p[0].([]int)...)
	t := C.NewTree()
	args := func(f func(*C.FeatureMatrix, C.Target, []int, []int, []int, int, int, int, bool, bool, bool, bool, bool, *[]*C.RunningMean, *[]int, *C.BestSplitAllocs)) {
		f(fm, tg, append([]int{}, g.cases...), cans, append([]int{}, g.oob...), p[1].(int), p[2].(int), p[3].(int), p[4].(bool), p[5].(bool), p[6].(bool), p[7].(bool), p[8].(bool), imp, &du, allocs)
	}
	if g.name == "Tree.GrowJungle" {
		args(t.GrowJungle)
	} else {
		args(t.Grow)
	}
	c.Rand(nil)
	r := &regrown{text: model.Of(t.Root).String(), depth: make([]int, len(du))}
	for _, m := range *imp {
		mean, n := m.Read()
		r.imp = append(r.imp, [2]float64{mean, n})
	}
	for i := range r.depth {
		r.depth[i] = -1
	}
	model.Of(t.Root).Walk(func(n *model.Node, d int) {
		if n.Split {
			i := fm.Map[n.Feature]
			if r.depth[i] < 0 || d < r.depth[i] {
				r.depth[i] = d
			}
		}
	})
	if len(memo) > 20000 {
		memo = map[string]*regrown{}
	}
	memo[key] = r
	return r
}

// imputed is the data set after imputation by the library.
func (k *config) imputed(c *mc.Ctx) *dataset {
	fm, err := C.LoadAFM(cmd.Path("train.afm"))
	c.Check(err == nil, "loading the data again: %v", err)
	fm.ImputeMissing()
	t, bad := cf.TableOf(fm)
	c.Check(bad == "", "imputed data: %s", bad)
	return &dataset{name: k.ds.name, target: k.ds.target, num: k.ds.num, d: model.NewData(t)}
}

func line(out, prefix string) (string, int) {
	n := 0
	got := ""
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, prefix) {
			got = strings.TrimSpace(strings.TrimPrefix(l, prefix))
			n++
		}
	}
	return got, n
}

func (k *config) run(c *mc.Ctx, cores, trees int, cfg sched.Config) {
	ds := k.ds
	cmd.Keep("train.afm", ds.file)
	cmd.Drop("out.sf", "oob.tsv", "imp.tsv", "sk.json")
	args := append([]string{"-train", cmd.Path("train.afm"), "-target", ds.target, "-rfpred", cmd.Path("out.sf"), "-importance", cmd.Path("imp.tsv"),
		"-oobpreds", cmd.Path("oob.tsv"), "-nCores", fmt.Sprint(cores), "-nTrees", fmt.Sprint(trees)}, k.flags...)
	what := fmt.Sprintf("%s, %d threads, %d trees, %v", ds.name, cores, trees, k.flags)
	var done []*grown
	open := map[int]*grown{}
	starts := map[int]int{}
	cfg.Traced = func(leave bool, name string, thread int, lg []sched.Draw, args []interface{}) {
		if !leave {
			g := &grown{thread: thread, name: name, cases: append([]int{}, args[3].([]int)...), oob: append([]int{}, args[5].([]int)...)}
			g.params = append(g.params, append([]int{}, args[4].([]int)...))
			g.params = append(g.params, args[6:14]...)
			open[thread] = g
			starts[thread] = len(lg)
			return
		}
		g := open[thread]
		g.draws = append([]sched.Draw{}, lg[starts[thread]:]...)
		t := args[0].(*C.Tree)
		g.root = model.Of(t.Root)
		g.text = g.root.String()
		done = append(done, g)
	}
	out, res := cmd.Run(c, cfg, growforest.Main, args...)
	c.Check(res.Deadlock == "", "%s: does not end: %s", what, res.Deadlock)
	c.Check(res.Exit == "", "%s: %s\n%s", what, res.Exit, res.Stack)
	c.Check(len(done) == trees, "%s: %d trees are grown", what, len(done))
	c.Eval(1)

	// the file
	sf, ok := cmd.Get("out.sf")
	c.Check(ok, "%s: no forest is written", what)
	fs, err := model.ParseSF(sf)
	c.Check(err == nil, "%s: %v\n%s", what, err, sf)
	written := map[string]int{}
	n := 0
	for _, f := range fs {
		for _, t := range f.Trees {
			c.Check(t.Target == ds.target, "%s: a tree of the file has target %q", what, t.Target)
			c.Check(t.Number == n, "%s: tree %d of the file is numbered %d", what, n, t.Number)
			written[t.Root.String()]++
			n++
		}
	}
	c.Check(n == trees, "%s: %d trees are written\n%s", what, n, sf)
	for _, g := range done {
		s := g.root.String()
		c.Check(written[s] > 0, "%s: tree %s is grown in thread %d, but the file has\n%s", what, s, g.thread, sf)
		written[s]--
	}
	desc := fmt.Sprint(what, " ")
	for _, g := range done {
		desc += fmt.Sprintf("%d:%s;", g.thread, g.text)
	}
	c.State(desc)

	// each tree is that of a serial run with the same answers
	var rs []*regrown
	if k.target != "" {
		for _, g := range done {
			r := k.alone(c, g)
			c.Check(r.text == g.text, "%s: thread %d grows\n%sbut alone with the same random answers it would be\n%s", what, g.thread, g.text, r.text)
			rs = append(rs, r)
		}
	}

	// the data as the trees know them
	if k.impute {
		ds = k.imputed(c)
	}

	// samples
	truth := ds.d.Col(ds.target).Vals
	ntrue := 0
	for _, v := range truth {
		if v != "" {
			ntrue++
		}
	}
	inbag := make([]map[int]bool, len(done))
	for j, g := range done {
		inbag[j] = map[int]bool{}
		c.Check(len(g.cases) > 0, "%s: a tree is grown from no cases", what)
		for _, i := range g.cases {
			inbag[j][i] = true
			c.Check(truth[i] != "", "%s: case %d, which has no true value, is sampled", what, i)
		}
		if k.has("-nobag") {
			c.Check(len(g.cases) == ntrue && len(inbag[j]) == ntrue, "%s: without bagging the cases are %v", what, g.cases)
		}
	}

	// out of bag predictions and error
	var mt []*model.Tree
	for _, g := range done {
		mt = append(mt, &model.Tree{Root: g.root, Weight: -1})
	}
	oob, ok := cmd.Get("oob.tsv")
	c.Check(ok, "%s: no out of bag predictions are written", what)
	lines := strings.Split(strings.TrimSuffix(oob, "\n"), "\n")
	c.Check(len(lines) == len(truth), "%s: %d out of bag predictions", what, len(lines))
	pred := make([]string, len(truth))
	npred := make([]float64, len(truth))
	tally := func(only func(j int) bool, i int) (string, float64) {
		vs := model.Votes(mt, ds.d, i, only)
		if ds.num {
			m, ok := model.Mean(vs)
			if !ok {
				return "NA", math.NaN()
			}
			return fmt.Sprint(m), m
		}
		p, _ := model.Mode(vs)
		return p, 0
	}
	for i := range truth {
		pred[i], npred[i] = tally(func(j int) bool { return !inbag[j][i] }, i)
		f := strings.Split(lines[i], "\t")
		want := truth[i]
		if want == "" {
			want = "NA"
		}
		c.Check(len(f) == 3 && f[0] == ds.d.Labels[i] && model.Same(f[2], want, ds.num), "%s: line %d of the out of bag predictions is %q", what, i, lines[i])
		c.Check(model.Same(f[1], pred[i], ds.num), "%s: case %d is predicted %q out of bag, the trees that do not know it say %q", what, i, f[1], pred[i])
	}
	e, cnt := line(out, "Out of Bag Error : ")
	c.Check(cnt == 1, "%s: %d lines report the out of bag error", what, cnt)
	c.Check(sameError(e, truth, pred, npred, ds.num), "%s: out of bag error %s, predictions %v of %v imply %v", what, e, pred, truth, errorOf(truth, pred, npred, ds.num))

	// progress
	if k.has("-progress") {
		seen := map[string]bool{}
		for _, l := range strings.Split(out, "\n") {
			if strings.HasPrefix(l, "Model oob error after tree ") {
				seen[strings.Fields(l)[5]] = true
			}
		}
		for j := 1; j <= trees; j++ {
			c.Check(seen[fmt.Sprint(j)], "%s: no progress is reported for tree %d", what, j)
		}
		c.Check(len(seen) == trees, "%s: progress is reported for %v", what, seen)
	}

	// importance
	if rs != nil {
		imp, ok := cmd.Get("imp.tsv")
		c.Check(ok, "%s: no importance is written", what)
		il := strings.Split(strings.TrimSuffix(imp, "\n"), "\n")
		c.Check(len(il) == len(ds.d.Cols), "%s: importance of %d features", what, len(il))
		for i, l := range il {
			f := strings.Split(l, "\t")
			c.Check(len(f) == 7 && f[0] == ds.d.Cols[i].Name, "%s: line %d of the importance is %q", what, i, l)
			var sum, num, used, depth float64
			for _, r := range rs {
				sum += r.imp[i][0] * r.imp[i][1]
				num += r.imp[i][1]
				if r.depth[i] >= 0 {
					used++
					depth += float64(r.depth[i])
				}
			}
			want := []float64{0, num, sum / float64(trees), sum / used, used, 0}
			if num > 0 {
				want[0] = sum / num
			}
			if used > 0 {
				want[5] = depth / used
			}
			for q, w := range want {
				g, err := strconv.ParseFloat(f[q+1], 64)
				c.Check(err == nil && (cf.Close(g, w, 1e-9) || math.IsNaN(w) && math.IsNaN(g)), "%s: column %d of the importance of %s is %s, the trees imply %v\n%s", what, q+2, f[0], f[q+1], w, desc)
			}
		}
	}

	// testing on the training data
	if k.has("-selftest") {
		for i := range truth {
			pred[i], npred[i] = tally(nil, i)
		}
		e, cnt := line(out, "Error: ")
		c.Check(cnt == 1 && sameError(e, truth, pred, npred, ds.num), "%s: the forest's error is reported as %s, its predictions %v of %v imply %v", what, e, pred, truth, errorOf(truth, pred, npred, ds.num))
	}
	// trees for scikit
	if k.has("-scikitforest") {
		sk, _ := cmd.Get("sk.json")
		var list []interface{}
		err := json.Unmarshal([]byte(sk), &list)
		c.Check(err == nil && len(list) == trees, "%s: %d trees in the scikit forest (%v)", what, len(list), err)
	}
	c.Outcome("%s %s", what, e)
}

func errorOf(truth, pred []string, npred []float64, num bool) float64 {
	if num {
		return model.RelativeError(truth, npred)
	}
	return model.BalancedError(truth, pred)
}

func sameError(got string, truth, pred []string, npred []float64, num bool) bool {
	g, err := strconv.ParseFloat(got, 64)
	w := errorOf(truth, pred, npred, num)
	return err == nil && (cf.Close(g, w, 1e-9) || math.IsNaN(g) && math.IsNaN(w))
}

// ---- scenarios

type mode struct {
	flags  []string
	cat    string // target for categories
	num    string
	impute bool
}

func scenario(name string, modes []mode, sets []int, ct func(c *mc.Ctx) (cores, trees int), seeds int, dev, devT int, bound string) mc.Scenario {
	return mc.Scenario{Name: name, Dev: dev, DevThorough: devT, Bound: bound, Run: func(c *mc.Ctx) {
		m := mc.Pick(c, modes, "flags")
		ds := datasets[mc.Pick(c, sets, "data")]
		k := &config{ds: ds, flags: append([]string{}, m.flags...), target: m.cat, impute: m.impute}
		if ds.num {
			k.target = m.num
		}
		if k.target == "" || k.target == "ordinal" && ds.name != "levels" {
			c.Discard()
		}
		for i, f := range k.flags {
			if f == "SK" {
				k.flags[i] = cmd.Path("sk.json")
			}
		}
		cores, trees := ct(c)
		sched.Seed = uint64(c.Choose(seeds, "random streams"))
		k.run(c, cores, trees, sched.Config{IO: k.has("-progress")})
	}}
}

// boosting several trees at a time is documented to give unexpected results,
// but it ends, and writes as many trees as asked for unless it stops early
func multiboost(c *mc.Ctx) {
	ds := datasets[mc.Pick(c, []int{0, 2}, "data")]
	flags := []string{"-multiboost", "-mTry", "3", "-leafSize", "1"}
	if c.Bool("gradient") {
		flags = append(flags, "-gbt", "0.5")
		if !ds.num {
			flags = append(flags, "-positive", "a")
		}
	} else {
		flags = append(flags, "-adaboost")
	}
	cores := 2 + c.Choose(2, "threads")
	trees := cores + c.Choose(2, "more trees")
	sched.Seed = uint64(c.Choose(3, "random streams"))
	cmd.Keep("train.afm", ds.file)
	cmd.Drop("out.sf")
	args := append([]string{"-train", cmd.Path("train.afm"), "-target", ds.target, "-rfpred", cmd.Path("out.sf"), "-nCores", fmt.Sprint(cores), "-nTrees", fmt.Sprint(trees)}, flags...)
	grownTrees := 0
	out, res := cmd.Run(c, sched.Config{NoRaces: true, Traced: func(leave bool, name string, thread int, lg []sched.Draw, args []interface{}) {
		if leave {
			grownTrees++
		}
	}}, growforest.Main, args...)
	c.Check(res.Deadlock == "", "%v: does not end: %s", args, res.Deadlock)
	c.Check(res.Exit == "", "%v: %s\n%s", args, res.Exit, res.Stack)
	sf, _ := cmd.Get("out.sf")
	fs, err := model.ParseSF(sf)
	c.Check(err == nil, "%v: %v\n%s", args, err, sf)
	n := 0
	for _, f := range fs {
		for _, t := range f.Trees {
			c.Check(t.Number == n, "%v: tree %d of the file is numbered %d", args, n, t.Number)
			n++
		}
	}
	stops := strings.Count(out, "Boosting Reached Weight of")
	if stops == 0 {
		c.Check(n == trees, "%v: %d trees are written", args, n)
	}
	c.Check(n+stops == grownTrees && grownTrees <= trees, "%v: %d trees are grown, %d written, boosting stopped at %d", args, grownTrees, n, stops)
	c.Eval(1)
	c.Statef("%v %d %d", flags, n, stops)
	c.Outcome("%v %d %d", flags, n, stops)
}

// boosted: without -multiboost, boosting with several threads is boosting
// with one.
func boosted(c *mc.Ctx) {
	ds := datasets[mc.Pick(c, []int{0, 2}, "data")]
	flags := []string{"-mTry", fmt.Sprint(1 + 2*c.Choose(2, "mTry")), "-leafSize", "1"}
	switch k := c.Choose(3, "boosting"); {
	case k == 0:
		flags = append(flags, "-adaboost")
	case k == 1:
		flags = append(flags, "-gbt", "0.5")
		if !ds.num {
			flags = append(flags, "-positive", "a")
		}
	case ds.num:
		c.Discard()
	default:
		flags = append(flags, "-adacost", costsJSON)
	}
	cores := 2 + c.Choose(3, "threads")
	trees := 1 + c.Choose(c.Int(4, 6), "trees")
	seed := uint64(c.Choose(3, "random streams"))
	cmd.Keep("train.afm", ds.file)
	var sfs [2]string
	for i, n := range []int{1, cores} {
		sched.Seed = seed
		cmd.Drop("out.sf")
		args := append([]string{"-train", cmd.Path("train.afm"), "-target", ds.target, "-rfpred", cmd.Path("out.sf"), "-nCores", fmt.Sprint(n), "-nTrees", fmt.Sprint(trees)}, flags...)
		_, res := cmd.Run(c, sched.Config{NoRaces: true}, growforest.Main, args...)
		c.Check(res.Deadlock == "", "%v: does not end: %s", args, res.Deadlock)
		c.Check(res.Exit == "", "%v: %s\n%s", args, res.Exit, res.Stack)
		sf, _ := cmd.Get("out.sf")
		fs, err := model.ParseSF(sf)
		c.Check(err == nil, "%v: %v\n%s", args, err, sf)
		for _, f := range fs {
			sfs[i] += fmt.Sprintln("forest", f.Target, f.Intercept)
			for _, t := range f.Trees {
				sfs[i] += fmt.Sprintln("tree", t.Number, t.Target, t.Weight) + t.Root.String()
			}
		}
	}
	c.Check(sfs[0] == sfs[1], "%v, %d trees: with %d threads the forest is\n%s\ninstead of\n%s", flags, trees, cores, sfs[1], sfs[0])
	c.Eval(1)
	c.Statef("%v %d %d", flags, trees, cores)
	c.Outcome("%s", sfs[0])
}

func main() {
	log.SetOutput(ioutil.Discard)
	small := []string{"-mTry", "2", "-leafSize", "1"}
	with := func(f ...string) []string { return append(append([]string{}, small...), f...) }
	plain := mode{flags: small, cat: "plain", num: "plain"}
	counts := func(c *mc.Ctx) (int, int) {
		return 1 + c.Choose(c.Int(3, 4), "threads"), 1 + c.Choose(c.Int(4, 5), "trees")
	}
	modes := []mode{
		{flags: with("-selftest"), cat: "plain", num: "plain"},
		{flags: with("-progress"), cat: "plain", num: "plain"},
		{flags: with("-scikitforest", "SK"), cat: "plain", num: "plain"},
		{flags: with("-balance"), cat: "plain"},
		{flags: with("-nobag"), cat: "plain", num: "plain"},
		{flags: with("-nSamples", "3"), cat: "plain", num: "plain"},
		{flags: with("-splitmissing"), cat: "plain", num: "plain"},
		{flags: with("-jungle"), cat: "plain", num: "plain"},
		{flags: with("-vet"), cat: "plain", num: "plain"},
		{flags: with("-evaloob"), cat: "plain", num: "plain"},
		{flags: with("-extra"), cat: "plain", num: "plain"},
		{flags: with("-impute"), cat: "plain", num: "plain", impute: true},
		{flags: with("-force", "-maxDepth", "2"), cat: "plain", num: "plain"},
	}
	targets := []mode{
		{flags: with("-l1"), num: "l1"},
		{flags: with("-ordinal"), num: "ordinal"},
		{flags: with("-entropy"), cat: "entropy"},
		{flags: with("-hellinger", "-positive", "a"), cat: "hellinger"},
		{flags: with("-dentropy", costsJSON), cat: "dentropy"},
		{flags: with("-cost", costsJSON), cat: "cost"},
		{flags: with("-rfweights", costsJSON), cat: "rfweights"},
		{flags: with("-NP", "-NP_pos", "a"), cat: "NP"},
	}
	mc.Main(mc.Spec{
		Property: "C14", Quick: 150, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one run of growforest's main on 6 cases under one schedule at its synchronization operations, up to a number of preemptions; every tree it grows is traced, must equal the tree grown alone from the same sample and random answers, and all files and lines it writes must follow from the traced trees; no two memory accesses may be unordered",
		Assumptions: []string{"schedules change only at synchronization operations; the data race detector justifies this", "every thread draws from its own random stream, of which a few are tried", "boosting with several threads is only required to end and to write its trees"},
		Scenarios: []mc.Scenario{
			scenario("threads and trees", []mode{plain}, []int{1, 3}, counts, 2, 1, 2, "1..3 (4) threads, 1..4 (5) trees, 2 data sets, 1 (2) preemptions"),
			scenario("two threads", []mode{plain}, []int{1, 2}, func(c *mc.Ctx) (int, int) { return 2, 2 + c.Choose(c.Int(1, 2), "trees") }, 1, 2, 3, "2 threads, 2 (or 3) trees, 2 (3) preemptions"),
			scenario("options", modes, []int{0, 1, 2, 3}, func(c *mc.Ctx) (int, int) { return 2, 3 }, 2, 1, 2, "2 threads, 3 trees, 13 combinations of flags, 4 data sets, 1 (2) preemptions"),
			scenario("targets", targets, []int{0, 1, 2, 3, 4}, func(c *mc.Ctx) (int, int) { return 2, 2 + c.Choose(2, "trees") }, 1, 1, 2, "2 threads, 2..3 trees, 8 target types, 5 data sets, 1 (2) preemptions"),
			{Name: "boosting alone", Run: boosted, Dev: 1, DevThorough: 2, Bound: "2..4 threads asked for without -multiboost, 1..4 (6) trees, 3 ways of boosting, 3 random streams, 1 (2) preemptions: the forest is that of one thread"},
			{Name: "boosting", Run: multiboost, Dev: 1, DevThorough: 2, Bound: "2..3 threads, as many or one more tree, gradient and adaptive boosting, 1 (2) preemptions"},
		},
	})
}

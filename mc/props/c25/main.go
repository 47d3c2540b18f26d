// C25: features that are excluded are never candidates for a split, all
// others always are.
package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"regexp"
	"sort"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	growforest "github.com/ryanbressler/CloudForest/growforest"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/model"
	"verifmc/ref"
	"verifmc/sched"
)

type job struct {
	t       cf.Table
	target  int
	black   []string // lines of the blacklist, nil for none
	block   string
	include string
	shuffle string
	flags   []string
	trees   int
	ace     int
	cutoff  string
	mTry    string
	what    string

	cols      []cf.Column // as the first tree saw them, with contrasts
	firstace  int
	imps      [][]float64 // feature x forest
	before    []float64   // what had been added when the forest was begun
	calls     int
	perForest int
	sig       []bool
	unsure    bool
	roots     []string
	bb        C.VoteTallyer // votes of the last forest for cases out of the bag
	shuffles  func(n int) int
	shuffling bool
	held      []cf.Column     // contrasts as the last forest had them
	moved     map[string]bool // contrasts that were seen to be shuffled anew
}

func (j *job) has(f string) bool {
	for _, x := range j.flags {
		if x == f {
			return true
		}
	}
	return false
}

// excluded says what the options demand of a feature of this name.
func (j *job) excluded(name string) bool {
	for _, l := range j.black {
		if l == name {
			return true
		}
	}
	if j.block != "" && regexp.MustCompile(j.block).MatchString(name) {
		return true
	}
	return j.include != "" && !regexp.MustCompile(j.include).MatchString(name)
}

func bag(vals []string) string {
	s := append([]string{}, vals...)
	sort.Strings(s)
	return strings.Join(s, "\t")
}

// first checks the data that the first tree is grown on.
func (j *job) first(c *mc.Ctx, fm *C.FeatureMatrix) {
	n := len(j.t.Cols)
	for i, f := range fm.Data {
		o, bad := cf.Of(f)
		c.Check(bad == "", "%s: feature %d: %s", j.what, i, bad)
		j.cols = append(j.cols, o)
		if i < n && (i != j.target || !j.has("-gbt")) { // gradient boosting works on residuals
			in := j.t.Cols[i]
			c.Check(o.Name == in.Name, "%s: feature %d is %q", j.what, i, o.Name)
			moved := i != j.target && j.shuffle != "" && regexp.MustCompile(j.shuffle).MatchString(in.Name) || i == j.target && j.has("-permute")
			for k := range in.Vals {
				c.Check(moved || model.Same(o.Vals[k], in.Vals[k], in.Num), "%s: feature %v was %v", j.what, o, in)
			}
			c.Check(canonBag(o) == canonBag(in), "%s: feature %v was %v", j.what, o, in)
		}
	}
	j.firstace = n + j.contrasts()
	want := j.firstace
	if j.ace > 0 {
		want *= 2
	}
	c.Check(len(j.cols) == want, "%s: there are %d features", j.what, len(j.cols))
	for i, o := range j.cols {
		if i < n {
			continue
		}
		from := ""
		var origin *cf.Column
		switch {
		case j.ace > 0 && i >= j.firstace:
			origin = &j.cols[i-j.firstace]
			from = origin.Name
		default:
			from = strings.TrimSuffix(o.Name, ":SHUFFLED")
			for k := range j.t.Cols {
				if j.t.Cols[k].Name == from {
					origin = &j.t.Cols[k]
				}
			}
			if j.has("-contrastall") && origin != nil && !j.has("-nContrasts") {
				c.Check(from == j.t.Cols[i-n].Name, "%s: feature %d is %q", j.what, i, o.Name)
			}
		}
		if j.has("-nContrasts") && j.has("-contrastall") {
			continue
		}
		c.Check(origin != nil && o.Name == from+":SHUFFLED" && canonBag(o) == canonBag(*origin), "%s: contrast %d is %v", j.what, i, o)
	}
	j.imps = make([][]float64, len(j.cols))
	j.perForest = j.trees
}

func canonBag(c cf.Column) string {
	s := cf.Column{Num: c.Num}
	for _, v := range c.Vals {
		s.Vals = append(s.Vals, cf.Column{Num: c.Num, Vals: []string{v}}.String())
	}
	return bag(s.Vals)
}

func (j *job) contrasts() int {
	n := len(j.t.Cols)
	k := 0
	for i, f := range j.flags {
		if f == "-nContrasts" {
			fmt.Sscan(j.flags[i+1], &k)
		}
	}
	if j.has("-contrastall") {
		k += n + k
	}
	return k
}

// expected are the candidates in a forest.
func (j *job) expected(forest int) []int {
	var out []int
	for i := 0; i < j.firstace; i++ {
		if i == j.target || j.excluded(j.cols[i].Name) {
			continue
		}
		if j.last(forest) && !j.sig[i] {
			continue
		}
		out = append(out, i)
	}
	if j.ace > 0 && !j.last(forest) {
		for _, i := range out[:len(out):len(out)] {
			out = append(out, i+j.firstace)
		}
	}
	return out
}

func (j *job) last(forest int) bool { return j.ace > 0 && j.cutoff != "" && forest == j.ace }

func (j *job) enter(c *mc.Ctx, args []interface{}) {
	fm := args[1].(*C.FeatureMatrix)
	if j.cols == nil {
		j.first(c, fm)
	}
	forest := j.calls / j.perForest
	if j.ace > 0 && j.calls%j.perForest == 0 {
		j.before = totals(args)
		j.shuffling = false
		j.copies(c, fm, forest)
	}
	if j.last(forest) && j.sig == nil {
		j.significance(c)
	}
	j.calls++
	if j.last(forest) && j.unsure {
		return
	}
	got := append([]int{}, args[4].([]int)...)
	sort.Ints(got)
	want := j.expected(forest)
	sort.Ints(want)
	names := func(is []int) (s []string) {
		for _, i := range is {
			s = append(s, fm.Data[i].GetName())
		}
		return
	}
	c.Check(fmt.Sprint(got) == fmt.Sprint(want), "%s: the candidates in forest %d are %q instead of %q", j.what, forest, names(got), names(want))
	// the number of candidates per split
	n := len(want)
	if j.ace > 0 && !j.last(forest) {
		n /= 2
	}
	m := int(math.Ceil(math.Sqrt(float64(n))))
	switch j.mTry {
	case "1":
		m = 1
	case "2":
		m = 2
	case ".4":
		m = int(math.Ceil(.4 * float64(n)))
	}
	c.Check(args[6].(int) == m, "%s: %d of %q are tried, -mTry %q implies %d", j.what, args[6], names(want), j.mTry, m)
}

// copies checks the data of a new forest: originals as they were, and copies
// that hold the same values in some order.
func (j *job) copies(c *mc.Ctx, fm *C.FeatureMatrix, forest int) {
	var now []cf.Column
	for i, f := range fm.Data {
		o, bad := cf.Of(f)
		c.Check(bad == "" && o.Name == j.cols[i].Name, "%s: feature %d of forest %d is %q %s", j.what, i, forest, o.Name, bad)
		now = append(now, o)
		if i < j.firstace {
			c.Check(o.String() == j.cols[i].String(), "%s: feature %v is %v in forest %d", j.what, j.cols[i], o, forest)
			continue
		}
		c.Check(canonBag(o) == canonBag(j.cols[i]), "%s: the copy %v is %v in forest %d", j.what, j.cols[i], o, forest)
		if j.held != nil && j.moved != nil && o.String() != j.held[i].String() {
			j.moved[fmt.Sprint(o.Name, " in forest ", forest)] = true
		}
	}
	j.held = now
}

func (j *job) leave(c *mc.Ctx, args []interface{}) {
	root := args[0].(*C.Tree).Root
	allowed := map[int]bool{}
	forest := (j.calls - 1) / j.perForest
	for _, i := range args[4].([]int) {
		allowed[i] = true
	}
	seen := map[*C.Node]bool{}
	var walk func(n *C.Node)
	walk = func(n *C.Node) {
		if n == nil || seen[n] {
			return
		}
		seen[n] = true
		if n.Splitter != nil {
			c.Check(allowed[n.Featurei] && j.cols[n.Featurei].Name == n.Splitter.Feature, "%s: a tree of forest %d splits on feature %d as %q", j.what, forest, n.Featurei, n.Splitter.Feature)
			walk(n.Left)
			walk(n.Right)
			walk(n.Missing)
		}
	}
	walk(root)
	s := "leaf"
	if root.Splitter != nil {
		s = root.Splitter.Feature
	}
	j.roots = append(j.roots, s)
	forests := j.ace
	if j.cutoff != "" {
		forests++
	}
	if j.ace > 0 && j.has("-oobpreds") && forest == forests-1 {
		fm := args[1].(*C.FeatureMatrix)
		n := len(j.t.Labels)
		if j.bb == nil {
			j.bb = C.NewCatBallotBox(n)
			if j.t.Cols[j.target].Num {
				j.bb = C.NewNumBallotBox(n)
			}
		}
		in := map[int]bool{}
		for _, i := range args[3].([]int) {
			in[i] = true
		}
		var out []int
		for i := 0; i < n; i++ {
			if !in[i] {
				out = append(out, i)
			}
		}
		args[0].(*C.Tree).VoteCases(fm, j.bb, out)
	}
	if j.ace > 0 && j.shuffles != nil && j.calls%j.perForest == 0 {
		j.shuffling = true
	}
	if j.ace > 0 && forest < j.ace && j.calls%j.perForest == 0 {
		for i, m := range totals(args) {
			j.imps[i] = append(j.imps[i], (m-j.before[i])/float64(j.trees))
		}
	}
}

// totals are the sums of what was added to the importance of each feature.
func totals(args []interface{}) (out []float64) {
	for _, m := range *args[14].(*[]*C.RunningMean) {
		mean, n := m.Read()
		out = append(out, mean*n)
	}
	return
}

func (j *job) significance(c *mc.Ctx) {
	cut := 0.0
	fmt.Sscan(j.cutoff, &cut)
	j.sig = make([]bool, j.firstace)
	for i := range j.sig {
		if i == j.target {
			continue
		}
		m := 0.0
		for _, x := range j.imps[i] {
			m += x
		}
		p, _, _, ok := ref.Welch(j.imps[i], j.imps[i+j.firstace])
		if !ok || math.IsNaN(p) || math.Abs(p-cut) < 1e-6 || math.Abs(m) < 1e-12 && m != 0 {
			// not decided by the test, unless they are far apart
			if m == 0 {
				continue
			}
			j.unsure = j.unsure || !j.excluded(j.cols[i].Name)
			continue
		}
		j.sig[i] = p < cut && m > 0
	}
}

func (j *job) run(c *mc.Ctx, seed int, first ...int) {
	cmd.Keep("train.afm", j.t.AFM(false, ".", "NA", "\n", true))
	cmd.Drop("out.sf", "black.tsv", "oob.tsv")
	target := j.t.Cols[j.target]
	args := []string{"-train", cmd.Path("train.afm"), "-target", target.Name, "-rfpred", cmd.Path("out.sf"), "-nTrees", fmt.Sprint(j.trees), "-leafSize", "1", "-noseed"}
	if j.black != nil {
		cmd.Put("black.tsv", strings.Join(j.black, "\n")+"\n")
		args = append(args, "-blacklist", cmd.Path("black.tsv"))
	}
	for _, o := range [][2]string{{"-blockRE", j.block}, {"-includeRE", j.include}, {"-shuffleRE", j.shuffle}, {"-cutoff", j.cutoff}, {"-mTry", j.mTry}} {
		if o[1] != "" {
			args = append(args, o[0], o[1])
		}
	}
	if j.ace > 0 {
		args = append(args, "-ace", fmt.Sprint(j.ace))
	}
	args = append(args, j.flags...)
	j.what = fmt.Sprintf("growforest %q (blacklist %q) on %v", args, j.black, j.t)
	cfg := sched.Config{NoRaces: true, KeepRand: true, OneSchedule: true}
	cfg.Traced = func(leave bool, name string, thread int, lg []sched.Draw, args []interface{}) {
		if leave {
			j.leave(c, args)
		} else {
			j.enter(c, args)
		}
	}
	x := uint64(seed+1) * 0x9e3779b97f4a7c15
	c.Rand(func(n int) int {
		if j.shuffling {
			return j.shuffles(n)
		}
		if len(first) > 0 {
			k := first[0] % n
			first = first[1:]
			return k
		}
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return int(x>>33) % n
	})
	_, res := cmd.Run(c, cfg, growforest.Main, args...)
	c.Rand(func(n int) int { return 0 })
	c.Check(res.Exit == "" && res.Deadlock == "", "%s: %s\n%s", j.what, res.Exit, res.Stack)
	c.Eval(1)
	if j.bb != nil {
		o, _ := cmd.Get("oob.tsv")
		for i, l := range strings.Split(strings.TrimSpace(o), "\n") {
			f := strings.Split(l, "\t")
			c.Check(len(f) == 3 && i < len(j.t.Labels) && f[0] == j.t.Labels[i] && model.Same(f[1], j.bb.Tally(i), j.t.Cols[j.target].Num), "%s: case %d is predicted out of the bag as %q, the last forest gives %q", j.what, i, l, j.bb.Tally(i))
		}
	}
	boost := j.has("-adaboost")
	forests := 1
	if j.ace > 0 {
		forests = j.ace
		if j.cutoff != "" {
			forests++
		}
	}
	c.Check(j.calls == forests*j.trees || boost && j.calls > 0, "%s: %d trees are grown", j.what, j.calls)
	sf, _ := cmd.Get("out.sf")
	if boost && strings.TrimSpace(sf) == "" {
		return
	}
	fs, err := model.ParseSF(sf)
	c.Check(err == nil && len(fs) == 1, "%s: %v\n%s", j.what, err, sf)
	c.Check(len(fs[0].Trees) == j.trees || boost, "%s: %d trees are written", j.what, len(fs[0].Trees))
	allowed := map[string]bool{}
	if !j.unsure {
		for _, i := range j.expected(forests - 1) {
			allowed[j.cols[i].Name] = true
		}
		for _, t := range fs[0].Trees {
			for _, f := range t.Root.Features() {
				c.Check(allowed[f], "%s: the forest written splits on %q\n%s", j.what, f, sf)
			}
		}
	}
	c.Statef("%s %s", j.what, sf)
	c.Outcome("%d %v %v", len(allowed), j.roots, j.sig)
}

func table(kind string) (cf.Table, int) {
	t := cf.Table{Cols: []cf.Column{
		{Name: "N:a", Num: true, Vals: []string{"1", "2", "3", "4", "5", "6"}},
		{Name: "C:ab", Vals: []string{"p", "q", "q", "r", "p", "r"}},
		{Name: "C:t", Vals: []string{"x", "y", "y", "x", "y", "x"}},
		{Name: "N:t2", Num: true, Vals: []string{"2", "1", "4", "", "3", "3"}},
		{Name: "B:b", Vals: []string{"0", "1", "1", "1", "0", "0"}},
	}}
	if kind == "number" {
		t.Cols[2] = cf.Column{Name: "N:t", Num: true, Vals: []string{"1", "2", "-4", "8", "16", "32"}}
	}
	for i := range t.Cols[0].Vals {
		t.Labels = append(t.Labels, fmt.Sprint("case", i))
	}
	return t, 2
}

var res = []string{"", "^N:", ":t", "b", "SHUFFLED$", "nothing", ".", "^[NC]:[at]"}

func menu(kind string) [][]string {
	m := [][]string{
		{}, {"-nContrasts", "2"}, {"-nContrasts", "4"}, {"-contrastall"}, {"-nContrasts", "1", "-contrastall"}, {"-jungle"}, {"-nobag"}, {"-adaboost"}, {"-gbt", "0.5"}, {"-nCores", "2"}, {"-permute"}, {"-splitmissing"}, {"-extra"}, {"-vet"}, {"-evaloob"}, {"-force"}, {"-density"}, {"-selftest"}, {"-oob"}, {"-importance", cmd.Path("imp.tsv")},
	}
	if kind == "number" {
		return append(m, []string{"-l1"}, []string{"-contrastall", "-gbt", "0.5"})
	}
	return append(m, []string{"-entropy"}, []string{"-cost", `{"x":2,"y":1}`}, []string{"-adacost", `{"x":2,"y":1}`}, []string{"-balance"}, []string{"-trans_unlabeled", "y"})
}

func setup(c *mc.Ctx) *job {
	kind := mc.Pick(c, []string{"class", "number"}, "target")
	j := &job{trees: 2}
	j.t, j.target = table(kind)
	return j
}

// subsets: every blacklist with every expression.
func subsets(c *mc.Ctx) {
	j := setup(c)
	set := c.Choose(32, "blacklist")
	for i, col := range j.t.Cols {
		if set>>uint(i)&1 == 1 {
			j.black = append(j.black, col.Name)
		}
	}
	switch c.Dev(4, "list") {
	case 1:
		j.black = append(j.black, "N:unknown")
	case 2:
		j.black = append(j.black, "N:a", "N:a")
	case 3:
		j.black = append(j.black, "C:ab:SHUFFLED")
		j.flags = []string{"-contrastall"}
	}
	j.block = res[c.Dev(len(res), "blockRE")]
	j.include = res[c.Dev(len(res), "includeRE")]
	j.mTry = []string{"", "2", ".4"}[c.Dev(3, "mTry")]
	j.run(c, c.Choose(c.Int(1, 4), "random stream"))
}

// options: every way to grow a forest.
func options(c *mc.Ctx) {
	j := setup(c)
	j.trees = 1 + c.Choose(c.Int(2, 4), "trees")
	kind := "class"
	if j.t.Cols[2].Num {
		kind = "number"
	}
	j.flags = mc.Pick(c, menu(kind), "flags")
	if j.has("-adacost") {
		j.flags = append(j.flags, "-adaboost")
	}
	j.block = res[c.Dev(len(res), "blockRE")]
	j.include = res[c.Dev(len(res), "includeRE")]
	j.shuffle = res[c.Dev(len(res), "shuffleRE")]
	if c.Dev(2, "blacklist") == 1 {
		j.black = []string{"N:a", "N:t2"}
	}
	j.mTry = []string{"", "2", ".4"}[c.Dev(3, "mTry")]
	j.run(c, c.Choose(c.Int(2, 6), "random stream"))
}

// ace: contrasts and significant features.
func ace(c *mc.Ctx) {
	j := setup(c)
	j.trees = 1 + c.Choose(2, "trees")
	j.ace = 2 + c.Choose(2, "ace")
	j.cutoff = mc.Pick(c, []string{"", "0.05", "0.3", "0.9"}, "cutoff")
	switch c.Dev(5, "more") {
	case 4:
		j.flags = []string{"-oobpreds", cmd.Path("oob.tsv")}
	case 1:
		j.flags = []string{"-importance", cmd.Path("imp.tsv")}
	case 2:
		j.flags = []string{"-nContrasts", "1"}
	case 3:
		j.flags = []string{"-nCores", "2"}
	}
	j.block = res[c.Dev(len(res), "blockRE")]
	j.include = res[c.Dev(len(res), "includeRE")]
	if c.Dev(2, "blacklist") == 1 {
		j.black = []string{"N:a", "C:t"}
	}
	j.mTry = []string{"", "2", ".4"}[c.Dev(3, "mTry")]
	j.run(c, c.Choose(c.Int(6, 40), "random stream"))
}

// anew: the copies are shuffled for every forest.
func anew(c *mc.Ctx) {
	kind := mc.Pick(c, []string{"class", "number"}, "target")
	trees, ace, cutoff := 1+c.Choose(2, "trees"), 2+c.Choose(2, "ace"), mc.Pick(c, []string{"", "0.3"}, "cutoff")
	moved := map[string]bool{}
	var j *job
	for s := uint64(1); s <= 8; s++ {
		j = &job{trees: trees, ace: ace, cutoff: cutoff, moved: moved}
		j.t, j.target = table(kind)
		x := s * 0x9e3779b97f4a7c15
		j.shuffles = func(n int) int {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			return int(x>>33) % n
		}
		j.run(c, int(s))
	}
	for f := 1; f < ace; f++ {
		for i, o := range j.t.Cols {
			name := fmt.Sprint(o.Name, ":SHUFFLED in forest ", f)
			c.Check(i == j.target || moved[name], "%s: no answers of the random source make the copy %s differ from the one in the forest before", j.what, name)
		}
	}
	c.Outcome("%d", len(moved))
}

// reach: every candidate can come first.
func reach(c *mc.Ctx) {
	set := c.Choose(16, "blacklist")
	kind := mc.Pick(c, []string{"class", "number"}, "target")
	how := mc.Pick(c, [][]string{{"-nobag"}, {"-nobag", "-force"}, {"-nobag", "-splitmissing"}, {"-nobag", "-jungle"}}, "flags")
	seen := map[string]bool{}
	want := map[string]bool{}
	var what string
	for s := 0; s < 4*c.Int(4, 12); s++ {
		j := &job{trees: 1, mTry: "1"}
		j.t, j.target = table(kind)
		// give all cases a value so that each feature can split
		j.t.Cols[3].Vals[3] = "0"
		j.flags = append([]string{"-maxDepth", "1"}, how...)
		b := 0
		for i, col := range j.t.Cols {
			if i == j.target {
				continue
			}
			if set>>uint(b)&1 == 1 {
				j.black = append(j.black, col.Name)
			} else {
				want[col.Name] = true
			}
			b++
		}
		j.run(c, s, s%4, s/4)
		what = j.what
		seen[j.roots[0]] = true
	}
	for f := range want {
		c.Check(seen[f], "%s: no answers of the random source make it split first on %s", what, f)
	}
	c.Outcome("%d", len(want))
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C25", Quick: 150, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution grows forests with growforest; for every tree the candidate features it is given and the features it splits on must be those that the options leave, and the number tried per split the one that -mTry implies for them",
		Assumptions: []string{"contrasts of -nContrasts and -contrastall, and those of ACE without a cutoff, are candidates like other features: that is what they are for", "whether a feature whose importance never varies is significant is not specified"},
		Scenarios: []mc.Scenario{
			{Name: "subsets", Run: subsets, Dev: 3, DevThorough: 4, Bound: "2 tables of 5 features, every blacklist of them; up to 3 (4) deviations among unknown, repeated and contrast names, 8 block and 8 include expressions, 3 values of -mTry; 1 (4) random streams"},
			{Name: "options", Run: options, Dev: 2, DevThorough: 3, Bound: "22..25 sets of other options, 1..2 (4) trees; 2 (3) deviations among blacklist, 8 block, include and shuffle expressions and 3 values of -mTry; 2 (6) random streams"},
			{Name: "ace", Run: ace, Dev: 2, DevThorough: 3, Bound: "2..3 ACE forests of 1..2 trees, with 3 cutoffs and without; 2 (3) deviations among importance, contrasts, threads and out of bag predictions, blacklist, expressions and -mTry; 6 (40) random streams"},
			{Name: "copies", Run: anew, Bound: "2..3 ACE forests of 1..2 trees with and without a cutoff, 8 streams of random answers after each forest"},
			{Name: "reach", Run: reach, Bound: "every blacklist of 4 features, one feature tried per split, every first answer of the random source with 4 (12) second ones"},
		},
	})
}

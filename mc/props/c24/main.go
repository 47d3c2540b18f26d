// C24: leafcount counts what the trees imply, under every schedule.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"sort"
	"strconv"
	"strings"

	growforest "github.com/ryanbressler/CloudForest/growforest"
	leafcount "github.com/ryanbressler/CloudForest/leafcount"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/model"
	"verifmc/sched"
)

type job struct {
	files   []string // the text of each
	t       cf.Table
	inCol   bool
	threads int
	// outputs asked for
	branches, splits bool
}

func (j *job) String() string {
	return fmt.Sprintf("leafcount of %d files with %d threads (branches %v, splits %v)\n%s\nof %v", len(j.files), j.threads, j.branches, j.splits, strings.Join(j.files, "--\n"), j.t)
}

// sparse reads a matrix; no pair may be stated twice.
func sparse(c *mc.Ctx, j *job, what, text string) map[[2]int]int {
	out := map[[2]int]int{}
	for _, l := range strings.Split(text, "\n") {
		if l == "" {
			continue
		}
		f := strings.Split(l, "\t")
		var k [3]int
		c.Check(len(f) == 3, "%v: the %s have the line %q", j, what, l)
		for i, s := range f {
			x, err := strconv.Atoi(s)
			c.Check(err == nil, "%v: the %s have the line %q", j, what, l)
			k[i] = x
		}
		p := [2]int{k[0], k[1]}
		_, twice := out[p]
		c.Check(!twice, "%v: the %s state %v twice", j, what, p)
		out[p] = k[2]
	}
	return out
}

func same(c *mc.Ctx, j *job, what string, got, want map[[2]int]int) {
	for p, n := range got {
		c.Check(want[p] == n, "%v: the %s have %d for %v instead of %d", j, what, n, p, want[p])
	}
	for p, n := range want {
		c.Check(n == 0 || got[p] == n, "%v: the %s have %d for %v instead of %d", j, what, got[p], p, n)
	}
}

func (j *job) run(c *mc.Ctx, cfg sched.Config) string {
	cmd.Keep("d.afm", j.t.AFM(j.inCol, ".", "NA", "\n", true))
	cmd.Drop("leaves.tsv", "branches.tsv", "splits.json")
	var names []string
	var trees []*model.Tree
	for i, sf := range j.files {
		n := fmt.Sprintf("f%d.sf", i)
		cmd.Keep(n, sf)
		names = append(names, cmd.Path(n))
		fs, err := model.ParseSF(sf)
		if err != nil {
			panic(fmt.Sprint(err, sf))
		}
		trees = append(trees, fs[0].Trees...)
	}
	args := []string{"-fm", cmd.Path("d.afm"), "-rfpred", strings.Join(names, ","), "-leaves", cmd.Path("leaves.tsv"), "-threads", fmt.Sprint(j.threads)}
	if j.branches {
		args = append(args, "-branches", cmd.Path("branches.tsv"))
	}
	if j.splits {
		args = append(args, "-splits", cmd.Path("splits.json"))
	}
	_, res := cmd.Run(c, cfg, leafcount.Main, args...)
	c.Check(res.Exit == "" && res.Deadlock == "", "%v: %s%s\n%s", j, res.Exit, res.Deadlock, res.Stack)
	c.Eval(1)

	d := model.NewData(j.t)
	n := d.Len()
	leaves, branches := map[[2]int]int{}, map[[2]int]int{}
	feature := map[string]int{}
	for i, col := range j.t.Cols {
		feature[col.Name] = i
	}
	splits := map[string]map[string]int{}
	for _, t := range trees {
		at := make([]*model.Node, n)
		for i := range at {
			at[i] = t.Root.Leaf(d, i)
			for nd := t.Root; nd != nil && nd.Split; {
				branches[[2]int{i, feature[nd.Feature]}]++
				nd = map[byte]*model.Node{'L': nd.L, 'R': nd.R, 'M': nd.M}[nd.Side(d, i)]
			}
		}
		for a := range at {
			for b := range at {
				if at[a] != nil && at[a] == at[b] {
					leaves[[2]int{a, b}]++
				}
			}
		}
		t.Root.Walk(func(nd *model.Node, _ int) {
			if nd.Split {
				if splits[nd.Feature] == nil {
					splits[nd.Feature] = map[string]int{}
				}
				s := model.CanonSplit(nd)
				splits[nd.Feature][s]++
			}
		})
	}
	text, ok := cmd.Get("leaves.tsv")
	c.Check(ok, "%v: no leaves are written", j)
	same(c, j, "leaves", sparse(c, j, "leaves", text), leaves)
	text, ok = cmd.Get("branches.tsv")
	c.Check(ok == j.branches, "%v: branches are written: %v", j, ok)
	if ok {
		same(c, j, "branches", sparse(c, j, "branches", text), branches)
	}
	text, ok = cmd.Get("splits.json")
	c.Check(ok == j.splits, "%v: splits are written: %v", j, ok)
	if ok {
		var got map[string][]string
		err := json.Unmarshal([]byte(text), &got)
		c.Check(err == nil, "%v: splits %s: %v", j, text, err)
		for f, ss := range got {
			left := map[string]int{}
			total := 0
			for s, k := range splits[f] {
				left[s] = k
				total += k
			}
			for _, s := range ss {
				k := s
				if strings.HasPrefix(f, "N:") {
					x, err := strconv.ParseFloat(s, 64)
					c.Check(err == nil, "%v: split %q of %s", j, s, f)
					k = cf.CanonNum(x)
				} else {
					cs := strings.Split(s, ",")
					sort.Strings(cs)
					k = strings.Join(cs, ",")
				}
				c.Check(left[k] > 0, "%v: the splits of %s are %q, those of the trees %v", j, f, ss, splits[f])
				left[k]--
			}
			c.Check(len(ss) == total, "%v: the splits of %s are %q, those of the trees %v", j, f, ss, splits[f])
		}
		for f := range splits {
			c.Check(len(got[f]) > 0, "%v: the splits of %s are missing in %s", j, f, text)
		}
	}
	return fmt.Sprint(leaves, branches)
}

var shapes = []string{
	"NODE=*,PRED=a\n",
	"NODE=*,PRED=a,SPLITTERTYPE=NUMERICAL,SPLITTER=\"N:x\",LVALUES=1.500000001\nNODE=*L,PRED=a\nNODE=*R,PRED=b\n",
	"NODE=*,PRED=a,SPLITTERTYPE=CATEGORICAL,SPLITTER=\"C:z\",LVALUES=\"q:unknown:p\"\nNODE=*L,PRED=b\nNODE=*R,PRED=a\nNODE=*M,PRED=c\n",
	"NODE=*,PRED=a,SPLITTERTYPE=NUMERICAL,SPLITTER=\"N:x\",LVALUES=2\nNODE=*L,PRED=a,SPLITTERTYPE=CATEGORICAL,SPLITTER=\"C:z\",LVALUES=\"p\"\nNODE=*LL,PRED=b\nNODE=*LR,PRED=c\nNODE=*R,PRED=a\n",
	"NODE=*,PRED=a,SPLITTERTYPE=NUMERICAL,SPLITTER=\"N:x\",LVALUES=2\nNODE=*L,PRED=c\nNODE=*R,PRED=a,SPLITTERTYPE=NUMERICAL,SPLITTER=\"N:x\",LVALUES=2.4999999999\nNODE=*RL,PRED=c\nNODE=*RR,PRED=b\nNODE=*M,PRED=a,SPLITTERTYPE=CATEGORICAL,SPLITTER=\"C:z\",LVALUES=\"r\"\nNODE=*ML,PRED=b\nNODE=*MR,PRED=c\n",
	"NODE=*,PRED=a,SPLITTERTYPE=CATEGORICAL,SPLITTER=\"C:z\",LVALUES=\"r:q\"\nNODE=*L,PRED=a,SPLITTERTYPE=NUMERICAL,SPLITTER=\"N:y\",LVALUES=-1.25e-09\nNODE=*LL,PRED=a,SPLITTERTYPE=NUMERICAL,SPLITTER=\"N:x\",LVALUES=1.500000001\nNODE=*LLL,PRED=a\nNODE=*LLR,PRED=a\nNODE=*LR,PRED=a\nNODE=*LM,PRED=a\nNODE=*R,PRED=a,SPLITTERTYPE=NUMERICAL,SPLITTER=\"N:y\",LVALUES=3\nNODE=*RL,PRED=a\nNODE=*RR,PRED=b\n",
}

func table(x, y, z []string) cf.Table {
	t := cf.Table{Cols: []cf.Column{{Name: "C:z", Vals: z}, {Name: "N:y", Num: true, Vals: y}, {Name: "N:x", Num: true, Vals: x}}}
	for i := range x {
		t.Labels = append(t.Labels, fmt.Sprint("case", i))
	}
	return t
}

// grid has a case for each combination of values.
func grid() cf.Table {
	var x, y, z []string
	for i, a := range []string{"", "1.5", "2.25"} {
		for _, b := range []string{"r", "p", ""} {
			x, z = append(x, a), append(z, b)
			y = append(y, []string{"3", "", "-1"}[(i+len(z))%3])
		}
	}
	return table(x, y, z)
}

// file draws a forest file of n trees.
func file(c *mc.Ctx, n int, targets bool) string {
	sf := ""
	for k := 0; k < n; k++ {
		if targets && k == 0 {
			sf += "FOREST=RF,TARGET=\"C:t\",NTREES=2,INTERCEPT=1\n"
		}
		sf += fmt.Sprintf("TREE=%d,TARGET=\"C:t\",WEIGHT=0.5\n", k) + mc.Pick(c, shapes, "shape")
	}
	return sf
}

func forests(c *mc.Ctx) {
	j := &job{t: grid(), threads: 1, branches: true, splits: true}
	header := c.Bool("header")
	n := c.Int(3, 4)
	for k := 1 + c.Choose(2, "files"); k > 0; k-- {
		m := 1 + c.Choose(n-k, "trees")
		n -= m
		j.files = append(j.files, file(c, m, header))
	}
	switch c.Dev(4, "outputs") {
	case 1:
		j.branches = false
	case 2:
		j.splits = false
	case 3:
		j.branches, j.splits = false, false
	}
	j.inCol = c.Dev(2, "orientation") == 1
	if c.Dev(2, "more threads") == 1 {
		j.threads = 3
	}
	out := j.run(c, sched.Config{NoRaces: true, OneSchedule: true})
	c.Statef("%v", j)
	c.Outcome("%s", out)
}

func matrices(c *mc.Ctx) {
	n := 1 + c.Choose(c.Int(3, 4), "cases - 1")
	var x, y, z []string
	for i := 0; i < n; i++ {
		a, b := []string{"", "2", "-1", "2.25"}, []string{"", "p", "r"}
		x = append(x, mc.Pick(c, a, "x"))
		z = append(z, mc.Pick(c, b, "z"))
		y = append(y, []string{"3", "-1", "", "4"}[i])
	}
	j := &job{t: table(x, y, z), threads: 1, branches: true, splits: true}
	for k, s := range []int{5, 4, 3} {
		if k == 0 {
			j.files = []string{""}
		}
		j.files[0] += fmt.Sprintf("TREE=%d,TARGET=\"C:t\"\n", k) + shapes[s]
	}
	j.files = append(j.files, "TREE=0,TARGET=\"C:t\"\n"+shapes[1])
	out := j.run(c, sched.Config{NoRaces: true, OneSchedule: true})
	c.Statef("%v", j.t)
	c.Outcome("%s", out)
}

// schedules: all of them up to a number of preemptions.
func schedules(c *mc.Ctx) {
	j := &job{threads: 1 + c.Choose(3, "threads"), branches: true, splits: true}
	j.t = table([]string{"1", "2.25"}, []string{"3", "-1"}, []string{"q", ""})
	files := 1 + c.Choose(c.Int(2, 3), "files")
	for k := 0; k < files; k++ {
		s := []int{4, 3, 2}[(k+c.Choose(2, "shape"))%3]
		j.files = append(j.files, "TREE=0,TARGET=\"C:t\"\n"+shapes[s])
	}
	out := j.run(c, sched.Config{DelayBound: true})
	c.Statef("%v", j)
	c.Outcome("%s", out)
}

// grown: forests of growforest.
func grown(c *mc.Ctx) {
	t := table([]string{"1", "2", "3", "4", "5", "2.5"}, []string{"3", "1", "", "2", "2", "5"}, []string{"p", "q", "r", "", "p", "q"})
	t.Cols = append(t.Cols, mc.Pick(c, []cf.Column{{Name: "N:t", Num: true, Vals: []string{"1", "2", "4", "8", "16", "-32"}}, {Name: "C:t", Vals: []string{"a", "b", "b", "a", "c", "a"}}}, "target"))
	cmd.Keep("train.afm", t.AFM(false, ".", "NA", "\n", true))
	flags := mc.Pick(c, [][]string{{}, {"-splitmissing"}, {"-extra"}, {"-gbt", "0.5"}, {"-nobag"}}, "flags")
	j := &job{t: t, threads: 1 + c.Choose(2, "threads"), branches: true, splits: true}
	x := uint64(1+c.Choose(c.Int(10, 60), "random stream")) * 0x9e3779b97f4a7c15
	for k := 0; k < 2; k++ {
		c.Rand(func(n int) int {
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			return int(x>>33) % n
		})
		cmd.Drop("out.sf")
		args := append([]string{"-train", cmd.Path("train.afm"), "-target", t.Cols[3].Name, "-rfpred", cmd.Path("out.sf"), "-nTrees", "3", "-leafSize", "1", "-noseed"}, flags...)
		_, res := cmd.Run(c, sched.Config{NoRaces: true, OneSchedule: true, KeepRand: true}, growforest.Main, args...)
		c.Check(res.Exit == "" && res.Deadlock == "", "growforest %v: %s\n%s", args, res.Exit, res.Stack)
		sf, _ := cmd.Get("out.sf")
		j.files = append(j.files, sf)
	}
	out := j.run(c, sched.Config{NoRaces: true, OneSchedule: true})
	c.Statef("%v", j)
	c.Outcome("%s", out)
}

// large: counts, cases and depths beyond those of a byte.
func large(c *mc.Ctx) {
	size := mc.Pick(c, [][2]int{{70, 3}, {260, 1}, {3, 300}, {2, 700}}, "cases and trees")
	var x, y, z []string
	for i := 0; i < size[0]; i++ {
		x = append(x, []string{fmt.Sprint(i), "1.5", ""}[i%7/5])
		y = append(y, fmt.Sprint(i%5-1))
		z = append(z, []string{"p", "q", "", "r"}[i/3%4])
	}
	j := &job{t: table(x, y, z), threads: 2, branches: true, splits: true}
	shape := c.Choose(4, "shape")
	sf := ""
	for k := 0; k < size[1]; k++ {
		sf += fmt.Sprintf("TREE=%d,TARGET=\"C:t\"\n", k)
		if shape == 3 { // one case after the other
			at := "*"
			for i := 0; i+1 < size[0]; i++ {
				sf += fmt.Sprintf("NODE=%s,PRED=a,SPLITTERTYPE=NUMERICAL,SPLITTER=\"N:x\",LVALUES=%d\nNODE=%sL,PRED=b\n", at, i, at)
				at += "R"
			}
			sf += "NODE=" + at + ",PRED=a\n"
			continue
		}
		sf += shapes[[]int{0, 1, 5}[shape]]
	}
	j.files = []string{sf, "TREE=0,TARGET=\"C:t\"\n" + shapes[4]}
	j.run(c, sched.Config{NoRaces: true, OneSchedule: true, MaxPoints: 20000000})
	c.Statef("%v %d", size, shape)
	c.Outcome("%v %d", size, shape)
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C24", Quick: 100, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution runs leafcount on some forest files and one data set under one schedule; the three files written must state the counts that a hand evaluation of the trees implies, and no pair of conflicting memory accesses may be unordered",
		Assumptions: []string{"one data set, which has all features the trees split on", "no commas in categories (the splits of a feature list them joined by commas)", "at least one thread"},
		Scenarios: []mc.Scenario{
			{Name: "forests", Run: forests, Dev: 1, DevThorough: 2, Bound: "1..2 files of together 1..3 (4) trees out of 6 shapes, with and without a header; 1 (2) deviations among outputs not asked for, orientation and 3 threads; 9 cases, one for each combination of values"},
			{Name: "matrices", Run: matrices, Bound: "every matrix of 1..3 (4) cases over 4 numbers and 3 categories with missing, 2 files with 4 trees"},
			{Name: "schedules", Run: schedules, Dev: 2, DevThorough: 3, Bound: "1..2 (3) files, 1..3 threads, 2 cases; all schedules with up to 2 (3) delays or preemptions, with a race detector"},
			{Name: "large", Run: large, Bound: "70 and 260 cases and up to 3 trees, 2 and 3 cases and up to 700 trees, of 3 shapes or as deep as there are cases"},
			{Name: "grown", Run: grown, Bound: "two forests of 3 trees grown by growforest from 2 targets with 5 settings and 10 (60) random streams, 1..2 threads"},
		},
	})
}

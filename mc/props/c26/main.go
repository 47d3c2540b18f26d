// C26: cases whose target is missing never influence training.
package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"sort"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	growforest "github.com/ryanbressler/CloudForest/growforest"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/model"
	"verifmc/sched"
)

const novel = "new"

// source answers the random source so that data that differ in the cases
// without a target get corresponding answers.
type source struct {
	known, missing []int // cases
	n              int
	seed           uint64
	x              uint64
	trees          int
	inside         bool
	reject         bool
}

func (s *source) mix(k uint64) {
	s.x = (s.seed*1000003 + k + 1) * 0x9e3779b97f4a7c15
	s.next()
	s.next()
}

func (s *source) next() uint64 {
	s.x ^= s.x << 13
	s.x ^= s.x >> 7
	s.x ^= s.x << 17
	return s.x
}

func (s *source) enter() {
	s.trees++
	s.inside = true
	s.mix(uint64(2 * s.trees))
}

func (s *source) leave() {
	s.inside = false
	s.mix(uint64(2*s.trees + 1))
}

// answer draws below n; among all cases it draws those with a target, and
// those without one in between.
func (s *source) answer(n int) int {
	if s.inside || len(s.missing) == 0 || n != s.n {
		return int(s.next()>>33) % n
	}
	if !s.reject && (s.x>>20)%3 == 0 {
		s.reject = true
		return s.missing[int(s.x>>23)%len(s.missing)]
	}
	s.reject = false
	return s.known[int(s.next()>>33)%len(s.known)]
}

func (s *source) install(c *mc.Ctx) {
	s.mix(0)
	c.Rand(s.answer)
	c.RandRaw(func() uint64 { return s.next() })
}

// result is all that training produces.
type result struct {
	trees []string
	lines []string // errors, importances, predictions of known cases
	bags  []string
	exit  string
}

// strip takes a category that no training case has out of the splits, and
// rounding errors out of the predictions.
func strip(n *model.Node) *model.Node {
	n.Walk(func(n *model.Node, _ int) {
		delete(n.Left, novel)
		if x, err := strconv.ParseFloat(n.Pred, 64); err == nil {
			n.Pred = fmt.Sprintf("%.6f", x+1e-9)
		}
	})
	return n
}

func split(t cf.Table, target int) (known, missing []int) {
	for i, v := range t.Cols[target].Vals {
		if v == "" {
			missing = append(missing, i)
		} else {
			known = append(known, i)
		}
	}
	return
}

type job struct {
	target int
	flags  []string
	trees  int
	seed   int
	what   string
}

// run trains on a table.
func (j *job) run(c *mc.Ctx, t cf.Table) *result {
	var r result
	cmd.Put("train.afm", t.AFM(false, ".", "NA", "\n", true))
	cmd.Drop("out.sf", "imp.tsv", "oob.tsv")
	args := append([]string{"-train", cmd.Path("train.afm"), "-target", t.Cols[j.target].Name, "-rfpred", cmd.Path("out.sf"), "-nTrees", fmt.Sprint(j.trees), "-leafSize", "1", "-noseed", "-importance", cmd.Path("imp.tsv"), "-oobpreds", cmd.Path("oob.tsv"), "-selftest"}, j.flags...)
	j.what = fmt.Sprintf("growforest %q", args)
	s := &source{n: len(t.Labels), seed: uint64(j.seed)}
	s.known, s.missing = split(t, j.target)
	rank := map[int]int{}
	for i, k := range s.known {
		rank[k] = i
	}
	cfg := sched.Config{NoRaces: true, KeepRand: true, OneSchedule: true}
	cfg.Traced = func(leave bool, name string, thread int, lg []sched.Draw, args []interface{}) {
		if leave {
			r.trees = append(r.trees, strip(model.Of(args[0].(*C.Tree).Root)).String())
			s.leave()
			return
		}
		var b []int
		if has(j.flags, "-nobag") {
			// a sample without repetitions comes in an order that does not matter
			sort.Ints(args[3].([]int))
		}
		for _, i := range args[3].([]int) {
			k, ok := rank[i]
			c.Check(ok, "%s on %v: case %d is drawn for training, its target is missing", j.what, t, i)
			b = append(b, k)
		}
		r.bags = append(r.bags, fmt.Sprint(b))
		s.enter()
	}
	s.install(c)
	out, res := cmd.Run(c, cfg, growforest.Main, args...)
	r.exit = res.Exit + res.Deadlock
	c.Check(r.exit == "", "%s on %v: %s\n%s", j.what, t, r.exit, res.Stack)
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "Out of Bag Error") || strings.HasPrefix(l, "Error:") || strings.HasPrefix(l, "mTry") || strings.HasPrefix(l, "leafSize") || strings.HasPrefix(l, "nSamples") {
			r.lines = append(r.lines, l)
		}
	}
	imp, _ := cmd.Get("imp.tsv")
	r.lines = append(r.lines, strings.Split(imp, "\n")...)
	oob, _ := cmd.Get("oob.tsv")
	for i, l := range strings.Split(strings.TrimSpace(oob), "\n") {
		if _, ok := rank[i]; ok {
			r.lines = append(r.lines, l)
		}
	}
	return &r
}

// alike compares lines of which some fields are numbers.
func alike(a, b string) bool {
	if a == b {
		return true
	}
	f, g := strings.FieldsFunc(a, sep), strings.FieldsFunc(b, sep)
	if len(f) != len(g) {
		return false
	}
	for i := range f {
		x, e1 := strconv.ParseFloat(f[i], 64)
		y, e2 := strconv.ParseFloat(g[i], 64)
		if f[i] != g[i] && (e1 != nil || e2 != nil || !cf.Close(x, y, 1e-9)) {
			return false
		}
	}
	return true
}

func sep(r rune) bool { return r == '\t' || r == ' ' }

func (j *job) compare(c *mc.Ctx, how string, t, u cf.Table, a, b *result) {
	c.Check(fmt.Sprint(a.bags) == fmt.Sprint(b.bags), "%s: the training samples of\n%v\nare %v, %s\n%v\n%v", j.what, t, a.bags, how, u, b.bags)
	c.Check(fmt.Sprint(a.trees) == fmt.Sprint(b.trees), "%s: the trees of\n%v\nare %v, %s\n%v\n%v", j.what, t, a.trees, how, u, b.trees)
	c.Check(len(a.lines) == len(b.lines), "%s: the output of\n%v\nis %q, %s\n%v\n%q", j.what, t, a.lines, how, u, b.lines)
	for i := range a.lines {
		c.Check(alike(a.lines[i], b.lines[i]), "%s: with\n%v\nthere is %q, %s\n%v\n%q", j.what, t, a.lines[i], how, u, b.lines[i])
	}
	c.Eval(1)
}

// ---- data

func num(name string, vs ...string) cf.Column { return cf.Column{Name: name, Num: true, Vals: vs} }
func cat(name string, vs ...string) cf.Column { return cf.Column{Name: name, Vals: vs} }

// complete is a table without the cases that lack a target.
func complete(kind string) cf.Table {
	t := cf.Table{Cols: []cf.Column{
		num("N:x", "1", "2", "3", "5", "4", ""),
		cat("C:z", "p", "q", "r", "q", "", "p"),
		cat("C:t", "a", "b", "b", "a", "a", "b"),
		num("N:y", "3", "1", "", "2", "5", "2"),
		cat("C:g", "u", "v", "u", "v", "", "v"),
	}}
	switch kind {
	case "number":
		t.Cols[2] = num("N:t", "1", "2", "4", "8", "-16", "32")
	case "levels":
		t.Cols[2] = num("N:t", "1", "2", "0", "1", "3", "2")
	case "three":
		t.Cols[2] = cat("C:t", "a", "b", "c", "a", "c", "b")
	}
	for i := range t.Cols[0].Vals {
		t.Labels = append(t.Labels, fmt.Sprint("case", i))
	}
	return t
}

// with adds cases without a target before the case at the position.
func with(t cf.Table, at []int, rows [][]string) cf.Table {
	var out cf.Table
	for k := range t.Cols {
		out.Cols = append(out.Cols, cf.Column{Name: t.Cols[k].Name, Num: t.Cols[k].Num})
	}
	for i := 0; i <= len(t.Labels); i++ {
		for k, p := range at {
			if p == i {
				out.Labels = append(out.Labels, fmt.Sprint("extra", k))
				for l := range out.Cols {
					out.Cols[l].Vals = append(out.Cols[l].Vals, rows[k][l])
				}
			}
		}
		if i < len(t.Labels) {
			out.Labels = append(out.Labels, t.Labels[i])
			for l := range out.Cols {
				out.Cols[l].Vals = append(out.Cols[l].Vals, t.Cols[l].Vals[i])
			}
		}
	}
	return out
}

// order is that of the first appearances of the categories.
func order(c cf.Column) string {
	var o []string
	seen := map[string]bool{"": true, novel: true}
	for _, v := range c.Vals {
		if !seen[v] {
			o = append(o, v)
		}
		seen[v] = true
	}
	return fmt.Sprint(o)
}

func sameOrder(t, u cf.Table) bool {
	for i := range t.Cols {
		if !t.Cols[i].Num && order(t.Cols[i]) != order(u.Cols[i]) {
			return false
		}
	}
	return true
}

// marked tells whether the same features lack values and no category is new.
// Only then does a search keep the training cases in the same order, on which
// it depends how the answers of the random source permute the target.
func marked(t, u cf.Table) bool {
	for i := range t.Cols {
		m := func(c cf.Column) bool {
			for _, v := range c.Vals {
				if v == "" {
					return true
				}
			}
			return false
		}
		if i != 2 && m(t.Cols[i]) != m(u.Cols[i]) {
			return false
		}
		for _, v := range u.Cols[i].Vals {
			if v == novel {
				return false
			}
		}
	}
	return true
}

// fragile tells whether the order of the training cases may matter.
func (j *job) fragile() bool {
	for _, f := range []string{"-vet", "-gbt", "-adaboost", "-adacost"} {
		if has(j.flags, f) {
			return true
		}
	}
	return false
}

var sampling = [][]string{
	{}, {"-nobag"}, {"-nobag", "-nSamples", "3"}, {"-nSamples", "3"}, {"-nSamples", ".6", "-mTry", "4"}, {"-nSamples", "9"}, {"-balance"}, {"-balanceby", "C:g"},
}

func response(kind string) [][]string {
	m := [][]string{{}, {"-adaboost"}, {"-gbt", "0.5"}, {"-density"}}
	switch kind {
	case "levels":
		return [][]string{{"-ordinal"}}
	case "number":
		return append(m, []string{"-l1"})
	case "three":
		return [][]string{{}, {"-entropy"}, {"-adaboost"}, {"-cost", `{"a":2,"b":1,"c":0.5}`}, {"-dentropy", `{"a":2,"b":1,"c":0.5}`}, {"-adacost", `{"a":2,"b":1,"c":0.5}`}, {"-rfweights", `{"a":2,"b":1,"c":0.5}`}}
	}
	return append(m, []string{"-entropy"}, []string{"-NP", "-NP_pos", "a"}, []string{"-hellinger", "-positive", "a"}, []string{"-gbt", "0.5", "-positive", "a"}, []string{"-trans_unlabeled", "b"}, []string{"-adacost", `{"a":2,"b":1}`})
}

var how = [][]string{
	{}, {"-splitmissing"}, {"-evaloob"}, {"-vet"}, {"-vet", "-evaloob"}, {"-extra"}, {"-force"}, {"-jungle"}, {"-maxDepth", "2"}, {"-mTry", ".8"}, {"-leafSize", "0"}, {"-leafSize", ".4"},
}

var values = map[string][]string{
	"N:x": {"", "2.5", "-9", "9"}, "C:z": {"", "q", novel}, "N:y": {"2", "", "100"}, "C:g": {"v", ""},
}

func has(fs []string, f string) bool {
	for _, x := range fs {
		if x == f {
			return true
		}
	}
	return false
}

func (j *job) settings(c *mc.Ctx, kind string, sizes int) {
	j.target = 2
	if sizes > 0 {
		j.trees = 1 + c.Choose(sizes, "trees")
	} else {
		j.trees = 3
	}
	s := mc.Pick(c, sampling, "sampling")
	r := mc.Pick(c, response(kind), "target")
	h := mc.Pick(c, how, "how")
	if strings.HasPrefix(kind, "number") || kind == "levels" {
		if has(s, "-balance") || has(s, "-balanceby") {
			c.Discard()
		}
	}
	j.flags = append(append(append([]string{}, s...), r...), h...)
	if has(j.flags, "-density") && has(j.flags, "-vet") {
		c.Discard() // a density has no target that could be permuted
	}
}

// rows: every value of one case without a target, others as deviations.
func rows(c *mc.Ctx) {
	kind := mc.Pick(c, []string{"two", "number", "three", "levels"}, "data")
	base := complete(kind)
	var j job
	j.settings(c, kind, 0)
	j.seed = 1 + c.Choose(c.Int(1, 6), "random stream")
	at := [][]int{{4, 6}, {3, 3}, {0, 6}, {0, 5}}[c.Dev(4, "where")]
	rs := [][]string{{"2.5", "q", "", "100", "v"}, {"-9", "", "", "", ""}}
	for k := range rs {
		for l, col := range base.Cols {
			if l != j.target {
				vs := values[col.Name]
				if d := c.Dev(len(vs)+1, "value"); d > 0 {
					rs[k][l] = vs[d-1]
				}
			}
		}
	}
	u := with(base, at, rs)
	if !sameOrder(base, u) || j.fragile() && !marked(base, u) {
		c.Discard()
	}
	a := j.run(c, base)
	b := j.run(c, u)
	j.compare(c, "with cases that lack a target,", base, u, a, b)
	c.Statef("%v %v", j.flags, u)
	c.Outcome("%v", a.trees)
}

// matrices: every set of cases without a target.
func matrices(c *mc.Ctx) {
	kind := mc.Pick(c, []string{"two", "number", "three"}, "data")
	full := complete(kind)
	set := 1 + c.Choose(62, "missing")
	for i := 0; i < 6; i++ {
		if set>>uint(i)&1 == 1 {
			full.Cols[2].Vals[i] = ""
		}
	}
	known, _ := split(full, 2)
	if len(known) < 2 {
		c.Discard()
	}
	reduced := full.Rows(known)
	classes := map[string]bool{}
	for _, k := range known {
		classes[full.Cols[2].Vals[k]] = true
	}
	if !sameOrder(reduced, full) {
		// the tables then number their categories differently
		for i := range full.Cols {
			if !full.Cols[i].Num && order(full.Cols[i]) != order(reduced.Cols[i]) {
				for k := range full.Cols[i].Vals {
					if full.Cols[2].Vals[k] == "" {
						full.Cols[i].Vals[k] = novel
					}
				}
			}
		}
	}
	var j job
	j.settings(c, kind, 1)
	if kind != "number" && (len(classes) < 2 || kind == "three" && len(classes) < 3) {
		for _, f := range []string{"-gbt", "-hellinger", "-NP", "-adaboost", "-adacost", "-trans_unlabeled", "-cost", "-dentropy", "-rfweights"} {
			if has(j.flags, f) {
				c.Discard()
			}
		}
	}
	j.seed = 1 + c.Choose(c.Int(1, 4), "random stream")
	if j.fragile() && !marked(reduced, full) {
		c.Discard()
	}
	a := j.run(c, reduced)
	b := j.run(c, full)
	j.compare(c, "with cases that lack a target,", reduced, full, a, b)
	c.Statef("%v %v", j.flags, full)
	c.Outcome("%v", a.trees)
}

// ---- the library

func library(c *mc.Ctx) {
	kind := mc.Pick(c, []string{"two", "number", "three", "levels"}, "data")
	base := complete(kind)
	at := [][]int{{4, 6}, {3, 3}, {0, 6}, {0, 5}, {6, 6}}[c.Choose(5, "where")]
	rs := [][]string{{"2.5", "q", "", "100", "v"}, {"-9", "", "", "", ""}}
	for k := range rs {
		for l, col := range base.Cols {
			if l != 2 {
				vs := values[col.Name]
				if d := c.Dev(len(vs)+1, "value"); d > 0 {
					rs[k][l] = vs[d-1]
				}
			}
		}
	}
	u := with(base, at, rs)
	if !sameOrder(base, u) {
		c.Discard()
	}
	nSamples := []int{6, 3, 9}[c.Choose(3, "samples")]
	seed := 1 + c.Choose(c.Int(4, 20), "random stream")
	split, vet, force, oob := c.Bool("splitmissing"), c.Bool("vet"), c.Bool("force"), c.Bool("evaloob")
	response := c.Choose(4, "target")
	if (vet || response > 1) && !marked(base, u) {
		c.Discard()
	}
	grow := func(t cf.Table) (trees []string, bags []string, imp string) {
		fm := t.Build()
		var target C.Target
		switch f := fm.Data[2].(type) {
		case *C.DenseNumFeature:
			switch {
			case kind == "levels":
				target = C.NewOrdinalTarget(f)
			case response == 0:
				target = f
			case response == 1:
				target = &C.L1Target{f}
			case response == 2:
				target = C.NewGradBoostTarget(f, 0.5)
			default:
				target = C.NewNumAdaBoostTarget(f)
			}
		case *C.DenseCatFeature:
			switch response {
			case 0:
				target = f
			case 1:
				target = &C.EntropyTarget{f}
			case 2:
				target = C.NewAdaBoostTarget(f)
			default:
				target = C.NewGradBoostClassTarget(f, 0.5, "a")
			}
		}
		var means *[]*C.RunningMean
		if !oob {
			means = C.NewRunningMeans(len(fm.Data))
		}
		s := &source{n: len(t.Labels), seed: uint64(seed)}
		var known []int
		known, s.missing = splitCases(t)
		s.known = known
		rank := map[int]int{}
		for i, k := range known {
			rank[k] = i
		}
		cfg := sched.Config{NoRaces: true, KeepRand: true, OneSchedule: true}
		cfg.Traced = func(leave bool, name string, thread int, lg []sched.Draw, args []interface{}) {
			if leave {
				s.leave()
				return
			}
			var b []int
			for _, i := range args[3].([]int) {
				k, ok := rank[i]
				c.Check(ok, "GrowRandomForest on %v: case %d is drawn for training, its target is missing", t, i)
				b = append(b, k)
			}
			bags = append(bags, fmt.Sprint(b))
			s.enter()
		}
		s.install(c)
		var f *C.Forest
		res := sched.Run(c, cfg, func() {
			f = C.GrowRandomForest(fm, target, []int{0, 1, 3, 4}, nSamples, 2, 2, 1, 0, split, force, vet, oob, means)
		})
		c.Check(res.Exit == "", "GrowRandomForest on %v: %s\n%s", t, res.Exit, res.Stack)
		for _, tr := range f.Trees {
			trees = append(trees, fmt.Sprintf("%v %.7g", strip(model.Of(tr.Root)), tr.Weight))
		}
		trees = append(trees, fmt.Sprint(f.Intercept))
		if means != nil {
			for _, m := range *means {
				a, b := m.Read()
				imp += fmt.Sprint(a, b, " ")
			}
		}
		return
	}
	a, ab, ai := grow(base)
	b, bb, bi := grow(u)
	what := fmt.Sprintf("GrowRandomForest(%d samples, splitmissing %v, vet %v, force %v, evaloob %v, target %d) of\n%v\nand\n%v", nSamples, split, vet, force, oob, response, base, u)
	c.Check(fmt.Sprint(ab) == fmt.Sprint(bb), "%s: samples %v and %v", what, ab, bb)
	c.Check(fmt.Sprint(a) == fmt.Sprint(b), "%s: trees %v and %v", what, a, b)
	c.Check(ai == bi, "%s: importances %s and %s", what, ai, bi)
	c.Eval(1)
	c.Statef("%s", what)
	c.Outcome("%v", a)
}

func splitCases(t cf.Table) (known, missing []int) { return split(t, 2) }

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C26", Quick: 150, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution trains twice, on data with cases that lack a target and on the same data without them, with corresponding answers of the random source; the samples, trees, weights, importances, errors and out-of-bag predictions must be the same",
		Assumptions: []string{"-density with -vet is not defined", "options that by design take statistics of all cases (imputation, contrasts, shuffling, ACE, transduction of unlabeled cases) are left out", "with -vet and boosting the same features have missing values in both data sets and no category is new: the order in which the answers of the random source permute the target, and rounding errors that break ties, depend on it", "categories are numbered in the same order in both data sets; one that only cases without a target have may appear on either side of a split"},
		Scenarios: []mc.Scenario{
			{Name: "rows", Run: rows, Dev: 1, DevThorough: 2, Bound: "4 data sets of 6 cases and 2 without a target, 8 ways of sampling, up to 10 targets, 12 ways to grow, 3 trees; 1 (2) deviations among the places of the two cases and their values; 1 (6) random streams"},
			{Name: "matrices", Run: matrices, Bound: "3 data sets of 6 cases, every set of up to 4 without a target, 8 ways of sampling, up to 10 targets, 12 ways to grow, 1 tree; 1 (4) random streams"},
			{Name: "library", Run: library, Dev: 1, DevThorough: 2, Bound: "GrowRandomForest on 4 data sets with up to 4 targets, 5 places of two cases without a target, 3 sample sizes, all of splitmissing, vet, force and evaloob; 1 (2) deviations among their values; 4 (20) random streams"},
		},
	})
}

// C29: what is grown does not depend on names, on how the data are written
// down, on the scale of numbers, or on the order or multiplicity of cases.
package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"strconv"
	"strings"

	growforest "github.com/ryanbressler/CloudForest/growforest"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/model"
	"verifmc/sched"
)

// ---- data

// base has 6 cases; the first k values of N:x are free.
func base(x []string, z, t int, num bool) cf.Table {
	tail := []string{"2", "1", "4", "", "2", "1"}
	xs := append(append([]string{}, x...), tail[len(x):]...)
	target := cf.Column{Name: "C:t", Vals: [][]string{{"a", "b", "b", "a", "b", "a"}, {"b", "a", "b", "b", "", "a"}, {"a", "b", "c", "a", "c", "b"}}[t]}
	if num {
		target = cf.Column{Name: "N:t", Num: true, Vals: [][]string{{"1", "2", "4", "8", "16", "-32"}, {"3", "1", "", "1", "2", "5"}, {"0", "1", "1", "2", "0", "2"}}[t]}
	}
	tb := cf.Table{Cols: []cf.Column{
		{Name: "N:x", Num: true, Vals: xs},
		{Name: "C:z", Vals: [][]string{{"p", "q", "r", "", "p", "q"}, {"q", "q", "p", "p", "q", "r"}}[z]},
		target,
		{Name: "N:y", Num: true, Vals: []string{"3", "1", "", "2", "2", "5"}},
	}}
	for i := range xs {
		tb.Labels = append(tb.Labels, fmt.Sprint("case", i))
	}
	return tb
}

// ---- settings

type mode struct {
	flags []string
	kind  string // "", "num" or "cat"
	// what the setting does not go with
	no string
}

var modes = []mode{
	{flags: list(), no: ""},
	{flags: list("-nobag")},
	{flags: list("-splitmissing")},
	{flags: list("-nobag", "-splitmissing")},
	{flags: list("-force", "-nobag")},
	{flags: list("-extra", "-nobag"), no: "double"},
	{flags: list("-extra"), no: "double"},
	{flags: list("-vet", "-nobag"), no: "double order scale"},
	{flags: list("-evaloob"), no: ""},
	{flags: list("-jungle", "-nobag")},
	{flags: list("-impute"), no: "affine scale"},
	{flags: list("-maxDepth", "1", "-nobag")},
	{flags: list("-balance"), kind: "cat"},
	{flags: list("-entropy", "-nobag"), kind: "cat", no: "order"},
	{flags: list("-l1", "-nobag"), kind: "num", no: "negative"},
	{flags: list("-gbt", "0.5", "-nobag"), kind: "num"},
	{flags: list("-adaboost", "-nobag"), kind: "cat", no: "double order"},
	{flags: list("-cost", "COSTS", "-nobag"), kind: "cat", no: "order"},
	{flags: list("-rfweights", "COSTS"), kind: "cat", no: "order"},
	{flags: list("-dentropy", "COSTS", "-nobag"), kind: "cat", no: "order"},
	{flags: list("-hellinger", "-positive", "POSITIVE", "-nobag"), kind: "cat", no: "double order"},
}

func list(s ...string) []string { return s }

func has(flags []string, f string) bool {
	for _, x := range flags {
		if x == f {
			return true
		}
	}
	return false
}

// ---- changes

// change makes other data that should lead to the same forest.
type change struct {
	name string
	tags string // matched against mode.no
	// needs -nobag
	nobag bool
	kind  string
	do    func(t cf.Table) (cf.Table, bool)
	inCol bool
	// where the old things are afterwards
	feature, category func(s string) string
	class             func(s string) string
	value             func(v float64) float64 // of predictions
	threshold         func(v float64) float64 // of splits on N:x, nil if unknown
	to                func(i, n int) []int    // cases
	decrease          float64                 // factor of importance
	costs             float64                 // factor of costs
	leaf              string
}

func copyTable(t cf.Table) cf.Table {
	out := cf.Table{Labels: append([]string{}, t.Labels...)}
	for _, c := range t.Cols {
		c.Vals = append([]string{}, c.Vals...)
		out.Cols = append(out.Cols, c)
	}
	return out
}

func numbers(c *cf.Column, f func(v float64) float64) {
	for i, v := range c.Vals {
		if v != "" {
			x, _ := strconv.ParseFloat(v, 64)
			c.Vals[i] = fmt.Sprint(f(x))
		}
	}
}

func strs(m map[string]string) func(s string) string {
	return func(s string) string {
		if r, ok := m[s]; ok {
			return r
		}
		return s
	}
}

func onX(f func(v float64) float64) func(t cf.Table) (cf.Table, bool) {
	return func(t cf.Table) (cf.Table, bool) {
		numbers(&t.Cols[0], f)
		return t, true
	}
}

func onTarget(f func(v float64) float64) func(t cf.Table) (cf.Table, bool) {
	return func(t cf.Table) (cf.Table, bool) {
		numbers(&t.Cols[2], f)
		return t, true
	}
}

func same(v float64) float64 { return v }

// swapped exchanges neighbours, apart from the first two cases.
func swapped(i, n int) []int {
	if i < 2 {
		return []int{i}
	}
	return []int{i ^ 1}
}

// backwards turns the last four cases round.
func backwards(i, n int) []int {
	if i < 2 {
		return []int{i}
	}
	return []int{n + 1 - i}
}

func affine(a, b float64) func(v float64) float64 {
	return func(v float64) float64 { return a*v + b }
}

var changes = []change{
	{name: "other names", feature: strs(map[string]string{"N:x": "N:zeta", "C:z": "B:a b", "N:y": "N:0", "N:t": "N:target", "C:t": "C:target"}),
		category: strs(map[string]string{"p": "zz", "q": "Q q", "r": "1"}), class: strs(map[string]string{"a": "class one", "b": "class two", "c": "klass"}),
		do: func(t cf.Table) (cf.Table, bool) {
			for i := range t.Labels {
				t.Labels[i] = fmt.Sprint(9-i, "th")
			}
			return t, true
		}},
	{name: "features in columns", inCol: true},
	{name: "other spellings", do: func(t cf.Table) (cf.Table, bool) {
		for k, c := range t.Cols {
			if c.Num {
				for i, v := range c.Vals {
					if v != "" {
						x, _ := strconv.ParseFloat(v, 64)
						t.Cols[k].Vals[i] = strconv.FormatFloat(x, []byte("eEf")[i%3], 6, 64)
					} else {
						t.Cols[k].Vals[i] = list("?", "nan", "na")[i%3]
					}
				}
			}
		}
		return t, true
	}},
	{name: "x*4+8", tags: "affine", do: onX(affine(4, 8)), threshold: affine(4, 8)},
	{name: "x/4096-3", tags: "affine", do: onX(affine(1./4096, -3)), threshold: affine(1./4096, -3)},
	{name: "x cubed", tags: "affine", nobag: true, do: onX(func(v float64) float64 { return v * v * v }), threshold: nil},
	{name: "logarithm of x", tags: "affine", nobag: true, do: onX(func(v float64) float64 { return math.Log(v) - 1e6 }), threshold: nil},
	{name: "target*4096", tags: "scale", kind: "num", do: onTarget(affine(4096, 0)), value: affine(4096, 0), decrease: 1 << 24},
	{name: "target/32", tags: "scale", kind: "num", do: onTarget(affine(1./32, 0)), value: affine(1./32, 0), decrease: 1. / 1024},
	{name: "minus target", tags: "scale negative", kind: "num", do: onTarget(affine(-1, 0)), value: affine(-1, 0)},
	{name: "last cases backwards", tags: "order", kind: "cat", nobag: true, do: reorder(backwards), to: backwards},
	{name: "neighbours swapped", tags: "order", kind: "cat", nobag: true, do: reorder(swapped), to: swapped},
	{name: "every case twice", tags: "double", kind: "cat", nobag: true, do: reorder(func(i, n int) []int { return []int{i, n + i} }), to: func(i, n int) []int { return []int{i, n + i} }, leaf: "2"},
	{name: "costs*8", kind: "cat", costs: 8},
}

func reorder(to func(i, n int) []int) func(t cf.Table) (cf.Table, bool) {
	return func(t cf.Table) (cf.Table, bool) {
		n := len(t.Labels)
		if len(to(0, n)) > 1 {
			for _, v := range t.Cols[2].Vals {
				if v == "" {
					return t, false // leaving cases out is done by drawing
				}
			}
		}
		out := copyTable(t)
		m := 0
		for i := 0; i < n; i++ {
			m += len(to(i, n))
		}
		out.Labels = make([]string, m)
		for k := range out.Cols {
			out.Cols[k].Vals = make([]string, m)
		}
		for i := 0; i < n; i++ {
			for j, p := range to(i, n) {
				out.Labels[p] = fmt.Sprint(t.Labels[i], "_", j)
				for k := range out.Cols {
					out.Cols[k].Vals[p] = t.Cols[k].Vals[i]
				}
			}
		}
		// classes and categories are numbered as they come, and ties are
		// broken by number
		for _, k := range []int{1, 2} {
			if fmt.Sprint(model.Cats(t.Cols[k])) != fmt.Sprint(model.Cats(out.Cols[k])) {
				return out, false
			}
		}
		return out, true
	}
}

func (ch *change) apply(t cf.Table) (cf.Table, bool) {
	t = copyTable(t)
	ok := true
	if ch.do != nil {
		t, ok = ch.do(t)
	}
	for k := range t.Cols {
		col := &t.Cols[k]
		for i, v := range col.Vals {
			switch {
			case col.Num || v == "":
			case k == 2 && ch.class != nil:
				col.Vals[i] = ch.class(v)
			case k != 2 && ch.category != nil:
				col.Vals[i] = ch.category(v)
			}
		}
		if ch.feature != nil {
			col.Name = ch.feature(col.Name)
		}
	}
	return t, ok
}

// ---- running

type result struct {
	trees []*model.Tree
	icept float64
	oob   []string
	imp   [][]float64
	names []string
	err   []string
	text  string
}

func run(c *mc.Ctx, t cf.Table, inCol bool, m mode, flags []string, stream uint64) *result {
	cmd.Keep("train.afm", t.AFM(inCol, ".", "NA", "\n", true))
	cmd.Drop("out.sf", "oob.tsv", "imp.tsv")
	args := append([]string{"-train", cmd.Path("train.afm"), "-target", t.Cols[2].Name, "-rfpred", cmd.Path("out.sf"), "-oobpreds", cmd.Path("oob.tsv"), "-importance", cmd.Path("imp.tsv"),
		"-selftest", "-nTrees", "2", "-noseed"}, flags...)
	x := stream*0x9e3779b97f4a7c15 + 12345
	next := func() uint64 {
		x ^= x << 13
		x ^= x >> 7
		x ^= x << 17
		return x
	}
	c.Rand(func(n int) int { return int(next()>>33) % n })
	c.RandRaw(next)
	out, res := cmd.Run(c, sched.Config{NoRaces: true, OneSchedule: true, KeepRand: true}, growforest.Main, args...)
	c.Check(res.Exit == "" && res.Deadlock == "", "growforest %v on %v: %s%s\n%s", flags, t, res.Exit, res.Deadlock, res.Stack)
	c.Eval(1)
	r := &result{}
	sf, _ := cmd.Get("out.sf")
	fs, err := model.ParseSF(sf)
	c.Check(err == nil, "growforest %v on %v: %v\n%s", flags, t, err, sf)
	for _, f := range fs {
		r.icept += f.Intercept
		r.trees = append(r.trees, f.Trees...)
	}
	for _, t := range r.trees {
		r.text += fmt.Sprintln(t.Target, t.Weight) + t.Root.String() + "\n"
	}
	o, _ := cmd.Get("oob.tsv")
	for _, l := range strings.Split(strings.TrimSuffix(o, "\n"), "\n") {
		r.oob = append(r.oob, strings.Split(l, "\t")[1])
	}
	o, _ = cmd.Get("imp.tsv")
	for _, l := range strings.Split(strings.TrimSuffix(o, "\n"), "\n") {
		f := strings.Split(l, "\t")
		r.names = append(r.names, f[0])
		var v []float64
		for _, s := range f[1:] {
			x, _ := strconv.ParseFloat(s, 64)
			v = append(v, x)
		}
		r.imp = append(r.imp, v)
	}
	for _, l := range strings.Split(out, "\n") {
		for _, p := range []string{"Out of Bag Error : ", "Error: ", "Classified: "} {
			if strings.HasPrefix(l, p) {
				r.err = append(r.err, l)
			}
		}
	}
	return r
}

var memo = map[string]*result{}

func close(a, b float64) bool {
	return cf.Close(a, b, 1e-9) || math.IsNaN(a) && math.IsNaN(b) || math.IsInf(a, 0) && a == b
}

func invariant(c *mc.Ctx) {
	num := c.Bool("numeric target")
	vals := []string{"1", "2", "4", ""}
	var x []string
	for i := 0; i < c.Int(3, 5); i++ {
		x = append(x, mc.Pick(c, vals, "x"))
	}
	z := c.Choose(2, "z")
	ti := c.Choose(3, "target")
	t := base(x, z, ti, num)
	mi := c.Choose(len(modes), "setting")
	m := modes[mi]
	if m.kind != "" && (m.kind == "num") != num {
		c.Discard()
	}
	stream := uint64(1 + c.Choose(c.Int(1, 2), "random stream"))
	ch := &changes[c.Choose(len(changes), "change")]
	for _, tag := range strings.Fields(ch.tags) {
		if strings.Contains(m.no, tag) {
			c.Discard()
		}
	}
	if ch.kind != "" && (ch.kind == "num") != num || ch.nobag && !has(m.flags, "-nobag") || ch.costs != 0 && !has(m.flags, "COSTS") {
		c.Discard()
	}
	if ch.decrease != 0 && (has(m.flags, "-l1")) {
		// absolute errors scale like the target
		cc := *ch
		cc.decrease = math.Sqrt(ch.decrease)
		ch = &cc
	}
	flags := func(ch *change) []string {
		out := []string{"-mTry", "2", "-leafSize", "1"}
		if ch.leaf != "" {
			out[3] = ch.leaf
		}
		cost := 1.0
		if ch.costs != 0 {
			cost = ch.costs
		}
		cl := func(s string) string {
			if ch.class != nil {
				return ch.class(s)
			}
			return s
		}
		for _, f := range m.flags {
			switch f {
			case "COSTS":
				f = fmt.Sprintf(`{"%s":%v,"%s":%v,"%s":%v}`, cl("a"), 2*cost, cl("b"), cost, cl("c"), cost/2)
			case "POSITIVE":
				f = cl("a")
			}
			out = append(out, f)
		}
		return out
	}
	key := fmt.Sprint(t, num, mi, stream)
	a := memo[key]
	if a == nil {
		a = run(c, t, false, m, flags(&change{}), stream)
		if len(memo) > 2000 {
			memo = map[string]*result{}
		}
		memo[key] = a
	}
	t2, ok := ch.apply(t)
	if !ok {
		c.Discard()
	}
	b := run(c, t2, ch.inCol, m, flags(ch), stream)
	compare(c, fmt.Sprintf("growforest %v on %v with %s\nbefore:\n%s\nafter, on %v:\n%s\n", flags(ch), t, ch.name, a.text, t2, b.text), t, t2, ch, a, b, num, has(m.flags, "-hellinger"))
	c.Statef("%v %s %s", key, ch.name, b.text)
	c.Outcome("%s %s", ch.name, a.text)
}

func compare(c *mc.Ctx, what string, t, t2 cf.Table, ch *change, a, b *result, num, score bool) {
	id := func(s string) string { return s }
	feature, category, class, value, threshold, to := ch.feature, ch.category, ch.class, ch.value, ch.threshold, ch.to
	if feature == nil {
		feature = id
	}
	if category == nil {
		category = id
	}
	if class == nil {
		class = id
	}
	if value == nil {
		value = same
	}
	if threshold == nil && !(strings.Contains(ch.tags, "affine") && ch.nobag) {
		threshold = same
	}
	if to == nil {
		to = func(i, n int) []int { return []int{i} }
	}
	decrease := ch.decrease
	if decrease == 0 {
		decrease = 1
	}
	if ch.costs != 0 {
		decrease = 0 // not stated
	}
	pred := func(p, q string) bool {
		if num || score {
			if p == "NA" || q == "NA" {
				return p == q
			}
			x, e1 := strconv.ParseFloat(p, 64)
			y, e2 := strconv.ParseFloat(q, 64)
			return e1 == nil && e2 == nil && close(value(x), y)
		}
		if p == "NA" {
			return q == p
		}
		return class(p) == q
	}
	n := len(t.Labels)
	da, db := model.NewData(t), model.NewData(t2)
	spelled := ch.name == "other spellings"
	if spelled {
		db = model.NewData(t)
	}
	c.Check(len(a.trees) == len(b.trees), "%snot as many trees", what)
	c.Check(close(value(a.icept), b.icept), "%sthe intercept becomes %v instead of %v", what, b.icept, value(a.icept))
	for k := range a.trees {
		c.Check(feature(a.trees[k].Target) == b.trees[k].Target, "%sthe target becomes %q", what, b.trees[k].Target)
		c.Check(close(a.trees[k].Weight, b.trees[k].Weight), "%sthe weight becomes %v", what, b.trees[k].Weight)
		var walk func(x, y *model.Node, cases []int)
		walk = func(x, y *model.Node, cases []int) {
			c.Check((x == nil) == (y == nil), "%sthe trees have different branches", what)
			if x == nil {
				return
			}
			c.Check(x.Split == y.Split, "%sthe trees have different splits", what)
			if !x.Split {
				c.Check(pred(x.Pred, y.Pred), "%sa leaf with %s becomes one with %s", what, x.Pred, y.Pred)
				return
			}
			c.Check(feature(x.Feature) == y.Feature && x.Num == y.Num, "%sa split on %s becomes one on %s", what, x.Feature, y.Feature)
			side := map[byte][]int{}
			for _, i := range cases {
				s := x.Side(da, i)
				side[s] = append(side[s], i)
				for _, j := range to(i, n) {
					c.Check(y.Side(db, j) == s, "%sat a split on %s case %d takes side %c, %d takes side %c", what, x.Feature, i, s, j, y.Side(db, j))
				}
			}
			if x.Num {
				th := same
				if x.Feature == "N:x" {
					th = threshold
				}
				if th != nil {
					c.Check(close(th(x.Th), y.Th), "%sa threshold of %v for %s becomes one of %v", what, x.Th, x.Feature, y.Th)
				}
			} else {
				c.Check(len(x.Left) == len(y.Left), "%sthe categories %v become %v", what, x.Left, y.Left)
				for k := range x.Left {
					c.Check(y.Left[category(k)], "%sthe categories %v become %v", what, x.Left, y.Left)
				}
			}
			walk(x.L, y.L, side['L'])
			walk(x.R, y.R, side['R'])
			walk(x.M, y.M, side['M'])
		}
		walk(a.trees[k].Root, b.trees[k].Root, cf.Seq(n))
	}
	for i := range a.oob {
		for _, j := range to(i, n) {
			c.Check(j < len(b.oob) && pred(a.oob[i], b.oob[j]), "%sout of bag case %d is predicted %s, %d %s", what, i, a.oob[i], j, b.oob[j])
		}
	}
	c.Check(len(a.imp) == len(b.imp), "%simportance of %d features", what, len(b.imp))
	for i := range a.imp {
		c.Check(feature(a.names[i]) == b.names[i], "%simportance of %q", what, b.names[i])
		for q, x := range a.imp[i] {
			if q == 0 || q == 2 || q == 3 {
				if decrease == 0 {
					continue
				}
				x *= decrease
			}
			c.Check(q < len(b.imp[i]) && close(x, b.imp[i][q]), "%scolumn %d of the importance of %q becomes %v instead of %v", what, q+2, b.names[i], b.imp[i], x)
		}
	}
	if !score {
		if ch.leaf == "" {
			c.Check(sameErrors(a.err, b.err), "%sthe errors %q become %q", what, a.err, b.err)
		}
	}
}

func sameErrors(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := strings.Fields(a[i]), strings.Fields(b[i])
		if len(x) != len(y) {
			return false
		}
		for k := range x {
			if x[k] == y[k] {
				continue
			}
			p, e1 := strconv.ParseFloat(x[k], 64)
			q, e2 := strconv.ParseFloat(y[k], 64)
			if e1 != nil || e2 != nil || !close(p, q) {
				return false
			}
		}
	}
	return true
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C29", Quick: 150, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is a pair of runs of growforest with the same random stream on a data set and on a changed one; trees, predictions, importance and errors must correspond as the change says",
		Assumptions: []string{"changes for which floating point sums come out exactly", "one thread, random streams out of a few", "classes keep their alphabetic order when they are renamed (votes tie in that order)", "numeric scales by powers of two"},
		Scenarios: []mc.Scenario{
			{Name: "invariance", Run: invariant, Bound: "6 cases; every value out of 3 and missing for 3 (5) cases of one feature, 2 columns of categories, 3 targets of both types, 21 settings, 14 changes, 1 (2) random streams"},
		},
	})
}

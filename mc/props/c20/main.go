// C20: applying a saved forest reproduces its reference evaluation.
package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	applyforest "github.com/ryanbressler/CloudForest/applyforest"
	growforest "github.com/ryanbressler/CloudForest/growforest"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/model"
	"verifmc/sched"
)

var one = sched.Config{NoRaces: true, KeepRand: true}

// ---- applying

type apply struct {
	f     *model.Forest
	sf    string
	t     cf.Table
	inCol bool
	arff  bool
	flags []string
	votes bool
}

// name is that of the file the data are in.
func (a *apply) name() string {
	if a.arff {
		return "d.arff"
	}
	return "d.afm"
}

// text is the data in the format asked for; ARFF has no case labels.
func (a *apply) text() string {
	if !a.arff {
		return a.t.AFM(a.inCol, ".", "NA", "\n", true)
	}
	s := "@relation r\n"
	for _, o := range a.t.Cols {
		typ := "numeric"
		if !o.Num {
			typ = "{" + strings.Join(append(model.Cats(o), "never"), ",") + "}"
		}
		s += "@attribute " + o.Name + " " + typ + "\n"
	}
	s += "@data\n"
	a.t.Labels = append([]string{}, a.t.Labels...)
	for i := range a.t.Labels {
		a.t.Labels[i] = fmt.Sprint(i)
		var f []string
		for _, o := range a.t.Cols {
			v := o.Vals[i]
			if v == "" {
				v = "?"
			}
			f = append(f, v)
		}
		s += strings.Join(f, ",") + "\n"
	}
	return s
}

// numeric: the data tell the type of the target if they have it, otherwise its name.
func (a *apply) numeric() bool {
	if y := model.NewData(a.t).Col(a.f.Target); y != nil {
		return y.Num
	}
	return strings.HasPrefix(a.f.Target, "N:")
}

func (a *apply) has(f string) bool {
	for _, x := range a.flags {
		if x == f {
			return true
		}
	}
	return false
}

func (a *apply) String() string {
	return fmt.Sprintf("applyforest %v (columns %v) of\n%sto %v", a.flags, a.inCol, a.sf, a.t)
}

// run applies the forest; it returns the predictions and the error reported.
func (a *apply) run(c *mc.Ctx) ([]string, string) {
	cmd.Keep("f.sf", a.sf)
	cmd.Keep(a.name(), a.text())
	cmd.Drop("preds", "votes")
	args := append([]string{"-fm", cmd.Path(a.name()), "-rfpred", cmd.Path("f.sf"), "-preds", cmd.Path("preds")}, a.flags...)
	sum := a.has("-sum")
	num := !sum && !a.has("-mode") && (a.has("-mean") || a.numeric())
	cat := !sum && !num
	votes := cat && a.votes
	if votes {
		args = append(args, "-votes", cmd.Path("votes"))
	}
	out, res := cmd.Run(c, one, applyforest.Main, args...)
	c.Check(res.Exit == "" && res.Deadlock == "", "%v: %s\n%s", a, res.Exit, res.Stack)
	c.Eval(1)
	d := model.NewData(a.t)
	n := len(a.t.Labels)
	truth := d.Col(a.f.Target)

	text, ok := cmd.Get("preds")
	c.Check(ok, "%v: no predictions are written", a)
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	c.Check(len(lines) == n, "%v: %d lines of predictions\n%s", a, len(lines), text)
	pred := make([]string, n)
	npred := make([]float64, n)
	sharp := true
	for i := range lines {
		f := strings.Split(lines[i], "\t")
		c.Check(len(f) == 3 && f[0] == a.t.Labels[i], "%v: line %d of the predictions is %q", a, i, lines[i])
		actual := "NA"
		if truth != nil && truth.Vals[i] != "" {
			actual = truth.Vals[i]
		}
		c.Check(model.Same(f[2], actual, truth != nil && truth.Num), "%v: case %d is said to be %q", a, i, f[2])
		vs := model.Votes(a.f.Trees, d, i, nil)
		free := false
		switch {
		case cat:
			var s bool
			pred[i], s = model.Mode(vs)
			free = !s
			sharp = sharp && s
		case sum:
			npred[i] = model.Sum(vs) + a.f.Intercept
			pred[i] = fmt.Sprint(npred[i])
		default:
			m, ok := model.Mean(vs)
			npred[i] = math.NaN()
			pred[i] = "NA"
			if ok {
				npred[i] = m
				pred[i] = fmt.Sprint(m + a.f.Intercept)
			} else if a.f.Intercept != 0 {
				free = true
			}
			if a.has("-expit") && a.f.Intercept == 0 {
				free = true // scores have an intercept or are summed
			}
		}
		if a.has("-expit") && (sum || num && a.f.Intercept != 0) && !free {
			x, _ := strconv.ParseFloat(pred[i], 64)
			pred[i] = fmt.Sprint(1 / (1 + math.Exp(-x)))
		}
		c.Check(free || model.Same(f[1], pred[i], !cat), "%v: case %d is predicted %q, its votes %v imply %q", a, i, f[1], vs, pred[i])
		pred[i] = f[1]
	}

	// the error
	e := ""
	ne := 0
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "Error: ") {
			e = strings.TrimPrefix(l, "Error: ")
			ne++
		}
	}
	switch {
	case truth == nil:
		c.Check(ne == 0, "%v: error %s without a truth", a, e)
	case sum:
	case truth.Num == cat:
		c.Check(ne == 0, "%v: error %s of predictions of another type", a, e)
	default:
		c.Check(ne == 1, "%v: %d errors\n%s", a, ne, out)
		want := model.BalancedError(truth.Vals, pred)
		if !cat {
			want = model.RelativeError(truth.Vals, npred)
		}
		g, err := strconv.ParseFloat(e, 64)
		c.Check(err == nil, "%v: error %q", a, e)
		// the error of a constant truth is not defined
		if !math.IsInf(want, 0) && !math.IsNaN(want) {
			c.Check(cf.Close(g, want, 1e-6), "%v: error %s, the predictions %v of %v imply %v", a, e, pred, truth.Vals, want)
		}
	}

	// the votes
	if votes {
		text, ok := cmd.Get("votes")
		c.Check(ok, "%v: no votes are written", a)
		lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
		head := strings.Split(lines[0], "\t")
		c.Check(len(lines) == n+1 && head[0] == ".", "%v: the votes are\n%s", a, text)
		for i, l := range lines[1:] {
			f := strings.Split(l, "\t")
			c.Check(len(f) == len(head) && f[0] == a.t.Labels[i], "%v: line %d of the votes is %q", a, i, l)
			want := map[string]float64{}
			for _, v := range model.Votes(a.f.Trees, d, i, nil) {
				want[v.Pred] += v.W
			}
			seen := map[string]bool{}
			for j, k := range head[1:] {
				x, err := strconv.ParseFloat(f[j+1], 64)
				c.Check(err == nil && cf.Close(x, want[k], 1e-9) && !seen[k], "%v: case %d has %s votes for %s instead of %v", a, i, f[j+1], k, want[k])
				seen[k] = true
			}
			for k := range want {
				c.Check(seen[k], "%v: the votes for %s are not written", a, k)
			}
		}
	}
	return pred, e
}

// ---- forest files

type shape struct {
	sf   string // nodes with leaves numbered $0, $1, ...
	kind string
}

// shapes are trees on N:x and C:z.
var shapes = []string{
	"NODE=*,PRED=$0\n",
	"NODE=*,PRED=$2,SPLITTERTYPE=NUMERICAL,SPLITTER=\"N:x\",LVALUES=1.5\nNODE=*L,PRED=$0\nNODE=*R,PRED=$1\n",
	"NODE=*,PRED=$2,SPLITTERTYPE=CATEGORICAL,SPLITTER=\"C:z\",LVALUES=\"p\"\nNODE=*L,PRED=$0\nNODE=*R,PRED=$1\n",
	"NODE=*,PRED=$0,SPLITTERTYPE=CATEGORICAL,SPLITTER=\"C:z\",LVALUES=\"q:unknown\"\nNODE=*L,PRED=$1\nNODE=*R,PRED=$0\nNODE=*M,PRED=$2\n",
	"NODE=*,PRED=$0,SPLITTERTYPE=NUMERICAL,SPLITTER=\"N:x\",LVALUES=2\nNODE=*L,PRED=$0,SPLITTERTYPE=CATEGORICAL,SPLITTER=\"C:z\",LVALUES=\"q:p\"\nNODE=*LL,PRED=$1\nNODE=*LR,PRED=$2\nNODE=*R,PRED=$0\n",
	"NODE=*,PRED=$0,SPLITTERTYPE=NUMERICAL,SPLITTER=\"N:x\",LVALUES=2\nNODE=*L,PRED=$2\nNODE=*R,PRED=$0,SPLITTERTYPE=NUMERICAL,SPLITTER=\"N:x\",LVALUES=2.5\nNODE=*RL,PRED=$2\nNODE=*RR,PRED=$1\nNODE=*M,PRED=$0,SPLITTERTYPE=CATEGORICAL,SPLITTER=\"C:z\",LVALUES=\"r\"\nNODE=*ML,PRED=$1\nNODE=*MR,PRED=$2\n",
}

var preds = map[string][]string{"classes": {"a", "b", "c"}, "numbers": {"1", "-2.5", "8"}, "codes": {"0", "1", "2"}}

func leaves(shape string, ps []string, turn int) string {
	for j := range ps {
		shape = strings.Replace(shape, fmt.Sprint("$", j), ps[(j+turn)%len(ps)], -1)
	}
	return shape
}

// grid has a case for each combination of values.
func grid(target *cf.Column) cf.Table {
	x := cf.Column{Name: "N:x", Num: true}
	z := cf.Column{Name: "C:z"}
	var t cf.Table
	for _, a := range []string{"", "1.5", "2", "2.25", "1e3"} {
		for _, b := range []string{"r", "p", "", "q"} {
			x.Vals = append(x.Vals, a)
			z.Vals = append(z.Vals, b)
			t.Labels = append(t.Labels, fmt.Sprint("case", len(t.Labels)))
		}
	}
	t.Cols = []cf.Column{z, x}
	if target != nil {
		cp := *target
		cp.Vals = nil
		for i := range t.Labels {
			cp.Vals = append(cp.Vals, target.Vals[i%len(target.Vals)])
		}
		t.Cols = []cf.Column{z, cp, x}
	}
	return t
}

var targets = map[string][]*cf.Column{
	"classes": {nil, {Name: "C:t", Vals: []string{"a", "b", "", "a", "c", "b", "a"}}, {Name: "C:t", Vals: []string{"d", "a", "b"}}},
	"numbers": {nil, {Name: "N:t", Num: true, Vals: []string{"1", "-2", "", "5", "8", "1", "0"}}},
	"codes":   {nil, {Name: "B:t", Vals: []string{"1", "0", "", "0", "2", "1", "1"}}},
}

var names = map[string]string{"classes": "C:t", "numbers": "N:t", "codes": "B:t"}

func parse(c *mc.Ctx, sf string) *model.Forest {
	fs, err := model.ParseSF(sf)
	if err != nil || len(fs) == 0 {
		panic(fmt.Sprint(err, sf))
	}
	return fs[0]
}

var options = map[string][][]string{
	"classes": {nil, {"-mode"}, {"-expit"}},
	"numbers": {nil, {"-mean"}, {"-mode"}, {"-sum"}, {"-sum", "-expit"}, {"-expit"}},
	"codes":   {nil, {"-mean"}, {"-mode"}, {"-sum"}, {"-expit"}, {"-sum", "-expit"}, {"-mean", "-expit"}},
}

// forests: every sequence of trees.
func forests(n func(c *mc.Ctx) int) func(c *mc.Ctx) {
	return func(c *mc.Ctx) { forest(c, n(c)) }
}

func forest(c *mc.Ctx, n int) {
	kind := mc.Pick(c, []string{"classes", "numbers", "codes"}, "target")
	head := ""
	name := names[kind]
	bare := c.Dev(2, "name without a type") == 1
	if bare {
		name = map[string]string{"classes": "NYHA", "numbers": "price", "codes": "N"}[kind]
	}
	arff := c.Dev(2, "ARFF") == 1
	extra := c.Dev(5, "header and following forest")
	switch extra {
	case 1:
		head = fmt.Sprintf("FOREST=RF,TARGET=\"%s\",NTREES=3\n", name)
	case 2:
		head = fmt.Sprintf("FOREST=RF,TARGET=\"%s\",NTREES=3,INTERCEPT=-0.75\n", name)
	case 3:
		head = fmt.Sprintf("FOREST=RF,TARGET=\"%s\",NTREES=3,INTERCEPT=2\n", name)
	}
	sf := head
	for k := 0; k < n; k++ {
		w := ""
		switch c.Dev(4, "weight") {
		case 1:
			w = ",WEIGHT=0.5"
		case 2:
			w = ",WEIGHT=3"
		case 3:
			w = ",WEIGHT=0"
		}
		sf += fmt.Sprintf("TREE=%d,TARGET=\"%s\"%s\n", k, name, w)
		s := c.Choose(len(shapes), "shape")
		sf += leaves(shapes[s], preds[kind], c.Dev(3, "leaves"))
	}
	if extra == 4 {
		sf += fmt.Sprintf("FOREST=RF,TARGET=\"%s\",NTREES=1\nTREE=0,TARGET=\"%s\"\n", name, name) + leaves(shapes[0], preds[kind], 1)
	}
	a := &apply{sf: sf, f: parse(c, sf), votes: true}
	a.flags = mc.Pick(c, options[kind], "flags")
	y := targets[kind][c.Dev(len(targets[kind]), "truth")]
	if bare {
		if kind == "numbers" {
			// only ARFF has numbers without a prefix, known from the data
			arff, y = true, targets[kind][1]
		}
		if y != nil {
			cp := *y
			cp.Name = name
			y = &cp
		}
	}
	a.t = grid(y)
	a.arff = arff
	a.inCol = !arff && c.Dev(2, "features in columns") == 1
	p, e := a.run(c)
	c.Statef("%s%v%v", sf, a.flags, a.inCol)
	c.Outcome("%v %s", p, e)
}

// data: every small matrix.
func matrices(c *mc.Ctx) {
	kind := mc.Pick(c, []string{"classes", "numbers"}, "target")
	n := 1 + c.Choose(c.Int(2, 3), "cases - 1")
	x := cf.Column{Name: "N:x", Num: true}
	z := cf.Column{Name: "C:z"}
	y := cf.Column{Name: names[kind], Num: kind == "numbers"}
	var t cf.Table
	for i := 0; i < n; i++ {
		t.Labels = append(t.Labels, fmt.Sprint("s", i))
		x.Vals = append(x.Vals, mc.Pick(c, []string{"", "2", "-1", "2.25"}, "x"))
		z.Vals = append(z.Vals, mc.Pick(c, []string{"", "p", "q", "r"}, "z"))
		y.Vals = append(y.Vals, mc.Pick(c, map[string][]string{"classes": {"", "a", "d"}, "numbers": {"", "1", "4"}}[kind], "truth"))
	}
	known := false
	for _, v := range y.Vals {
		known = known || v != ""
	}
	t.Cols = []cf.Column{x, z}
	switch c.Choose(3, "truth") {
	case 0:
	case 1:
		t.Cols = []cf.Column{y, z, x}
	case 2:
		t.Cols = []cf.Column{z, {Name: "N:w", Num: true, Vals: y.Vals}, x}
		if kind == "classes" {
			t.Cols[1] = cf.Column{Name: "C:w", Vals: y.Vals}
		}
	}
	_ = known
	sf := ""
	for k, s := range []int{3, 5, 4} {
		sf += fmt.Sprintf("TREE=%d,TARGET=\"%s\"\n", k, names[kind]) + leaves(shapes[s], preds[kind], k)
	}
	a := &apply{sf: sf, f: parse(c, sf), votes: true, t: t, inCol: c.Bool("features in columns")}
	p, e := a.run(c)
	c.Statef("%v %v", a.t, a.inCol)
	c.Outcome("%v %s", p, e)
}

// ---- the pipeline

func trainTable(target cf.Column) cf.Table {
	t := cf.Table{Cols: []cf.Column{
		{Name: "N:x", Num: true, Vals: []string{"1", "2", "3", "4", "5", "2.5"}},
		target,
		{Name: "C:z", Vals: []string{"p", "q", "r", "", "p", "q"}},
		{Name: "N:y", Num: true, Vals: []string{"3", "1", "", "2", "2", "5"}},
	}}
	for i := range t.Cols[0].Vals {
		t.Labels = append(t.Labels, fmt.Sprint("case", i))
	}
	return t
}

// testTable has features in another order, other categories first, unknown
// ones and missing values.
func testTable(target cf.Column) cf.Table {
	t := cf.Table{Cols: []cf.Column{
		{Name: "C:z", Vals: []string{"new", "r", "q", "p", "", "q", "p"}},
		{Name: "N:y", Num: true, Vals: []string{"2", "0", "3", "", "1", "6", "2"}},
		{Name: "N:other", Num: true, Vals: []string{"2", "0", "3", "", "1", "6", "2"}},
		{Name: "N:x", Num: true, Vals: []string{"3.5", "1", "", "2", "5", "0", "9"}},
		target,
	}}
	for i := range t.Cols[0].Vals {
		t.Labels = append(t.Labels, fmt.Sprint("test", i))
	}
	return t
}

type pipe struct {
	name, target string
	train        cf.Table
	test         []cf.Table
	arff         bool
}

func num(vs ...string) cf.Column { return cf.Column{Name: "N:t", Num: true, Vals: vs} }
func cat(vs ...string) cf.Column { return cf.Column{Name: "C:t", Vals: vs} }

var pipes = []pipe{
	{"classes", "C:t", trainTable(cat("a", "b", "b", "a", "c", "a")), []cf.Table{
		testTable(cat("c", "b", "a", "a", "b", "c", "a")),
		testTable(cat("a", "b", "", "a", "b", "b", "")),
		testTable(cat("d", "d", "b", "d", "", "b", "d")),
	}, false},
	{"classes, one unknown", "C:t", trainTable(cat("a", "", "b", "a", "c", "b")), []cf.Table{
		testTable(cat("b", "c", "a", "", "b", "c", "a")),
	}, false},
	{"numbers", "N:t", trainTable(num("1", "2", "4", "8", "16", "-32")), []cf.Table{
		testTable(num("1", "2", "3", "4", "5", "6", "7")),
		testTable(num("1", "", "3", "4", "", "6", "-7")),
	}, false},
	{"numbers, one unknown", "N:t", trainTable(num("1", "", "4", "8", "16", "-32")), []cf.Table{
		testTable(num("1", "2", "3", "4", "", "6", "7")),
	}, false},
	{"levels", "N:t", trainTable(num("1", "2", "0", "1", "3", "2")), []cf.Table{
		testTable(num("1", "2", "0", "3", "", "0", "3")),
	}, false},
}

// plain has the same tables in ARFF files, with names that tell no type.
func plain(p pipe) pipe {
	bare := func(t cf.Table) cf.Table {
		out := cf.Table{Labels: t.Labels}
		for _, o := range t.Cols {
			o.Name = o.Name[2:]
			out.Cols = append(out.Cols, o)
		}
		return out
	}
	out := pipe{p.name + ", ARFF", p.target[2:], bare(p.train), nil, true}
	for _, t := range p.test {
		out.test = append(out.test, bare(t))
	}
	return out
}

func init() {
	for _, p := range pipes {
		if p.name == "classes" || p.name == "numbers" {
			pipes = append(pipes, plain(p))
		}
	}
}

// file keeps a table as a file of the pipe's format.
func (p *pipe) file(name string, t cf.Table, inCol bool) string {
	if p.arff {
		return cmd.Keep(name+".arff", (&apply{t: t, arff: true}).text())
	}
	return cmd.Keep(name+".afm", t.AFM(inCol, ".", "?", "\n", true))
}

// grown are trees as they were in memory.
func (p *pipe) flags() [][]string {
	if p.arff {
		return [][]string{{}, {"-splitmissing"}, {"-nobag", "-mTry", "3"}, {"-adaboost"}, {"-gbt", "0.5"}}
	}
	all := [][]string{
		{}, {"-splitmissing"}, {"-impute"}, {"-nobag", "-mTry", "3"}, {"-extra"}, {"-vet"}, {"-evaloob"}, {"-force", "-maxDepth", "2"}, {"-scikitforest", cmd.Path("sk.json")}, {"-oob", "-importance", cmd.Path("imp.tsv")}, {"-nCores", "2"}, {"-nContrasts", "2"}, {"-ace", "2", "-cutoff", "0.4"},
		{"-adaboost"}, {"-gbt", "0.5"}, {"-permute"},
	}
	if strings.HasPrefix(p.target, "N") {
		if p.name == "levels" {
			return [][]string{{"-ordinal"}, {"-ordinal", "-splitmissing"}}
		}
		return append(all, []string{"-l1"}, []string{"-gbt", "0.1", "-nobag"})
	}
	return append(all, []string{"-entropy"}, []string{"-balance"}, []string{"-adacost", `{"a":1,"b":2,"c":1}`}, []string{"-cost", `{"a":2,"b":1,"c":0.5}`}, []string{"-rfweights", `{"a":2,"b":1,"c":0.5}`}, []string{"-balanceby", "C:z"})
}

func has(fs []string, f string) bool {
	for _, x := range fs {
		if x == f {
			return true
		}
	}
	return false
}

func pipeline(c *mc.Ctx) {
	p := &pipes[c.Choose(len(pipes), "data")]
	fl := mc.Pick(c, p.flags(), "flags")
	trees := 1 + 2*c.Choose(2, "trees")
	testing := c.Choose(len(p.test)+2, "testing") - 1
	var tests []string
	for i, t := range p.test {
		tests = append(tests, p.file(fmt.Sprint("test", i), t, i%2 == 1))
	}
	args := append([]string{"-train", p.file("train", p.train, false), "-target", p.target, "-rfpred", cmd.Path("out.sf"), "-nTrees", fmt.Sprint(trees), "-leafSize", "1", "-noseed"}, fl...)
	switch {
	case testing == 0 && !has(fl, "-impute") && !has(fl, "-permute"):
		args = append(args, "-selftest")
	case testing > 0:
		args = append(args, "-test", tests[testing-1])
	}
	what := fmt.Sprintf("%s: growforest %v", p.name, args)
	cmd.Drop("out.sf")
	var memory []string
	cfg := one
	cfg.Traced = func(leave bool, name string, thread int, lg []sched.Draw, args []interface{}) {
		if leave {
			memory = append(memory, model.Of(args[0].(*C.Tree).Root).String())
		}
	}
	// a stream of answers with the first few explored
	free, seed := c.Int(2, 4), 1+c.Choose(c.Int(3, 12), "random stream")
	x := uint64(seed) * 0x9e3779b97f4a7c15
	if !has(fl, "-nCores") {
		c.Rand(func(n int) int {
			if free > 0 && n > 1 {
				free--
				if n > 3 {
					return c.Choose(3, "answer") * (n - 1) / 2
				}
				return c.Choose(n, "answer")
			}
			x ^= x << 13
			x ^= x >> 7
			x ^= x << 17
			return int(x>>33) % n
		})
	}
	out, res := cmd.Run(c, cfg, growforest.Main, args...)
	c.Check(res.Exit == "" && res.Deadlock == "", "%s: %s\n%s", what, res.Exit, res.Stack)
	c.Rand(func(n int) int { return 0 })
	c.Eval(1)
	sf, ok := cmd.Get("out.sf")
	c.Check(ok, "%s: no forest is written", what)
	fs, err := model.ParseSF(sf)
	if strings.TrimSpace(sf) == "" {
		// boosting may end at once
		c.Check(has(fl, "-adaboost") || has(fl, "-adacost"), "%s: an empty file is written", what)
		c.Discard()
	}
	c.Check(err == nil && len(fs) == 1, "%s: %v\n%s", what, err, sf)
	if len(fs[0].Trees) == 0 {
		c.Discard()
	}
	left := map[string]int{}
	for _, s := range memory {
		left[s]++
	}
	for _, t := range fs[0].Trees {
		s := t.Root.String()
		c.Check(left[s] > 0, "%s: %s is written, the trees grown are %q", what, s, memory)
		left[s]--
	}
	c.Check(fs[0].Target == p.target, "%s: the target is written as %q", what, fs[0].Target)
	c.Statef("%s %s", what, sf)

	// apply it to everything
	lib := func(t cf.Table, inCol bool, flags ...string) ([]string, string) {
		for _, tr := range fs[0].Trees {
			for _, f := range tr.Root.Features() {
				if model.NewData(t).Col(f) == nil {
					return nil, "not applicable" // an artificial contrast
				}
			}
		}
		a := &apply{sf: sf, f: fs[0], t: t, flags: flags, inCol: inCol, arff: p.arff, votes: true}
		return a.run(c)
	}
	var flags []string
	if has(fl, "-gbt") {
		flags = []string{"-sum"}
	}
	var reported string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "Error: ") {
			reported = strings.TrimPrefix(l, "Error: ")
		}
	}
	pr, e := lib(p.train, false, flags...)
	table := p.train
	for i, t := range p.test {
		q, te := lib(t, i%2 == 1, flags...)
		if i == testing-1 {
			e, pr, table = te, q, t
		}
	}
	if e != "not applicable" && !has(fl, "-gbt") && reported != "" {
		a, e1 := strconv.ParseFloat(reported, 64)
		b, e2 := strconv.ParseFloat(e, 64)
		c.Check(e1 == nil && e2 == nil && (cf.Close(a, b, 1e-9) || math.IsNaN(a) && math.IsNaN(b)), "%s: growforest reports error %s, applyforest %s\n%s", what, reported, e, sf)
		if tc := model.NewData(table).Col(p.target); !tc.Num {
			report(c, what, out, tc.Vals, pr)
		}
	}
	c.Outcome("%s %s", p.name, e)
}

// report checks the counts that follow the error.
func report(c *mc.Ctx, what, out string, truth, pred []string) {
	count := func(ok func(t, p string) bool) int {
		n := 0
		for i := range truth {
			if truth[i] != "" && ok(truth[i], pred[i]) {
				n++
			}
		}
		return n
	}
	lines := map[string]bool{}
	for _, l := range strings.Split(out, "\n") {
		lines[strings.TrimSpace(l)] = true
	}
	want := func(format string, a ...interface{}) {
		l := fmt.Sprintf(format, a...)
		c.Check(lines[l], "%s: the report lacks %q (truth %v, predicted %v)\n%s", what, l, truth, pred, out)
	}
	right := count(func(t, p string) bool { return t == p })
	n := count(func(t, p string) bool { return true })
	want("Classified: %d / %d = %v", right, n, float64(right)/float64(n))
	if nas := count(func(t, p string) bool { return p == "NA" }); nas > 0 {
		want("Couldn't predict %d cases due to missing values.", nas)
	}
	seen := map[string]bool{}
	for _, k := range truth {
		if k == "" || seen[k] {
			continue
		}
		seen[k] = true
		f := count(func(t, p string) bool { return p == k && t != k })
		m := count(func(t, p string) bool { return p == k })
		want("Label %s Percision (Actuall/Predicted): %d / %d = %v", k, f, m, float64(f)/float64(m))
		f = count(func(t, p string) bool { return t == k && p != k })
		m = count(func(t, p string) bool { return t == k })
		want("Label %s Missed/Actuall Rate: %d / %d = %v", k, f, m, float64(f)/float64(m))
	}
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C20", Quick: 150, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution applies one forest file to one data file (or grows a forest with one stream of random answers, applies it to all data and compares with growforest's own report); every prediction, vote and error written must be that of a hand evaluation of the file",
		Assumptions: []string{"the error of summed votes is documented as not functional", "mean voting of a case without votes in a forest with an intercept is not specified", "the votes file is only written for votes of categories"},
		Scenarios: []mc.Scenario{
			{Name: "forests", Run: forests(func(c *mc.Ctx) int { return 1 + c.Choose(c.Int(2, 3), "trees - 1") }), Dev: 2, DevThorough: 3, Bound: "1..2 (3) trees out of 6 shapes; 3 kinds of target, all voting flags; 2 (3) deviations among weights, leaf values, header and intercept, a second forest, truth, orientation, ARFF, a target whose name has no type; 20 cases, one for each combination of values"},
			{Name: "more trees", Run: forests(func(c *mc.Ctx) int { return c.Int(3, 4) }), Dev: 0, DevThorough: 1, Bound: "3 (4) trees, 0 (1) deviations, otherwise the same"},
			{Name: "matrices", Run: matrices, Bound: "every matrix of 1..2 (3) cases over 4 numbers, 4 categories and 3 true values with missing; truth or another feature or none; both orientations"},
			{Name: "pipeline", Run: pipeline, Bound: "5 training tables, 2 of them also as ARFF, up to 22 flags of growforest, 1 or 3 trees, without, with own and with up to 3 test tables; 3 (12) random streams, the first 2 (4) answers explored"},
		},
	})
}

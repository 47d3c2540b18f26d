// C19: nfold produces a true cross-validation partition.
package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"math/big"
	"strings"

	nfold "github.com/ryanbressler/CloudForest/utils/nfold"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/model"
	"verifmc/sched"
)

// conf is one run of nfold.
type conf struct {
	t      cf.Table
	target string
	folds  int
	flags  []string
	black  []string
	max    int
}

func (k *conf) has(f string) bool {
	for _, x := range k.flags {
		if x == f {
			return true
		}
	}
	return false
}

// fold is what one run wrote for a fold, as sets of cases.
type fold struct{ train, test []int }

// expected is the table that should be written.
func (k *conf) expected() cf.Table {
	bl := map[string]bool{}
	for _, b := range k.black {
		bl[b] = b != k.target
	}
	t := model.Without(k.t, func(c cf.Column) bool {
		return bl[c.Name] || k.max >= 0 && !c.Num && len(model.Cats(c)) > k.max
	})
	if k.has("-impute") {
		t = model.Impute(t)
	}
	if k.has("-onehot") {
		t = model.OneHot(t)
	}
	if k.has("-num") {
		t = model.Encode(t)
	}
	return t
}

func col(t cf.Table, name string) *cf.Column {
	for i := range t.Cols {
		if t.Cols[i].Name == name {
			return &t.Cols[i]
		}
	}
	return nil
}

// rows are the lines of the formats for every case.
func arffRows(t cf.Table) (head string, rows []string) {
	for i := range t.Labels {
		var f []string
		for _, c := range t.Cols {
			v := c.Vals[i]
			if v == "" {
				v = "?"
			}
			f = append(f, v)
		}
		rows = append(rows, strings.Join(f, ","))
	}
	for _, c := range t.Cols {
		typ := "NUMERIC"
		if !c.Num {
			typ = "{" + strings.Join(cats(c), ",") + "}"
		}
		head += "@ATTRIBUTE " + c.Name + " " + typ + "\n"
	}
	return
}

func cats(c cf.Column) []string { return model.Cats(c) }

// svmRows are the lines of the libsvm format.
func svmRows(t cf.Table, target string) (rows []string) {
	rest := model.Without(t, func(c cf.Column) bool { return c.Name == target })
	enc := model.Encode(model.Impute(rest))
	tc := col(t, target)
	for i := range t.Labels {
		v := tc.Vals[i]
		switch {
		case v == "":
			v = "NA"
		case !tc.Num:
			v = fmt.Sprint(index(cats(*tc), v))
		}
		for j, c := range enc.Cols {
			if c.Vals[i] != "0" && c.Vals[i] != "" {
				v += fmt.Sprintf(" %d:%s", j+1, c.Vals[i])
			}
		}
		rows = append(rows, v)
	}
	return
}

func index(xs []string, v string) int {
	for i, x := range xs {
		if x == v {
			return i
		}
	}
	return -1
}

// caseOf finds the cases of lines; lines are distinct.
func caseOf(c *mc.Ctx, what string, rows, lines []string) (out []int) {
	for _, l := range lines {
		i := index(rows, l)
		c.Check(i >= 0, "%s: the line %q is none of the cases\n%s", what, l, strings.Join(rows, "\n"))
		out = append(out, i)
	}
	return
}

func readAFM(c *mc.Ctx, what, text string, t cf.Table) []int {
	lines := strings.Split(strings.TrimSuffix(text, "\n"), "\n")
	head := strings.Split(lines[0], "\t")
	var cases []int
	for _, l := range head[1:] {
		i := index(t.Labels, l)
		c.Check(i >= 0, "%s: case %q is unknown", what, l)
		cases = append(cases, i)
	}
	c.Check(len(lines) == 1+len(t.Cols), "%s: %d features instead of %d\n%s", what, len(lines)-1, len(t.Cols), text)
	for k, cl := range t.Cols {
		want := []string{cl.Name}
		for _, i := range cases {
			v := cl.Vals[i]
			if v == "" {
				v = "NA"
			}
			want = append(want, v)
		}
		c.Check(lines[k+1] == strings.Join(want, "\t"), "%s: it says %q, the data\n%s", what, lines[k+1], strings.Join(want, "\t"))
	}
	return cases
}

func (k *conf) String() string {
	return fmt.Sprintf("%d folds for %q %v max %d without %v of %v", k.folds, k.target, k.flags, k.max, k.black, k.t)
}

// run runs nfold and checks every file; it returns the folds.
func (k *conf) run(c *mc.Ctx) []fold {
	what := k.String()
	cmd.Keep("data.afm", k.t.AFM(false, ".", "NA", "\n", true))
	args := []string{"-fm", cmd.Path("data.afm"), "-target", k.target, "-folds", fmt.Sprint(k.folds), "-train", cmd.Path("train_%v"), "-test", cmd.Path("test_%v")}
	if k.black != nil {
		args = append(args, "-blacklist", cmd.Keep("black", strings.Join(k.black, "\n")+"\n"))
	}
	if k.max >= 0 {
		args = append(args, "-maxcats", fmt.Sprint(k.max))
	}
	args = append(args, k.flags...)
	for j := 0; j < k.folds; j++ {
		for _, s := range []string{"", ".arff", ".libsvm"} {
			cmd.Drop(fmt.Sprintf("train_%d%s", j, s), fmt.Sprintf("test_%d%s", j, s))
		}
	}
	t := k.expected()
	_, res := cmd.Run(c, sched.Config{NoRaces: true, KeepRand: true}, nfold.Main, args...)
	svm := k.has("-writelibsvm") || k.has("-writeall")
	arff := k.has("-writearff") || k.has("-writeall")
	if svm && col(t, k.target) == nil {
		c.Check(res.Exit != "", "%s: there is nothing to predict, but no error is reported", what)
		return nil
	}
	c.Check(res.Exit == "" && res.Deadlock == "", "%s: %s\n%s", what, res.Exit, res.Stack)
	var folds []fold
	for j := 0; j < k.folds; j++ {
		var sets [2][]int
		for side, name := range []string{"train", "test"} {
			known := false
			is := func(format string, cases []int) {
				if known {
					c.Check(fmt.Sprint(cases) == fmt.Sprint(sets[side]), "%s: the %s cases of fold %d are %v in %s, %v in another format", what, name, j, cases, format, sets[side])
				}
				known, sets[side] = true, cases
			}
			at := fmt.Sprintf("%s: %s file of fold %d", what, name, j)
			text, ok := cmd.Get(fmt.Sprintf("%s_%d", name, j))
			if !svm && !arff || k.has("-writeall") {
				c.Check(ok, "%s: there is none", at)
				is("afm", readAFM(c, at, text, t))
			} else {
				c.Check(!ok, "%s: it was not asked for", at)
			}
			text, ok = cmd.Get(fmt.Sprintf("%s_%d.arff", name, j))
			c.Check(ok == arff, "%s: arff written: %v", at, ok)
			if arff {
				head, rows := arffRows(t)
				want := "@RELATION " + k.target + "\n\n" + head + "\n@DATA\n"
				c.Check(strings.HasPrefix(text, want), "%s: it begins\n%s instead of\n%s", at, text, want)
				is("arff", caseOf(c, at, rows, lines(text[len(want):])))
			}
			text, ok = cmd.Get(fmt.Sprintf("%s_%d.libsvm", name, j))
			c.Check(ok == svm, "%s: libsvm written: %v", at, ok)
			if svm {
				is("libsvm", caseOf(c, at, svmRows(t, k.target), lines(text)))
			}
		}
		folds = append(folds, fold{sets[0], sets[1]})
	}
	c.Eval(1)

	// the partition
	tc := col(t, k.target)
	strat := tc != nil && !tc.Num && !k.has("-unstratified")
	in := map[int]bool{}
	n := 0
	for i := range t.Labels {
		if !strat || tc.Vals[i] != "" {
			in[i] = true
			n++
		}
	}
	where := map[int]int{}
	for j, f := range folds {
		for _, i := range f.test {
			o, twice := where[i]
			c.Check(!twice, "%s: case %d is tested in folds %d and %d", what, i, o, j)
			c.Check(in[i], "%s: case %d, which has no class, is tested in fold %d", what, i, j)
			where[i] = j
		}
	}
	c.Check(len(where) == n, "%s: only %d of %d cases are tested: %v", what, len(where), n, folds)
	for j, f := range folds {
		var want []int
		for i := range t.Labels {
			if in[i] && where[i] != j {
				want = append(want, i)
			}
		}
		c.Check(cf.SameMultiset(want, f.train), "%s: fold %d is trained on %v instead of %v", what, j, f.train, want)
	}
	class := func(i int) string { return "" }
	if strat {
		class = func(i int) string { return tc.Vals[i] }
	}
	total := map[string]int{}
	for i := range in {
		total[class(i)]++
	}
	for j, f := range folds {
		got := map[string]int{}
		for _, i := range f.test {
			got[class(i)]++
		}
		for cl, tot := range total {
			lo := tot / k.folds
			c.Check(got[cl] == lo || got[cl] == lo+1 && tot%k.folds > 0, "%s: fold %d tests %d of %d cases of class %q", what, j, got[cl], tot, cl)
		}
	}
	return folds
}

func lines(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(strings.TrimSuffix(s, "\n"), "\n")
}

// table has a target that is chosen and features that tell cases apart.
func table(target cf.Column) cf.Table {
	var t cf.Table
	x := cf.Column{Name: "N:x", Num: true}
	z := cf.Column{Name: "C:z"}
	y := cf.Column{Name: "C:y"}
	for i := range target.Vals {
		t.Labels = append(t.Labels, fmt.Sprint("case", i))
		x.Vals = append(x.Vals, []string{"1.5", "-2", "3", "40", "5", "6", "7", "8"}[i])
		z.Vals = append(z.Vals, []string{"p", "", "q", "r", "p", "q", "", "r"}[i])
		y.Vals = append(y.Vals, []string{"", "u", "v", "v", "u", "v", "v", ""}[i])
	}
	t.Cols = []cf.Column{x, target, z, y, {Name: "N:w", Num: true, Vals: []string{"", "0", "2", "", "1", "0", "0", "2.5"}[:len(target.Vals)]}}
	return t
}

func makeTarget(c *mc.Ctx, n int, kinds []string) cf.Column {
	switch kind := mc.Pick(c, kinds, "target"); kind {
	case "number":
		o := cf.Column{Name: "N:t", Num: true}
		for i := 0; i < n; i++ {
			o.Vals = append(o.Vals, []string{"0.25", "", "3", "3", "-1", "2", "1", ""}[i])
		}
		return o
	default:
		o := cf.Column{Name: "C:t"}
		// each class is new or known, by a restricted growth sequence
		m := 0
		for i := 0; i < n; i++ {
			v := c.Choose(min(m+1, 3)+1, "class") - 1
			if v == m {
				m++
			}
			if v < 0 {
				o.Vals = append(o.Vals, "")
			} else {
				o.Vals = append(o.Vals, []string{"a", "b", "c"}[v])
			}
		}
		return o
	}
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var formats = [][]string{{}, {"-writelibsvm"}, {"-writearff"}, {"-writeall"}, {"-writelibsvm", "-writearff"}, {"-writeall", "-writelibsvm"}, {"-writearff", "-writeall"}}

// partitions: every answer of the random source.
func partitions(c *mc.Ctx) {
	n := 1 + c.Choose(c.Int(4, 5), "cases - 1")
	k := &conf{max: -1, folds: 1 + c.Choose(4, "folds - 1")}
	k.t = table(makeTarget(c, n, []string{"class", "number"}))
	k.target = k.t.Cols[1].Name
	if c.Bool("unstratified") {
		k.flags = append(k.flags, "-unstratified")
	}
	c.RandAll()
	f := k.run(c)
	c.Statef("%v %v", k, f)
	c.Outcome("%v", f)
}

// options: the values written.
func options(c *mc.Ctx) {
	n := 3 + 2*c.Choose(2, "cases")
	k := &conf{max: -1, folds: 2}
	var t cf.Column
	switch c.Choose(4, "target") {
	case 0:
		t = cf.Column{Name: "C:t", Vals: []string{"a", "b", "c", "", "a", "b", "c", "a"}[:n]}
	case 1:
		t = cf.Column{Name: "C:t", Vals: []string{"a", "", "b", "a", "a"}[:n]}
	case 2:
		t = cf.Column{Name: "N:t", Num: true, Vals: []string{"0.25", "", "3", "3", "-1"}[:n]}
	case 3:
		t = cf.Column{Name: "C:t", Vals: []string{"a", "b", "c", "b", "a"}[:n]}
		k.target = "C:nowhere"
	}
	k.t = table(t)
	if k.target == "" {
		k.target = t.Name
	}
	k.flags = append(k.flags, mc.Pick(c, formats, "formats")...)
	for _, o := range []string{"-impute", "-onehot", "-num", "-unstratified"} {
		if c.Bool(o) {
			k.flags = append(k.flags, o)
		}
	}
	k.max = mc.Pick(c, []int{-1, 2, 3, 0}, "maximum of categories")
	k.black = mc.Pick(c, [][]string{nil, {"C:z"}, {k.target, "C:z", "N:w", "N:none"}, {"C:y", "C:y"}}, "blacklist")
	if k.has("-impute") && len(t.Vals) > 0 && k.target == "C:nowhere" && c.Bool("skip") {
		c.Discard()
	}
	c.Rand(func(m int) int { return (m - 1) / 2 })
	f := k.run(c)
	c.Statef("%v %v", k, f)
	c.Outcome("%v", k.flags)
}

// fair: all partitions with these sizes are equally likely.
func fair(c *mc.Ctx) {
	n := 2 + c.Choose(4, "cases - 2")
	k := &conf{max: -1, folds: 2 + c.Choose(2, "folds - 2")}
	if n == 5 && !c.Thorough() { // two classes or one
		t := cf.Column{Name: "C:t"}
		t.Vals = mc.Pick(c, [][]string{{"a", "a", "a", "a", "a"}, {"a", "b", "a", "a", "a"}, {"b", "a", "a", "", "a"}}, "classes")
		k.t = table(t)
	} else {
		k.t = table(makeTarget(c, n, []string{"class"}))
	}
	k.target = "C:t"
	if c.Bool("unstratified") {
		k.flags = append(k.flags, "-unstratified")
	}
	got := c.Enumerate(func() string {
		in := make([]byte, n)
		for i := range in {
			in[i] = '-'
		}
		for j, f := range k.run(c) {
			for _, i := range f.test {
				in[i] = byte('0' + j)
			}
		}
		return string(in)
	})
	// cases of one class (any cases, if that doesn't count) can change places
	class := k.t.Cols[1].Vals
	for s, p := range got {
		for i := 0; i < n; i++ {
			for j := i + 1; j < n; j++ {
				if len(k.flags) == 0 && class[i] != class[j] {
					continue
				}
				x := []byte(s)
				x[i], x[j] = x[j], x[i]
				q := got[string(x)]
				if q == nil {
					q = new(big.Rat)
				}
				c.Check(p.Cmp(q) == 0, "%v: that cases are in folds %s has probability %v, that they are in %s has %v", k, s, p, x, q)
			}
		}
	}
	c.State(k.String())
	c.Outcome("%d", len(got))
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C19", Quick: 150, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one run of nfold's main under one sequence of answers of the random source; the files written must hold exactly the cases of a partition with the values of the data",
		Assumptions: []string{"stratified folds leave out cases whose class is missing", "the order of cases within a file is not specified"},
		Scenarios: []mc.Scenario{
			{Name: "partitions", Run: partitions, Bound: "1..4 (5) cases, every response of up to 3 classes with missing, 1..4 folds, every answer of the random source"},
			{Name: "options", Run: options, Bound: "3 or 5 cases, 4 targets, 7 combinations of formats, imputing, encodings, blacklist, maximum of categories"},
			{Name: "fairness", Run: fair, Bound: "2..4 (5) cases, every response, and 3 of 5 cases, 2..3 folds; exact probability of every partition"},
		},
	})
}

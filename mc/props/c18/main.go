// C18: derived data is correct and independent of its source.
package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"sort"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
)

// column builds a column of n entries; values remain under missing marks.
func column(c *mc.Ctx, name string, n int) C.Feature {
	if c.Bool("numeric") {
		x := cf.Num("N:"+name, make([]float64, n))
		for i := 0; i < n; i++ {
			x.Put(i, mc.Pick(c, []float64{2, -1.5, 7}, "value"))
		}
		for i := 0; i < n; i++ {
			if c.Bool("missing") {
				x.PutMissing(i)
			}
		}
		return x
	}
	k := 1 + c.Choose(c.Int(4, 5), "categories - 1")
	x := cf.Cat("C:"+name, cf.Names(k), make([]int, n))
	for i := 0; i < n; i++ {
		x.Puti(i, c.Choose(k, "category"))
	}
	for i := 0; i < n; i++ {
		if c.Bool("missing") {
			x.PutMissing(i)
		}
	}
	return x
}

// text is all that can be read of a column.
func text(f C.Feature) string {
	col, bad := cf.Of(f)
	if bad != "" {
		return "inconsistent: " + bad
	}
	s := col.String()
	if x, ok := f.(*C.DenseCatFeature); ok {
		s += fmt.Sprintf(" categories %q", x.Back)
	}
	return s + fmt.Sprint(" ", f.GetName())
}

func column1(num bool, name string, vals []string) string {
	return cf.Column{Name: name, Num: num, Vals: vals}.String()
}

// derivation makes derived features and says what they should be.
type derivation struct {
	name string
	do   func(c *mc.Ctx, f C.Feature) []C.Feature
	want func(f C.Feature, col cf.Column) []cf.Column
}

func catOf(f C.Feature) *C.DenseCatFeature { x, _ := f.(*C.DenseCatFeature); return x }

func copyWant(f C.Feature, col cf.Column) []cf.Column { return []cf.Column{col} }

var derivations = []derivation{
	{"copy", func(c *mc.Ctx, f C.Feature) []C.Feature { return []C.Feature{f.Copy()} }, copyWant},
	{"copy into", func(c *mc.Ctx, f C.Feature) []C.Feature {
		g := f.Copy()
		for i := 0; i < g.Length(); i++ {
			if g.IsMissing(i) {
				switch x := g.(type) {
				case *C.DenseNumFeature:
					x.Put(i, 5)
				case *C.DenseCatFeature:
					x.Puti(i, 0)
				}
			} else {
				g.PutMissing(i)
			}
		}
		f.CopyInTo(g)
		return []C.Feature{g}
	}, copyWant},
	{"shuffled copy", func(c *mc.Ctx, f C.Feature) []C.Feature { return []C.Feature{f.ShuffledCopy()} }, nil},
	{"encoding", func(c *mc.Ctx, f C.Feature) []C.Feature {
		if catOf(f) == nil {
			return nil
		}
		return catOf(f).EncodeToNum()
	}, func(f C.Feature, col cf.Column) (out []cf.Column) {
		x := catOf(f)
		if x == nil {
			return nil
		}
		if x.NCats() <= 2 {
			o := cf.Column{Name: col.Name, Num: true}
			for _, v := range col.Vals {
				if v != "" {
					v = fmt.Sprint(x.Map[v])
				}
				o.Vals = append(o.Vals, v)
			}
			return []cf.Column{o}
		}
		for _, k := range x.Back {
			o := cf.Column{Name: col.Name + "==" + k, Num: true}
			for _, v := range col.Vals {
				switch v {
				case "":
				case k:
					v = "1"
				default:
					v = "0"
				}
				o.Vals = append(o.Vals, v)
			}
			out = append(out, o)
		}
		return
	}},
	{"one hot", func(c *mc.Ctx, f C.Feature) []C.Feature {
		if catOf(f) == nil {
			return nil
		}
		return catOf(f).OneHot()
	}, func(f C.Feature, col cf.Column) (out []cf.Column) {
		x := catOf(f)
		if x == nil {
			return nil
		}
		if x.NCats() <= 2 {
			return []cf.Column{col}
		}
		for _, k := range x.Back {
			o := cf.Column{Name: col.Name + "==" + k}
			for _, v := range col.Vals {
				if v != "" {
					v = fmt.Sprint(v == k)
				}
				o.Vals = append(o.Vals, v)
			}
			out = append(out, o)
		}
		return
	}},
}

// mutate changes a column through its interface.
func mutate(c *mc.Ctx, f C.Feature) string {
	n := f.Length()
	ops := []string{"append", "append missing", "put missing", "put", "put string", "impute", "shuffle", "shuffle cases"}
	op := mc.Pick(c, ops, "mutation")
	i := c.Choose(n, "entry")
	switch op {
	case "append":
		f.Append("17")
	case "append missing":
		f.Append("NA")
	case "put missing":
		f.PutMissing(i)
	case "put":
		switch x := f.(type) {
		case *C.DenseNumFeature:
			x.Put(i, 17)
		case *C.DenseCatFeature:
			x.Puti(i, x.NCats()-1)
		}
	case "put string":
		f.PutStr(i, "18")
	case "impute":
		f.ImputeMissing()
	case "shuffle":
		c.Rand(func(k int) int { return k - 1 })
		f.Shuffle()
		c.Rand(nil)
	case "shuffle cases":
		y := cf.Cat("C:y", cf.Names(2), make([]int, n))
		allocs := C.NewBestSplitAllocs(n, y)
		cases := cf.Seq(n)
		c.Rand(func(k int) int { return k - 1 })
		f.ShuffleCases(&cases, allocs)
		c.Rand(nil)
	}
	return fmt.Sprintf("%s (%d)", op, i)
}

func sorted(xs []string) string {
	s := append([]string{}, xs...)
	sort.Strings(s)
	return fmt.Sprintf("%q", s)
}

func derive(c *mc.Ctx) {
	n := 1 + c.Choose(c.Int(3, 4), "cases - 1")
	d := mc.Pick(c, derivations, "derivation")
	f := column(c, "x", n)
	was := text(f)
	col, bad := cf.Of(f)
	c.Check(bad == "", "%s", bad)
	c.Rand(func(k int) int { return k - 1 })
	gs := d.do(c, f)
	c.Rand(nil)
	what := fmt.Sprintf("%s of %s", d.name, was)
	c.Check(text(f) == was, "%s: the source became %s", what, text(f))
	if d.want != nil {
		want := d.want(f, col)
		c.Check(len(gs) == len(want), "%s: %d features instead of %d", what, len(gs), len(want))
		for k := range gs {
			got, bad := cf.Of(gs[k])
			c.Check(bad == "", "%s: %s", what, bad)
			c.Check(got.String() == want[k].String(), "%s: feature %d is %s instead of %s", what, k, got, want[k])
		}
	} else {
		c.Check(len(gs) == 1, "%s: %d features", what, len(gs))
		got, bad := cf.Of(gs[0])
		c.Check(bad == "", "%s: %s", what, bad)
		c.Check(got.Num == col.Num && got.Name == col.Name+":SHUFFLED" && sorted(got.Vals) == sorted(col.Vals), "%s: it is %s", what, got)
	}
	c.Eval(1)
	c.State(what)
	if len(gs) == 0 {
		return
	}
	// one more operation on one of the sides
	side := c.Choose(len(gs)+1, "changed side") - 1
	all := append([]C.Feature{f}, gs...)
	var before []string
	for _, x := range all {
		before = append(before, text(x))
	}
	m := mutate(c, all[side+1])
	for k, x := range all {
		if k != side+1 {
			c.Check(text(x) == before[k], "%s: after %s on feature %d (0 is the source) feature %d became %s", what, m, side+1, k, text(x))
		}
	}
	c.Eval(1)
	c.Outcome("%s %s", d.name, text(all[side+1]))
}

// matrix: derived matrices keep order, index, labels and alignment.
func matrix(c *mc.Ctx) {
	n := 1 + c.Choose(c.Int(2, 3), "cases - 1")
	fs := []C.Feature{column(c, "x", n), cf.Cat("C:three", cf.Names(3), []int{2, -1, 0}[:n]), cf.Num("N:z", []float64{4, math.NaN(), 5}[:n])}
	if c.Bool("other first") {
		fs[0], fs[1] = fs[1], fs[0]
	}
	fm := cf.FM(fs...)
	before, bad := cf.TableOf(fm)
	c.Check(bad == "", "%s", bad)
	what := fmt.Sprintf("of\n%s", before)
	var want cf.Table
	var got *C.FeatureMatrix
	switch c.Choose(6, "operation") {
	case 4, 5:
		// contrasts: every one a permutation of its feature, and each is found under its name
		op := "contrasts of all features"
		add := func() { fm.ContrastAll() }
		k := len(fs)
		if c.Bool("some") {
			k = c.Choose(3, "contrasts")
			op = fmt.Sprint(k, " contrasts")
			add = func() { fm.AddContrasts(k) }
			if n > 1 && !c.Thorough() {
				c.RandFirst(3)
			} else {
				c.RandAll()
			}
		} else if n < 3 {
			c.RandAll()
		}
		add()
		c.Rand(nil)
		what = op + " " + what
		var after cf.Table
		for _, f := range fm.Data {
			col, bad := cf.Of(f)
			c.Check(bad == "" && len(col.Vals) == n, "%s: %s of %d cases %s", what, col, len(col.Vals), bad)
			after.Cols = append(after.Cols, col)
		}
		c.Check(len(after.Cols) == len(fs)+k, "%s: %d features", what, len(after.Cols))
		for i := range fs {
			c.Check(after.Cols[i].String() == before.Cols[i].String(), "%s: the feature became %s", what, after.Cols[i])
			c.Check(fm.Map[before.Cols[i].Name] == i, "%s: %s is found at %d", what, before.Cols[i].Name, fm.Map[before.Cols[i].Name])
		}
		for i, col := range after.Cols[len(fs):] {
			var of *cf.Column
			for j := range before.Cols {
				if strings.HasPrefix(col.Name, before.Cols[j].Name+":") && (k != len(fs) || op[0] != 'c' || i == j) {
					of = &before.Cols[j]
				}
			}
			c.Check(of != nil && of.Num == col.Num && sorted(of.Vals) == sorted(col.Vals), "%s: contrast %d is %s", what, i, col)
			at, ok := fm.Map[col.Name]
			c.Check(ok && at >= len(fs) && at < len(fm.Data) && fm.Data[at].GetName() == col.Name, "%s: %s is found at %d", what, col.Name, at)
		}
		c.Check(len(fm.CaseLabels) == n, "%s: %d labels", what, len(fm.CaseLabels))
		c.Eval(1)
		c.State(what)
		return
	case 0, 1:
		d, name := derivations[3], "encoding "
		if c.Choose(2, "one hot") == 1 {
			d, name = derivations[4], "one hot encoding "
		}
		what = name + what
		want.Labels = before.Labels
		for i, f := range fs {
			if before.Cols[i].Num {
				want.Cols = append(want.Cols, before.Cols[i])
			} else {
				want.Cols = append(want.Cols, d.want(f, before.Cols[i])...)
			}
		}
		if name == "encoding " {
			got = fm.EncodeToNum()
		} else {
			got = fm.OneHot()
		}
		after, bad := cf.TableOf(fm)
		c.Check(bad == "" && after.String() == before.String(), "%s: the source became\n%s %s", what, after, bad)
	case 2:
		what = "imputing missing values " + what
		want.Labels = before.Labels
		for i, f := range fs {
			o := cf.Column{Name: before.Cols[i].Name, Num: before.Cols[i].Num}
			v := imputed(f, before.Cols[i])
			for _, x := range before.Cols[i].Vals {
				if x == "" {
					x = v
				}
				o.Vals = append(o.Vals, x)
			}
			want.Cols = append(want.Cols, o)
		}
		fm.ImputeMissing()
		got = fm
	case 3:
		what = "stripping strings " + what
		t := c.Choose(len(fs)+1, "target")
		target := "nothing"
		cols := append([]cf.Column{}, before.Cols...)
		ff := append([]C.Feature{}, fs...)
		if t < len(fs) {
			target = before.Cols[t].Name
			cols[0], cols[t] = cols[t], cols[0]
			ff[0], ff[t] = ff[t], ff[0]
		}
		for i := 0; i < n; i++ {
			want.Labels = append(want.Labels, fmt.Sprint(i))
		}
		for i, col := range cols {
			o := cf.Column{Name: fmt.Sprint("N:", i), Num: col.Num}
			if !col.Num {
				o.Name = fmt.Sprint("C:", i)
			}
			for _, v := range col.Vals {
				if v != "" && !col.Num {
					v = fmt.Sprint(catOf(ff[i]).Map[v])
				}
				o.Vals = append(o.Vals, v)
			}
			want.Cols = append(want.Cols, o)
		}
		fm.StripStrings(target)
		got = fm
		// more data can be read with it
		for _, f := range fm.Data {
			if x := catOf(f); x != nil && x.NCats() > 0 {
				k := c.Choose(x.NCats(), "category")
				x.PutStr(0, fmt.Sprint(k))
				c.Check(x.Geti(0) == k, "%s: category %d is now number %d", what, k, x.Geti(0))
				x.CatData[0] = 0
				if want.Cols[fm.Map[x.Name]].Vals[0] == "" {
					x.PutMissing(0)
				} else {
					x.PutStr(0, want.Cols[fm.Map[x.Name]].Vals[0])
				}
			}
		}
	}
	after, bad := cf.TableOf(got)
	c.Check(bad == "", "%s: %s", what, bad)
	c.Check(after.String() == want.String(), "%s: it is\n%s instead of\n%s", what, after, want)
	c.Eval(1)
	c.State(what)
	c.Outcome("%s", after)
}

// imputed is the value that replaces missing ones, "" if there is none.
func imputed(f C.Feature, col cf.Column) string {
	if col.Num {
		s, k := 0.0, 0.0
		for _, v := range col.Vals {
			if v != "" {
				x, _ := strconv.ParseFloat(v, 64)
				s += x
				k++
			}
		}
		if k == 0 {
			return ""
		}
		return cf.CanonNum(s / k)
	}
	best, bn := "", 0
	for _, k := range catOf(f).Back {
		n := 0
		for _, v := range col.Vals {
			if v == k {
				n++
			}
		}
		if n > bn {
			best, bn = k, n
		}
	}
	return best
}

// impute one column with every content
func impute(c *mc.Ctx) {
	n := 1 + c.Choose(c.Int(4, 5), "cases - 1")
	f := column(c, "x", n)
	col, bad := cf.Of(f)
	c.Check(bad == "", "%s", bad)
	was := text(f)
	v := imputed(f, col)
	f.ImputeMissing()
	got, bad := cf.Of(f)
	c.Check(bad == "", "imputing %s: %s", was, bad)
	for i := range col.Vals {
		want := col.Vals[i]
		if want == "" {
			want = v
		}
		c.Check(got.Vals[i] == want, "imputing %s: entry %d is %q instead of %q", was, i, got.Vals[i], want)
	}
	if v != "" {
		c.Check(!f.MissingVals(), "imputing %s: it claims to have missing values", was)
	}
	c.Eval(1)
	c.State(was)
	c.Outcome("%s", got)
}

// sizes: long columns, many categories
func sizes(c *mc.Ctx) {
	ns := []int{63, 64, 65, 130, 257, 1025, 5000}
	if c.Thorough() {
		ns = append(ns, 127, 128, 129, 256, 512, 1000, 1024, 4095, 4097, 32769, 65537)
	}
	n := mc.Pick(c, ns, "cases")
	gaps := mc.Pick(c, []int{0, 3, 7, 64}, "missing")
	var f C.Feature
	if k := mc.Pick(c, []int{0, 1, 2, 3, 31, 33, 65, 257}, "categories"); k > 0 {
		if k > 65 && n > 1025 {
			c.Discard()
		}
		x := cf.Cat("C:x", cf.Names(k), make([]int, n))
		for i := 0; i < n; i++ {
			x.Puti(i, (i*i/3+i*k/n)%k)
		}
		f = x
	} else {
		x := cf.Num("N:x", make([]float64, n))
		for i := 0; i < n; i++ {
			x.Put(i, float64(i*i%1009)/8)
		}
		f = x
	}
	for i := 0; gaps > 0 && i < n; i++ {
		if i%gaps == gaps-1 {
			f.PutMissing(i)
		}
	}
	was := text(f)
	col, bad := cf.Of(f)
	c.Check(bad == "", "%s", bad)
	c.Statef("%d %d %d", n, gaps, f.NCats())
	v := imputed(f, col)
	wants := map[string][]string{}
	for i, was := range col.Vals {
		wants["copy"] = append(wants["copy"], was)
		if was == "" {
			was = v
		}
		wants["imputed"] = append(wants["imputed"], was)
		_ = i
	}
	same := func(how string, got, want []string) {
		c.Check(len(got) == len(want), "%s of %d cases has %d", how, n, len(got))
		for i := range want {
			a, erra := strconv.ParseFloat(got[i], 64)
			b, errb := strconv.ParseFloat(want[i], 64)
			ok := got[i] == want[i] || col.Num && erra == nil && errb == nil && math.Abs(a-b) <= 1e-9*(1+math.Abs(b))
			c.Check(ok, "%s: entry %d of %d is %q instead of %q", how, i, n, got[i], want[i])
		}
	}
	for _, d := range derivations {
		gs := d.do(c, f)
		c.Check(text(f) == was, "%s of %d cases: the source changed", d.name, n)
		c.Eval(1)
		if d.want == nil {
			got, bad := cf.Of(gs[0])
			c.Check(bad == "" && sorted(got.Vals) == sorted(col.Vals), "%s of %d cases: it holds other values %s", d.name, n, bad)
			continue
		}
		want := d.want(f, col)
		c.Check(len(gs) == len(want), "%s of %d cases: %d features instead of %d", d.name, n, len(gs), len(want))
		for k := range gs {
			got, bad := cf.Of(gs[k])
			c.Check(bad == "" && got.Name == want[k].Name && got.Num == want[k].Num, "%s: feature %d is %s: %s", d.name, k, got.Name, bad)
			same(fmt.Sprintf("%s (feature %d)", d.name, k), got.Vals, want[k].Vals)
		}
	}
	g := f.Copy()
	g.ImputeMissing()
	got, bad := cf.Of(g)
	c.Check(bad == "" && text(f) == was, "imputing a copy of %d cases: %s", n, bad)
	same("imputing", got.Vals, wants["imputed"])
}

// cases: the chosen cases are written as they are.
func cases(c *mc.Ctx) {
	n := 1 + c.Choose(3, "cases - 1")
	f := column(c, "x", n)
	fm := cf.FM(f, cf.Cat("C:three", cf.Names(3), []int{2, -1, 0}[:n]))
	before, bad := cf.TableOf(fm)
	c.Check(bad == "", "%s", bad)
	var pick []int
	k := c.Choose(c.Int(4, 5), "cases written")
	for i := 0; i < k; i++ {
		pick = append(pick, c.Choose(n, "case"))
	}
	in := append([]int{}, pick...)
	var b bytes.Buffer
	err := fm.WriteCases(&b, in)
	c.Check(err == nil && fmt.Sprint(in) == fmt.Sprint(pick), "writing cases %v: %v, %v", pick, err, in)
	var lines []string
	head := "."
	for _, i := range pick {
		head += "\t" + before.Labels[i]
	}
	lines = append(lines, head)
	for _, col := range before.Cols {
		l := col.Name
		for _, i := range pick {
			v := col.Vals[i]
			if v == "" {
				v = "NA"
			}
			l += "\t" + v
		}
		lines = append(lines, l)
	}
	want := strings.Join(lines, "\n") + "\n"
	c.Check(b.String() == want, "writing cases %v of\n%s gives\n%s instead of\n%s", pick, before, b.String(), want)
	after, bad := cf.TableOf(fm)
	c.Check(bad == "" && after.String() == before.String(), "writing cases changed the data to\n%s", after)
	c.Eval(1)
	c.State(want)
	c.Outcome("%s", want)
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C18", Quick: 150, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution derives data from one column or matrix, compares the result and the source with what is documented, then changes one of them and requires the others to stay as they were",
		Assumptions: []string{"numeric columns are passed through by the encodings of a matrix and may be shared with it", "with ties the category seen first is the most frequent"},
		Scenarios: []mc.Scenario{
			{Name: "derived features", Run: derive, Bound: "1..3 (4) entries, numeric (3 values) or up to 4 (5) categories, any missing; 5 derivations x 8 mutations of any side"},
			{Name: "derived matrices", Run: matrix, Bound: "3 columns of 1..2 (3) cases; encoding, one hot, imputing, stripping strings, contrasts of all features or of up to 2 chosen by the random source (its first 3 answers, or all of them)"},
			{Name: "imputing", Run: impute, Bound: "1..4 (5) entries, numeric (3 values) or up to 4 (5) categories, any missing"},
			{Name: "sizes", Run: sizes, Bound: "63..5000 (65537) cases, numeric or of 1..257 categories, none or every third, 7th or 64th missing; every derivation and imputing"},
			{Name: "writing cases", Run: cases, Bound: "2 columns of 1..3 cases, any sequence of up to 3 (4) cases"},
		},
	})
}

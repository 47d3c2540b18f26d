// C17: a feature column behaves as a plain list of optional values.
package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
)

// model is a list of optional values, "" is missing; categories in the order
// they were first stored.
type model struct {
	num  bool
	vals []string
	cats []string
}

func (m *model) clone() *model {
	return &model{m.num, append([]string{}, m.vals...), append([]string{}, m.cats...)}
}

func (m *model) cat(v string) int {
	for i, x := range m.cats {
		if x == v {
			return i
		}
	}
	m.cats = append(m.cats, v)
	return len(m.cats) - 1
}

// canon is the value a token stands for.
func (m *model) canon(tok string) string {
	if m.num {
		v, err := strconv.ParseFloat(tok, 64)
		if err != nil || math.IsNaN(v) {
			return ""
		}
		return cf.CanonNum(v)
	}
	switch strings.ToLower(tok) {
	case "", "?", "na", "nan", "null":
		return ""
	}
	m.cat(tok)
	return tok
}

func (m *model) nums(cases []int) (out []float64) {
	for _, i := range cases {
		if m.vals[i] != "" {
			v, _ := strconv.ParseFloat(m.vals[i], 64)
			out = append(out, v)
		}
	}
	return
}

// counts per category of known cases.
func (m *model) counts(cases []int) []int {
	out := make([]int, len(m.cats))
	for _, i := range cases {
		if m.vals[i] != "" {
			out[m.cat(m.vals[i])]++
		}
	}
	return out
}

func mean(x []float64) float64 {
	s := 0.0
	for _, v := range x {
		s += v
	}
	return s / float64(len(x))
}

func first(n []int) int {
	b := 0
	for i := range n {
		if n[i] > n[b] {
			b = i
		}
	}
	return b
}

type pair struct {
	f C.Feature
	m *model
}

func compare(c *mc.Ctx, p pair, what func() string) {
	col, bad := cf.Of(p.f)
	c.Check(bad == "", "%s: %s", what(), bad)
	c.Check(len(col.Vals) == len(p.m.vals), "%s: it has %d entries", what(), len(col.Vals))
	c.Check(p.f.Length() == len(p.m.vals) && p.f.GetName() == "col", "%s: length %d, name %q", what(), p.f.Length(), p.f.GetName())
	for i, v := range p.m.vals {
		c.Check(col.Vals[i] == v, "%s: entry %d is %q, it should be %q", what(), i, col.Vals[i], v)
		c.Check(p.f.IsMissing(i) == (v == ""), "%s: entry %d is missing: %v", what(), i, p.f.IsMissing(i))
	}
	all := cf.Seq(len(p.m.vals))
	cases := [][]int{all}
	if len(all) > 1 {
		cases = append(cases, all[1:], []int{0, 0, 1})
	}
	for _, cs := range cases {
		given := append([]int{}, cs...)
		got, want := []int{7}, []int{7}
		for _, i := range cs {
			if p.m.vals[i] != "" {
				want = append(want, i)
			}
		}
		p.f.(interface{ FilterMissing(*[]int, *[]int) }).FilterMissing(&cs, &got)
		c.Check(fmt.Sprint(got) == fmt.Sprint(want) && fmt.Sprint(cs) == fmt.Sprint(given), "%s: the entries of %v that are not missing are given as %v after [7], they are %v", what(), given, got[1:], want[1:])
	}
	switch f := p.f.(type) {
	case *C.DenseNumFeature:
		c.Check(f.NCats() == 0, "%s: %d categories", what(), f.NCats())
		for _, cs := range cases {
			known := p.m.nums(cs)
			if len(known) == 0 {
				continue
			}
			in := append([]int{}, cs...)
			want := mean(known)
			c.Check(cf.Close(f.Mean(&in), want, 1e-9), "%s: the mean of %v is %v instead of %v", what(), cs, f.Mean(&in), want)
			got, err := strconv.ParseFloat(f.FindPredicted(in), 64)
			c.Check(err == nil && cf.Close(got, want, 1e-9), "%s: %v are predicted %v instead of %v", what(), cs, got, want)
		}
	case *C.DenseCatFeature:
		c.Check(f.NCats() == len(p.m.cats), "%s: %d categories instead of %q", what(), f.NCats(), p.m.cats)
		for i, v := range p.m.cats {
			c.Check(f.NumToCat(i) == v, "%s: category %d is %q instead of %q", what(), i, f.NumToCat(i), v)
		}
		for _, cs := range cases {
			if len(p.m.nums(cs)) == 0 && len(p.m.cats) == 0 {
				continue
			}
			in := append([]int{}, cs...)
			n := p.m.counts(cs)
			known := true
			for _, i := range cs {
				known = known && p.m.vals[i] != ""
			}
			if known {
				got := make([]int, len(n))
				for i := range got {
					got[i] = 7 // left over from earlier use
				}
				f.CountPerCat(&in, &got)
				c.Check(fmt.Sprint(got) == fmt.Sprint(n), "%s: the categories of %v are counted as %v instead of %v", what(), cs, got, n)
			}
			tot := 0
			for _, k := range n {
				tot += k
			}
			if tot > 0 {
				want := p.m.cats[first(n)]
				c.Check(f.Modei(&in) == first(n) && f.Mode(&in) == want && f.FindPredicted(in) == want, "%s: the mode of %v is %d, %q, predicted %q, instead of %q", what(), cs, f.Modei(&in), f.Mode(&in), f.FindPredicted(in), want)
			}
		}
	}
	c.Eval(1)
}

func run(num bool, tokens []string, puts []float64, depth func(c *mc.Ctx) int) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		var f C.Feature = &C.DenseNumFeature{Name: "col"}
		if !num {
			f = &C.DenseCatFeature{CatMap: &C.CatMap{Map: map[string]int{}}, Name: "col"}
		}
		p := pair{f, &model{num: num}}
		var others []pair // copies and originals left behind
		hist := ""
		d := depth(c)
		what := func() string { return "after" + hist }
		for step := 0; step < d; step++ {
			n := len(p.m.vals)
			ops := []string{"append"}
			if n > 0 {
				ops = append(ops, "putstr", "putmissing", "put", "impute", "copy", "copyinto")
			}
			op := mc.Pick(c, ops, "operation")
			i := 0
			if n > 1 && (op == "putstr" || op == "putmissing" || op == "put") {
				i = c.Choose(n, "entry")
			}
			hist += fmt.Sprint(" ", op)
			switch op {
			case "append":
				tok := mc.Pick(c, tokens, "token")
				hist += fmt.Sprintf("(%q)", tok)
				p.f.Append(tok)
				p.m.vals = append(p.m.vals, p.m.canon(tok))
			case "putstr":
				tok := mc.Pick(c, tokens, "token")
				hist += fmt.Sprintf("(%d,%q)", i, tok)
				p.f.PutStr(i, tok)
				p.m.vals[i] = p.m.canon(tok)
			case "putmissing":
				hist += fmt.Sprintf("(%d)", i)
				p.f.PutMissing(i)
				p.m.vals[i] = ""
			case "put":
				if num {
					v := mc.Pick(c, puts, "value")
					hist += fmt.Sprintf("(%d,%v)", i, v)
					p.f.(*C.DenseNumFeature).Put(i, v)
					p.m.vals[i] = cf.CanonNum(v)
				} else {
					if len(p.m.cats) == 0 {
						c.Discard()
					}
					k := c.Choose(len(p.m.cats), "category")
					hist += fmt.Sprintf("(%d,%d)", i, k)
					p.f.(*C.DenseCatFeature).Puti(i, k)
					p.m.vals[i] = p.m.cats[k]
				}
			case "impute":
				p.f.ImputeMissing()
				all := cf.Seq(n)
				v := ""
				if num {
					if k := p.m.nums(all); len(k) > 0 {
						v = cf.CanonNum(mean(k))
					}
				} else {
					cnt := p.m.counts(all)
					tot := 0
					for _, k := range cnt {
						tot += k
					}
					if tot > 0 {
						v = p.m.cats[first(cnt)]
					}
				}
				for j := range p.m.vals {
					if p.m.vals[j] == "" {
						p.m.vals[j] = v
					}
				}
			case "copy":
				g := p.f.Copy()
				q := pair{g, p.m.clone()}
				if c.Bool("go on with the copy") {
					hist += "(use it)"
					p, q = q, p
				}
				others = append(others, q)
			case "copyinto":
				// another column of the same length and categories, whose content
				// is replaced
				g := p.f.Copy()
				full := n > 1 && c.Bool("into a column without missing entries")
				for j := 0; j < n; j++ {
					switch {
					case j%2 == 1 && !full:
						g.PutMissing(j)
					case num:
						g.(*C.DenseNumFeature).Put(j, 99)
					case len(p.m.cats) > 0:
						g.(*C.DenseCatFeature).Puti(j, 0)
					}
				}
				if full {
					switch x := g.(type) {
					case *C.DenseNumFeature:
						x.HasMissing = false
					case *C.DenseCatFeature:
						x.HasMissing = false
						if len(p.m.cats) == 0 {
							c.Discard()
						}
					}
				}
				p.f.CopyInTo(g)
				q := pair{g, p.m.clone()}
				if c.Bool("go on with the copy") {
					hist += "(use it)"
					p, q = q, p
				}
				others = append(others, q)
			}
			compare(c, p, what)
			for k, o := range others {
				compare(c, o, func() string { return fmt.Sprintf("%s, the other column of copy %d", what(), k) })
			}
			c.Statef("%q %q %v", p.m.vals, p.m.cats, p.f.MissingVals())
		}
		c.Outcome("%q", p.m.vals)
	}
}

// many categories, long columns
func many(c *mc.Ctx) {
	ns := []int{31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000, 4097}
	if c.Thorough() {
		ns = append(ns, 511, 513, 1023, 1025, 20000, 65536, 65537)
	}
	n := mc.Pick(c, ns, "categories")
	how := mc.Pick(c, []string{"append", "put", "copy"}, "how")
	f := &C.DenseCatFeature{CatMap: &C.CatMap{Map: map[string]int{}}, Name: "col"}
	m := &model{vals: make([]string, n)}
	for i := 0; i < n; i++ {
		m.vals[i] = fmt.Sprint("c", i*7)
		m.cats = append(m.cats, m.vals[i])
		if how == "put" {
			f.Append("NA")
		} else {
			f.Append(m.vals[i])
		}
	}
	p := pair{f, m}
	if how == "put" {
		for i := range m.vals {
			f.PutStr(i, m.vals[i])
		}
	}
	if how == "copy" {
		p.f = f.Copy()
	}
	c.Statef("%d %s", n, how)
	col, bad := cf.Of(p.f)
	c.Check(bad == "", "%d categories (%s): %s", n, how, bad)
	x := p.f.(*C.DenseCatFeature)
	c.Check(x.NCats() == n && len(col.Vals) == n, "%d categories (%s): %d are counted, %d entries", n, how, x.NCats(), len(col.Vals))
	for i, v := range m.vals {
		c.Check(col.Vals[i] == v && x.Geti(i) == i && x.NumToCat(i) == v && x.CatToNum(v) == i, "%d categories (%s): entry %d is %q, number %d instead of %q", n, how, i, col.Vals[i], x.Geti(i), v)
	}
	c.Eval(n)
	c.Outcome("%s", how)
}

func main() {
	log.SetOutput(ioutil.Discard)
	k := func(q, t int) func(c *mc.Ctx) int { return func(c *mc.Ctx) int { return c.Int(q, t) } }
	mc.Main(mc.Spec{
		Property: "C17", Quick: 150, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is a sequence of operations on a column and its copies; after every operation all columns must read like lists of optional values",
		Assumptions: []string{"tokens are representative of number formats, missing values and categories"},
		Scenarios: []mc.Scenario{
			{Name: "numbers", Run: run(true, []string{"1.5", "-2", "NA", "", "x"}, []float64{0, 3}, k(5, 6)), Bound: "every sequence of 5 (6) operations, 5 tokens"},
			{Name: "many categories", Run: many, Bound: "31..4097 (65537) categories, appended, put or copied"},
			{Name: "number formats", Run: run(true, []string{"0", "-0.5e3", "nan", "NaN", "?", "null", "1e400", "1e300", "Inf", "0x10", "1_0", " 1", "3."}, []float64{1e-300, -7}, k(3, 4)), Bound: "every sequence of 3 (4) operations, 13 tokens"},
			{Name: "categories", Run: run(false, []string{"a", "b", "NA", "", "Null"}, nil, k(5, 6)), Bound: "every sequence of 5 (6) operations, 5 tokens"},
			{Name: "category names", Run: run(false, []string{"1.5", "A", "a", " a", "nan", "na", "?", "null", "NAN", "none", "N/A", "a,b", "true"}, nil, k(3, 4)), Bound: "every sequence of 3 (4) operations, 13 tokens"},
		},
	})
}

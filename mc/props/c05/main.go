// C05: impurity and leaf predictions follow their definitions.
package main

import (
	"fmt"
	"math"
	"strconv"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
	"verifmc/ref"
)

const tol = 1e-9

func pure(r *ref.T, cases []int) bool {
	for _, i := range cases {
		if r.Cat != nil && r.Cat[i] != r.Cat[cases[0]] {
			return false
		}
		if r.Cat == nil && r.Num[i] != r.Num[cases[0]] {
			return false
		}
	}
	return true
}

func caseList(c *mc.Ctx, n, max int) []int {
	k := 1 + c.Choose(max, "len")
	cs := make([]int, k)
	for i := range cs {
		cs[i] = c.Choose(n, "")
	}
	return cs
}

func check(c *mc.Ctx, t C.Target, r *ref.T, cases []int) { checkAt(c, t, r, cases, 1) }

// near is relative, with a floor for values that small at this scale.
func near(a, b, scale float64) bool {
	return cf.Close(a/scale, b/scale, tol)
}

func checkAt(c *mc.Ctx, t C.Target, r *ref.T, cases []int, scale float64) {
	counter := make([]int, t.NCats())
	for i := range counter {
		counter[i] = 5 // left over from before
	}
	c.State(fmt.Sprint(r, cases))
	got := t.Impurity(&cases, &counter)
	c.Eval(1)
	switch {
	case r.IsScore:
		// the marker: negative (score the splits) or, on pure sets, nothing to gain
		if !pure(r, cases) && !(r.Cat == nil && scale < 1e-3) { // below the cutoff of 1e-7 at small scales
			c.Check(got < 0, "%s: impurity of mixed cases %v is %v, should ask for scores (negative)", r, cases, got)
		}
	default:
		want := r.Imp(cases)
		c.Check(near(got, want, scale), "%s: impurity of cases %v is %v, by definition %v", r, cases, got, want)
		c.Check(got > -1e-9, "%s: impurity of cases %v is negative: %v", r, cases, got)
		if pure(r, cases) {
			c.Check(math.Abs(got) < 1e-9, "%s: impurity of pure cases %v is %v", r, cases, got)
		}
	}
	pred := t.FindPredicted(append([]int{}, cases...))
	num, cat, isCat := r.Pred(cases)
	c.Outcome("%s %s", r.Kind, pred)
	c.Sample("%s cases %v: impurity %v, prediction %s", r, cases, got, pred)
	c.Eval(1)
	if isCat {
		c.Check(pred == cf.TargetNames[cat], "%s: leaf with cases %v predicts %q, should be %q", r, cases, pred, cf.TargetNames[cat])
		return
	}
	v, err := strconv.ParseFloat(pred, 64)
	c.Check(err == nil, "%s: leaf with cases %v predicts %q, not a number", r, cases, pred)
	if math.IsNaN(num) || math.IsInf(num, 0) {
		return // no case carries any weight: undefined
	}
	c.Check(near(v, num, scale), "%s: leaf with cases %v predicts %v, should be %v", r, cases, v, num)
}

func main() {
	var scs []mc.Scenario
	for _, kind := range cf.NumKinds {
		kind := kind
		scs = append(scs, mc.Scenario{Name: kind, Bound: "every response of 3..4 cases over 4 values, every case list of length 1..4 (5) with repetition", Run: func(c *mc.Ctx) {
			vals := []float64{-1.5, 0.25, 4, 2}
			if kind == "ordinal" {
				vals = []float64{0, 1, 3, 2}
			}
			n := 3 + c.Choose(2, "n")
			col := make([]float64, n)
			for i := range col {
				col[i] = mc.Pick(c, vals, "")
			}
			t, r := cf.NumTarget(kind, col)
			check(c, t, r, caseList(c, n, c.Int(4, 5)))
		}})
	}
	for _, kind := range append(append([]string{}, cf.CatKinds...), cf.TwoKinds...) {
		kind := kind
		scs = append(scs, mc.Scenario{Name: kind, Bound: "every response of 3..4 cases over 1..3 classes, every case list of length 1..4 (5) with repetition", Run: func(c *mc.Ctx) {
			k := 2
			if kind != "hdist" && kind != "gradclass" {
				k = 2 + c.Choose(2, "classes")
			}
			n := 3 + c.Choose(2, "n")
			col := make([]int, n)
			pos := 0
			for i := range col {
				col[i] = c.Choose(k, "")
				pos += col[i] % 2
			}
			if kind == "gradclass" && (pos == 0 || pos == n) {
				c.Discard()
			}
			t, r := cf.CatTarget(kind, k, col)
			check(c, t, r, caseList(c, n, c.Int(4, 5)))
		}})
	}
	for _, kind := range []string{"regret", "dentropy", "wrf", "adacost"} {
		kind := kind
		scs = append(scs, mc.Scenario{Name: "costs " + kind, Bound: "every response of 3 cases over 1..3 classes, every case list of length 1..3 (4) with repetition, 6 sets of costs from 1e-6 to 1e6, with and without a class that costs nothing", Run: func(c *mc.Ctx) {
			costs := mc.Pick(c, [][]float64{{1e-3, 2.5e-3, 0.5e-3}, {1e-6, 1e-6, 1e-6}, {1000, 2500, 500}, {1e6, 1, 1e3}, {0, 1, 2.5}, {0.3, 0, 0.2}}, "costs")
			k := 2 + c.Choose(2, "classes")
			col := make([]int, 3)
			for i := range col {
				col[i] = c.Choose(k, "")
			}
			t, r := cf.CatTargetW(kind, k, col, costs)
			cases := caseList(c, 3, c.Int(3, 4))
			some := 0.0
			for _, i := range cases {
				some += costs[col[i]]
			}
			if some == 0 {
				c.Discard() // nothing weighs anything
			}
			scale := 0.0
			for _, v := range costs[:k] {
				scale = math.Max(scale, v)
			}
			if kind != "regret" {
				scale = math.Min(scale, 1)
			}
			checkAt(c, t, r, cases, scale)
		}})
	}
	for _, kind := range cf.NumKinds {
		kind := kind
		if kind == "ordinal" {
			continue
		}
		scs = append(scs, mc.Scenario{Name: "far from zero " + kind, Bound: "7 values from 0.1 to 1e8/7 and 4 around each: pure lists of 1..9 (40) cases, every list of 2..4 (5) cases", Run: func(c *mc.Ctx) {
			base := mc.Pick(c, []float64{0.1, 1. / 3, 78.7, 1000.1, 123456.789, -1e7 / 3, 1e8 / 7}, "value")
			vals := []float64{base, base + 1, base + 2, base - 3}
			t, r := cf.NumTarget(kind, vals)
			if kind == "grad" || c.Bool("pure") {
				at := c.Choose(4, "")
				cases := make([]int, 1+c.Choose(c.Int(9, 40), "cases"))
				for i := range cases {
					cases[i] = at
				}
				got := t.Impurity(&cases, nil)
				c.Eval(1)
				c.State(fmt.Sprint(kind, vals, cases))
				c.Check(got >= 0 && got <= 1e-7, "%s: impurity of %d cases of the value %v is %v", kind, len(cases), vals[at], got)
				return
			}
			cases := make([]int, 2+c.Choose(c.Int(3, 4), ""))
			for i := range cases {
				cases[i] = c.Choose(4, "")
			}
			if len(cases) > 1 {
				got, want := t.Impurity(&cases, nil), r.Imp(cases)
				c.Eval(1)
				c.State(fmt.Sprint(kind, vals, cases))
				c.Check(math.Abs(got-want) <= 1e-5*(1+math.Abs(want)), "%s %v: impurity of cases %v is %v, by definition %v", kind, vals, cases, got, want)
				c.Check(got >= 0, "%s %v: impurity of cases %v is %v", kind, vals, cases, got)
			}
		}})
	}
	for _, kind := range cf.NumKinds {
		kind := kind
		if kind == "ordinal" {
			continue
		}
		scs = append(scs, mc.Scenario{Name: "scales " + kind, Bound: "every response of 3 cases over 3 values, scaled to 1e-4, 1e-2, 1e4 and 1e8 or around 100, every case list of length 1..3 (4) with repetition", Run: func(c *mc.Ctx) {
			scale, off := 1.0, 0.0
			switch c.Choose(5, "scale") {
			case 0:
				scale = 1e-4
			case 1:
				scale = 1e-2
			case 2:
				scale = 1e4
			case 3:
				scale = 1e8
			case 4:
				off = 100
			}
			col := make([]float64, 3)
			for i := range col {
				col[i] = off + scale*mc.Pick(c, []float64{-1.5, 0.3, 4}, "")
			}
			t, r := cf.NumTarget(kind, col)
			checkAt(c, t, r, caseList(c, 3, c.Int(3, 4)), scale)
		}})
	}
	for i, kind := range append(append(append([]string{}, cf.NumKinds...), cf.CatKinds...), cf.TwoKinds...) {
		kind, num := kind, i < len(cf.NumKinds)
		scs = append(scs, mc.Scenario{Name: "sizes " + kind, Bound: "two values or classes, each drawn 1, 2, 128, 256, 257 or 65537 (15 numbers up to 131073) times", Run: func(c *mc.Ctx) {
			sizes := []int{1, 2, 128, 256, 257, 65537}
			if c.Thorough() {
				sizes = []int{1, 2, 127, 128, 129, 255, 256, 257, 1000, 32767, 32768, 46341, 65536, 65537, 131073}
			}
			n := []int{mc.Pick(c, sizes, "first"), mc.Pick(c, sizes, "second")}
			var t C.Target
			var r *ref.T
			if num {
				t, r = cf.NumTarget(kind, []float64{1, 3})
			} else {
				t, r = cf.CatTarget(kind, 2, []int{0, 1})
			}
			cases := make([]int, 0, n[0]+n[1])
			for i, k := range n {
				for j := 0; j < k; j++ {
					cases = append(cases, i)
				}
			}
			counter := make([]int, t.NCats())
			got := t.Impurity(&cases, &counter)
			want := got
			if !r.IsScore {
				want = r.Imp(cases)
			}
			c.Eval(2)
			c.Statef("%s %v", kind, n)
			c.Check(cf.Close(got, want, tol), "%s: impurity of %d cases of one value and %d of another is %v, by definition %v", kind, n[0], n[1], got, want)
			pred := t.FindPredicted(append([]int{}, cases...))
			v, k, isCat := r.Pred(cases)
			if isCat {
				c.Check(pred == cf.TargetNames[k], "%s: %d cases of the first class and %d of the second predict %q", kind, n[0], n[1], pred)
			} else if !math.IsInf(v, 0) && !math.IsNaN(v) {
				p, err := strconv.ParseFloat(pred, 64)
				c.Check(err == nil && cf.Close(p, v, tol), "%s: %d cases of 1 and %d of 3 predict %q, should be %v", kind, n[0], n[1], pred, v)
			}
		}})
	}
	scs = append(scs, mc.Scenario{Name: "column-statistics", Bound: "every numeric column of 1..4 entries over 3 values or missing: mean, mode, span, mean squared error; every case list of length 1..4 (5)", Run: func(c *mc.Ctx) {
		n := 1 + c.Choose(4, "n")
		col := make([]float64, n)
		for i := range col {
			col[i] = mc.Pick(c, []float64{-1.5, 4, 0.25, math.NaN()}, "")
		}
		f := cf.Num("N:x", col)
		cases := caseList(c, n, c.Int(4, 5))
		var v []float64
		for _, i := range cases {
			if !math.IsNaN(col[i]) {
				v = append(v, col[i])
			}
		}
		c.State(fmt.Sprint(col, cases))
		if len(v) == 0 {
			c.Discard()
		}
		s, ss, lo, hi := 0.0, 0.0, v[0], v[0]
		for _, x := range v {
			s += x
			lo, hi = math.Min(lo, x), math.Max(hi, x)
		}
		m := s / float64(len(v))
		for _, x := range v {
			ss += (x - 1) * (x - 1)
		}
		c.Eval(4)
		c.Check(cf.Close(f.Mean(&cases), m, tol), "mean of %v over %v is %v, should be %v", cf.Describe(f), cases, f.Mean(&cases), m)
		c.Check(cf.Close(f.Error(&cases, 1), ss/float64(len(v)), tol), "mean squared error about 1 of %v over %v is %v", cf.Describe(f), cases, f.Error(&cases, 1))
		c.Check(cf.Close(f.Span(&cases, nil), hi-lo, tol), "span of %v over %v is %v, should be %v", cf.Describe(f), cases, f.Span(&cases, nil), hi-lo)
		mode := f.Mode(&cases)
		cnt := map[float64]int{}
		best := 0
		for _, x := range v {
			cnt[x]++
			if cnt[x] > best {
				best = cnt[x]
			}
		}
		c.Check(cnt[mode] == best, "mode of %v over %v is %v", cf.Describe(f), cases, mode)
	}}, mc.Scenario{Name: "category-statistics", Bound: "every categorical column of 1..4 entries over 3 categories or missing: mode, number of categories spanned, gini; every case list of length 1..4 (5)", Run: func(c *mc.Ctx) {
		n := 1 + c.Choose(4, "n")
		col := make([]int, n)
		miss := false
		for i := range col {
			col[i] = c.Choose(4, "") - 1
			miss = miss || col[i] < 0
		}
		f := cf.Cat("C:x", cf.TargetNames, col)
		cases := caseList(c, n, c.Int(4, 5))
		cnt := make([]int, 3)
		total := 0
		for _, i := range cases {
			if col[i] >= 0 {
				cnt[col[i]]++
				total++
			}
		}
		c.State(fmt.Sprint(col, cases))
		if total == 0 {
			c.Discard()
		}
		span, best := 0, 0
		for _, k := range cnt {
			if k > 0 {
				span++
			}
			if k > best {
				best = k
			}
		}
		counter := []int{4, 4, 4}
		c.Eval(3)
		c.Check(f.Span(&cases, &counter) == float64(span), "span of %v over %v is %v, should be %v", cf.Describe(f), cases, f.Span(&cases, &counter), span)
		c.Check(cnt[f.Modei(&cases)] == best, "mode of %v over %v is %v", cf.Describe(f), cases, f.Mode(&cases))
		c.Check(f.Mode(&cases) == cf.TargetNames[f.Modei(&cases)], "mode label")
		if total == len(cases) {
			g := 1.0
			for _, k := range cnt {
				p := float64(k) / float64(total)
				g -= p * p
			}
			c.Check(cf.Close(f.Gini(&cases), g, tol), "gini of %v over %v is %v, should be %v", cf.Describe(f), cases, f.Gini(&cases), g)
		}
	}}, mc.Scenario{Name: "density", Bound: "density and transduction targets over a numeric and a categorical column of 4 cases, every case list of length 2..4 (5)", Run: func(c *mc.Ctx) {
		n := 4
		x := []float64{-1, 0.5, 2, 5}
		y := make([]int, n)
		z := make([]int, n)
		for i := range y {
			y[i] = c.Choose(2, "")
			z[i] = c.Choose(3, "")
		}
		fx, fy, fz := cf.Num("N:x", x), cf.Cat("C:y", []string{"a", "b"}, y), cf.Cat("C:z", cf.TargetNames, z)
		cases := caseList(c, n, c.Int(4, 5))
		lo, hi := x[cases[0]], x[cases[0]]
		ys, cz := map[int]bool{}, map[int]float64{}
		for _, i := range cases {
			lo, hi = math.Min(lo, x[i]), math.Max(hi, x[i])
			ys[y[i]] = true
			cz[z[i]]++
		}
		if hi == lo {
			c.Discard()
		}
		c.State(fmt.Sprint(y, z, cases))
		fs := []C.Feature{fx, fy}
		dt := &C.DensityTarget{Features: &fs, N: n}
		t := float64(len(cases))
		want := t * t / 16 / (hi - lo) / float64(len(ys))
		c.Eval(3)
		got := dt.Impurity(&cases, nil)
		c.Check(cf.Close(got, want, tol), "density impurity of %v, %v over %v is %v, should be %v", x, y, cases, got, want)
		p, _ := strconv.ParseFloat(dt.FindPredicted(cases), 64)
		c.Check(cf.Close(p, t/4/(hi-lo)/float64(len(ys)), tol), "density of %v, %v over %v is %v", x, y, cases, p)
		fs3 := []C.Feature{fx, fz, fy}
		tt := C.NewTransTarget(fz, &fs3, "neg", 0.5, 0.5, n)
		gini := 1.0
		for _, k := range cz {
			gini -= k / t * k / t
		}
		counter := make([]int, 3)
		got = tt.Impurity(&cases, &counter)
		want = gini + 0.5*(hi-lo)*float64(len(ys))/(t*t)
		c.Check(cf.Close(got, want, tol), "transduction impurity of %v, %v, %v over %v is %v, should be %v", x, y, z, cases, got, want)
		best := 0.0
		vote := func(k int) float64 {
			if k == 0 {
				return 0.5 * cz[k]
			}
			return cz[k]
		}
		for k := range cz {
			best = math.Max(best, vote(k))
		}
		pr := tt.FindPredicted(cases)
		ok := false
		for k, name := range cf.TargetNames {
			ok = ok || (name == pr && vote(k) == best)
		}
		c.Check(ok, "transduction prediction of classes %v over %v is %s", z, cases, pr)
	}})
	mc.Main(mc.Spec{
		Property: "C05", Quick: 100, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is a response column and a case list whose impurity and leaf prediction are compared with their definitions",
		Assumptions: []string{"responses of training cases are not missing", "ties between classes are broken by class number, as in the code", "agreement is to a relative 1e-9"},
		Scenarios:   scs,
	})
}

// C02: numeric best split is the optimum over all admissible thresholds.
package main

import (
	"fmt"
	"math"
	"math/rand"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
	"verifmc/ref"
)

const tol = 1e-9
const minImp = 1e-7
const gap = 1e-7

var nan = math.NaN()

// part applies a threshold by definition.
func part(x []float64, cases []int, th float64) (l, r, m []int) {
	for _, i := range cases {
		switch {
		case math.IsNaN(x[i]):
			m = append(m, i)
		case x[i] <= th:
			l = append(l, i)
		default:
			r = append(r, i)
		}
	}
	return
}

// best is the largest decrease over thresholds at every distinct value, and
// whether any is admissible. Values closer than the cutoff are one value.
func best(r *ref.T, x []float64, cases []int, leaf int) (dec, nonmiss float64, any bool) {
	dec, nonmiss = math.Inf(-1), math.Inf(-1)
	seen := map[float64]bool{}
	for _, i := range cases {
		if math.IsNaN(x[i]) || seen[x[i]] {
			continue
		}
		seen[x[i]] = true
		l, rr, m := part(x, cases, x[i])
		if len(l) < leaf || len(rr) < leaf {
			continue
		}
		any = true
		if d := r.Dec(l, rr, m); d > dec {
			dec = d
		}
		if d := r.Dec(l, rr, nil); d > nonmiss {
			nonmiss = d
		}
	}
	return
}

func span(x []float64, cases []int) (n int, lo, hi float64) {
	lo, hi = math.Inf(1), math.Inf(-1)
	for _, i := range cases {
		if !math.IsNaN(x[i]) {
			n++
			lo, hi = math.Min(lo, x[i]), math.Max(hi, x[i])
		}
	}
	return
}

// honest checks a reported split and returns its decrease.
func honest(c *mc.Ctx, what string, r *ref.T, x []float64, cases []int, leaf int, coded interface{}, dec float64) {
	th, ok := coded.(float64)
	c.Check(ok, "%s: coded split is %T", what, coded)
	l, rr, m := part(x, cases, th)
	c.Check(len(l) >= leaf && len(rr) >= leaf, "%s: threshold %v sends %d cases left and %d right, minimum leaf size %d", what, th, len(l), len(rr), leaf)
	want := r.Dec(l, rr, m)
	c.Check(cf.Close(dec, want, tol), "%s: reported decrease of threshold %v is %v, it really is %v", what, th, dec, want)
}

func orders(n, k int) []int {
	o := cf.Seq(n)
	switch k {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			o[i], o[j] = o[j], o[i]
		}
	case 2: // interleaved
		o = o[:0]
		for i := 0; i < n; i += 2 {
			o = append(o, i)
		}
		for i := 1; i < n; i += 2 {
			o = append(o, i)
		}
	case 3: // repeated case, as from sampling with replacement, one left out
		if n > 1 {
			o[n-1] = 0
		}
	case 4: // a node: some of the cases, one of them twice
		if n > 2 {
			o = append(o[1:n-1], 1)
		}
	}
	return o
}

func search(c *mc.Ctx, kind string, t C.Target, r *ref.T, x []float64, n int) {
	leaf := 1 + c.Choose(c.Int(2, 3), "leaf size - 1")
	no, nh := 5, 3
	if n == 5 && !c.Thorough() {
		no, nh = 3, 1
	}
	cases := orders(n, (5-no)+c.Choose(no, "case order"))
	col := x
	f := cf.Num("N:x", col)
	how := c.Choose(nh, "route")
	if kind == "hdist" || kind == "gradclass" || kind == "grad" {
		// two class scores and residuals need both classes among the cases
		has := map[bool]bool{}
		for _, i := range cases {
			if math.IsNaN(x[i]) {
				continue
			}
			if r.Cat != nil {
				has[r.Cat[i] == 1] = true
			} else {
				has[r.Num[i] > r.Num[cases[0]]] = true
			}
		}
		if r.Cat != nil && len(has) < 2 {
			c.Discard()
		}
	}
	allocs := C.NewBestSplitAllocs(n, t)
	if how == 1 { // scratch space left dirty by a search over another column
		y := make([]float64, n)
		for i := range y {
			y[i] = float64((i * 2) % 3)
			if i%3 == 2 {
				y[i] = nan
			}
		}
		all := cf.Seq(n)
		g := cf.Num("N:y", y)
		g.BestSplit(t, &all, t.Impurity(&all, allocs.Counter), 1, false, allocs)
	}
	given := append([]int{}, cases...)
	parent := t.Impurity(&cases, allocs.Counter)
	what := fmt.Sprintf("%s x=%v cases=%v leaf=%d", r, x, given, leaf)
	var coded interface{}
	var dec float64
	constant := false
	if how == 2 {
		fm := cf.FM(f)
		cans := []int{0}
		_, coded, dec, _ = fm.BestSplitter(t, &cases, &cans, 1, nil, leaf, false, false, false, false, allocs, 0)
	} else {
		coded, dec, constant = f.BestSplit(t, &cases, parent, leaf, false, allocs)
	}
	c.Eval(1)
	c.Check(cf.SameMultiset(cases, given), "%s: the case list was changed to %v", what, cases)
	opt, optNM, any := best(r, x, given, leaf)
	c.State(what)
	c.Outcome("%v %.3g", dec > minImp, dec)
	nn, lo, hi := span(x, given)
	if constant {
		c.Check(nn < 2 || hi-lo <= gap, "%s: flagged constant though it has values %v to %v", what, lo, hi)
		c.Check(!(dec > minImp), "%s: flagged constant with decrease %v", what, dec)
	} else if how != 2 && nn >= 2*leaf && nn > 0 {
		c.Check(hi-lo > gap, "%s: constant but not flagged", what)
	}
	if dec > minImp && coded != nil {
		honest(c, what, r, x, given, leaf, coded, dec)
		c.Check(dec >= opt-tol*(1+math.Abs(opt)), "%s: best split found has decrease %v, another threshold achieves %v", what, dec, opt)
	} else if any {
		c.Check(optNM <= minImp+tol || opt <= minImp+tol, "%s: no split found, a threshold achieves %v", what, opt)
	}
	c.Sample("%s -> %v decrease %.4g", what, coded, dec)
}

func column(c *mc.Ctx, n int) []float64 {
	vals := []float64{1, 2, 3.5, nan}
	x := make([]float64, n)
	lo := 0
	for i := range x {
		lo += c.Choose(len(vals)-lo, "")
		x[i] = vals[lo]
	}
	return x
}

func numScenario(kind string, vals []float64) mc.Scenario {
	return mc.Scenario{Name: kind, Bound: "every column of 1..5 (6) cases over 3 values and missing, up to the order of cases, against every response over 3 values; leaf sizes 1..2 (3); 3 to 5 case lists incl. a repeated case and part of the cases; clean and dirty scratch; directly and through BestSplitter", Run: func(c *mc.Ctx) {
		n := 1 + c.Choose(c.Int(5, 6), "n")
		x := column(c, n)
		y := make([]float64, n)
		for i := range y {
			y[i] = mc.Pick(c, vals, "")
		}
		t, r := cf.NumTarget(kind, y)
		search(c, kind, t, r, x, n)
	}}
}

// far: the same with responses whose differences are small beside the values,
// such as years and times.
func far() mc.Scenario {
	return mc.Scenario{Name: "responses far from zero", Bound: "as num, 1..4 (5) cases, the responses being the same 3 values offset by 123456.7, -3e7 or 1.6e9", Run: func(c *mc.Ctx) {
		n := 1 + c.Choose(c.Int(4, 5), "n")
		base := mc.Pick(c, []float64{123456.7, -3e7, 1.6e9}, "offset")
		x := column(c, n)
		y := make([]float64, n)
		for i := range y {
			y[i] = base + mc.Pick(c, []float64{1, 2, 3.5}, "")
		}
		t, r := cf.NumTarget("num", y)
		search(c, "num", t, r, x, n)
	}}
}

func catScenario(kind string, k int) mc.Scenario {
	return mc.Scenario{Name: kind, Bound: "every column of 1..5 (6) cases over 3 values and missing, up to the order of cases, against every response over the classes; leaf sizes 1..2 (3); 3 to 5 case lists incl. a repeated case and part of the cases; clean and dirty scratch; directly and through BestSplitter", Run: func(c *mc.Ctx) {
		n := 1 + c.Choose(c.Int(5, 6), "n")
		x := column(c, n)
		y := make([]int, n)
		for i := range y {
			y[i] = c.Choose(k, "")
		}
		t, r := cf.CatTarget(kind, k, y)
		search(c, kind, t, r, x, n)
	}}
}

// wide: every binary response over longer columns with ties, one target per family
func wide(kind string) mc.Scenario {
	return mc.Scenario{Name: "wide " + kind, Bound: "columns of 8 (10) cases in every run-length pattern of ties against every binary response, leaf sizes 1..4", Run: func(c *mc.Ctx) {
		n := c.Int(8, 10)
		x := make([]float64, n)
		for i := 1; i < n; i++ {
			x[i] = x[i-1]
			if c.Bool("") {
				x[i] += 1.25
			}
		}
		var t C.Target
		var r *ref.T
		if kind == "num" {
			y := make([]float64, n)
			for i := range y {
				y[i] = float64(c.Choose(2, "")) * 3
			}
			t, r = cf.NumTarget(kind, y)
		} else {
			y := make([]int, n)
			for i := range y {
				y[i] = c.Choose(2, "")
			}
			t, r = cf.CatTarget(kind, 2, y)
		}
		leaf := 1 + c.Choose(4, "leaf")
		f := cf.Num("N:x", x)
		allocs := C.NewBestSplitAllocs(n, t)
		cases := orders(n, 2)
		given := append([]int{}, cases...)
		what := fmt.Sprintf("%s x=%v leaf=%d", r, x, leaf)
		coded, dec, constant := f.BestSplit(t, &cases, t.Impurity(&cases, allocs.Counter), leaf, false, allocs)
		opt, _, any := best(r, x, given, leaf)
		c.Eval(1)
		c.State(what)
		_, lo, hi := span(x, given)
		c.Check(!constant || hi-lo <= gap, "%s: flagged constant", what)
		if dec > minImp {
			honest(c, what, r, x, given, leaf, coded, dec)
			c.Check(dec >= opt-tol*(1+math.Abs(opt)), "%s: best split found has decrease %v, another threshold achieves %v", what, dec, opt)
		} else if any {
			c.Check(opt <= minImp+tol, "%s: no split found, a threshold achieves %v", what, opt)
		}
	}}
}

// long: many cases, all values distinct or in runs of equal ones, in sorted,
// reversed and interleaved order, the response changing at one place
func long(kind string) mc.Scenario {
	return mc.Scenario{Name: "long " + kind, Bound: "17, 65, 130 and 300 (1000) cases, distinct values, runs of 3 and 40 equal values, every seventh missing or none; a response that changes at 1 of 9 (17) places with 2 exceptions; leaf sizes 1, 5, 33", Run: func(c *mc.Ctx) {
		ns := []int{17, 65, 130, 300}
		if c.Thorough() {
			ns = append(ns, 33, 129, 257, 513, 1000)
		}
		n := mc.Pick(c, ns, "cases")
		run := mc.Pick(c, []int{1, 3, 40}, "run")
		miss := c.Bool("missing")
		step := c.Int(8, 16)
		at := c.Choose(step+1, "change") * (n - 1) / step
		leaf := mc.Pick(c, []int{1, 5, 33}, "leaf")
		order := c.Choose(3, "case order")
		x, yn, yc := make([]float64, n), make([]float64, n), make([]int, n)
		for i := range x {
			x[i] = float64(i/run) * 1.25
			if miss && i%7 == 3 {
				x[i] = nan
			}
			if i >= at != (i == n/3 || i == n/2) {
				yn[i], yc[i] = 3, 1
			}
		}
		var t C.Target
		var r *ref.T
		if kind == "num" {
			t, r = cf.NumTarget(kind, yn)
		} else {
			t, r = cf.CatTarget(kind, 2, yc)
		}
		f := cf.Num("N:x", x)
		allocs := C.NewBestSplitAllocs(n, t)
		cases := orders(n, order)
		given := append([]int{}, cases...)
		what := fmt.Sprintf("%s %d cases in runs of %d, changing at %d, leaf %d", kind, n, run, at, leaf)
		coded, dec, constant := f.BestSplit(t, &cases, t.Impurity(&cases, allocs.Counter), leaf, false, allocs)
		opt, optNM, any := best(r, x, given, leaf)
		c.Eval(1)
		c.Statef("%s %d %v", what, order, miss)
		c.Check(cf.SameMultiset(cases, given), "%s: the case list was changed", what)
		_, lo, hi := span(x, given)
		c.Check(!constant || hi-lo <= gap, "%s: flagged constant", what)
		if dec > minImp {
			honest(c, what, r, x, given, leaf, coded, dec)
			c.Check(dec >= opt-tol*(1+math.Abs(opt)), "%s: best split found has decrease %v, another threshold achieves %v", what, dec, opt)
		} else if any {
			c.Check(opt <= minImp+tol || optNM <= minImp+tol, "%s: no split found, a threshold achieves %v", what, opt)
		}
		c.Outcome("%.3g", dec)
	}}
}

// awkward values: near ties, adjacent floats, overflow and infinities. What is
// reported must be what the threshold achieves.
func awkward(kind string) mc.Scenario {
	return mc.Scenario{Name: "awkward values " + kind, Bound: "every column of 2..4 cases over 14 awkward values (near ties, adjacent floats, largest and smallest numbers, infinities, signed zero) against every binary response", Run: func(c *mc.Ctx) {
		inf := math.Inf(1)
		big := 1e10
		sets := [][]float64{
			{1, 1 + 0.3e-7, 1 + 0.9e-7, 1 + 1.1e-7, 1 + 1.7e-7, 1 + 2.5e-7},
			{big, math.Nextafter(big, inf), math.Nextafter(math.Nextafter(big, inf), inf), math.Nextafter(math.Nextafter(math.Nextafter(big, inf), inf), inf), 5},
			{-inf, -math.MaxFloat64, -1e308, 0, math.Copysign(0, -1), 1e308, math.MaxFloat64, inf},
		}
		vals := mc.Pick(c, sets, "values")
		n := 2 + c.Choose(c.Int(3, 4), "n")
		x := make([]float64, n)
		lo := 0
		for i := range x {
			lo += c.Choose(len(vals)-lo, "")
			x[i] = vals[lo]
		}
		var t C.Target
		var r *ref.T
		if kind == "num" {
			y := make([]float64, n)
			for i := range y {
				y[i] = float64(c.Choose(2, "")) * 3
			}
			t, r = cf.NumTarget(kind, y)
		} else {
			y := make([]int, n)
			for i := range y {
				y[i] = c.Choose(2, "")
			}
			t, r = cf.CatTarget(kind, 2, y)
		}
		f := &C.DenseNumFeature{NumData: append([]float64{}, x...), Missing: make([]bool, n), Name: "N:x"}
		cases := orders(n, c.Choose(2, "order"))
		given := append([]int{}, cases...)
		allocs := C.NewBestSplitAllocs(n, t)
		what := fmt.Sprintf("%s x=%v", r, x)
		coded, dec, constant := f.BestSplit(t, &cases, t.Impurity(&cases, allocs.Counter), 1, false, allocs)
		c.Eval(1)
		c.State(what)
		_, l, h := span(x, given)
		c.Check(!constant || h-l <= 1.0001*gap || l == h, "%s: flagged constant", what)
		// thresholds between values further apart than the cutoff
		opt := math.Inf(-1)
		for i := 0; i+1 < n; i++ {
			if x[i+1]-x[i] > 1.01*gap {
				ll, rr, mm := part(x, given, x[i])
				opt = math.Max(opt, r.Dec(ll, rr, mm))
			}
		}
		if dec > minImp {
			honest(c, what, r, x, given, 1, coded, dec)
			c.Check(dec >= opt-tol, "%s: best split found has decrease %v, another threshold achieves %v", what, dec, opt)
		} else {
			c.Check(opt <= minImp+tol, "%s: no split found, a threshold achieves %v", what, opt)
		}
	}}
}

// random thresholds: whatever the answer, the split is admissible and honest,
// and every admissible threshold is drawn by some answer.
func random(kind string) mc.Scenario {
	return mc.Scenario{Name: "random " + kind, Bound: "every column of 2..5 (6) cases over 3 values and missing against every binary response, leaf sizes 1..2, every answer of the random source", Run: func(c *mc.Ctx) {
		n := 2 + c.Choose(c.Int(4, 5), "n")
		x := column(c, n)
		var t C.Target
		var r *ref.T
		if kind == "num" {
			y := make([]float64, n)
			for i := range y {
				y[i] = float64(c.Choose(2, "")) * 3
			}
			t, r = cf.NumTarget(kind, y)
		} else {
			y := make([]int, n)
			for i := range y {
				y[i] = c.Choose(2, "")
			}
			t, r = cf.CatTarget(kind, 2, y)
		}
		leaf := 1 + c.Choose(2, "leaf - 1")
		what := fmt.Sprintf("random split %s x=%v leaf=%d", r, x, leaf)
		got := map[string]bool{}
		ans, asked := 0, 0
		c.Rand(func(k int) int {
			asked = k
			return ans
		})
		for ans = 0; ans == 0 || ans < asked; ans++ {
			f := cf.Num("N:x", x)
			cases := orders(n, 2)
			allocs := C.NewBestSplitAllocs(n, t)
			allocs.Rnd = rand.New(rand.NewSource(1))
			asked = 0
			coded, dec, constant := f.BestSplit(t, &cases, t.Impurity(&cases, allocs.Counter), leaf, true, allocs)
			c.Eval(1)
			nn, lo, hi := span(x, cases)
			c.Check(!constant || nn == 0 || hi-lo <= gap, "%s: flagged constant", what)
			if dec > minImp {
				honest(c, what, r, x, cases, leaf, coded, dec)
				l, _, _ := part(x, cases, coded.(float64))
				got[fmt.Sprint(len(l))] = true
			}
		}
		c.State(what)
		seen := map[float64]bool{}
		for _, v := range x {
			if math.IsNaN(v) || seen[v] {
				continue
			}
			seen[v] = true
			l, rr, m := part(x, cf.Seq(n), v)
			if len(l) >= leaf && len(rr) >= leaf && r.Dec(l, rr, nil) > minImp+tol && r.Dec(l, rr, m) > minImp+tol {
				c.Check(got[fmt.Sprint(len(l))], "%s: no answer of the random source draws the threshold with %d cases left", what, len(l))
			}
		}
	}}
}

func main() {
	var scs []mc.Scenario
	for _, k := range cf.NumKinds {
		vals := []float64{-1.5, 0.25, 4}
		if k == "ordinal" {
			vals = []float64{0, 1, 3}
		}
		scs = append(scs, numScenario(k, vals))
		if k == "num" {
			scs = append(scs, far())
		}
	}
	for _, k := range cf.CatKinds {
		nc := 3
		if k == "np" || k == "trans0" {
			nc = 2
		}
		scs = append(scs, catScenario(k, nc))
	}
	for _, k := range cf.TwoKinds {
		scs = append(scs, catScenario(k, 2))
	}
	for _, k := range []string{"num", "gini"} {
		scs = append(scs, wide(k), long(k), awkward(k), random(k))
	}
	mc.Main(mc.Spec{
		Property: "C02", Quick: 150, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one column, response, leaf size and case list; the split reported is compared with the definition of the decrease of every admissible threshold",
		Assumptions: []string{"agreement is to a relative 1e-9", "values within 1e-7 of each other count as equal, decreases up to 1e-7 as none: the documented cutoffs"},
		Scenarios:   scs,
	})
}

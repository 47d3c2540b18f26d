// C03: categorical best splits are valid, honest, and optimal where all
// subsets are searched.
package main

import (
	"fmt"
	"math"
	"math/big"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
	"verifmc/ref"
)

const tol = 1e-9
const minImp = 1e-7

type inSet func(cat int) bool

func coded(c *mc.Ctx, what string, s interface{}) inSet {
	switch v := s.(type) {
	case int:
		return func(k int) bool { return v&(1<<uint(k)) != 0 }
	case *big.Int:
		return func(k int) bool { return v.Bit(k) != 0 }
	}
	c.Failf("%s: coded split is a %T", what, s)
	return nil
}

func part(x []int, cases []int, left inSet) (l, r, m []int) {
	for _, i := range cases {
		switch {
		case x[i] < 0:
			m = append(m, i)
		case left(x[i]):
			l = append(l, i)
		default:
			r = append(r, i)
		}
	}
	return
}

func present(x, cases []int) (cats []int, nonmissing int) {
	seen := map[int]bool{}
	for _, i := range cases {
		if x[i] < 0 {
			continue
		}
		nonmissing++
		if !seen[x[i]] {
			seen[x[i]] = true
			cats = append(cats, x[i])
		}
	}
	return
}

// best over all subsets of the categories present.
func best(r *ref.T, x []int, cases []int, leaf int) (dec, nonmiss float64, any bool) {
	dec, nonmiss = math.Inf(-1), math.Inf(-1)
	cats, _ := present(x, cases)
	for s := 1; s < 1<<uint(len(cats))-1; s++ {
		set := map[int]bool{}
		for j, k := range cats {
			if s&(1<<uint(j)) != 0 {
				set[k] = true
			}
		}
		l, rr, m := part(x, cases, func(k int) bool { return set[k] })
		if len(l) < leaf || len(rr) < leaf {
			continue
		}
		any = true
		dec = math.Max(dec, r.Dec(l, rr, m))
		nonmiss = math.Max(nonmiss, r.Dec(l, rr, nil))
	}
	return
}

func honest(c *mc.Ctx, what string, r *ref.T, x, cases []int, leaf int, cs interface{}, dec float64) inSet {
	in := coded(c, what, cs)
	l, rr, m := part(x, cases, in)
	c.Check(len(l) >= leaf && len(rr) >= leaf, "%s: split %v sends %d cases left and %d right, minimum leaf size %d", what, cs, len(l), len(rr), leaf)
	want := r.Dec(l, rr, m)
	c.Check(cf.Close(dec, want, tol), "%s: reported decrease of split %v is %v, it really is %v", what, cs, dec, want)
	return in
}

// greedy: no single category does better, and no category added improves.
func greedy(c *mc.Ctx, what string, r *ref.T, x, cases []int, leaf int, in inSet, dec float64) {
	cats, _ := present(x, cases)
	try := func(set inSet, how string, k int) {
		l, rr, m := part(x, cases, set)
		if len(l) < leaf || len(rr) < leaf {
			return
		}
		d := r.Dec(l, rr, m)
		c.Check(dec >= d-tol*(1+math.Abs(d)), "%s: greedy search stopped at decrease %v, %s category %d achieves %v", what, dec, how, k, d)
	}
	for _, k := range cats {
		k := k
		try(func(j int) bool { return j == k }, "single", k)
		if in != nil && !in(k) {
			try(func(j int) bool { return j == k || in(j) }, "adding", k)
		}
	}
}

const (
	exhaustive = iota
	iter
	random
)

func search(c *mc.Ctx, t C.Target, r *ref.T, x []int, k, leaf, order, how int, randomSearch bool, kind int) {
	n := len(x)
	cases := cf.Seq(n)
	switch order {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			cases[i], cases[j] = cases[j], cases[i]
		}
	case 2:
		if n > 1 {
			cases[n-1] = 0
		}
	case 3: // a node: some of the cases, one of them twice
		if n > 2 {
			cases = append(cases[1:n-1], 1)
		}
	}
	if t2, ok := t.(*C.HDistanceTarget); ok || r.Kind == "gradclass" {
		_ = t2
		has := map[int]bool{}
		for _, i := range cases {
			if x[i] >= 0 {
				has[r.Cat[i]] = true
			}
		}
		if len(has) < 2 {
			c.Discard() // scores of two classes need both
		}
	}
	f := cf.Cat("C:x", cf.Names(k), x)
	f.RandomSearch = randomSearch
	given := append([]int{}, cases...)
	allocs := C.NewBestSplitAllocs(n, t)
	if how == 1 { // scratch left dirty
		y := make([]int, n)
		for i := range y {
			y[i] = (i*2)%4 - 1
		}
		g := cf.Cat("C:y", cf.Names(3), y)
		all := cf.Seq(n)
		g.BestSplit(t, &all, t.Impurity(&all, allocs.Counter), 1, false, allocs)
	}
	what := fmt.Sprintf("%s x=%v (%d categories) cases=%v leaf=%d randomsearch=%v", r, x, k, given, leaf, randomSearch)
	if kind == exhaustive { // every subset has to be tried, whatever the random bits
		c.RandRaw(func() uint64 { return 0 })
	}
	var cs interface{}
	var dec float64
	constant := false
	if how == 2 {
		fm := cf.FM(f)
		cans := []int{0}
		_, cs, dec, _ = fm.BestSplitter(t, &cases, &cans, 1, nil, leaf, false, false, false, false, allocs, 0)
	} else {
		cs, dec, constant = f.BestSplit(t, &cases, t.Impurity(&cases, allocs.Counter), leaf, false, allocs)
	}
	c.Eval(1)
	c.State(what)
	c.Outcome("%v %.3g", dec > minImp, dec)
	c.Check(cf.SameMultiset(cases, given), "%s: the case list was changed to %v", what, cases)
	cats, nonm := present(x, given)
	c.Check(!(constant && dec > minImp), "%s: flagged constant with decrease %v", what, dec)
	if kind != random && constant {
		// admissible subset of all the cases?
		ok := false
		if len(cats) <= 10 {
			_, _, ok = best(r, x, given, leaf)
		} else {
			ok = true
		}
		c.Check(!ok, "%s: flagged constant though it has categories %v", what, cats)
	}
	if kind == exhaustive && how != 2 && len(cats) == 1 && nonm >= 2*leaf {
		c.Check(constant, "%s: constant but not flagged", what)
	}
	var in inSet
	if dec > minImp && cs != nil {
		in = honest(c, what, r, x, given, leaf, cs, dec)
	}
	switch kind {
	case exhaustive:
		opt, optNM, any := best(r, x, given, leaf)
		if in != nil {
			c.Check(dec >= opt-tol*(1+math.Abs(opt)), "%s: best split found has decrease %v, another subset achieves %v", what, dec, opt)
		} else if any {
			c.Check(optNM <= minImp+tol || opt <= minImp+tol, "%s: no split found, a subset achieves %v", what, opt)
		}
	case iter:
		d := dec
		if in == nil {
			d = minImp
		}
		if in != nil || nonm == len(given) {
			greedy(c, what, r, x, given, leaf, in, d)
		}
	}
	c.Sample("%s -> %v decrease %.4g", what, cs, dec)
}

func response(c *mc.Ctx, kind string, n, k int) (C.Target, *ref.T) {
	for _, nk := range cf.NumKinds {
		if nk == kind {
			vals := []float64{-1.5, 0.25, 4}
			if kind == "ordinal" {
				vals = []float64{0, 1, 3}
			}
			y := make([]float64, n)
			for i := range y {
				y[i] = vals[c.Choose(k, "")]
			}
			return cf.NumTarget(kind, y)
		}
	}
	y := make([]int, n)
	for i := range y {
		y[i] = c.Choose(k, "")
	}
	return cf.CatTarget(kind, k, y)
}

func classes(kind string) int {
	switch kind {
	case "np", "trans0", "hdist", "gradclass":
		return 2
	}
	return 3
}

func small(kind string) mc.Scenario {
	return mc.Scenario{Name: "subsets " + kind, Bound: "features of 2 and 3 categories: every column of 1..4 cases (and missing) against every response over 3 values/classes; leaf sizes 1..2 (3); 4 case lists (one only part of the cases); clean and dirty scratch; directly and through BestSplitter; exhaustive for both settings of RandomSearch", Run: func(c *mc.Ctx) {
		k := 2 + c.Choose(2, "categories - 2")
		n := 1 + c.Choose(4, "n")
		x := make([]int, n)
		for i := range x {
			x[i] = c.Choose(k+1, "") - 1
		}
		t, r := response(c, kind, n, classes(kind))
		leaf := 1 + c.Choose(c.Int(2, 3), "leaf - 1")
		order, how, rs := 0, 0, false
		if n < 4 || c.Thorough() {
			order, how, rs = c.Choose(4, "cases"), c.Choose(3, "route"), c.Bool("random search")
		} else {
			order = 1 + 2*c.Choose(2, "cases")
		}
		search(c, t, r, x, k, leaf, order, how, rs, exhaustive)
	}}
}

func mid(kind string) mc.Scenario {
	return mc.Scenario{Name: "5 categories " + kind, Bound: "features of 4 and 5 (and, with RandomSearch, 8 and 10) categories: 5 (6) cases over every category in every arrangement of repeats against every binary response, leaf sizes 1..2", Run: func(c *mc.Ctx) {
		k := mc.Pick(c, []int{4, 5, 8, 10}, "categories")
		n := c.Int(5, 6)
		x := make([]int, n)
		used := make([]bool, k)
		for i := range x {
			v := 0
			if k <= 5 {
				v = c.Choose(k+1, "") - 1
			} else { // next: a repeat of one used, the lowest unused or the highest unused
				opts := []int{}
				for j := range used {
					if used[j] {
						opts = append(opts, j)
					}
				}
				for j := 0; j < k; j++ {
					if !used[j] {
						opts = append(opts, j)
						break
					}
				}
				for j := k - 1; j >= 0; j-- {
					if !used[j] {
						opts = append(opts, j)
						break
					}
				}
				v = mc.Pick(c, opts, "")
				used[v] = true
			}
			x[i] = v
		}
		t, r := response(c, kind, n, 2)
		leaf := 1
		if k != 5 || c.Thorough() {
			leaf += c.Choose(2, "leaf - 1")
		}
		rs := k > 5 || (k == 4 && c.Bool("random search"))
		search(c, t, r, x, k, leaf, 1, 0, rs, exhaustive)
	}}
}

// many categories: the response is positive for chosen categories
func many(kind string) mc.Scenario {
	return mc.Scenario{Name: "many categories " + kind, Dev: 3, DevThorough: 4, Bound: "features of 6, 7, 11, 30, 31, 33, 64, 66 and 130 categories (130 with every tenth case and no missing values) with two cases of each category, responses in which up to 3 (4) cases differ from the rest, with and without missing values, leaf sizes 1..3, greedy and random search (8 streams)", Run: func(c *mc.Ctx) {
		k := mc.Pick(c, []int{6, 7, 11, 30, 31, 33, 64, 66, 130}, "categories")
		rs := c.Bool("random search")
		per := 2
		if k > 11 {
			per = 1
		}
		n := per * k
		x := make([]int, n)
		miss, every := 0, 1
		if k <= 66 {
			miss = c.Choose(3, "missing")
		} else {
			every = 10
		}
		for i := range x {
			x[i] = i % k
			if miss == 1 && i%5 == 4 || miss == 2 && i%7 < 2 {
				x[i] = -1
			}
		}
		bound := 2
		if c.Thorough() && k <= 11 {
			bound = 3
		}
		if k > 11 {
			bound = 1
			if c.Thorough() {
				bound = 2
			}
		}
		var t C.Target
		var r *ref.T
		y := make([]int, n)
		devs := 0
		for i := range y {
			if devs < bound && i%every == every-1 {
				y[i] = c.Dev(2, "")
				devs += y[i]
			}
		}
		if kind == "num" {
			yy := make([]float64, n)
			for i := range yy {
				yy[i] = float64(y[i]) * 2
				if i%k == 1 {
					yy[i] += 0.5
				}
			}
			t, r = cf.NumTarget(kind, yy)
		} else {
			// a second pattern so that combinations of categories matter
			for i := range y {
				if i%k == k-1 || i%k == k/2 {
					y[i] = 1 - y[i]
				}
			}
			t, r = cf.CatTarget(kind, 2, y)
		}
		leaf := 1 + c.Choose(3, "leaf - 1")
		kd := iter
		if rs {
			c.SeedRaw(c.Choose(c.Int(1, 4), "stream") + 1)
			kd = random
			if k <= 10 {
				kd = exhaustive
			}
		}
		search(c, t, r, x, k, leaf, 1, 0, rs, kd)
	}}
}

func main() {
	var scs []mc.Scenario
	for _, set := range [][]string{cf.NumKinds, cf.CatKinds, cf.TwoKinds} {
		for _, k := range set {
			scs = append(scs, small(k))
		}
	}
	for _, k := range []string{"num", "gini"} {
		scs = append(scs, mid(k), many(k))
	}
	mc.Main(mc.Spec{
		Property: "C03", Quick: 150, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one column, response, leaf size and case list; the split reported is compared with the definition of the decrease of every subset of categories (exhaustive search) or of every single category and every one-category extension (greedy search)",
		Assumptions: []string{"agreement is to a relative 1e-9", "decreases up to 1e-7 count as none: the documented cutoff", "for random search over more than 10 categories only validity and honesty are claimed"},
		Scenarios:   scs,
	})
}

// C04: incremental split evaluation equals evaluation from scratch.
package main

import (
	"fmt"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
	"verifmc/ref"
)

const tol = 1e-9

func run(c *mc.Ctx, kind string, t C.Target, r *ref.T, n, nm int) {
	allocs := C.NewBestSplitAllocs(n+nm, t)
	// order in which cases move: forward, backward or interleaved
	order := cf.Seq(n)
	switch c.Choose(3, "order") {
	case 1:
		for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
			order[i], order[j] = order[j], order[i]
		}
	case 2:
		for i := range order {
			order[i] = (i*2 + i*2/n) % n
		}
		seen := map[int]bool{}
		for _, x := range order {
			seen[x] = true
		}
		if len(seen) != n {
			order = cf.Seq(n)
			order[0], order[n-1] = order[n-1], order[0]
		}
	}
	var m []int
	for i := n; i < n+nm; i++ {
		m = append(m, i)
	}
	var mp *[]int
	if nm > 0 {
		mp = &m
	} else if c.Bool("empty missing list") {
		mp = &m
	}
	if c.Bool("dirty") { // scratch space left over from another evaluation
		a, b := order[n/2:], order[:n/2]
		all := cf.Seq(n)
		t.SplitImpurity(&a, &b, nil, allocs)
		t.Impurity(&all, allocs.Counter)
		allocs.Lsum, allocs.Rsum, allocs.Msum, allocs.Msum_sqr = 7, -3, 5, 99
	}
	cut := 1 + c.Choose(n-1, "first cut")
	l, rr := order[:cut], order[cut:]
	got := t.SplitImpurity(&l, &rr, mp, allocs)
	want := r.Split(l, rr, m)
	path := fmt.Sprint(cut)
	c.Eval(1)
	c.Check(cf.Close(got, want, tol), "%s: split impurity of %v|%v|%v from scratch is %v, should be %v (response %v)", kind, l, rr, m, got, want, r)
	for cut < n-1 {
		step := 1 + c.Choose(n-1-cut, "move")
		moved := order[cut : cut+step]
		cut += step
		l, rr = order[:cut], order[cut:]
		got = t.UpdateSImpFromAllocs(&l, &rr, mp, allocs, &moved)
		want = r.Split(l, rr, m)
		path += fmt.Sprint("+", step)
		c.State(fmt.Sprint(r, order, path, m))
		c.Eval(1)
		c.Check(cf.Close(got, want, tol), "%s: after moving %v to the left (%s) the running split impurity of %v|%v|%v is %v, from scratch it is %v (response %v)", kind, moved, path, l, rr, m, got, want, r)
		if c.Choose(2, "restart") == 1 { // from scratch in fresh space, same answer
			got = t.SplitImpurity(&l, &rr, mp, allocs)
			c.Check(cf.Close(got, want, tol), "%s: recomputed split impurity of %v|%v|%v is %v, should be %v (response %v)", kind, l, rr, m, got, want, r)
		}
	}
	c.Sample("%s moves %s m=%v", r, path, m)
	c.Outcome("%s %.6g", kind, want)
}

// many cases of few kinds.
func sizes(c *mc.Ctx, kind string, num bool) {
	many := []int{0, 1, 128, 257, 1000}
	if c.Thorough() {
		many = []int{0, 1, 127, 128, 255, 256, 257, 1000, 65537}
	}
	var t C.Target
	var r *ref.T
	if num {
		t, r = cf.NumTarget(kind, []float64{1, 3})
	} else {
		t, r = cf.CatTarget(kind, 2, []int{0, 1})
	}
	list := func(label string, many []int) (l []int) {
		for i := 0; i < 2; i++ {
			for k := mc.Pick(c, many, label); k > 0; k-- {
				l = append(l, i)
			}
		}
		return
	}
	left, right := list("left", many), list("right", many)
	moved := list("moved", []int{0, 1, 128, 257})
	if len(left) == 0 || len(right) == 0 || len(moved) == 0 {
		c.Discard()
	}
	all := append(append(append([]int{}, left...), moved...), right...)
	a, b := len(left), len(left)+len(moved)
	allocs := C.NewBestSplitAllocs(len(all), t)
	for _, cut := range []int{a, b} {
		l, r2, mv := all[:cut], all[cut:], all[a:b]
		var got float64
		if cut == a {
			got = t.SplitImpurity(&l, &r2, nil, allocs)
		} else {
			got = t.UpdateSImpFromAllocs(&l, &r2, nil, allocs, &mv)
		}
		want := r.Split(l, r2, nil)
		c.Eval(1)
		c.Statef("%s %d %d %d", kind, a, b, len(all))
		c.Check(cf.Close(got, want, tol), "%s: with %v (value: cases) to the left and %v to the right, %v of them moved, the split impurity is %v, should be %v", kind, tally(l), tally(r2), tally(mv), got, want)
	}
}

func tally(cases []int) map[int]int {
	m := map[int]int{}
	for _, i := range cases {
		m[i]++
	}
	return m
}

// most is how many cases go left and right beside nm missing.
func most(c *mc.Ctx, nm int) int {
	if nm > c.Int(1, 2) {
		return c.Int(4, 5)
	}
	return c.Int(5, 6)
}

// density targets: the impurity of a split is that of its parts, weighted by
// their sizes, also after cases have moved (C05 compares the parts').
func density(c *mc.Ctx) {
	n := c.Int(7, 8)
	x := []float64{-1, 0.5, 2, 5, 5.5, 9, 11, 30}[:n]
	y := []float64{4, 3, 8, -2, 0, 0.25, 1, 7}[:n]
	z := []int{0, 1, 1, 0, 2, 2, 0, 1}[:n]
	fz := cf.Cat("C:z", cf.TargetNames, z)
	fs := []C.Feature{cf.Num("N:x", x), fz, cf.Num("N:y", y)}
	var t C.Target = &C.DensityTarget{Features: &fs, N: n}
	trans := c.Bool("transduction")
	if trans {
		t = C.NewTransTarget(fz, &fs, "neg", mc.Pick(c, []float64{0.25, 1}, "alpha"), 0.5, n)
	}
	var parts [3][]int
	for i := 0; i < n; i++ {
		k := c.Choose(3, "")
		parts[k] = append(parts[k], i)
	}
	l, r, m := parts[0], parts[1], parts[2]
	if len(l) < 2 || len(r) < 2 || len(m) == 1 {
		c.Discard()
	}
	allocs := C.NewBestSplitAllocs(n, fz)
	counter := make([]int, 3)
	want := func() (w float64) {
		for _, p := range [][]int{l, r, m} {
			if len(p) > 0 {
				p := p
				w += float64(len(p)) * t.Impurity(&p, &counter)
			}
		}
		return w / float64(n)
	}
	mp := &m
	if len(m) == 0 && c.Bool("no missing list") {
		mp = nil
	}
	c.Statef("%v %v", trans, parts)
	c.Eval(1)
	got := t.SplitImpurity(&l, &r, mp, allocs)
	c.Check(cf.Close(got, want(), tol), "%T: split impurity of %v|%v|%v is %v, its parts give %v", t, l, r, m, got, want())
	for len(r) > 2 {
		k := 1 + c.Choose(len(r)-2, "move")
		moved := append([]int{}, r[:k]...)
		l, r = append(append([]int{}, l...), moved...), append([]int{}, r[k:]...)
		got := t.UpdateSImpFromAllocs(&l, &r, mp, allocs, &moved)
		c.Eval(1)
		c.Check(cf.Close(got, want(), tol), "%T: after moving %v to the left the split impurity of %v|%v|%v is %v, its parts give %v", t, moved, l, r, m, got, want())
	}
	c.Outcome("%.6g", got)
}

func main() {
	numScenario := func(kind string, vals []float64) mc.Scenario {
		return mc.Scenario{Name: kind, Bound: "every response of 2..5 (6) cases over 3 values plus 0..1 (2) missing-branch cases, 2..4 (5) plus 2 (3); every sequence of batch moves in 3 orders; clean and dirty scratch space", Run: func(c *mc.Ctx) {
			nm := c.Choose(c.Int(3, 4), "missing")
			n := 2 + c.Choose(most(c, nm)-1, "n")
			col := make([]float64, n+nm)
			for i := range col {
				col[i] = mc.Pick(c, vals, "")
			}
			t, r := cf.NumTarget(kind, col)
			if kind == "grad" && nm > 0 {
				c.Discard()
			}
			run(c, kind, t, r, n, nm)
		}}
	}
	catScenario := func(kind string, maxCats int) mc.Scenario {
		return mc.Scenario{Name: kind, Bound: "every response of 2..5 (6) cases over 2 and 3 classes plus 0..1 (2) missing-branch cases, 2..4 (5) plus 2 (3); every sequence of batch moves in 3 orders; clean and dirty scratch space", Run: func(c *mc.Ctx) {
			k := 2
			if maxCats > 2 {
				k += c.Choose(maxCats-1, "classes")
			}
			nm := c.Choose(c.Int(3, 4), "missing")
			n := 2 + c.Choose(most(c, nm)-1, "n")
			col := make([]int, n+nm)
			for i := range col {
				col[i] = c.Choose(k, "")
			}
			has := make([]bool, 2)
			for _, v := range col[:n] {
				if v < 2 {
					has[v] = true
				}
			}
			if maxCats == 2 && (!has[0] || !has[1] || nm > 0) {
				c.Discard() // scores of two classes need both of them; they define no missing term
			}
			t, r := cf.CatTarget(kind, k, col)
			run(c, kind, t, r, n, nm)
		}}
	}
	var scs []mc.Scenario
	for _, k := range cf.NumKinds {
		vals := []float64{-1.5, 0.25, 4}
		if k == "ordinal" {
			vals = []float64{0, 1, 3}
		}
		scs = append(scs, numScenario(k, vals))
	}
	for _, k := range cf.CatKinds {
		scs = append(scs, catScenario(k, 3))
	}
	for _, k := range cf.TwoKinds {
		scs = append(scs, catScenario(k, 2))
	}
	for i, kind := range append(append(append([]string{}, cf.NumKinds...), cf.CatKinds...), cf.TwoKinds...) {
		kind, num := kind, i < len(cf.NumKinds)
		scs = append(scs, mc.Scenario{Name: "sizes " + kind, Bound: "two values or classes; 0, 1, 128, 257 or 1000 (0, 1, 127, 128, 255, 256, 257, 1000, 65537) of each to the left, the same to the right, then 0, 1, 128 or 257 of each moved", Run: func(c *mc.Ctx) { sizes(c, kind, num) }})
	}
	scs = append(scs, mc.Scenario{Name: "density", Bound: "density and transduction targets over two numeric columns and a categorical one of 7 (8) cases, every division into left, right and missing of at least two cases each or none missing, every number of cases moved; the parts' impurities as the target gives them", Run: density})
	mc.Main(mc.Spec{
		Property: "C04", Quick: 100, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is a response column and one sequence of batch moves; after every move the running impurity is compared with the definition computed from scratch",
		Assumptions: []string{"agreement is to a relative 1e-9: the running sums round differently"},
		Scenarios:   scs,
	})
}

// C15: boosting reweights and sums as documented.
package main

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"strconv"

	C "github.com/ryanbressler/CloudForest"
	growforest "github.com/ryanbressler/CloudForest/growforest"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/model"
	"verifmc/sched"
)

const tol = 1e-9

var nan = math.NaN()

// ---- the schemes, from their definitions

// scheme is the state of a boosting scheme over cases; leaves are given as
// sets of cases with the prediction of the leaf.
type scheme struct {
	kind string
	n    int
	cat  []int     // -1 missing
	num  []float64 // NaN missing
	cost []float64
	w    []float64
	norm float64
	lr   float64
	// gradient boosting
	intercept float64
	sum       []float64
}

func (s *scheme) missing(i int) bool {
	if s.cat != nil {
		return s.cat[i] < 0
	}
	return math.IsNaN(s.num[i])
}

func newScheme(kind string, cat []int, pos int, num, cost []float64, lr float64) *scheme {
	s := &scheme{kind: kind, cost: cost, lr: lr, n: len(cat) + len(num)}
	if kind == "gradclass" {
		for _, v := range cat {
			switch v {
			case -1:
				num = append(num, nan)
			case pos:
				num = append(num, 1)
			default:
				num = append(num, 0)
			}
		}
		cat = nil
	}
	s.cat, s.num = cat, num
	s.sum = make([]float64, s.n)
	s.w = make([]float64, s.n)
	k := 0.0
	for i := range s.w {
		if !s.missing(i) {
			k++
		}
	}
	for i := range s.w {
		if !s.missing(i) {
			s.w[i] = 1 / k
		}
	}
	if cat == nil {
		m := 0.0
		for i, v := range num {
			if !s.missing(i) {
				m += v / k
			}
		}
		for i, v := range num {
			if !s.missing(i) {
				s.norm += math.Abs(v - m)
			}
		}
		s.intercept = m
		if k == 0 {
			s.intercept = nan
		}
		if kind == "gradclass" {
			s.intercept = math.Log(m / (1 - m))
		}
	}
	return s
}

func (s *scheme) known(cases []int) (out []int) {
	for _, i := range cases {
		if !s.missing(i) {
			out = append(out, i)
		}
	}
	return
}

// level is what a leaf of these cases predicts: the first most frequent
// category or the mean.
func (s *scheme) level(cases []int) float64 {
	if s.cat != nil {
		var n []int
		for _, i := range cases {
			for s.cat[i] >= len(n) {
				n = append(n, 0)
			}
			n[s.cat[i]]++
		}
		b := 0
		for k := range n {
			if n[k] > n[b] {
				b = k
			}
		}
		return float64(b)
	}
	t := 0.0
	for _, i := range cases {
		t += s.num[i]
	}
	return t / float64(len(cases))
}

// off is the loss of case i.
func (s *scheme) off(i int, level float64) float64 {
	if s.cat != nil {
		if s.cat[i] == int(level) {
			return 0
		}
		return 1
	}
	return math.Abs(s.num[i] - level)
}

// errorOf is the weighted error of a partition, near tells whether it is
// within rounding of a limit of the scheme.
func (s *scheme) errorOf(leaves [][]int) (e float64, near bool) {
	for _, l := range leaves {
		l = s.known(l)
		if len(l) == 0 {
			continue
		}
		m := s.level(l)
		for _, i := range l {
			c := 1.0
			if s.kind == "adacost" {
				c = s.cost[s.cat[i]]
			}
			e += s.w[i] * c * s.off(i, m)
		}
	}
	limit := 0.5
	if s.cat == nil {
		limit = s.norm
	}
	// an error of exactly zero is certain, except that a mean may be rounded
	near = math.Abs(e-limit) < tol || (e > 0 || s.cat == nil) && e < tol
	return
}

// boost does one round and returns the weight of the tree.
func (s *scheme) boost(leaves [][]int, preds []string) float64 {
	if s.kind == "grad" || s.kind == "gradclass" {
		for k, l := range leaves {
			p, err := strconv.ParseFloat(preds[k], 64)
			for _, i := range l {
				if !s.missing(i) && err == nil {
					s.sum[i] += p
				}
			}
		}
		return s.lr
	}
	e, _ := s.errorOf(leaves)
	var alpha float64
	if s.cat != nil {
		if e >= .5 {
			return 0
		}
		alpha = .5 * math.Log((1-e)/e)
	} else {
		if e > s.norm {
			return 0
		}
		alpha = math.Log(s.norm / e)
	}
	if math.IsInf(alpha, 1) {
		return alpha
	}
	for _, l := range leaves {
		l = s.known(l)
		if len(l) == 0 {
			continue
		}
		m := s.level(l)
		for _, i := range l {
			switch {
			case s.cat == nil:
				s.w[i] *= math.Exp(alpha * (s.off(i, m) - e))
			case s.off(i, m) == 1:
				s.w[i] *= math.Exp(alpha)
			default:
				s.w[i] *= math.Exp(-alpha)
			}
			if s.kind == "adacost" {
				s.w[i] *= s.cost[s.cat[i]]
			}
		}
	}
	t := 0.0
	for _, w := range s.w {
		t += w
	}
	for i := range s.w {
		s.w[i] /= t
	}
	return alpha
}

// residual is what the next tree of gradient boosting is to predict.
func (s *scheme) residual(i int) float64 {
	f := s.intercept + s.lr*s.sum[i]
	if s.kind == "gradclass" {
		return s.num[i] - 1/(1+math.Exp(-f))
	}
	return s.num[i] - f
}

// leafValue is the prediction of a leaf of these cases.
func (s *scheme) leafValue(cases []int) float64 {
	a, b := 0.0, 0.0
	for _, i := range cases {
		r := s.residual(i)
		a += r
		if s.kind == "gradclass" {
			p := s.num[i] - r
			b += p * (1 - p)
		} else {
			b++
		}
	}
	return a / b
}

func same(a, b float64) bool {
	return a == b || cf.Close(a, b, 1e-7)
}

// ---- steps of Boost

// partition picks one of all partitions of n cases.
func partition(c *mc.Ctx, n int) [][]int {
	var out [][]int
	for i := 0; i < n; i++ {
		k := c.Choose(len(out)+1, "leaf")
		if k == len(out) {
			out = append(out, nil)
		}
		out[k] = append(out[k], i)
	}
	return out
}

var weighted = map[string]func(cat []int, num []float64, k int, cost []float64) (C.BoostingTarget, func() []float64){
	"ada": func(cat []int, num []float64, k int, cost []float64) (C.BoostingTarget, func() []float64) {
		t := C.NewAdaBoostTarget(cf.Cat("C:t", cf.Names(k), cat))
		return asBoosting(t), func() []float64 { return t.Weights }
	},
	"adacost": func(cat []int, num []float64, k int, cost []float64) (C.BoostingTarget, func() []float64) {
		t := C.NewAdaCostTarget(cf.Cat("C:t", cf.Names(k), cat))
		m := map[string]float64{}
		for i, n := range cf.Names(k) {
			m[n] = cost[i]
		}
		t.SetCosts(m)
		return asBoosting(t), func() []float64 { return t.Weights }
	},
	"numada": func(cat []int, num []float64, k int, cost []float64) (C.BoostingTarget, func() []float64) {
		t := C.NewNumAdaBoostTarget(cf.Num("N:t", num))
		return asBoosting(t), func() []float64 { return t.Weights }
	},
}

func asBoosting(t interface{}) C.BoostingTarget { b, _ := t.(C.BoostingTarget); return b }

var values = []float64{nan, 0, 1, 3}

// rounds checks the weights after every step of adaptive boosting.
func rounds(kind string, k int, costs [][]float64, n, nr func(c *mc.Ctx) int) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		nc := n(c)
		var cat []int
		var num []float64
		cost := []float64(nil)
		if costs != nil {
			cost = mc.Pick(c, costs, "costs")
		}
		known := 0
		for i := 0; i < nc; i++ {
			if kind == "numada" {
				num = append(num, mc.Pick(c, values, "value"))
				if !math.IsNaN(num[i]) {
					known++
				}
			} else {
				cat = append(cat, c.Choose(k+1, "category")-1)
				if cat[i] >= 0 {
					known++
				}
			}
		}
		if known == 0 {
			c.Discard()
		}
		t, weights := weighted[kind](cat, num, k, cost)
		what := fmt.Sprintf("%s of %v%v costs %v", kind, cat, num, cost)
		c.Check(t != nil, "%s is no BoostingTarget", what)
		s := newScheme(kind, cat, 0, num, cost, 0)
		check := func() {
			tot := 0.0
			for i, w := range weights() {
				tot += w
				c.Check(same(w, s.w[i]), "%s: the weights are %v, they should be %v", what, weights(), s.w)
			}
			c.Check(cf.Close(tot, 1, tol), "%s: the weights %v do not sum to 1", what, weights())
			c.Eval(1)
		}
		check()
		if s.cat == nil && s.norm < tol {
			return // nothing to learn
		}
		for r := 0; r < nr(c); r++ {
			p := partition(c, nc)
			var preds []string
			ls := [][]int{}
			for _, l := range p {
				kn := s.known(l)
				pr := "NaN"
				if len(kn) > 0 {
					pr = fmt.Sprint(s.level(kn))
					if s.cat != nil {
						pr = cf.Names(k)[int(s.level(kn))]
					}
				}
				preds = append(preds, pr)
				ls = append(ls, append([]int{}, l...))
			}
			what += fmt.Sprint(" after ", p)
			if _, near := s.errorOf(p); near {
				c.Discard() // decided by rounding
			}
			w := t.Boost(&ls, &preds)
			want := s.boost(p, preds)
			c.Check(same(w, want), "%s: the tree gets weight %v, its error implies %v", what, w, want)
			check()
			c.Statef("%s %v %v %.6f", kind, cat, num, s.w)
			c.Outcome("%s %.3f", kind, want)
			if math.IsInf(want, 1) {
				break
			}
		}
	}
}

// gradient checks that the response is always the start plus what has been
// learned plus what is left to learn.
func gradient(kind string, n, nr func(c *mc.Ctx) int) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		nc := n(c)
		lr := mc.Pick(c, []float64{.5, 1, .1}, "learning rate")
		var cat []int
		var num []float64
		pos, k := 0, 2
		var t C.BoostingTarget
		var residual func(i int) float64
		var pred func(i int) float64
		var source C.Feature
		if kind == "grad" {
			for i := 0; i < nc; i++ {
				num = append(num, mc.Pick(c, values, "value"))
			}
			g := C.NewGradBoostTarget(cf.Num("N:t", num), lr)
			t, residual, source = asBoosting(g), g.Get, g
		} else {
			pos = c.Choose(2, "positive class")
			k = 2 + c.Choose(2, "categories")
			for i := 0; i < nc; i++ {
				cat = append(cat, c.Choose(k+1, "category")-1)
			}
		}
		s := newScheme(kind, cat, pos, num, nil, lr)
		if math.IsNaN(s.intercept) || math.IsInf(s.intercept, 0) {
			c.Discard() // no case of one of the classes
		}
		what := fmt.Sprintf("%s of %v%v, positive %d, rate %v", kind, cat, num, pos, lr)
		var orig *C.DenseCatFeature
		if kind == "gradclass" {
			orig = cf.Cat("C:t", cf.Names(k), cat)
			g := C.NewGradBoostClassTarget(orig, lr, cf.Names(k)[pos])
			t, residual, source = asBoosting(g), g.Get, g
			pred = g.Pred.Get
		}
		c.Check(t != nil, "%s is no BoostingTarget", what)
		ic, ok := t.(C.TargetWithIntercept)
		c.Check(ok, "%s has no intercept", what)
		c.Check(same(ic.Intercept(), s.intercept), "%s: the intercept is %v instead of %v", what, ic.Intercept(), s.intercept)
		check := func() {
			for i := 0; i < nc; i++ {
				c.Check(source.IsMissing(i) == s.missing(i), "%s: case %d is missing: %v", what, i, source.IsMissing(i))
				if s.missing(i) {
					continue
				}
				c.Check(same(residual(i), s.residual(i)), "%s: case %d is left with %v instead of %v", what, i, residual(i), s.residual(i))
				if pred != nil {
					f := s.intercept + lr*s.sum[i]
					c.Check(same(pred(i), f), "%s: case %d is predicted %v instead of %v", what, i, pred(i), f)
				}
			}
			for i := range cat {
				want := "NA"
				if cat[i] >= 0 {
					want = cf.Names(k)[cat[i]]
				}
				c.Check(orig.IsMissing(i) == (cat[i] < 0) && orig.GetStr(i) == want, "%s: the data now say %q for case %d", what, orig.GetStr(i), i)
			}
			c.Eval(1)
		}
		check()
		rule := mc.Pick(c, []string{"means", "other"}, "predictions")
		for r := 0; r < nr(c); r++ {
			p := partition(c, nc)
			var preds []string
			ls := [][]int{}
			for j, l := range p {
				ls = append(ls, append([]int{}, l...))
				kn := s.known(l)
				v := float64(j)*1.25 - 2
				if rule == "means" && len(kn) > 0 {
					v = s.leafValue(kn)
					got := t.FindPredicted(kn)
					x, err := strconv.ParseFloat(got, 64)
					c.Check(err == nil && same(x, v), "%s: cases %v are predicted %s, what is left implies %v", what, kn, got, v)
				}
				preds = append(preds, fmt.Sprintf("%v", v))
			}
			before := 0.0
			for i := 0; i < nc; i++ {
				if !s.missing(i) {
					before += residual(i) * residual(i)
				}
			}
			what += fmt.Sprint(" after ", p, preds)
			w := t.Boost(&ls, &preds)
			s.boost(p, preds)
			c.Check(w == lr, "%s: the tree gets weight %v", what, w)
			check()
			if kind == "grad" && rule == "means" {
				after := 0.0
				for i := 0; i < nc; i++ {
					if !s.missing(i) {
						after += residual(i) * residual(i)
					}
				}
				c.Check(after <= before+tol, "%s: the squared error rises from %v to %v", what, before, after)
			}
			c.Statef("%s %v %v %v %.6f", kind, cat, num, lr, s.sum)
		}
		c.Outcome("%s %.4f", kind, s.sum)
	}
}

// ---- whole forests

type grown struct {
	cases []int
	root  *model.Node
	tree  *C.Tree
}

func traced(done *[]*grown) sched.Config {
	return sched.Config{NoRaces: true, Traced: func(leave bool, name string, thread int, lg []sched.Draw, args []interface{}) {
		if !leave {
			*done = append(*done, &grown{cases: append([]int{}, args[3].([]int)...)})
			return
		}
		g := (*done)[len(*done)-1]
		g.tree = args[0].(*C.Tree)
		g.root = model.Of(g.tree.Root)
	}}
}

var catNames = []string{"a", "b", "c"}
var forestCosts = []float64{1, 2, 0.5}

// forestData has a response and two features.
func forestData(num []float64, cat []int) (*model.Data, string) {
	t := cf.Table{}
	col := cf.Column{Name: "C:t"}
	if num != nil {
		col = cf.Column{Name: "N:t", Num: true}
		for _, v := range num {
			if math.IsNaN(v) {
				col.Vals = append(col.Vals, "")
			} else {
				col.Vals = append(col.Vals, fmt.Sprint(v))
			}
		}
	}
	for _, v := range cat {
		if v < 0 {
			col.Vals = append(col.Vals, "")
		} else {
			col.Vals = append(col.Vals, catNames[v])
		}
	}
	x := cf.Column{Name: "N:x", Num: true}
	z := cf.Column{Name: "C:z"}
	for i := range col.Vals {
		x.Vals = append(x.Vals, fmt.Sprint(i))
		z.Vals = append(z.Vals, []string{"p", "q", "", "r", "p", "q"}[i])
		t.Labels = append(t.Labels, fmt.Sprint("case", i))
	}
	t.Cols = []cf.Column{x, col, z}
	return model.NewData(t), col.Name
}

// leavesOf partitions all cases by a tree.
func leavesOf(root *model.Node, d *model.Data) (leaves [][]int, preds []string) {
	ix := map[*model.Node]int{}
	for i := 0; i < d.Len(); i++ {
		l := root.Leaf(d, i)
		if l == nil {
			continue
		}
		k, ok := ix[l]
		if !ok {
			k = len(leaves)
			ix[l] = k
			leaves, preds = append(leaves, nil), append(preds, l.Pred)
		}
		leaves[k] = append(leaves[k], i)
	}
	return
}

// follow runs the scheme along grown trees and returns their weights; ok is
// false when rounding decides.
func follow(c *mc.Ctx, s *scheme, done []*grown, d *model.Data, what string) (ws []float64, ok bool) {
	for j, g := range done {
		if s.kind == "grad" || s.kind == "gradclass" {
			// leaves predict what was left to learn
			at := map[*model.Node][]int{}
			for _, i := range g.cases {
				if l := g.root.Leaf(d, i); l != nil {
					at[l] = append(at[l], i)
				}
			}
			for l, cases := range at {
				want := s.leafValue(cases)
				x, err := strconv.ParseFloat(l.Pred, 64)
				c.Check(err == nil && same(x, want), "%s: a leaf of tree %d predicts %s for cases %v, what is left to learn implies %v\n%s", what, j, l.Pred, cases, want, g.root)
			}
		}
		ls, ps := leavesOf(g.root, d)
		if s.kind != "grad" && s.kind != "gradclass" {
			if _, near := s.errorOf(ls); near {
				return ws, false
			}
		}
		w := s.boost(ls, ps)
		ws = append(ws, w)
		c.Step(1)
		if math.IsInf(w, 1) {
			break
		}
	}
	return ws, true
}

// pick chooses a response with something to learn and the boosting scheme.
func pick(c *mc.Ctx, n int, lr float64) (s *scheme, d *model.Data, target string, kind string) {
	kind = mc.Pick(c, []string{"ada", "adacost", "numada", "grad", "gradclass"}, "scheme")
	var cat []int
	var num []float64
	different := map[float64]bool{}
	full := map[int]bool{}
	for i := 0; i < n; i++ {
		if kind == "numada" || kind == "grad" {
			v := mc.Pick(c, values, "value")
			if !math.IsNaN(v) {
				different[v] = true
			}
			num = append(num, v)
		} else {
			v := c.Choose(len(catNames)+1, "category") - 1
			if v >= 0 {
				different[float64(v)] = true
			}
			full[v] = true
			cat = append(cat, v)
		}
	}
	if len(different) < 2 || kind == "gradclass" && !full[0] {
		c.Discard()
	}
	d, target = forestData(num, cat)
	// categories are numbered as they appear
	if cat != nil {
		m := map[int]int{}
		cost := []float64{}
		pos := -2
		re := make([]int, len(cat))
		for i, v := range cat {
			if v < 0 {
				re[i] = -1
				continue
			}
			if _, ok := m[v]; !ok {
				m[v] = len(m)
				cost = append(cost, forestCosts[v])
				if v == 0 {
					pos = m[v]
				}
			}
			re[i] = m[v]
		}
		return newScheme(kind, re, pos, nil, cost, lr), d, target, kind
	}
	return newScheme(kind, nil, 0, num, nil, lr), d, target, kind
}

var costMap = map[string]float64{"a": 1, "b": 2, "c": .5}

// library checks GrowRandomForest.
func library(c *mc.Ctx) {
	n := c.Int(4, 5)
	lr := .5
	s, d, target, kind := pick(c, n, lr)
	fm := d.Build()
	f := fm.Data[fm.Map[target]]
	var t C.Target
	weights := func() []float64 { return nil }
	switch kind {
	case "ada":
		a := C.NewAdaBoostTarget(f.(C.CatFeature))
		t, weights = a, func() []float64 { return a.Weights }
	case "adacost":
		a := C.NewAdaCostTarget(f.(C.CatFeature))
		a.SetCosts(costMap)
		t, weights = a, func() []float64 { return a.Weights }
	case "numada":
		a := C.NewNumAdaBoostTarget(f.(C.NumFeature))
		t, weights = a, func() []float64 { return a.Weights }
	case "grad":
		t = C.NewGradBoostTarget(f.(C.NumFeature), lr)
	case "gradclass":
		t = C.NewGradBoostClassTarget(f.(C.CatFeature), lr, "a")
	}
	what := fmt.Sprintf("%s, %v", kind, d.Table)
	trees := 3
	leaf := 1 + c.Choose(2, "leaf size")
	sched.Seed = uint64(c.Choose(c.Int(2, 4), "random stream"))
	var done []*grown
	var forest *C.Forest
	_, res := cmd.Run(c, traced(&done), func() {
		forest = C.GrowRandomForest(fm, t, []int{0, 2}, n, 2, trees, leaf, 0, false, false, false, false, nil)
	})
	c.Check(res.Exit == "" && res.Deadlock == "", "%s: %s %s", what, res.Exit, res.Stack)
	c.Check(len(forest.Trees) == trees && len(done) == trees, "%s: %d trees are grown", what, len(forest.Trees))
	for j, g := range done {
		g.root = model.Of(forest.Trees[j].Root)
	}
	ws, ok := follow(c, s, done, d, what)
	for j, w := range ws {
		got := forest.Trees[j].Weight
		c.Check(same(got, w), "%s: tree %d has weight %v, its error implies %v: %s", what, j, got, w, done[j].root)
	}
	if !ok || len(ws) < trees || math.IsInf(ws[len(ws)-1], 1) {
		c.Eval(1)
		return
	}
	for i, w := range weights() {
		c.Check(same(w, s.w[i]), "%s: the weights are %v, the trees imply %v", what, weights(), s.w)
	}
	// the forest predicts what was learned
	var mt []*model.Tree
	for j := range done {
		mt = append(mt, &model.Tree{Root: done[j].root, Weight: ws[j]})
	}
	if kind != "grad" && kind != "gradclass" {
		c.Check(forest.Intercept == 0, "%s: the intercept is %v", what, forest.Intercept)
	}
	if kind == "grad" || kind == "gradclass" {
		c.Check(same(forest.Intercept, s.intercept), "%s: the intercept is %v instead of %v", what, forest.Intercept, s.intercept)
		bb := C.NewSumBallotBox(n)
		for _, tr := range forest.Trees {
			tr.Vote(fm, bb)
		}
		for i := 0; i < n; i++ {
			want := lr * s.sum[i]
			if s.missing(i) {
				want = model.Sum(model.Votes(mt, d, i, nil))
			}
			c.Check(same(bb.TallyNum(i), want), "%s: the forest adds %v to the intercept for case %d, boosting added %v", what, bb.TallyNum(i), i, want)
		}
	}
	c.Eval(1)
	c.Statef("%s %v %v", what, ws, leaf)
	c.Outcome("%s %.3f", kind, ws)
}

// command checks growforest.
func command(c *mc.Ctx) {
	n := c.Int(4, 5)
	lr := .5
	s, d, target, kind := pick(c, n, lr)
	cmd.Keep("train.afm", d.AFM(false, ".", "NA", "\n", true))
	cmd.Drop("out.sf")
	trees := 3
	args := []string{"-train", cmd.Path("train.afm"), "-target", target, "-rfpred", cmd.Path("out.sf"), "-nTrees", fmt.Sprint(trees), "-mTry", "2", "-leafSize", fmt.Sprint(1 + c.Choose(2, "leaf size"))}
	switch kind {
	case "ada", "numada":
		args = append(args, "-adaboost")
	case "adacost":
		b, _ := json.Marshal(costMap)
		args = append(args, "-adacost", string(b))
	case "grad":
		args = append(args, "-gbt", "0.5")
	case "gradclass":
		args = append(args, "-gbt", "0.5", "-positive", "a")
	}
	switch c.Choose(3, "sampling") {
	case 0:
		args = append(args, "-nobag")
	case 1:
		sched.Seed = 1
	case 2:
		sched.Seed = 2
		args = append(args, "-nCores", "2")
	}
	what := fmt.Sprintf("%v, %v", args[6:], d.Table)
	var done []*grown
	_, res := cmd.Run(c, traced(&done), growforest.Main, args...)
	c.Check(res.Exit == "" && res.Deadlock == "", "%s: %s%s\n%s", what, res.Exit, res.Deadlock, res.Stack)
	text, ok := cmd.Get("out.sf")
	c.Check(ok, "%s: no forest is written", what)
	fs, err := model.ParseSF(text)
	c.Check(err == nil && len(fs) <= 1, "%s: %v\n%s", what, err, text)
	ws, ok := follow(c, s, done, d, what)
	want := 0
	for _, w := range ws {
		if math.IsInf(w, 1) {
			break
		}
		want++
	}
	if ok {
		c.Check(want == trees || want == len(done)-1, "%s: %d trees are grown, boosting should stop after %d", what, len(done), want)
		if want == 0 {
			c.Check(len(fs) == 0 || len(fs[0].Trees) == 0, "%s: trees are written\n%s", what, text)
			c.Outcome("%s nothing", kind)
			return
		}
		c.Check(len(fs) == 1 && len(fs[0].Trees) == want, "%s: %d trees are to be written\n%s", what, want, text)
	}
	for j := 0; j < want; j++ {
		t := fs[0].Trees[j]
		c.Check(t.Root.String() == done[j].root.String(), "%s: tree %d is written as %s, grown as %s", what, j, t.Root, done[j].root)
		got := t.Weight
		if ws[j] == 0 && got < 0 {
			got = 0
		}
		c.Check(same(got, ws[j]), "%s: tree %d has weight %v, its error implies %v\n%s", what, j, t.Weight, ws[j], text)
	}
	if want > 0 && (kind == "grad" || kind == "gradclass") {
		c.Check(same(fs[0].Intercept, s.intercept), "%s: the intercept is %v instead of %v", what, fs[0].Intercept, s.intercept)
		if ok && want == trees {
			for i := 0; i < n; i++ {
				if !s.missing(i) {
					got := model.Sum(model.Votes(fs[0].Trees, d, i, nil))
					c.Check(same(got, lr*s.sum[i]), "%s: the written forest adds %v to the intercept for case %d, boosting added %v", what, got, i, lr*s.sum[i])
				}
			}
		}
	}
	c.Eval(1)
	c.Statef("%s %v", what, ws)
	c.Outcome("%s %.3f", kind, ws)
}

func main() {
	log.SetOutput(ioutil.Discard)
	k := func(q, t int) func(c *mc.Ctx) int { return func(c *mc.Ctx) int { return c.Int(q, t) } }
	costs := [][]float64{{1, 1, 1}, {1, 2, .5}, {.25, 1, .5}}
	mc.Main(mc.Spec{
		Property: "C15", Quick: 150, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is a response column with a sequence of partitions given to Boost, or a boosted forest grown by the library or by growforest; weights, residuals, intercepts and tree weights must follow the scheme at every step",
		Assumptions: []string{"partitions whose error is within 1e-9 of a limit of the scheme are left out", "a tree without errors has infinite weight and ends boosting", "comparisons allow a relative difference of 1e-7"},
		Scenarios: []mc.Scenario{
			{Name: "adaptive classification", Run: rounds("ada", 3, nil, k(4, 5), k(3, 2)), Bound: "4 (5) cases in 3 classes with missing, 3 (2) rounds, every partition"},
			{Name: "adaptive classification, more rounds", Run: rounds("ada", 2, nil, k(3, 4), k(4, 4)), Bound: "3 (4) cases in 2 classes with missing, 4 rounds, every partition"},
			{Name: "cost sensitive", Run: rounds("adacost", 3, costs, k(4, 4), k(2, 3)), Bound: "4 cases in 3 classes with missing, 3 sets of costs, 2 (3) rounds, every partition"},
			{Name: "adaptive regression", Run: rounds("numada", 0, nil, k(4, 5), k(3, 2)), Bound: "4 (5) cases with values 0,1,3 or missing, 3 (2) rounds, every partition"},
			{Name: "gradient regression", Run: gradient("grad", k(4, 4), k(2, 3)), Bound: "4 cases with values 0,1,3 or missing, 3 rates, 2 (3) rounds, every partition, leaf means and other predictions"},
			{Name: "gradient classification", Run: gradient("gradclass", k(4, 4), k(2, 3)), Bound: "4 cases in 2..3 classes with missing, 3 rates, 2 (3) rounds, every partition"},
			{Name: "library", Run: library, Bound: "every response of 4 (5) cases, 5 schemes, 3 trees, 2 leaf sizes, 2 (4) random streams"},
			{Name: "growforest", Run: command, Bound: "every response of 4 (5) cases, 5 schemes, 3 trees, 2 leaf sizes, with and without bagging, 1..2 threads"},
		},
	})
}

// C12: tallies and errors are the documented aggregates of the votes cast.
package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"sort"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
)

type vote struct {
	i    int
	pred string
	w    float64
}

// order calls f with permutations of 0..n-1: all of them up to 4, else a few.
func orders(n int, f func([]int)) {
	p := cf.Seq(n)
	if n <= 4 {
		var rec func(int)
		rec = func(k int) {
			if k == n {
				f(p)
				return
			}
			for j := k; j < n; j++ {
				p[k], p[j] = p[j], p[k]
				rec(k + 1)
				p[k], p[j] = p[j], p[k]
			}
		}
		rec(0)
		return
	}
	f(p)
	q := cf.Seq(n)
	for i := range q {
		q[i] = n - 1 - i
	}
	f(q)
	for i := range q {
		q[i] = (i + n/2) % n
	}
	f(q)
}

// sum of exactly representable weights
func winners(votes []vote, i int) []string {
	m := map[string]float64{}
	for _, v := range votes {
		if v.i == i {
			m[v.pred] += v.w
		}
	}
	best := 0.0
	for _, w := range m {
		best = math.Max(best, w)
	}
	var out []string
	for k, w := range m {
		if w == best && w > 0 {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

func genVotes(c *mc.Ctx, cases, max int, preds []string, weights []float64) []vote {
	n := c.Choose(max+1, "votes")
	var vs []vote
	for k := 0; k < n; k++ {
		vs = append(vs, vote{c.Choose(cases, "case"), mc.Pick(c, preds, "prediction"), mc.Pick(c, weights, "weight")})
	}
	c.State(fmt.Sprint(vs))
	c.Step(n)
	return vs
}

func in(s string, xs []string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

func catTally(preds []string, weights []float64, max func(*mc.Ctx) int, cases int) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		vs := genVotes(c, cases, max(c), preds, weights)
		first := make([]string, cases)
		n := 0
		orders(len(vs), func(p []int) {
			bb := C.NewCatBallotBox(cases)
			for _, k := range p {
				bb.Vote(vs[k].i, vs[k].pred, vs[k].w)
			}
			for i := 0; i < cases; i++ {
				w := winners(vs, i)
				rep := 2
				if len(w) > 1 {
					rep = 12 // the order in which Go walks a map varies
				}
				for r := 0; r < rep; r++ {
					got := bb.Tally(i)
					if len(w) == 0 {
						c.Check(got == "NA", "votes %v: case %d without votes is predicted %q", vs, i, got)
					} else {
						c.Check(in(got, w), "votes %v in order %v: case %d is predicted %q, the most votes are for %q", vs, p, i, got, w)
					}
					if n == 0 && r == 0 {
						first[i] = got
					}
					c.Check(got == first[i], "votes %v: case %d is predicted %q or %q, depending on the order of the votes (%v) or the call", vs, i, first[i], got, p)
				}
				c.Eval(1)
			}
			n++
		})
		c.Outcome("%q", first)
	}
}

func numTally(c *mc.Ctx) {
	cases := 2
	vs := genVotes(c, cases, c.Int(4, 5), []string{"1", "-0.5", "3e2", "oops"}, []float64{1, 0.5, 0, 3})
	orders(len(vs), func(p []int) {
		bb := C.NewNumBallotBox(cases)
		sb := C.NewSumBallotBox(cases)
		for _, k := range p {
			bb.Vote(vs[k].i, vs[k].pred, vs[k].w)
			sb.Vote(vs[k].i, vs[k].pred, vs[k].w)
		}
		for i := 0; i < cases; i++ {
			sum, w := 0.0, 0.0
			for _, v := range vs {
				if x, err := strconv.ParseFloat(v.pred, 64); err == nil && v.i == i {
					sum += x * v.w
					w += v.w
				}
			}
			for r := 0; r < 2; r++ {
				got := bb.Tally(i)
				if w == 0 {
					c.Check(got == "NA", "votes %v: case %d without votes is predicted %q", vs, i, got)
				} else {
					g, err := strconv.ParseFloat(got, 64)
					c.Check(err == nil && cf.Close(g, sum/w, 1e-12), "votes %v in order %v: case %d is predicted %q, the mean is %v", vs, p, i, got, sum/w)
					c.Check(cf.Close(bb.TallyNum(i), sum/w, 1e-12), "votes %v in order %v: TallyNum of case %d is %v, the mean is %v", vs, p, i, bb.TallyNum(i), sum/w)
				}
				g, err := strconv.ParseFloat(sb.Tally(i), 64)
				c.Check(err == nil && cf.Close(g, sum, 1e-12) && cf.Close(sb.TallyNum(i), sum, 1e-12), "votes %v in order %v: the sum for case %d is %q (%v), not %v", vs, p, i, sb.Tally(i), sb.TallyNum(i), sum)
			}
			c.Eval(1)
		}
	})
	c.Outcome("%d", len(vs))
}

// oddWeights: tiny and negative weights, as boosting may give, whose sum is positive.
func oddWeights(c *mc.Ctx) {
	n := 1 + c.Choose(c.Int(3, 4), "votes - 1")
	ws := []float64{0x1p-40, -0.25, 1, 0x1p30}
	ps := []string{"1", "-0.5", "300"}
	cs := map[string]string{"1": "b", "-0.5": "a", "300": "c"}
	var vs, cvs []vote
	sum, w := 0.0, 0.0
	for k := 0; k < n; k++ {
		v := vote{0, mc.Pick(c, ps, "prediction"), mc.Pick(c, ws, "weight")}
		vs = append(vs, v)
		cvs = append(cvs, vote{0, cs[v.pred], v.w})
		x, _ := strconv.ParseFloat(v.pred, 64)
		sum += x * v.w
		w += v.w
	}
	c.State(fmt.Sprint(vs))
	c.Step(n)
	orders(n, func(p []int) {
		bb, sb, kb := C.NewNumBallotBox(1), C.NewSumBallotBox(1), C.NewCatBallotBox(1)
		mean := w >= 1e-3 || n == 1 && w > 0
		part := 0.0
		for _, k := range p {
			bb.Vote(0, vs[k].pred, vs[k].w)
			sb.Vote(0, vs[k].pred, vs[k].w)
			kb.Vote(0, cvs[k].pred, cvs[k].w)
			part += vs[k].w
			if math.Abs(part) < 1e-3 && part != 0x1p-40 && part != 0x1p-39 && part != 3*0x1p-40 {
				mean = false // weights cancel on the way: there is no mean of them
			}
		}
		if mean {
			g, err := strconv.ParseFloat(bb.Tally(0), 64)
			c.Check(err == nil && cf.Close(g, sum/w, 1e-6), "votes %v in order %v: %v is predicted, the mean is %v", vs, p, bb.Tally(0), sum/w)
		}
		c.Check(cf.Close(sb.TallyNum(0), sum, 1e-9), "votes %v in order %v: the sum is %v, not %v", vs, p, sb.TallyNum(0), sum)
		if win := winners(cvs, 0); len(win) > 0 {
			c.Check(in(kb.Tally(0), win), "votes %v in order %v: %q is predicted, the most votes are for %q", cvs, p, kb.Tally(0), win)
		} else {
			c.Check(kb.Tally(0) == "NA", "votes %v in order %v: %q is predicted without weight", cvs, p, kb.Tally(0))
		}
		c.Eval(1)
	})
	c.Outcome("%d %v", n, w > 0)
}

// balanced classification error
func catError(c *mc.Ctx) {
	n := c.Int(4, 5)
	declared := c.Choose(2, "unused category") // a category without cases
	names := []string{"x", "a", "b"}
	if declared == 0 {
		names = names[1:]
	}
	ref := make([]int, n)
	var vals []string
	for i := range ref {
		ref[i] = c.Choose(3, "true") - 1
		if ref[i] < 0 {
			vals = append(vals, "")
		} else {
			ref[i] += declared
			vals = append(vals, names[ref[i]])
		}
	}
	f := cf.Cat("C:t", names, ref)
	bb := C.NewCatBallotBox(n)
	var pred []string
	rev := c.Bool("votes cast backwards")
	for k := 0; k < n; k++ {
		pred = append(pred, []string{"a", "b", "", "other"}[c.Choose(4, "voted")])
	}
	for k := range pred {
		i := k
		if rev {
			i = n - 1 - k
		}
		if pred[i] != "" {
			bb.Vote(i, pred[i], 1)
		}
	}
	c.State(fmt.Sprint(vals, pred))
	c.Step(1)
	total, right := map[string]float64{}, map[string]float64{}
	for i, v := range vals {
		if v != "" {
			total[v]++
			if pred[i] == v {
				right[v]++
			}
		}
	}
	if len(total) == 0 {
		c.Discard()
	}
	want := 1.0
	for k := range total {
		want -= right[k] / total[k] / float64(len(total))
	}
	for r := 0; r < 2; r++ {
		got := bb.TallyError(f)
		c.Check(cf.Close(got, want, 1e-12), "true categories %q, predictions %q: error %v, should be %v", vals, pred, got, want)
	}
	for i := range pred {
		w := pred[i]
		if w == "" {
			w = "NA"
		}
		c.Check(bb.Tally(i) == w, "computing the error changed the prediction of case %d", i)
	}
	got, bad := cf.Of(f)
	c.Check(bad == "" && strings.Join(got.Vals, ",") == strings.Join(vals, ","), "computing the error changed the target")
	c.Eval(1)
	c.Outcome("%.3f", want)
}

// squared error over cases with a true value and votes
func numError(c *mc.Ctx) {
	n := 4
	nan := math.NaN()
	truth := make([]float64, n)
	pred := make([]float64, n)
	bb := C.NewNumBallotBox(n)
	weight := mc.Pick(c, []float64{1, 0.125}, "weight")
	for i := range truth {
		truth[i] = mc.Pick(c, []float64{2, -1, nan}, "true")
		pred[i] = mc.Pick(c, []float64{2, -1.5, nan}, "voted")
		if !math.IsNaN(pred[i]) {
			bb.Vote(i, fmt.Sprint(pred[i]-1), weight)
			bb.Vote(i, fmt.Sprint(pred[i]+0.5), 2*weight)
		}
	}
	c.State(fmt.Sprint(truth, pred, weight))
	f := cf.Num("N:t", truth)
	se, cnt, sum, tot := 0.0, 0, 0.0, 0
	for i := range truth {
		if math.IsNaN(truth[i]) {
			continue
		}
		sum += truth[i]
		tot++
		if !math.IsNaN(pred[i]) {
			se += (truth[i] - pred[i]) * (truth[i] - pred[i])
			cnt++
		}
	}
	if cnt == 0 {
		c.Discard()
	}
	se /= float64(cnt)
	variance := 0.0
	for i := range truth {
		if !math.IsNaN(truth[i]) {
			variance += (truth[i] - sum/float64(tot)) * (truth[i] - sum/float64(tot))
		}
	}
	variance /= float64(tot)
	c.Step(1)
	for r := 0; r < 2; r++ {
		got := bb.TallySquaredError(f)
		c.Check(cf.Close(got, se, 1e-12), "true values %v, predictions %v: squared error %v, should be %v", truth, pred, got, se)
		if variance > 0 {
			got = bb.TallyError(f)
			c.Check(cf.Close(got, se/variance, 1e-9), "true values %v, predictions %v: error relative to the variance %v, should be %v", truth, pred, got, se/variance)
			got = bb.TallyR2Score(f)
			c.Check(cf.Close(got, 1-se/variance, 1e-9), "true values %v, predictions %v: R2 %v, should be %v", truth, pred, got, 1-se/variance)
		}
	}
	c.Eval(1)
	c.Outcome("%.3f", se)
}

// the boxes agree with the interface used by trees, whatever the number of cases
func sizes(c *mc.Ctx) {
	ns := []int{0, 1, 2, 17, 1000, 5000}
	if c.Thorough() {
		ns = append(ns, 33, 64, 257, 512, 1025, 4097, 66000)
	}
	n := mc.Pick(c, ns, "cases")
	k := mc.Pick(c, []int{1, 2, 9, 40}, "categories")
	bb := C.NewCatBallotBox(n)
	nb := C.NewNumBallotBox(n)
	c.State(fmt.Sprint(n, k))
	names := cf.Names(k)
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			w := 1.0
			if j == i%k {
				w = 2
			}
			bb.Vote(i, names[j], w)
			nb.Vote(i, fmt.Sprint(j), w)
		}
	}
	c.Step(2 * n * k)
	for i := 0; i < n; i++ {
		c.Check(bb.Tally(i) == names[i%k], "case %d of %d is predicted %q, has most votes for %q", i, n, bb.Tally(i), names[i%k])
		want := (float64(k*(k-1)/2) + float64(i%k)) / float64(k+1)
		c.Check(cf.Close(nb.TallyNum(i), want, 1e-9), "case %d of %d: mean %v, should be %v", i, n, nb.TallyNum(i), want)
	}
	c.Check(bb.NCats() == k || n == 0, "%d categories voted for, the box knows %d", k, bb.NCats())
}

// many: forests of many trees
func many(c *mc.Ctx) {
	n := mc.Pick(c, []int{9, 100, 127, 128, 129, 255, 256, 257, 300, 1000, 4096, 32767, 32769, 65535, 65537, 100000}, "votes")
	w := mc.Pick(c, []float64{1, 0.5, 3}, "weight")
	k := 2 + c.Choose(2, "categories")
	late := c.Bool("the winner's votes come last")
	bb, nb, sb := C.NewCatBallotBox(2), C.NewNumBallotBox(2), C.NewSumBallotBox(2)
	names := []string{"m", "a", "z"}[:k]
	win := c.Choose(k, "winner")
	what := fmt.Sprintf("%d votes of weight %v for each of %d categories, %q has one more", n, w, k, names[win])
	extra := func() {
		bb.Vote(1, names[win], w)
		nb.Vote(1, fmt.Sprint(win), w)
		sb.Vote(1, fmt.Sprint(win), w)
	}
	if !late {
		extra()
	}
	for i := 0; i < n; i++ {
		for j := 0; j < k; j++ {
			bb.Vote(1, names[j], w)
			nb.Vote(1, fmt.Sprint(j), w)
			sb.Vote(1, fmt.Sprint(j), w)
		}
	}
	if late {
		extra()
	}
	c.State(what)
	c.Step(3 * n * k)
	c.Check(bb.Tally(1) == names[win], "%s: %q is predicted", what, bb.Tally(1))
	c.Check(bb.Tally(0) == "NA", "%s: a case without votes is predicted %q", what, bb.Tally(0))
	sum := float64(n*k*(k-1)/2 + win)
	got := nb.TallyNum(1)
	c.Check(math.Abs(got-sum/float64(n*k+1)) <= 1e-9, "%s: mean %v, should be %v", what, got, sum/float64(n*k+1))
	got = sb.TallyNum(1)
	c.Check(cf.Close(got, sum*w, 1e-9), "%s: sum %v, should be %v", what, got, sum*w)
	c.Eval(3)
	c.Outcome("%d %d", k, win)
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C12", Quick: 150, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one sequence of votes cast in every order (all permutations up to 4 votes); tallies and errors are compared with direct evaluation of their definition",
		Assumptions: []string{"cases without votes count as wrong in the balanced classification error, are left out of the squared error", "categories without cases are left out of the balanced error", "weights are not negative", "Go's map order cannot be controlled: tied tallies are repeated 12 times for every order"},
		Scenarios: []mc.Scenario{
			{Name: "categorical", Run: catTally([]string{"b", "a", "c"}, []float64{1, 0.5, 0}, func(c *mc.Ctx) int { return c.Int(3, 4) }, 2), Bound: "up to 3 (4) votes for 2 cases, 3 categories, 3 weights, in every order"},
			{Name: "categorical, one case", Run: catTally([]string{"b", "a", "c", "NA", ""}, []float64{1, 2}, func(c *mc.Ctx) int { return c.Int(4, 5) }, 1), Bound: "up to 4 (5) votes for one case, 5 categories, 2 weights, in every order"},
			{Name: "numeric and sum", Run: numTally, Bound: "up to 4 (5) votes for 2 cases, 4 predictions (one unparsable), 4 weights including 0, in every order"},
			{Name: "weights", Run: oddWeights, Bound: "1..3 (4) votes for one case, 3 predictions, weights 2^-40, -1/4, 1 and 2^30, in every order"},
			{Name: "balanced error", Run: catError, Bound: "4 (5) cases, every true category or missing, every vote (none, right, wrong, unknown), with and without a category without cases"},
			{Name: "squared error", Run: numError, Bound: "4 cases, every true value or missing, every prediction or none, 2 weights"},
			{Name: "many votes", Run: many, Bound: "16 numbers of votes from 9 to 100000 (around 2^7, 2^8, 2^15 and 2^16) for each of 2..3 categories and one more for one of them, 3 weights"},
			{Name: "sizes", Run: sizes, Bound: "0..5000 (66000) cases, 1..40 categories"},
		},
	})
}

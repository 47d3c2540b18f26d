// C22: the Welch test returns correct p-values.
package main

import (
	"fmt"
	"math"

	"github.com/ryanbressler/CloudForest/stats"
	"verifmc/cf"
	"verifmc/mc"
	"verifmc/ref"
)

// check runs one pair of samples.
func check(c *mc.Ctx, a, b []float64) float64 {
	ca, cb := append([]float64{}, a...), append([]float64{}, b...)
	var p, t, v, am float64
	bad := c.Try(func() { p, t, v, am = stats.Ttest(&a, &b) })
	c.Check(bad == "", "testing %v > %v: %s", ca, cb, bad)
	c.Check(fmt.Sprint(a) == fmt.Sprint(ca) && fmt.Sprint(b) == fmt.Sprint(cb), "testing %v > %v changes the samples", ca, cb)
	c.Eval(1)
	wp, wt, wv, ok := ref.Welch(a, b)
	if !ok {
		c.Check(!(p < 0.4), "testing %v > %v without any variance is significant: p %v", a, b, p)
		return math.NaN()
	}
	if math.IsNaN(wp) {
		return wp
	}
	m, _ := ref.Moments(a)
	// the statistics are only as good as the data allow
	am2, av := ref.Moments(a)
	bm2, bv := ref.Moments(b)
	scale := math.Max(math.Abs(am2), math.Abs(bm2))
	cond := 1e-12 + 1e-13*scale/math.Sqrt(av/float64(len(a))+bv/float64(len(b)))*(1+math.Abs(wt))
	tol := 1e-7 + 100*cond
	c.Check(cf.Close(am, m, 1e-9), "testing %v > %v: the mean is reported as %v", a, b, am)
	c.Check(cf.Close(t, wt, tol), "testing %v > %v: t is %v instead of %v", a, b, t, wt)
	c.Check(cf.Close(v, wv, tol), "testing %v > %v: %v degrees of freedom instead of %v", a, b, v, wv)
	c.Check(p >= 0 && p <= 1, "testing %v > %v: p is %v", a, b, p)
	c.Check(math.Abs(p-wp) <= tol, "testing %v > %v: p is %v instead of %v (t %v, %v degrees of freedom)", a, b, p, wp, wt, wv)
	if wp > 1e-12 && wp < 0.5 {
		c.Check(math.Abs(p-wp) <= wp*(1e-4+1e4*cond), "testing %v > %v: p is %v instead of %v, a relative error of %v", a, b, p, wp, p/wp-1)
	}
	return p
}

func both(c *mc.Ctx, a, b []float64) {
	p, q := check(c, a, b), check(c, b, a)
	if !math.IsNaN(p) {
		c.Check(math.Abs(p+q-1) <= 1e-9, "%v > %v has p %v, the reverse %v", a, b, p, q)
		// a larger difference is more significant
		for _, d := range []float64{0.25, 3} {
			a2 := make([]float64, len(a))
			for i := range a {
				a2[i] = a[i] + d
			}
			r := check(c, a2, b)
			c.Check(r <= p+1e-9, "%v > %v has p %v, %v > %v has %v", a, b, p, a2, b, r)
		}
	}
	c.Statef("%v %v", a, b)
	c.Outcome("%.1f", p)
}

// multiset chooses values in ascending order.
func multiset(c *mc.Ctx, n int, alphabet []float64) (out []float64) {
	k := 0
	for i := 0; i < n; i++ {
		k += c.Choose(len(alphabet)-k, "value")
		out = append(out, alphabet[k])
	}
	return
}

func samples(c *mc.Ctx) {
	al := []float64{0, 0.1, 0.3, 1, -2.5}
	if c.Thorough() {
		al = []float64{0, 0.1, 0.3, 1, -2.5, 40}
	}
	lo := c.Int(3, 4)
	a := multiset(c, 1+c.Choose(lo, "size"), al)
	b := multiset(c, 1+c.Choose(lo, "size"), al)
	both(c, a, b)
}

// orders: the result does not depend on the order.
func orders(c *mc.Ctx) {
	seq := func() (out []float64) {
		n := 2 + c.Choose(2, "size")
		for i := 0; i < n; i++ {
			out = append(out, mc.Pick(c, []float64{0.1, 0.7, -3}, "value"))
		}
		return
	}
	a, b := seq(), seq()
	both(c, a, b)
}

// grid has samples with chosen size, mean and spread.
func grid(c *mc.Ctx) {
	make := func(which string) []float64 {
		n := mc.Pick(c, []int{2, 3, 5, 10, 30, 100, 400, 2000}, "size "+which)
		spread := mc.Pick(c, []float64{0, 1e-6, 0.1, 1, 50}, "spread "+which)
		out := []float64{}
		for i := 0; i < n; i++ {
			out = append(out, spread*(float64(i)/float64(n-1)-0.5))
		}
		return out
	}
	a, b := make("A"), make("B")
	base := mc.Pick(c, []float64{0, 1, -7, 1000, 1e6}, "offset")
	shift := mc.Pick(c, []float64{0, 1e-3, 0.03, 0.3, 1, -0.1, -20}, "difference")
	for i := range a {
		a[i] += base + shift
	}
	for i := range b {
		b[i] += base
	}
	both(c, a, b)
}

func main() {
	mc.Main(mc.Spec{
		Property: "C22", Quick: 150, ThoroughS: 800,
		Rule:        "an execution tests a pair of samples, the swapped pair and two shifted pairs; p, t and the degrees of freedom must be those of a textbook Welch test whose tail probability is integrated numerically",
		Assumptions: []string{"accuracy: 1e-7 absolute, 1e-4 relative for p above 1e-12, less where the mean dwarfs the spread", "without variance (a spread below the rounding of the mean) or with single observations any p of at least 0.4 or an undefined p will do"},
		Scenarios: []mc.Scenario{
			{Name: "samples", Run: samples, Bound: "every pair of multisets of 1..3 (4) values out of 5 (6)"},
			{Name: "orders", Run: orders, Bound: "every pair of sequences of 2..3 values out of 3"},
			{Name: "grid", Run: grid, Bound: "sizes 2..2000, spreads 0..50, offsets up to 1e6, 7 differences: every combination"},
		},
	})
}

// C21: sorting by another slice orders it and keeps pairs together.
package main

import (
	"fmt"
	"math"

	CloudForest "github.com/ryanbressler/CloudForest"
	"github.com/ryanbressler/CloudForest/sortby"
	"verifmc/mc"
	"verifmc/ref"
)

// verify sorts a copy of vals (with extra values behind the cases) and checks
// order, permutation and pairing. mode: 0 SortBy, 1 SortableFeature.Sort,
// 2 SortableFeature.Load from a column, then Sort.
func verify(c *mc.Ctx, vals []float64, mode, extra int) {
	n := len(vals)
	cases := make([]int, n, n+1)
	for i := range cases {
		cases[i] = 1000 + 7*i
	}
	v := append(append([]float64{}, vals...), make([]float64, extra)...)
	for i := n; i < n+extra; i++ {
		v[i] = -1e9 - float64(i)
	}
	base := func(cs int) int { return (cs - 1000) / 7 }
	switch mode {
	case 0:
		sortby.SortBy(&cases, &v)
	case 1:
		sf := &CloudForest.SortableFeature{Vals: v, Cases: cases}
		sf.Sort()
		v, cases = sf.Vals, sf.Cases
	case 2:
		col := make([]float64, n)
		copy(col, vals)
		for i := range cases {
			cases[i] = i
		}
		base = func(cs int) int { return cs }
		buf := make([]float64, n+extra)
		for i := n; i < n+extra; i++ {
			buf[i] = v[i]
		}
		sf := &CloudForest.SortableFeature{Vals: buf, Cases: nil}
		sf.Load(&col, &cases)
		sf.Sort()
		v, cases = sf.Vals, sf.Cases
		for i := range col {
			c.Check(col[i] == vals[i], "sorting changed the column it loaded from: %v -> %v", vals, col)
		}
	}
	c.Eval(1)
	c.Check(len(cases) == n && len(v) == n+extra, "lengths changed: %d cases %d values of %d", len(cases), len(v), n)
	seen := make([]bool, n)
	for i := 0; i < n; i++ {
		if i > 0 && !(v[i-1] <= v[i]) {
			c.Failf("mode %d: not sorted at %d of %d: %v > %v\ninput %v\noutput %v", mode, i, n, v[i-1], v[i], vals, v[:n])
		}
		b := base(cases[i])
		if b < 0 || b >= n || seen[b] {
			c.Failf("mode %d: cases are not a permutation: %v (input %v)", mode, cases, vals)
		}
		seen[b] = true
		if vals[b] != v[i] {
			c.Failf("mode %d: case %d lost its value: has %v, should have %v (input %v)", mode, cases[i], v[i], vals[b], vals)
		}
	}
	for i := n; i < n+extra; i++ {
		c.Check(v[i] == -1e9-float64(i), "value %d beyond the cases changed", i)
	}
	// canonical state: the weak ordering of the input
	c.State(fmt.Sprint(n, mode, hashv(vals)))
	c.Step(n)
}

func hashv(v []float64) uint64 {
	h := uint64(1469598103934665603)
	for _, x := range v {
		h = (h ^ math.Float64bits(x)) * 0x9e3779b97f4a7c15
		h ^= h >> 29
	}
	return h
}

// weak builds every weak ordering of n items exactly once: each new item is
// placed on or between the distinct values so far.
func weak(c *mc.Ctx, n int) []float64 {
	out := make([]float64, 0, n)
	var distinct []float64 // ascending
	for i := 0; i < n; i++ {
		k := c.Choose(2*len(distinct)+1, "")
		var x float64
		if k%2 == 1 {
			x = distinct[k/2]
		} else {
			p := k / 2
			switch {
			case len(distinct) == 0:
				x = 0
			case p == 0:
				x = distinct[0] - 1
			case p == len(distinct):
				x = distinct[p-1] + 1
			default:
				x = (distinct[p-1] + distinct[p]) / 2
			}
			distinct = append(distinct[:p], append([]float64{x}, distinct[p:]...)...)
		}
		out = append(out, x)
	}
	return out
}

var extremes = []float64{0, math.Copysign(0, -1), math.MaxFloat64, -math.MaxFloat64, math.Inf(1), math.Inf(-1), math.SmallestNonzeroFloat64, 1, math.Nextafter(1, 2)}

func main() {
	mc.Main(mc.Spec{
		Property: "C21", Quick: 100, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one input sorted by the real code; every weak ordering of up to 8 (thorough 9) items, every ternary word of length up to 13 (15), and all structured families at every length around the code's thresholds; all are distinct inputs",
		Assumptions: []string{"NaN values are outside the domain (a NaN has no place in an order)"},
		Scenarios: []mc.Scenario{
			{Name: "weak-orderings", Bound: "every weak ordering of 0..8 items (thorough 9), three entry points, with and without spare values", Run: func(c *mc.Ctx) {
				n := c.Choose(c.Int(9, 10), "n")
				mode := 0
				extra := 1
				if n <= 6 {
					mode = c.Choose(3, "mode")
					extra = c.Choose(2, "extra")
				}
				verify(c, weak(c, n), mode, extra)
			}},
			{Name: "words", Bound: "every word of length 9..13 (15) over 3 values, to 16 (20) over 2 values", Run: func(c *mc.Ctx) {
				k := 2 + c.Choose(2, "alphabet")
				lo, hi := 9, c.Int(16, 20)
				if k == 3 {
					hi = c.Int(12, 14)
				}
				n := lo + c.Choose(hi-lo+1, "n")
				v := make([]float64, n)
				for i := range v {
					v[i] = float64(c.Choose(k, ""))
				}
				verify(c, v, 0, 0)
			}},
			{Name: "extremes", Bound: "every word of length 1..5 over 9 extreme floats; of length 8 over pairs of them", Run: func(c *mc.Ctx) {
				n := 1 + c.Choose(5, "n")
				v := make([]float64, n)
				for i := range v {
					v[i] = extremes[c.Choose(len(extremes), "")]
				}
				for len(v) > 2 && len(v) < 9 {
					v = append(v, v...)
				}
				verify(c, v, 0, 1)
			}},
			{Name: "families", Bound: "5 distributions x 7 rearrangements x periods 1,2,3,.. at every length 2..80 and around 100..2000", Run: func(c *mc.Ctx) {
				var ns []int
				for i := 2; i <= 80; i++ {
					ns = append(ns, i)
				}
				ns = append(ns, 100, 127, 128, 129, 255, 256, 257, 500, 511, 512, 513, 1000)
				if c.Thorough() {
					ns = append(ns, 2000, 4095, 4096)
				}
				n := mc.Pick(c, ns, "n")
				kind := c.Choose(ref.Kinds, "kind")
				m := mc.Pick(c, []int{1, 2, 3, 4, 5, 7, 8, 16, 31, 64, n/2 + 1, n, 2 * n}, "m")
				for order := 0; order < ref.Orders; order++ {
					verify(c, ref.Family(n, kind, m, order), c.Choose(1, ""), 1)
				}
				c.Sample("n=%d kind=%d m=%d", n, kind, m)
			}},
			{Name: "killers", Bound: "quicksort killers of every length 8..300 (1000), their reversals and shifted variants", Run: func(c *mc.Ctx) {
				n := 8 + c.Choose(c.Int(293, 993), "n")
				v := ref.Killer(n)
				switch c.Choose(4, "variant") {
				case 1:
					for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
						v[i], v[j] = v[j], v[i]
					}
				case 2:
					for i := range v {
						v[i] = math.Floor(v[i] / 2)
					}
				case 3:
					for i := range v {
						v[i] = -v[i]
					}
				}
				mode := c.Choose(3, "mode")
				verify(c, v, mode, 1)
				c.Sample("killer n=%d mode=%d", n, mode)
			}},
		},
	})
}

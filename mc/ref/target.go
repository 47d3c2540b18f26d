package ref

import (
	"fmt"
	"math"
)

// T is a plain definition of an impurity, its weighted split version and its
// leaf prediction over one response column. Everything is computed from the
// definition, by cases, with no shared state.
type T struct {
	Kind    string
	Num     []float64 // numeric response
	Cat     []int     // categorical response (category numbers)
	NCats   int
	W       []float64 // per category costs/weights
	CW      []float64 // per case weights (boosting)
	Pos     int       // positive class
	Alpha   float64
	Kappa   float64
	Actual  []float64 // two class gradient boosting: the 0/1 labels
	MinImp  float64
	IsScore bool // the split is scored directly, the impurity of a node is a marker
}

func (t *T) counts(cases []int) []float64 {
	n := make([]float64, t.NCats)
	for _, i := range cases {
		n[t.Cat[i]]++
	}
	return n
}

func mean(x []float64, cases []int) float64 {
	s := 0.0
	for _, i := range cases {
		s += x[i]
	}
	return s / float64(len(cases))
}

func first(v []float64) int {
	m := 0
	for i := range v {
		if v[i] > v[m] {
			m = i
		}
	}
	return m
}

func mul(a, b []float64) []float64 {
	out := make([]float64, len(a))
	for i := range a {
		out[i] = a[i] * b[i]
	}
	return out
}

// Modular is an impurity without any structure: it may go up or down when
// cases are set apart or put together.
func Modular(cases, cats []int) float64 {
	x := uint32(1)
	for _, i := range cases {
		x *= 2*uint32(i*3+cats[i]+1)*2654435 + 1 // in any order
	}
	x ^= x >> 15
	x *= 2246822519
	x ^= x >> 13
	return 0.12*float64(len(cases)*len(cases)) + float64(x%8)
}

// Imp is the impurity of a non empty set of cases.
func (t *T) Imp(cases []int) float64 {
	n := float64(len(cases))
	switch t.Kind {
	case "modular":
		return Modular(cases, t.Cat)
	case "num":
		m := mean(t.Num, cases)
		s := 0.0
		for _, i := range cases {
			s += (t.Num[i] - m) * (t.Num[i] - m)
		}
		return s
	case "l1":
		m := mean(t.Num, cases)
		s := 0.0
		for _, i := range cases {
			s += math.Abs(t.Num[i] - m)
		}
		return s / n
	case "ordinal":
		m := t.mode(cases)
		s := 0.0
		for _, i := range cases {
			s += (t.Num[i] - m) * (t.Num[i] - m)
		}
		return s / n
	case "numada":
		m := mean(t.Num, cases)
		s := 0.0
		for _, i := range cases {
			s += t.CW[i] * math.Abs(t.Num[i]-m)
		}
		return s
	case "gini", "trans0":
		e := 1.0
		for _, c := range t.counts(cases) {
			e -= (c / n) * (c / n)
		}
		return e
	case "wrf":
		tot, e := 0.0, 1.0
		cs := t.counts(cases)
		for k, c := range cs {
			tot += c * t.W[k]
		}
		for k, c := range cs {
			p := c * t.W[k] / tot
			e -= p * p
		}
		return e
	case "entropy", "dentropy":
		e := 0.0
		for k, c := range t.counts(cases) {
			if c > 0 {
				w := 1.0
				if t.Kind == "dentropy" {
					w = t.W[k]
				}
				e -= w * (c / n) * math.Log(c/n)
			}
		}
		return e
	case "regret": // average cost of predicting the costliest class
		cost := mul(t.counts(cases), t.W)
		tot := 0.0
		for _, x := range cost {
			tot += x
		}
		return (tot - cost[first(cost)]) / n
	case "np":
		cs := t.counts(cases)
		vote := append([]float64{}, cs...)
		vote[t.Pos] /= t.Alpha
		pos := cs[t.Pos]
		if first(vote) == t.Pos {
			return t.Kappa * math.Max((n-pos)/n-t.Alpha, 0)
		}
		return pos / n
	case "ada", "adacost":
		m := first(t.counts(cases))
		e := 0.0
		for _, i := range cases {
			if t.Cat[i] != m {
				w := t.CW[i]
				if t.Kind == "adacost" {
					w *= t.W[t.Cat[i]]
				}
				e += w
			}
		}
		return e
	}
	panic("ref: no impurity for " + t.Kind)
}

func (t *T) mode(cases []int) float64 {
	n := map[float64]int{}
	best, bn := 0.0, 0
	for _, i := range cases {
		n[t.Num[i]]++
	}
	for v, k := range n {
		if k > bn || (k == bn && v < best) {
			best, bn = v, k
		}
	}
	return best
}

// Split is the case weighted impurity of a split into non empty parts; m may
// be empty. For scored targets it is the score.
func (t *T) Split(l, r, m []int) float64 {
	nl, nr := float64(len(l)), float64(len(r))
	switch t.Kind {
	case "hdist":
		lc, rc := t.counts(l), t.counts(r)
		t0, t1 := lc[0]+rc[0], lc[1]+rc[1]
		a := lc[0]/t0 - lc[1]/t1
		b := rc[0]/t0 - rc[1]/t1
		return a*a + b*b
	case "grad", "gradclass":
		d := mean(t.Num, l) - mean(t.Num, r)
		return d * d * nl * nr / (nl + nr)
	}
	s := nl*t.Imp(l) + nr*t.Imp(r)
	n := nl + nr
	if len(m) > 0 {
		s += float64(len(m)) * t.Imp(m)
		n += float64(len(m))
	}
	return s / n
}

// Dec is the decrease in impurity achieved by splitting l+r+m into its parts.
func (t *T) Dec(l, r, m []int) float64 {
	if t.IsScore {
		n := float64(len(l) + len(r))
		return t.Split(l, r, nil) * n / (n + float64(len(m)))
	}
	all := append(append(append([]int{}, l...), r...), m...)
	return t.Imp(all) - t.Split(l, r, m)
}

// Pred is the prediction of a leaf: a number, or a category number.
func (t *T) Pred(cases []int) (num float64, cat int, isCat bool) {
	switch t.Kind {
	case "num", "l1", "numada", "grad":
		return mean(t.Num, cases), 0, false
	case "ordinal":
		return t.mode(cases), 0, false
	case "gradclass":
		a, b := 0.0, 0.0
		for _, i := range cases {
			r, y := t.Num[i], t.Actual[i]
			a += r
			b += math.Abs(y-r) * (1 - math.Abs(y-r))
		}
		return a / b, 0, false
	case "gini", "entropy", "ada", "adacost", "trans0", "modular":
		return 0, first(t.counts(cases)), true
	case "regret", "wrf":
		return 0, first(mul(t.counts(cases), t.W)), true
	case "np":
		v := t.counts(cases)
		v[t.Pos] /= t.Alpha
		return 0, first(v), true
	case "hdist":
		return t.counts(cases)[t.Pos] / float64(len(cases)), 0, false
	case "dentropy":
		w := mul(t.counts(cases), t.W)
		s := 0.0
		for _, x := range w {
			s += x
		}
		return w[t.Pos] / s, 0, false
	}
	panic("ref: no prediction for " + t.Kind)
}

func (t *T) String() string {
	if t.Cat != nil {
		return fmt.Sprint(t.Kind, t.Cat)
	}
	return fmt.Sprint(t.Kind, t.Num)
}

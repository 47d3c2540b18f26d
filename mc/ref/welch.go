package ref

import "math"

// Moments are the mean and the sample variance.
func Moments(x []float64) (m, v float64) {
	for _, a := range x {
		m += a / float64(len(x))
	}
	for _, a := range x {
		v += (a - m) * (a - m)
	}
	return m, v / float64(len(x)-1)
}

// quad integrates sin^(v-1) over [0,b] with a double exponential rule.
func quad(v, b float64) float64 {
	const h = 1.0 / 64
	s := 0.0
	for k := -64 * 5; k <= 64*5; k++ {
		u := float64(k) * h
		// distance from the left end, without cancellation
		e := math.Exp(-math.Pi * math.Sinh(u))
		x := b / (1 + e)
		w := b * math.Pi * math.Cosh(u) * e / ((1 + e) * (1 + e))
		if w > 0 && x > 0 {
			s += w * math.Exp((v-1)*math.Log(math.Sin(x)))
		}
	}
	return s * h
}

var totals = map[float64]float64{}

// Tail is P(T>t) for Student's t with v degrees of freedom.
func Tail(t, v float64) float64 {
	if t < 0 {
		return 1 - Tail(-t, v)
	}
	if totals[v] == 0 {
		if len(totals) > 100000 {
			totals = map[float64]float64{}
		}
		totals[v] = quad(v, math.Pi/2)
	}
	b := math.Pi / 2
	if t > 0 {
		b = math.Atan(math.Sqrt(v) / t)
	}
	return quad(v, b) / totals[v] / 2
}

// Welch is the textbook test of mean(A) > mean(B); ok is false without
// variance.
func Welch(a, b []float64) (p, t, v float64, ok bool) {
	if len(a) < 2 || len(b) < 2 {
		return 0, 0, 0, false
	}
	am, av := Moments(a)
	bm, bv := Moments(b)
	as, bs := av/float64(len(a)), bv/float64(len(b))
	s := as + bs
	switch se := math.Sqrt(s) / math.Max(math.Abs(am), math.Abs(bm)); {
	case s == 0 || se <= 2e-15:
		return 0, 0, 0, false
	case se < 1e-11:
		// the variance is nearly lost to rounding
		return math.NaN(), 0, 0, true
	}
	t = (am - bm) / math.Sqrt(s)
	v = s * s / (as*as/float64(len(a)-1) + bs*bs/float64(len(b)-1))
	return Tail(t, v), t, v, true
}

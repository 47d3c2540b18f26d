// Package ref holds reference models and input families shared by checks.
package ref

// Killer returns an input of length n that drives a median of three / ninther
// quicksort with fat partitioning to quadratic behaviour (McIlroy's adversary
// run against a plain copy of that algorithm), so that an introsort reaches
// its heap sort fallback.
func Killer(n int) []float64 {
	a := &anti{val: make([]int, n), gas: n - 1, cand: -1}
	idx := make([]int, n)
	for i := range idx {
		idx[i] = i
		a.val[i] = n - 1
	}
	a.qs(idx, 0, n)
	out := make([]float64, n)
	for i, v := range a.val {
		out[i] = float64(v)
	}
	return out
}

type anti struct {
	val    []int
	gas    int
	nsolid int
	cand   int
}

func (a *anti) freeze(i int) { a.val[i] = a.nsolid; a.nsolid++ }

// cmp compares items x and y, deciding lazily.
func (a *anti) cmp(x, y int) int {
	if a.val[x] == a.gas && a.val[y] == a.gas && x != y {
		if x == a.cand {
			a.freeze(x)
		} else {
			a.freeze(y)
		}
	}
	if a.val[x] == a.gas {
		a.cand = x
	} else if a.val[y] == a.gas {
		a.cand = y
	}
	return a.val[x] - a.val[y]
}

func (a *anti) med(d []int, x, m, z int) {
	m0, m1, m2 := m, x, z
	if a.cmp(d[m1], d[m0]) < 0 {
		d[m1], d[m0] = d[m0], d[m1]
	}
	if a.cmp(d[m2], d[m1]) < 0 {
		d[m2], d[m1] = d[m1], d[m2]
	}
	if a.cmp(d[m1], d[m0]) < 0 {
		d[m1], d[m0] = d[m0], d[m1]
	}
}

func (a *anti) qs(d []int, lo, hi int) {
	for hi-lo > 7 {
		p, q := a.part(d, lo, hi)
		if p-lo < hi-q {
			a.qs(d, lo, p)
			lo = q
		} else {
			a.qs(d, q, hi)
			hi = p
		}
	}
	for i := lo + 1; i < hi; i++ {
		for j := i; j > lo && a.cmp(d[j], d[j-1]) < 0; j-- {
			d[j], d[j-1] = d[j-1], d[j]
		}
	}
}

func (a *anti) part(x []int, lo, hi int) (int, int) {
	m := lo + (hi-lo)/2
	if hi-lo > 40 {
		s := (hi - lo) / 8
		a.med(x, lo, lo+s, lo+2*s)
		a.med(x, m, m-s, m+s)
		a.med(x, hi-1, hi-1-s, hi-1-2*s)
	}
	a.med(x, lo, m, hi-1)
	p := x[lo]
	i, b, c, d := lo+1, lo+1, hi, hi
	for {
		for b < c {
			k := a.cmp(x[b], p)
			if k < 0 {
				b++
			} else if k == 0 {
				x[i], x[b] = x[b], x[i]
				i++
				b++
			} else {
				break
			}
		}
		for b < c {
			c--
			k := a.cmp(p, x[c])
			if k < 0 {
			} else if k == 0 {
				d--
				x[c], x[d] = x[d], x[c]
			} else {
				c++
				break
			}
		}
		if b >= c {
			break
		}
		c--
		x[c], x[b] = x[b], x[c]
		b++
	}
	n := min(b-i, i-lo)
	for k := 0; k < n; k++ {
		x[lo+k], x[b-n+k] = x[b-n+k], x[lo+k]
	}
	n = min(hi-d, d-c)
	for k := 0; k < n; k++ {
		x[c+k], x[hi-n+k] = x[hi-n+k], x[c+k]
	}
	return lo + b - i, hi - (d - c)
}

// Family builds one of the Bentley and McIlroy certification inputs: kind
// selects the distribution, m its period, order the rearrangement.
func Family(n, kind, m, order int) []float64 {
	v := make([]float64, n)
	j, k := 0, 1
	seed := uint64(n*31 + m)
	for i := range v {
		switch kind {
		case 0:
			v[i] = float64(i % m)
		case 1:
			seed = seed*6364136223846793005 + 1442695040888963407
			v[i] = float64((seed >> 33) % uint64(m))
		case 2:
			v[i] = float64((i*m + i) % n)
		case 3:
			v[i] = float64(min(i, m))
		case 4:
			seed = seed*6364136223846793005 + 1442695040888963407
			if (seed>>33)%uint64(m) != 0 {
				j += 2
				v[i] = float64(j)
			} else {
				k += 2
				v[i] = float64(k)
			}
		}
	}
	rev := func(a, b int) {
		for b--; a < b; a, b = a+1, b-1 {
			v[a], v[b] = v[b], v[a]
		}
	}
	switch order {
	case 1:
		rev(0, n)
	case 2:
		rev(0, n/2)
	case 3:
		rev(n/2, n)
	case 4: // sorted
		for i := 1; i < n; i++ {
			for j := i; j > 0 && v[j] < v[j-1]; j-- {
				v[j], v[j-1] = v[j-1], v[j]
			}
		}
	case 5:
		for i := range v {
			v[i] += float64(i % 5)
		}
	case 6: // negative and fractional
		for i := range v {
			v[i] = -v[i]*0.37 - 1e-9
		}
	}
	return v
}

// Kinds and Orders count the families.
const Kinds, Orders = 5, 7

package ref

import "math"

// MinImp is the documented cutoff below which a decrease counts as none, Gap
// the one below which numbers count as equal.
const (
	MinImp = 1e-7
	Gap    = 1e-7
)

// Col is a feature column by value: Num with NaN for missing, or Cat with -1.
type Col struct {
	Num []float64
	Cat []int
}

func (x *Col) Missing(i int) bool {
	if x.Cat != nil {
		return x.Cat[i] < 0
	}
	return math.IsNaN(x.Num[i])
}

// Part divides cases by a rule for the non missing ones.
func (x *Col) Part(cases []int, left func(i int) bool) (l, r, m []int) {
	for _, i := range cases {
		switch {
		case x.Missing(i):
			m = append(m, i)
		case left(i):
			l = append(l, i)
		default:
			r = append(r, i)
		}
	}
	return
}

// Best is the largest decrease any admissible split on the column achieves,
// with the missing cases as a third part, and counting only the others.
func (t *T) Best(x *Col, cases []int, leaf int) (dec, nonmiss float64, any bool) {
	dec, nonmiss = math.Inf(-1), math.Inf(-1)
	try := func(left func(i int) bool) {
		l, r, m := x.Part(cases, left)
		if len(l) < leaf || len(r) < leaf || len(l) == 0 || len(r) == 0 {
			return
		}
		any = true
		if d := t.Dec(l, r, m); d > dec { // an undefined score is no decrease
			dec = d
		}
		if d := t.Dec(l, r, nil); d > nonmiss {
			nonmiss = d
		}
	}
	if x.Cat == nil {
		seen := map[float64]bool{}
		for _, i := range cases {
			v := x.Num[i]
			if math.IsNaN(v) || seen[v] {
				continue
			}
			seen[v] = true
			try(func(j int) bool { return x.Num[j] <= v })
		}
		return
	}
	var cats []int
	seen := map[int]bool{}
	for _, i := range cases {
		if k := x.Cat[i]; k >= 0 && !seen[k] {
			seen[k] = true
			cats = append(cats, k)
		}
	}
	for s := 1; s < 1<<uint(len(cats))-1; s++ {
		set := map[int]bool{}
		for j, k := range cats {
			if s&(1<<uint(j)) != 0 {
				set[k] = true
			}
		}
		try(func(i int) bool { return set[x.Cat[i]] })
	}
	return
}

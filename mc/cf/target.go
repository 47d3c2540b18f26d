package cf

import (
	C "github.com/ryanbressler/CloudForest"
	"verifmc/ref"
)

// Target kinds by response type.
var (
	NumKinds = []string{"num", "l1", "ordinal", "numada", "grad"}
	CatKinds = []string{"gini", "entropy", "dentropy", "regret", "wrf", "np", "ada", "adacost", "trans0"}
	TwoKinds = []string{"hdist", "gradclass"} // two classes only
)

// TargetNames are the class labels used for categorical responses; "True" is
// the positive class of the targets that have one.
var TargetNames = []string{"neg", "True", "other"}

// Costs are the class costs and weights.
var Costs = []float64{1, 2.5, 0.5}

// NumTarget builds a numeric target of the given kind and its definition.
func NumTarget(kind string, vals []float64) (C.Target, *ref.T) {
	f := Num("N:target", vals)
	t := &ref.T{Kind: kind, Num: append([]float64{}, vals...)}
	switch kind {
	case "num":
		return f, t
	case "l1":
		return &C.L1Target{NumFeature: f}, t
	case "ordinal":
		return C.NewOrdinalTarget(f), t
	case "numada":
		a := C.NewNumAdaBoostTarget(f)
		// uneven case weights
		tot := 0.0
		for i := range a.Weights {
			a.Weights[i] = float64(1 + (i*3)%4)
			tot += a.Weights[i]
		}
		for i := range a.Weights {
			a.Weights[i] /= tot
		}
		t.CW = append([]float64{}, a.Weights...)
		return a, t
	case "grad":
		g := C.NewGradBoostTarget(f, 0.1)
		s := 0.0
		for _, v := range vals {
			s += v
		}
		for i := range t.Num {
			t.Num[i] -= s / float64(len(vals))
		}
		t.IsScore = true
		return g, t
	}
	panic(kind)
}

// CatTarget builds a categorical target of the given kind and its definition.
func CatTarget(kind string, ncats int, vals []int) (C.Target, *ref.T) {
	return CatTargetW(kind, ncats, vals, Costs)
}

// CatTargetW is CatTarget with the given class costs and weights.
func CatTargetW(kind string, ncats int, vals []int, costs []float64) (C.Target, *ref.T) {
	f := Cat("C:target", TargetNames[:ncats], vals)
	t := &ref.T{Kind: kind, Cat: append([]int{}, vals...), NCats: ncats, Pos: 1}
	w := map[string]float64{}
	for i := 0; i < ncats; i++ {
		w[TargetNames[i]] = costs[i]
	}
	t.W = costs[:ncats]
	caseWeights := func(ws []float64) {
		tot := 0.0
		for i := range ws {
			ws[i] = float64(1 + (i*3)%4)
			tot += ws[i]
		}
		for i := range ws {
			ws[i] /= tot
		}
		t.CW = append([]float64{}, ws...)
	}
	switch kind {
	case "gini":
		return f, t
	case "entropy":
		return C.NewEntropyTarget(f), t
	case "dentropy":
		d := C.NewDEntropyTarget(f)
		d.SetCosts(w)
		return d, t
	case "regret":
		d := C.NewRegretTarget(f)
		d.SetCosts(w)
		return d, t
	case "wrf":
		return C.NewWRFTarget(f, w), t
	case "np":
		t.Alpha, t.Kappa = 0.4, 2
		return C.NewNPTarget(f, "True", 0.4, 2), t
	case "ada":
		a := C.NewAdaBoostTarget(f)
		caseWeights(a.Weights)
		return a, t
	case "adacost":
		a := C.NewAdaCostTarget(f)
		a.SetCosts(w)
		caseWeights(a.Weights)
		return a, t
	case "trans0":
		fs := []C.Feature{f}
		return C.NewTransTarget(f, &fs, "neg", 0, 1, len(vals)), t
	case "hdist":
		t.IsScore = true
		return C.NewHDistanceTarget(f, "True"), t
	case "gradclass":
		t.IsScore = true
		g := C.NewGradBoostClassTarget(f, 0.1, "True")
		pos := 0.0
		for _, v := range vals {
			if v == 1 {
				pos++
			}
		}
		p := pos / float64(len(vals))
		for _, v := range vals {
			y := 0.0
			if v == 1 {
				y = 1
			}
			t.Actual = append(t.Actual, y)
			t.Num = append(t.Num, y-p)
		}
		return g, t
	}
	panic(kind)
}

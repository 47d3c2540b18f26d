// Package cf builds small CloudForest objects through its exported API.
package cf

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
)

// Miss marks a missing entry of a column description.
const Miss = -1 << 40

// Num builds a numeric column; NaN entries are missing (holding stale 0).
func Num(name string, vals []float64) *C.DenseNumFeature {
	f := &C.DenseNumFeature{Name: name}
	for _, v := range vals {
		if math.IsNaN(v) {
			f.Append("?")
		} else {
			f.Append(strconv.FormatFloat(v, 'g', -1, 64))
		}
	}
	return f
}

// Cat builds a categorical column whose categories are numbered in the order
// of names; -1 is missing.
func Cat(name string, names []string, vals []int) *C.DenseCatFeature {
	f := &C.DenseCatFeature{CatMap: &C.CatMap{Map: map[string]int{}}, Name: name}
	for _, n := range names {
		f.CatToNum(n)
	}
	for _, v := range vals {
		if v < 0 {
			f.Append("NA")
		} else {
			f.Append(names[v])
		}
	}
	return f
}

// Names gives n category names, in an order that is not alphabetical.
func Names(n int) []string {
	out := make([]string, n)
	for i := range out {
		out[i] = fmt.Sprintf("c%c%d", 'a'+(i*7)%26, i)
	}
	return out
}

// FM builds a feature matrix.
func FM(fs ...C.Feature) *C.FeatureMatrix {
	fm := &C.FeatureMatrix{Map: map[string]int{}}
	for i, f := range fs {
		fm.Data = append(fm.Data, f)
		fm.Map[f.GetName()] = i
	}
	if len(fs) > 0 {
		for i := 0; i < fs[0].Length(); i++ {
			fm.CaseLabels = append(fm.CaseLabels, fmt.Sprintf("case%d", i))
		}
	}
	return fm
}

// Describe prints a column.
func Describe(f C.Feature) string {
	var s []string
	for i := 0; i < f.Length(); i++ {
		s = append(s, f.GetStr(i))
	}
	return f.GetName() + "=[" + strings.Join(s, " ") + "]"
}

// Seq is 0..n-1.
func Seq(n int) []int {
	out := make([]int, n)
	for i := range out {
		out[i] = i
	}
	return out
}

// SameMultiset compares two case lists as multisets.
func SameMultiset(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	m := map[int]int{}
	for _, x := range a {
		m[x]++
	}
	for _, x := range b {
		m[x]--
		if m[x] < 0 {
			return false
		}
	}
	return true
}

// Close compares floats with relative and absolute tolerance.
func Close(a, b, tol float64) bool {
	if a == b {
		return true
	}
	if math.IsNaN(a) || math.IsNaN(b) || math.IsInf(a, 0) || math.IsInf(b, 0) {
		return math.IsNaN(a) && math.IsNaN(b)
	}
	d := math.Abs(a - b)
	return d <= tol || d <= tol*math.Max(math.Abs(a), math.Abs(b))
}

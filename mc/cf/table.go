package cf

import (
	"fmt"
	"math"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
)

// Column is the reference for a feature: a name, a type and a list of optional
// values ("" is missing).
type Column struct {
	Name string
	Num  bool
	Vals []string
	// Order is the order of the categories, if it is not that of Vals.
	Order []string
}

// Table is the reference for a feature matrix.
type Table struct {
	Labels []string
	Cols   []Column
}

// CanonNum writes a number so that equal numbers look equal (0 and -0 differ).
func CanonNum(v float64) string { return strconv.FormatFloat(v, 'g', -1, 64) }

// Canon puts the numeric values of a column in canonical form.
func (c Column) String() string {
	var b strings.Builder
	if c.Num {
		b.WriteString("num ")
	} else {
		b.WriteString("cat ")
	}
	b.WriteString(strconv.Quote(c.Name) + " [")
	for i, v := range c.Vals {
		if i > 0 {
			b.WriteByte(' ')
		}
		if v == "" {
			b.WriteByte('-')
		} else if c.Num {
			x, err := strconv.ParseFloat(v, 64)
			if err != nil {
				b.WriteByte('!')
			}
			b.WriteString(CanonNum(x))
		} else {
			b.WriteString(strconv.Quote(v))
		}
	}
	b.WriteByte(']')
	return b.String()
}

func (t Table) String() string {
	s := fmt.Sprintf("labels %q", t.Labels)
	if len(t.Labels) == 0 {
		s = "labels []"
	}
	for _, c := range t.Cols {
		s += "; " + c.String()
	}
	return s
}

// Rows selects cases.
func (t Table) Rows(cases []int) Table {
	var out Table
	for _, i := range cases {
		out.Labels = append(out.Labels, t.Labels[i])
	}
	for _, c := range t.Cols {
		d := Column{Name: c.Name, Num: c.Num}
		for _, i := range cases {
			d.Vals = append(d.Vals, c.Vals[i])
		}
		out.Cols = append(out.Cols, d)
	}
	return out
}

// Of reads a feature through its exported fields and methods, and says when
// they contradict one another.
func Of(f C.Feature) (Column, string) {
	out := Column{Name: f.GetName()}
	anyMissing := false
	n := f.Length()
	switch t := f.(type) {
	case *C.DenseNumFeature:
		out.Num = true
		if len(t.NumData) != n || len(t.Missing) != n {
			return out, fmt.Sprintf("%d values and %d missing marks for length %d", len(t.NumData), len(t.Missing), n)
		}
		if f.NCats() != 0 {
			return out, fmt.Sprintf("numeric feature with %d categories", f.NCats())
		}
	case *C.DenseCatFeature:
		if len(t.CatData) != n || len(t.Missing) != n {
			return out, fmt.Sprintf("%d values and %d missing marks for length %d", len(t.CatData), len(t.Missing), n)
		}
		if p := MapProblem(t.CatMap); p != "" {
			return out, p
		}
	default:
		return out, fmt.Sprintf("unexpected type %T", f)
	}
	for i := 0; i < n; i++ {
		s := f.GetStr(i)
		if f.IsMissing(i) {
			anyMissing = true
			if s != "NA" {
				return out, fmt.Sprintf("case %d is missing but reads as %q", i, s)
			}
			out.Vals = append(out.Vals, "")
			continue
		}
		if t, ok := f.(*C.DenseNumFeature); ok {
			v := t.Get(i)
			if math.IsNaN(v) {
				return out, fmt.Sprintf("case %d is NaN but not missing", i)
			}
			if p, err := strconv.ParseFloat(s, 64); err != nil || p != v {
				return out, fmt.Sprintf("case %d is %v but reads as %q", i, v, s)
			}
			s = CanonNum(v)
		}
		if t, ok := f.(*C.DenseCatFeature); ok && t.NumToCat(t.Geti(i)) != s {
			return out, fmt.Sprintf("case %d is number %d, %q, but reads as %q", i, t.Geti(i), t.NumToCat(t.Geti(i)), s)
		}
		if s == "" {
			return out, fmt.Sprintf("case %d reads as the empty string but is not missing", i)
		}
		out.Vals = append(out.Vals, s)
	}
	if anyMissing && !f.MissingVals() {
		return out, "there are missing values but MissingVals says no"
	}
	return out, ""
}

// MapProblem checks that categories and numbers correspond one to one.
func MapProblem(cm *C.CatMap) string {
	if len(cm.Map) != len(cm.Back) {
		return fmt.Sprintf("%d categories have numbers, %d numbers have categories", len(cm.Map), len(cm.Back))
	}
	for i, s := range cm.Back {
		if j, ok := cm.Map[s]; !ok || i != j {
			return fmt.Sprintf("category %q is number %d one way and %d (%v) the other", s, i, j, ok)
		}
	}
	if cm.NCats() != len(cm.Back) {
		return fmt.Sprintf("NCats is %d for %d categories", cm.NCats(), len(cm.Back))
	}
	return ""
}

// TableOf reads a feature matrix.
func TableOf(fm *C.FeatureMatrix) (Table, string) {
	var t Table
	if fm == nil {
		return t, "no feature matrix"
	}
	t.Labels = append(t.Labels, fm.CaseLabels...)
	for i, f := range fm.Data {
		c, p := Of(f)
		if p != "" {
			return t, fmt.Sprintf("feature %q: %s", f.GetName(), p)
		}
		if len(c.Vals) != len(t.Labels) {
			return t, fmt.Sprintf("feature %q has %d cases, there are %d case labels", c.Name, len(c.Vals), len(t.Labels))
		}
		if j, ok := fm.Map[f.GetName()]; !ok || j != i {
			return t, fmt.Sprintf("feature %d, %q, is indexed as %d (%v)", i, f.GetName(), j, ok)
		}
		t.Cols = append(t.Cols, c)
	}
	if len(fm.Map) != len(fm.Data) {
		return t, fmt.Sprintf("%d features but %d names indexed", len(fm.Data), len(fm.Map))
	}
	return t, ""
}

// Build makes a feature matrix by appending the values of a table.
func (t Table) Build() *C.FeatureMatrix {
	fm := &C.FeatureMatrix{Map: map[string]int{}, CaseLabels: append([]string{}, t.Labels...)}
	for i, c := range t.Cols {
		var f C.Feature
		if c.Num {
			f = &C.DenseNumFeature{Name: c.Name}
		} else {
			f = &C.DenseCatFeature{CatMap: &C.CatMap{Map: map[string]int{}}, Name: c.Name}
		}
		for _, v := range c.Vals {
			if v == "" {
				v = "NA"
			}
			f.Append(v)
		}
		fm.Data = append(fm.Data, f)
		fm.Map[c.Name] = i
	}
	return fm
}

// AFM writes the table as an annotated feature matrix, features in rows or in columns.
func (t Table) AFM(inCols bool, corner, missing, eol string, final bool) string {
	var lines []string
	cell := func(s string) string {
		if s == "" {
			return missing
		}
		return s
	}
	if !inCols {
		lines = append(lines, strings.Join(append([]string{corner}, t.Labels...), "\t"))
		for _, c := range t.Cols {
			l := []string{c.Name}
			for _, v := range c.Vals {
				l = append(l, cell(v))
			}
			lines = append(lines, strings.Join(l, "\t"))
		}
	} else {
		l := []string{corner}
		for _, c := range t.Cols {
			l = append(l, c.Name)
		}
		lines = append(lines, strings.Join(l, "\t"))
		for i, lab := range t.Labels {
			l = []string{lab}
			for _, c := range t.Cols {
				l = append(l, cell(c.Vals[i]))
			}
			lines = append(lines, strings.Join(l, "\t"))
		}
	}
	s := strings.Join(lines, eol)
	if final {
		s += eol
	}
	return s
}

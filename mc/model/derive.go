package model

import (
	"fmt"
	"strconv"

	"verifmc/cf"
)

// Cats lists the categories of a column in the order they are numbered: the
// order they appear in the data that was read.
func Cats(c cf.Column) (out []string) {
	if c.Order != nil {
		return c.Order
	}
	seen := map[string]bool{}
	for _, v := range c.Vals {
		if v != "" && !seen[v] {
			seen[v] = true
			out = append(out, v)
		}
	}
	return
}

// CatIndex is the number of a category.
func CatIndex(c cf.Column, v string) int {
	for i, x := range Cats(c) {
		if x == v {
			return i
		}
	}
	return -1
}

// ImputedValue replaces missing values of a column: the mean or the first
// most frequent category, "" if there are no values.
func ImputedValue(c cf.Column) string {
	if c.Num {
		s, k := 0.0, 0.0
		for _, v := range c.Vals {
			if v != "" {
				x, _ := strconv.ParseFloat(v, 64)
				s += x
				k++
			}
		}
		if k == 0 {
			return ""
		}
		return cf.CanonNum(s / k)
	}
	best, bn := "", 0
	for _, k := range Cats(c) {
		n := 0
		for _, v := range c.Vals {
			if v == k {
				n++
			}
		}
		if n > bn {
			best, bn = k, n
		}
	}
	return best
}

// Impute replaces missing values in a table.
func Impute(t cf.Table) cf.Table {
	out := cf.Table{Labels: t.Labels}
	for _, c := range t.Cols {
		o := cf.Column{Name: c.Name, Num: c.Num}
		if !c.Num {
			o.Order = Cats(c)
		}
		iv := ImputedValue(c)
		for _, v := range c.Vals {
			if v == "" {
				v = iv
			}
			o.Vals = append(o.Vals, v)
		}
		out.Cols = append(out.Cols, o)
	}
	return out
}

// Encode makes numbers of categories.
func Encode(t cf.Table) cf.Table {
	out := cf.Table{Labels: t.Labels}
	for _, c := range t.Cols {
		ks := Cats(c)
		switch {
		case c.Num:
			out.Cols = append(out.Cols, c)
		case len(ks) <= 2:
			o := cf.Column{Name: c.Name, Num: true}
			for _, v := range c.Vals {
				if v != "" {
					v = fmt.Sprint(CatIndex(c, v))
				}
				o.Vals = append(o.Vals, v)
			}
			out.Cols = append(out.Cols, o)
		default:
			for _, k := range ks {
				o := cf.Column{Name: c.Name + "==" + k, Num: true}
				for _, v := range c.Vals {
					switch v {
					case "":
					case k:
						v = "1"
					default:
						v = "0"
					}
					o.Vals = append(o.Vals, v)
				}
				out.Cols = append(out.Cols, o)
			}
		}
	}
	return out
}

// OneHot makes a yes or no category of each of more than two categories.
func OneHot(t cf.Table) cf.Table {
	out := cf.Table{Labels: t.Labels}
	for _, c := range t.Cols {
		ks := Cats(c)
		if c.Num || len(ks) <= 2 {
			out.Cols = append(out.Cols, c)
			continue
		}
		for _, k := range ks {
			o := cf.Column{Name: c.Name + "==" + k, Order: []string{"false", "true"}}
			for _, v := range c.Vals {
				if v != "" {
					v = fmt.Sprint(v == k)
				}
				o.Vals = append(o.Vals, v)
			}
			out.Cols = append(out.Cols, o)
		}
	}
	return out
}

// Without leaves out columns.
func Without(t cf.Table, out func(c cf.Column) bool) cf.Table {
	r := cf.Table{Labels: t.Labels}
	for _, c := range t.Cols {
		if !out(c) {
			r.Cols = append(r.Cols, c)
		}
	}
	return r
}

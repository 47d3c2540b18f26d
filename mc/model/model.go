// Package model is a plain reference for saved forests: a parser of the .sf
// format, routing of cases, and the aggregation of votes.
package model

import (
	"encoding/csv"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
)

type Node struct {
	Split   bool
	Feature string
	Num     bool
	Th      float64
	Left    map[string]bool
	L, R, M *Node
	Pred    string
}

type Tree struct {
	Number int
	Target string
	Weight float64 // -1 if none is stated
	Root   *Node
}

type Forest struct {
	Target    string
	Intercept float64
	Trees     []*Tree
}

func (n *Node) String() string {
	if n == nil {
		return "none"
	}
	if !n.Split {
		return strconv.Quote(n.Pred)
	}
	s := ""
	if n.Num {
		s = fmt.Sprintf("(%s<=%v ", n.Feature, n.Th)
	} else {
		s = fmt.Sprintf("(%s in %q ", n.Feature, keys(n.Left))
	}
	s += n.L.String() + " " + n.R.String()
	if n.M != nil {
		s += " missing " + n.M.String()
	}
	return s + ")"
}

func keys(m map[string]bool) []string {
	var out []string
	for k := range m {
		if m[k] {
			out = append(out, k)
		}
	}
	sort.Strings(out)
	return out
}

// Of copies a tree of the library. A node with a splitter splits.
func Of(n *C.Node) *Node {
	if n == nil {
		return nil
	}
	out := &Node{Pred: n.Pred}
	if n.Splitter == nil {
		return out
	}
	out.Split, out.Pred = true, ""
	out.Feature, out.Num, out.Th = n.Splitter.Feature, n.Splitter.Numerical, n.Splitter.Value
	if !out.Num {
		out.Left = map[string]bool{}
		for k, v := range n.Splitter.Left {
			if v {
				out.Left[k] = true
			}
		}
	}
	out.L, out.R, out.M = Of(n.Left), Of(n.Right), Of(n.Missing)
	return out
}

// Walk visits all nodes.
func (n *Node) Walk(f func(n *Node, depth int)) { n.walk(f, 0) }
func (n *Node) walk(f func(n *Node, depth int), d int) {
	if n == nil {
		return
	}
	f(n, d)
	n.L.walk(f, d+1)
	n.R.walk(f, d+1)
	n.M.walk(f, d+1)
}

// Features lists the features that a tree splits on.
func (n *Node) Features() []string {
	m := map[string]bool{}
	n.Walk(func(n *Node, _ int) {
		if n.Split {
			m[n.Feature] = true
		}
	})
	return keys(m)
}

func attrs(line string) (map[string]string, error) {
	r := csv.NewReader(strings.NewReader(line))
	r.LazyQuotes = true
	out := map[string]string{}
	rec, err := r.Read()
	if err != nil {
		return nil, err
	}
	for _, f := range rec {
		kv := strings.SplitN(f, "=", 2)
		if len(kv) != 2 {
			return nil, fmt.Errorf("field %q of line %q", f, line)
		}
		out[kv[0]] = strings.Trim(kv[1], `"`)
	}
	return out, nil
}

// ParseSF parses a file with plain names; trees before the first forest line
// make a forest without a target.
func ParseSF(text string) ([]*Forest, error) {
	var out []*Forest
	var f *Forest
	var t *Tree
	for _, line := range strings.Split(text, "\n") {
		line = strings.TrimRight(line, "\r")
		if strings.TrimSpace(line) == "" {
			continue
		}
		a, err := attrs(line)
		if err != nil {
			return out, err
		}
		switch {
		case strings.HasPrefix(line, "FOREST"):
			f = &Forest{Target: a["TARGET"]}
			if s := a["INTERCEPT"]; s != "" {
				if f.Intercept, err = strconv.ParseFloat(s, 64); err != nil {
					return out, err
				}
			}
			out = append(out, f)
			t = nil
		case strings.HasPrefix(line, "TREE"):
			if f == nil {
				f = &Forest{Target: a["TARGET"]}
				out = append(out, f)
			}
			t = &Tree{Target: a["TARGET"], Weight: -1}
			if t.Number, err = strconv.Atoi(a["TREE"]); err != nil {
				return out, err
			}
			if s := a["WEIGHT"]; s != "" {
				if t.Weight, err = strconv.ParseFloat(s, 64); err != nil {
					return out, err
				}
			}
			f.Trees = append(f.Trees, t)
		case strings.HasPrefix(line, "NODE"):
			if t == nil {
				return out, fmt.Errorf("a node before any tree")
			}
			n := &Node{Pred: a["PRED"]}
			if s, ok := a["SPLITTER"]; ok {
				n.Split, n.Pred, n.Feature = true, "", s
				switch a["SPLITTERTYPE"] {
				case "NUMERICAL":
					n.Num = true
					if n.Th, err = strconv.ParseFloat(a["LVALUES"], 64); err != nil {
						return out, err
					}
				case "CATEGORICAL":
					n.Left = map[string]bool{}
					for _, v := range strings.Split(a["LVALUES"], ":") {
						n.Left[v] = true
					}
				default:
					return out, fmt.Errorf("line %q", line)
				}
			}
			path := a["NODE"]
			if !strings.HasPrefix(path, "*") {
				return out, fmt.Errorf("path %q", path)
			}
			at := &t.Root
			for _, ch := range path[1:] {
				if *at == nil || !(*at).Split {
					return out, fmt.Errorf("node %q lacks a splitting parent", path)
				}
				switch ch {
				case 'L':
					at = &(*at).L
				case 'R':
					at = &(*at).R
				case 'M':
					at = &(*at).M
				default:
					return out, fmt.Errorf("path %q", path)
				}
			}
			if *at != nil {
				return out, fmt.Errorf("node %q appears twice", path)
			}
			*at = n
		default:
			return out, fmt.Errorf("line %q", line)
		}
	}
	for _, f := range out {
		for _, t := range f.Trees {
			bad := ""
			if t.Root == nil {
				return out, fmt.Errorf("tree %d has no nodes", t.Number)
			}
			t.Root.Walk(func(n *Node, _ int) {
				if n.Split && (n.L == nil || n.R == nil) {
					bad = n.String()
				}
			})
			if bad != "" {
				return out, fmt.Errorf("tree %d: a split lacks a child: %s", t.Number, bad)
			}
		}
	}
	return out, nil
}

// Data is a table with an index.
type Data struct {
	cf.Table
	ix map[string]int
}

func NewData(t cf.Table) *Data {
	d := &Data{t, map[string]int{}}
	for i, c := range t.Cols {
		d.ix[c.Name] = i
	}
	return d
}

// Col finds a column.
func (d *Data) Col(name string) *cf.Column {
	i, ok := d.ix[name]
	if !ok {
		return nil
	}
	return &d.Cols[i]
}

// Len is the number of cases.
func (d *Data) Len() int { return len(d.Cols[0].Vals) }

// Side tells where a case goes: 'L', 'R' or 'M'.
func (n *Node) Side(d *Data, i int) byte {
	c := d.Col(n.Feature)
	if c == nil {
		panic(fmt.Errorf("the tree splits on %q, which the data lack", n.Feature))
	}
	v := c.Vals[i]
	if v == "" {
		return 'M'
	}
	if n.Num {
		x, err := strconv.ParseFloat(v, 64)
		if err != nil {
			panic(err)
		}
		if x <= n.Th {
			return 'L'
		}
		return 'R'
	}
	if n.Left[v] {
		return 'L'
	}
	return 'R'
}

// Leaf finds the leaf of a case, nil when it is lost at a missing value.
func (n *Node) Leaf(d *Data, i int) *Node {
	for n != nil && n.Split {
		switch n.Side(d, i) {
		case 'L':
			n = n.L
		case 'R':
			n = n.R
		default:
			n = n.M
		}
	}
	return n
}

// Vote is a weighted vote.
type Vote struct {
	Pred string
	W    float64
}

// Votes collects the votes of trees for a case; only says which trees vote.
func Votes(trees []*Tree, d *Data, i int, only func(k int) bool) []Vote {
	var out []Vote
	for k, t := range trees {
		if only != nil && !only(k) {
			continue
		}
		if l := t.Root.Leaf(d, i); l != nil {
			w := 1.0
			if t.Weight >= 0 {
				w = t.Weight
			}
			out = append(out, Vote{l.Pred, w})
		}
	}
	return out
}

// Mode is the winner; ok is false if others come within rounding of it and
// the weights are not whole.
func Mode(vs []Vote) (pred string, sharp bool) {
	m := map[string]float64{}
	whole := true
	for _, v := range vs {
		m[v.Pred] += v.W
		whole = whole && v.W == math.Trunc(v.W)
	}
	pred, best := "NA", 0.0
	for k, w := range m {
		if w > best || w == best && w > 0 && k < pred {
			pred, best = k, w
		}
	}
	sharp = true
	for k, w := range m {
		if k != pred && !whole && math.Abs(w-best) < 1e-9*(1+best) {
			sharp = false
		}
	}
	return
}

// Mean and Sum aggregate numeric votes.
func Mean(vs []Vote) (float64, bool) {
	s, w := 0.0, 0.0
	for _, v := range vs {
		x, err := strconv.ParseFloat(v.Pred, 64)
		if err == nil && !math.IsNaN(x) && v.W != 0 {
			s += x * v.W
			w += v.W
		}
	}
	return s / w, w != 0
}

func Sum(vs []Vote) float64 {
	s := 0.0
	for _, v := range vs {
		if x, err := strconv.ParseFloat(v.Pred, 64); err == nil {
			s += x * v.W
		}
	}
	return s
}

// BalancedError is one minus the mean over the categories that have cases of
// the share of their cases that is predicted right.
func BalancedError(truth, pred []string) float64 {
	n, right := map[string]float64{}, map[string]float64{}
	for i, t := range truth {
		if t != "" {
			n[t]++
			if pred[i] == t {
				right[t]++
			}
		}
	}
	s := 0.0
	for k := range n {
		s += right[k] / n[k]
	}
	return 1 - s/float64(len(n))
}

// RelativeError is the mean squared error over cases with a true value and a
// prediction divided by the variance of the true values.
func RelativeError(truth []string, pred []float64) float64 {
	var s, n, m, k, v float64
	var t []float64
	for i := range truth {
		if truth[i] == "" {
			continue
		}
		x, _ := strconv.ParseFloat(truth[i], 64)
		t = append(t, x)
		m += x
		k++
		if !math.IsNaN(pred[i]) {
			s += (x - pred[i]) * (x - pred[i])
			n++
		}
	}
	m /= k
	for _, x := range t {
		v += (x - m) * (x - m)
	}
	return s / n / (v / k)
}

// Tally predicts a case as the library's ballot boxes print it: "NA" or a
// category or a number; equal compares with what was printed.
func Same(got, want string, num bool) bool {
	if got == want {
		return true
	}
	a, e1 := strconv.ParseFloat(got, 64)
	b, e2 := strconv.ParseFloat(want, 64)
	return num && e1 == nil && e2 == nil && (cf.Close(a, b, 1e-9) || math.IsNaN(a) && math.IsNaN(b))
}

// CanonSplit writes the split of a node.
func CanonSplit(n *Node) string {
	if n.Num {
		return cf.CanonNum(n.Th)
	}
	return strings.Join(keys(n.Left), ",")
}

// C08: a tree casts exactly one vote per case, at the leaf the case routes to.
package main

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
)

var nan = math.NaN()

// the data: every combination of a numeric value and a category, twice, in an
// order unrelated to either.
var nums = []float64{1, 2, nan}
var catNames = []string{"b", "a", "z"}

type world struct {
	fm   *C.FeatureMatrix
	x    []float64
	z    []int
	bigZ bool
}

func makeWorld(big bool, missing bool) *world { return makeWorldN(12, big, missing) }

func makeWorldN(n int, big bool, missing bool) *world {
	w := &world{bigZ: big}
	for i := 0; i < n; i++ {
		j := (i * 5) % 12
		x, z := nums[j%3], (j/3)%4-1
		if !missing {
			if math.IsNaN(x) {
				x = 1.5
			}
			if z < 0 {
				z = 2
			}
		}
		w.x = append(w.x, x)
		w.z = append(w.z, z)
	}
	names := catNames
	if big {
		names = append([]string{}, names...)
		for i := 0; i < 40; i++ {
			names = append(names, fmt.Sprint("q", i))
		}
	}
	filler := cf.Num("N:filler", make([]float64, n))
	w.fm = cf.FM(filler, cf.Cat("C:z", names, w.z), cf.Num("N:x", w.x))
	return w
}

// a split, by definition and in the forms the library uses
type split struct {
	num  bool
	th   float64
	left []int // category numbers going left
}

func (s split) String() string {
	if s.num {
		return fmt.Sprintf("x<=%v", s.th)
	}
	return fmt.Sprintf("z in %v", s.left)
}

var splits = []split{
	{num: true, th: 1}, {num: true, th: 1.5}, {num: true, th: 0.5}, {num: true, th: 2},
	{left: nil}, {left: []int{0}}, {left: []int{1}}, {left: []int{0, 2}}, {left: []int{0, 1, 2}}, {left: []int{2, 1}},
}

type node struct {
	s       *split
	l, r, m *node
	pred    string
}

func (n *node) String() string {
	if n.s == nil {
		return n.pred
	}
	s := fmt.Sprintf("(%v ? %v : %v", n.s, n.l, n.r)
	if n.m != nil {
		s += fmt.Sprintf(" missing %v", n.m)
	}
	return s + ")"
}

// gen chooses a tree. Every leaf has its own prediction.
func gen(c *mc.Ctx, depth int, set []split, leaves *int) *node {
	k := 0
	if depth > 0 {
		k = c.Choose(len(set)+1, "")
	}
	if k == 0 {
		*leaves++
		return &node{pred: fmt.Sprintf("p%d", *leaves)}
	}
	n := &node{s: &set[k-1]}
	n.l = gen(c, depth-1, set, leaves)
	n.r = gen(c, depth-1, set, leaves)
	if c.Bool("") {
		n.m = gen(c, depth-2, set, leaves)
	}
	return n
}

func (w *world) build(n *node, coded, decoded bool) *C.Node {
	out := &C.Node{Pred: n.pred}
	if n.s == nil {
		return out
	}
	if n.s.num {
		out.Featurei = 2
		if decoded {
			out.Splitter = &C.Splitter{Feature: "N:x", Numerical: true, Value: n.s.th}
		}
		if coded {
			out.CodedSplit = n.s.th
		}
	} else {
		out.Featurei = 1
		if decoded {
			m := map[string]bool{}
			for _, k := range n.s.left {
				m[catNames[k]] = true
			}
			out.Splitter = &C.Splitter{Feature: "C:z", Left: m}
		}
		if coded {
			if w.bigZ {
				b := big.NewInt(0)
				for _, k := range n.s.left {
					b.SetBit(b, k, 1)
				}
				out.CodedSplit = b
			} else {
				b := 0
				for _, k := range n.s.left {
					b |= 1 << uint(k)
				}
				out.CodedSplit = b
			}
		}
	}
	out.Left = w.build(n.l, coded, decoded)
	out.Right = w.build(n.r, coded, decoded)
	if n.m != nil {
		out.Missing = w.build(n.m, coded, decoded)
	}
	return out
}

// route is the definition: the leaf of a case, or none. uses counts splitters
// met per feature.
func (w *world) route(n *node, i int, uses map[string]int) string {
	if n.s == nil {
		return n.pred
	}
	next := n.r
	if n.s.num {
		uses["N:x"]++
		switch {
		case math.IsNaN(w.x[i]):
			next = n.m
		case w.x[i] <= n.s.th:
			next = n.l
		}
	} else {
		uses["C:z"]++
		if w.z[i] < 0 {
			next = n.m
		} else {
			for _, k := range n.s.left {
				if k == w.z[i] {
					next = n.l
				}
			}
		}
	}
	if next == nil {
		return ""
	}
	return w.route(next, i, uses)
}

// visit lists the nodes that cases reach.
func (w *world) visit(n *node, cases []int, depth int, out *string) {
	if n == nil || len(cases) == 0 {
		return
	}
	*out += fmt.Sprintln(depth, n.pred, cases)
	if n.s == nil {
		return
	}
	at := map[*node][]int{}
	for _, i := range cases {
		next := n.r
		switch {
		case n.s.num && math.IsNaN(w.x[i]) || !n.s.num && w.z[i] < 0:
			next = n.m
		case n.s.num && w.x[i] <= n.s.th:
			next = n.l
		case !n.s.num:
			for _, k := range n.s.left {
				if k == w.z[i] {
					next = n.l
				}
			}
		}
		if next != nil {
			at[next] = append(at[next], i)
		}
	}
	w.visit(n.l, at[n.l], depth+1, out)
	w.visit(n.r, at[n.r], depth+1, out)
	w.visit(n.m, at[n.m], depth+1, out)
}

type recorder struct{ votes []string }

func (r *recorder) Vote(casei int, pred string, weight float64) {
	r.votes = append(r.votes, fmt.Sprintf("%d:%s*%v", casei, pred, weight))
}
func (r *recorder) TallyError(C.Feature) float64 { return 0 }
func (r *recorder) Tally(int) string             { return "" }

func sorted(v []string) string {
	v = append([]string{}, v...)
	sort.Strings(v)
	return strings.Join(v, " ")
}

func run(c *mc.Ctx, w *world, n *node, weight float64) {
	what := fmt.Sprintf("%v weight %v", n, weight)
	ew := weight
	if weight < 0 {
		ew = 1
	}
	N := len(w.x)
	leaf := make([]string, N)
	want := map[string]string{} // leaf -> cases
	var all []string
	uses := make([]map[string]int, N)
	for i := range leaf {
		uses[i] = map[string]int{}
		leaf[i] = w.route(n, i, uses[i])
		if leaf[i] != "" {
			want[leaf[i]] += fmt.Sprint(i, " ")
			all = append(all, fmt.Sprintf("%d:%s*%v", i, leaf[i], ew))
		}
	}
	c.State(what + fmt.Sprint(w.bigZ, leaf))
	c.Outcome("%d votes", len(all))
	someCases := [][]int{{3, 1, 2, 9}, {5, 5, 0, 5, 11}, {}, {7}}
	if N < 12 {
		someCases = [][]int{{0, N - 1, 0}}
	}
	for form := 0; form < 4; form++ {
		name := []string{"coded", "decoded", "coded and decoded", "stripped of codes"}[form]
		t := &C.Tree{Root: w.build(n, form != 1, form != 0), Weight: weight}
		if form == 3 {
			t.StripCodes()
			var walk func(n *C.Node)
			walk = func(n *C.Node) {
				if n != nil {
					c.Check(n.CodedSplit == nil, "%s: a code is left after StripCodes", what)
					walk(n.Left)
					walk(n.Right)
					walk(n.Missing)
				}
			}
			walk(t.Root)
			//the same data with its features in another order
			d := w.fm.Data
			r := &recorder{}
			t.Vote(cf.FM(d[2], d[0], d[1]), r)
			c.Eval(1)
			c.Check(sorted(r.votes) == sorted(all), "%s (%s): votes on the data with its features in another order are %s, should be %s", what, name, sorted(r.votes), sorted(all))
		}
		r := &recorder{}
		t.Vote(w.fm, r)
		c.Eval(1)
		c.Check(sorted(r.votes) == sorted(all), "%s (%s): votes are %s, should be %s", what, name, sorted(r.votes), sorted(all))
		for _, cs := range someCases {
			r = &recorder{}
			given := append([]int{}, cs...)
			t.VoteCases(w.fm, r, given)
			var exp []string
			for _, i := range cs {
				if leaf[i] != "" {
					exp = append(exp, fmt.Sprintf("%d:%s*%v", i, leaf[i], ew))
				}
			}
			c.Eval(1)
			c.Check(sorted(r.votes) == sorted(exp), "%s (%s): votes on cases %v are %s, should be %s", what, name, cs, sorted(r.votes), sorted(exp))
			c.Check(cf.SameMultiset(given, cs), "%s: case list %v became %v", what, cs, given)
		}
		// Recurse visits each node that cases reach with these and its depth
		seen := ""
		t.Root.Recurse(func(n *C.Node, cases []int, depth int) {
			if len(cases) > 0 {
				s := append([]int{}, cases...)
				sort.Ints(s)
				seen += fmt.Sprintln(depth, n.Pred, s)
			}
		}, w.fm, cf.Seq(N), 0)
		visits := ""
		w.visit(n, cf.Seq(N), 0, &visits)
		c.Check(seen == visits, "%s (%s): Recurse visits (depth, leaf, cases)\n%sinstead of\n%s", what, name, seen, visits)
		checkLeaves := func(how string, cases [][]int, preds []string) {
			got := map[string]string{}
			for k, cs := range cases {
				if len(cs) == 0 {
					continue
				}
				s := append([]int{}, cs...)
				sort.Ints(s)
				_, dup := got[preds[k]]
				c.Check(!dup, "%s (%s): %s lists leaf %s twice", what, name, how, preds[k])
				for _, i := range s {
					got[preds[k]] += fmt.Sprint(i, " ")
				}
			}
			c.Eval(1)
			c.Check(fmt.Sprint(got) == fmt.Sprint(want), "%s (%s): %s gives %v, should be %v", what, name, how, got, want)
		}
		ls, ps := t.Partition(w.fm)
		checkLeaves("Partition", *ls, *ps)
		for _, count := range []bool{false, true} {
			if count && form == 0 {
				continue // counting features needs splitters
			}
			var sc *C.SparseCounter
			if count {
				sc = new(C.SparseCounter)
			}
			var cases [][]int
			var preds []string
			for _, l := range t.GetLeaves(w.fm, sc) {
				cases = append(cases, l.Cases)
				preds = append(preds, l.Pred)
			}
			checkLeaves("GetLeaves", cases, preds)
			if count {
				for i := range leaf {
					for fi, f := range w.fm.Data {
						c.Check(sc.Map[i][fi] == uses[i][f.GetName()], "%s (%s): case %d is counted %d times for %s, should be %d", what, name, i, sc.Map[i][fi], f.GetName(), uses[i][f.GetName()])
					}
				}
			}
		}
	}
	c.Sample("%s: %s", what, sorted(all))
}

func scenario(name string, set []split, depth int, bound string, thorough bool, big bool) mc.Scenario {
	return mc.Scenario{Name: name, Bound: bound, ThoroughOnly: thorough, Run: func(c *mc.Ctx) {
		w := makeWorld(big, !c.Bool("no missing values"))
		leaves := 0
		n := gen(c, depth, set, &leaves)
		weight := -1.0
		if n.s == nil || depth == 1 {
			weight = mc.Pick(c, []float64{-1, 0, 0.25, 1, 3}, "weight")
		} else {
			weight = []float64{-1, 0.25}[leaves%2]
		}
		run(c, w, n, weight)
	}}
}

// many cases, and deep trees
func sizes(c *mc.Ctx) {
	ns := []int{1, 2, 63, 64, 65, 256, 257, 1000, 5000}
	if c.Thorough() {
		ns = append(ns, 127, 128, 511, 512, 1023, 1024, 1025, 2048, 4096, 9000)
	}
	w := makeWorldN(mc.Pick(c, ns, "cases"), c.Bool("big"), !c.Bool("no missing values"))
	leaves := 0
	var n *node
	if c.Bool("chain") {
		// one case of each kind leaves at most levels
		depths := []int{10, 65, 300}
		d := mc.Pick(c, depths, "depth")
		side := c.Choose(3, "side")
		if len(w.x) > 300 && d > 10 {
			c.Discard()
		}
		leaf := func() *node {
			leaves++
			return &node{pred: fmt.Sprintf("p%d", leaves)}
		}
		n = leaf()
		for i := 0; i < d; i++ {
			switch side {
			case 0:
				n = &node{s: &split{num: true, th: 2}, l: n, r: leaf()}
			case 1:
				n = &node{s: &split{left: []int{1}}, l: leaf(), r: n}
			case 2:
				n = &node{s: &split{num: true, th: 2}, l: leaf(), r: leaf(), m: n}
			}
		}
	} else {
		n = gen(c, 1, splits, &leaves)
	}
	run(c, w, n, -1)
}

func main() {
	few := []split{splits[1], splits[0], splits[5], splits[7]}
	two := []split{splits[1], splits[7]}
	mc.Main(mc.Spec{
		Property: "C08", Quick: 150, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one tree; voting, listing leaves and partitioning are compared, case by case, with routing by definition, in four forms of the tree",
		Assumptions: []string{"a case whose value is missing at a node without a missing branch gets no vote"},
		Scenarios: []mc.Scenario{
			scenario("one split", splits, 1, "every tree of one of 10 splits, with and without missing branch, 5 weights, cases over every value combination", false, false),
			scenario("two levels", splits, 2, "every tree of depth 2 over 10 splits, missing branches everywhere or not", false, false),
			scenario("two levels many categories", few, 2, "every tree of depth 2 over 4 splits, the category code being a big integer", false, true),
			scenario("three levels", two, 3, "every tree of depth 3 over 2 splits", false, false),
			{Name: "sizes", Bound: "1 to 5000 (9000) cases x every tree of one of 10 splits or a chain of 10, 65 or 300 splits", Run: sizes},
			scenario("three levels deep", few[:3], 3, "every tree of depth 3 over 3 splits", true, false),
		},
	})
}

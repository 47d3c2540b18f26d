// C16: samplers and shuffles draw from the distribution they document.
package main

import (
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"math/big"
	"sort"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	growforest "github.com/ryanbressler/CloudForest/growforest"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/sched"
)

// differ tells how two distributions differ, "" when they do not.
func differ(want, got map[string]*big.Rat) string {
	ks := []string{}
	for k := range want {
		ks = append(ks, k)
	}
	for k := range got {
		if want[k] == nil {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	zero := new(big.Rat)
	for _, k := range ks {
		w, g := want[k], got[k]
		if w == nil {
			w = zero
		}
		if g == nil {
			g = zero
		}
		if w.Cmp(g) != 0 {
			return fmt.Sprintf("%s has probability %v instead of %v", k, g, w)
		}
	}
	return ""
}

// uniform puts the same weight on everything listed, counting repetitions.
func uniform(xs []string) map[string]*big.Rat {
	out := map[string]*big.Rat{}
	for _, x := range xs {
		if out[x] == nil {
			out[x] = new(big.Rat)
		}
		out[x].Add(out[x], big.NewRat(1, int64(len(xs))))
	}
	return out
}

// arrangements lists all ordered choices of n of xs.
func arrangements(xs []int, n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for i, x := range xs {
		rest := append(append([]int{}, xs[:i]...), xs[i+1:]...)
		for _, r := range arrangements(rest, n-1) {
			out = append(out, append([]int{x}, r...))
		}
	}
	return out
}

func words(xs [][]int) (out []string) {
	for _, x := range xs {
		out = append(out, fmt.Sprint(append([]int{}, x...)))
	}
	return
}

// sequences lists all sequences of n of xs.
func sequences(xs []int, n int) [][]int {
	if n == 0 {
		return [][]int{nil}
	}
	var out [][]int
	for _, x := range xs {
		for _, r := range sequences(xs, n-1) {
			out = append(out, append([]int{x}, r...))
		}
	}
	return out
}

func min(a, b int) int {
	if a < b {
		return a
	}
	return b
}

// firstN: every ordered selection is as likely as any other, from any order
// of the deck; constants at the end stay there and are never drawn.
func firstN(c *mc.Ctx) {
	n := c.Choose(c.Int(6, 7), "cards")
	k := c.Choose(n+2, "draws")
	nconst := c.Choose(n+1, "constants")
	start := cf.Seq(n)
	switch c.Choose(3, "order") {
	case 1:
		for i := range start {
			start[i] = 10 * (n - i)
		}
	case 2:
		for i := range start {
			start[i] = (i*7 + 3) % 11
		}
	}
	form := c.Choose(3, "samples")
	what := fmt.Sprintf("first %d of %v, %d constants", k, start, nconst)
	got := c.Enumerate(func() string {
		deck := append([]int{}, start...)
		var samples []int
		ps := &samples
		switch form {
		case 1:
			ps = &deck // as growforest does
		case 2:
			ps = nil // as nfold does
		}
		C.SampleFirstN(&deck, ps, k, nconst)
		all := deck
		if form == 1 {
			all = deck[:n]
			samples = deck
		}
		if form == 2 {
			samples = deck[:min(k, n)]
		}
		c.Check(cf.SameMultiset(all, start), "%s: the deck became %v", what, all)
		c.Check(len(samples) <= k && len(samples) <= n-nconst || form == 2, "%s: %v is drawn", what, samples)
		for j := n - nconst; j < n; j++ {
			c.Check(all[j] == start[j], "%s: the constants at the end of the deck became %v", what, all[n-nconst:])
		}
		return fmt.Sprint(append([]int{}, samples...))
	})
	c.Eval(1)
	c.State(what)
	if nconst == 0 {
		d := differ(uniform(words(arrangements(start, min(k, n)))), got)
		c.Check(d == "", "%s: %s", what, d)
		c.Outcome("%d of %d", k, n)
		return
	}
	if form == 2 {
		return
	}
	// selections of the same length are equally likely
	byLen := map[int]*big.Rat{}
	for _, a := range []int{0, 1, 2, 3, 4, 5, 6, 7} {
		if a > n-nconst {
			break
		}
		for _, s := range words(arrangements(start[:n-nconst], a)) {
			p := got[s]
			if p == nil {
				p = new(big.Rat)
			}
			if byLen[a] == nil {
				byLen[a] = p
			}
			c.Check(byLen[a].Cmp(p) == 0, "%s: %s has probability %v, another selection of as many %v", what, s, p, byLen[a])
		}
	}
	c.Outcome("%d of %d with %d constants", k, n, nconst)
}

// withReplacement: every sequence is equally likely.
func withReplacement(c *mc.Ctx) {
	n := 1 + c.Choose(4, "cases")
	k := c.Choose(c.Int(5, 6), "draws")
	got := c.Enumerate(func() string { return fmt.Sprint(C.SampleWithReplacment(k, n)) })
	d := differ(uniform(words(sequences(cf.Seq(n), k))), got)
	c.Check(d == "", "%d of %d with replacement: %s", k, n, d)
	c.Eval(1)
	c.Statef("%d %d", k, n)
	c.Outcome("%d %d", k, n)
}

// column builds a feature whose entries can be told apart where they are
// meant to; missing entries hold stale values.
func column(c *mc.Ctx, n int) (f C.Feature, entries []string) {
	if c.Bool("numeric") {
		x := cf.Num("N:x", make([]float64, n))
		for i := 0; i < n; i++ {
			x.Put(i, []float64{1.5, -2, 0, 7, 3, 9}[i%6])
			switch c.Choose(3, "entry") {
			case 1:
				x.PutMissing(i)
			case 2:
				x.Put(i, 4)
			}
		}
		f = x
	} else {
		v := cf.Seq(n)
		x := cf.Cat("C:x", cf.Names(n+1), v)
		for i := 0; i < n; i++ {
			switch c.Choose(3, "entry") {
			case 1:
				x.PutMissing(i)
			case 2:
				x.Puti(i, n)
			}
		}
		f = x
	}
	return f, list(f)
}

// list is the content of a column, its values under missing entries too.
func list(f C.Feature) []string {
	col, bad := cf.Of(f)
	if bad != "" {
		panic(bad)
	}
	var out []string
	for _, v := range col.Vals {
		if v == "" {
			v = "missing"
		}
		out = append(out, v)
	}
	return out
}

// permutations lists the results of permuting the entries at the given places.
func permutations(xs []string, at []int) (out []string) {
	for _, p := range arrangements(at, len(at)) {
		y := append([]string{}, xs...)
		for k := range at {
			y[at[k]] = xs[p[k]]
		}
		out = append(out, strings.Join(y, " "))
	}
	return
}

func put(f C.Feature, g C.Feature) { g.CopyInTo(f) }

// shuffles: all permutations are equally likely.
func shuffles(c *mc.Ctx) {
	n := 1 + c.Choose(c.Int(4, 5), "cases - 1")
	f, entries := column(c, n)
	keep := f.Copy()
	what := fmt.Sprint(cf.Describe(f))
	switch mode := c.Choose(3, "operation"); mode {
	case 0, 1:
		what += " shuffled"
		if mode == 1 {
			what += " copy"
		}
		got := c.Enumerate(func() string {
			if mode == 0 {
				put(f, keep)
				f.Shuffle()
				c.Check(f.GetName() == keep.GetName(), "%s: it is called %q", what, f.GetName())
				return strings.Join(list(f), " ")
			}
			g := f.ShuffledCopy()
			c.Check(g.GetName() == keep.GetName()+":SHUFFLED" && f.GetName() == keep.GetName(), "%s: it is called %q, the original %q", what, g.GetName(), f.GetName())
			c.Check(fmt.Sprint(list(f)) == fmt.Sprint(entries), "%s: the original became %v", what, list(f))
			return strings.Join(list(g), " ")
		})
		d := differ(uniform(permutations(entries, cf.Seq(n))), got)
		c.Check(d == "", "%s: %s", what, d)
	case 2:
		var at []int
		for i := 0; i < n; i++ {
			if c.Bool("among the cases") {
				at = append(at, i)
			}
		}
		order := append([]int{}, at...)
		if c.Bool("backwards") {
			for i := range order {
				order[i] = at[len(at)-1-i]
			}
		}
		what += fmt.Sprint(" shuffled among ", order)
		var y C.Feature = cf.Cat("C:y", cf.Names(2), make([]int, n))
		allocs := C.NewBestSplitAllocs(n, y)
		got := c.Enumerate(func() string {
			put(f, keep)
			cases := append([]int{}, order...)
			f.ShuffleCases(&cases, allocs)
			c.Check(fmt.Sprint(cases) == fmt.Sprint(order), "%s: the cases became %v", what, cases)
			return strings.Join(list(f), " ")
		})
		d := differ(uniform(permutations(entries, at)), got)
		c.Check(d == "", "%s: %s", what, d)
	}
	c.Eval(1)
	c.State(what)
	c.Outcome("%d", n)
}

// balancedDist is the distribution of n draws.
func product(one map[int]*big.Rat, n int) map[string]*big.Rat {
	out := map[string]*big.Rat{}
	var keys []int
	for k := range one {
		keys = append(keys, k)
	}
	for _, s := range sequences(keys, n) {
		w := big.NewRat(1, 1)
		for _, x := range s {
			w.Mul(w, one[x])
		}
		out[fmt.Sprint(append([]int{}, s...))] = w
	}
	return out
}

func balanced(c *mc.Ctx) {
	n := 1 + c.Choose(c.Int(4, 5), "cases - 1")
	k := c.Choose(4, "draws")
	if k > 2 && n > 4 {
		k = 2
	}
	cats := make([]int, n)
	class := map[int][]int{}
	for i := range cats {
		cats[i] = c.Choose(4, "class") - 1
		if cats[i] >= 0 {
			class[cats[i]] = append(class[cats[i]], i)
		}
	}
	if len(class) == 0 {
		c.Discard()
	}
	f := cf.Cat("C:x", cf.Names(3), cats)
	for i := range cats {
		if cats[i] < 0 {
			// a value may remain under the mark
			f.CatData[i] = i % 3
		}
	}
	one := map[int]*big.Rat{}
	for _, l := range class {
		for _, i := range l {
			one[i] = big.NewRat(1, int64(len(class)*len(l)))
		}
	}
	what := fmt.Sprintf("%d balanced draws from %v", k, cats)
	s := C.NewBalancedSampler(f)
	got := c.Enumerate(func() string {
		samples := []int{5, 6, 7}
		s.Sample(&samples, k)
		return fmt.Sprint(append([]int{}, samples...))
	})
	d := differ(product(one, k), got)
	c.Check(d == "", "%s: %s", what, d)
	c.Eval(1)
	c.State(what)
	c.Outcome("%d classes, %d draws", len(class), k)
}

// big populations: with the bounds asked for multiplying to the number of
// equally likely results, each answer has to give its own result.
func big100(c *mc.Ctx) {
	ns := []int{65, 130}
	if c.Thorough() {
		ns = []int{33, 65, 130, 257}
	}
	n := mc.Pick(c, ns, "cases")
	op := mc.Pick(c, []string{"numeric", "categorical", "numeric cases", "categorical cases", "first", "replacement", "balanced", "balanced within"}, "operation")
	k := n
	vals := make([]float64, n)
	for i := range vals {
		vals[i] = float64(i)
	}
	var num, cat C.Feature = cf.Num("N:x", vals), cf.Cat("C:x", cf.Names(n), cf.Seq(n))
	var y C.Feature = cf.Cat("C:y", cf.Names(2), make([]int, n))
	allocs := C.NewBestSplitAllocs(n, y)
	half, third := make([]int, n), make([]int, n)
	for i := range half {
		half[i], third[i] = i%2, i/2%3
	}
	m := n / 12 * 12
	bal := C.NewBalancedSampler(cf.Cat("C:y", cf.Names(2), half[:m]))
	sec := C.NewSecondaryBalancedSampler(cf.Cat("C:y", cf.Names(2), half[:m]), cf.Cat("C:z", cf.Names(3), third[:m]))
	results := big.NewInt(1) // equally likely ones
	for i := 0; i < n; i++ {
		results.Mul(results, big.NewInt(int64(n-i)))
	}
	run := func() string {
		switch op {
		case "numeric":
			g := num.Copy()
			g.Shuffle()
			return strings.Join(list(g), " ")
		case "categorical":
			return strings.Join(list(cat.ShuffledCopy()), " ")
		case "numeric cases", "categorical cases":
			g := num.Copy()
			if op[0] == 'c' {
				g = cat.Copy()
			}
			cases := cf.Seq(n)
			g.ShuffleCases(&cases, allocs)
			return strings.Join(list(g), " ")
		case "first":
			deck := cf.Seq(n)
			C.SampleFirstN(&deck, &deck, k, 0)
			return fmt.Sprint(deck)
		case "replacement":
			return fmt.Sprint(C.SampleWithReplacment(k, n))
		case "balanced":
			var out []int
			bal.Sample(&out, k)
			return fmt.Sprint(out)
		}
		var out []int
		sec.Sample(&out, k)
		return fmt.Sprint(out)
	}
	switch op {
	case "first":
		k = n / 2
		results.SetInt64(1)
		for i := 0; i < k; i++ {
			results.Mul(results, big.NewInt(int64(n-i)))
		}
	case "replacement":
		results.Exp(big.NewInt(int64(n)), big.NewInt(int64(k)), nil)
	case "balanced", "balanced within":
		k = 10
		results.Exp(big.NewInt(int64(m)), big.NewInt(int64(k)), nil)
	}
	base := c.Choose(3, "other answers")
	at, ans := -1, 0
	var bounds []int
	raw := false
	c.Rand(func(b int) int {
		bounds = append(bounds, b)
		if len(bounds)-1 == at {
			return ans
		}
		return []int{0, b - 1, b / 3}[base]
	})
	c.RandRaw(func() uint64 { raw = true; return 1 << 62 })
	run()
	was := append([]int{}, bounds...)
	all := big.NewInt(1)
	for _, b := range was {
		all.Mul(all, big.NewInt(int64(b)))
	}
	what := fmt.Sprintf("%s %d of %d", op, k, n)
	if !raw {
		c.Eval(1)
		c.Check(op == "balanced within" || new(big.Int).Mod(all, results).Sign() == 0, "%s: the bounds asked for are %v, %v answers can not give %v equally likely results", what, was, all, results)
	}
	at = c.Choose(len(was), "draw")
	seen := map[string]int{}
	for ans = 0; ans < was[at]; ans++ {
		bounds = nil
		r := run()
		if raw || fmt.Sprint(bounds) != fmt.Sprint(was) || all.Cmp(results) != 0 && op != "balanced within" {
			c.Rand(nil)
			c.RandRaw(nil)
			c.Outcome("not applicable")
			return
		}
		before, dup := seen[r]
		if op == "balanced within" && was[at] == m {
			continue // which of the cases keep the shares
		}
		c.Check(!dup, "%s: answers %d and %d to draw %d of %d both give %.300s", what, before, ans, at, len(was), r)
		seen[r] = ans
	}
	c.Eval(len(seen))
	c.Rand(nil)
	c.RandRaw(nil)
	c.Statef("%s %d %d", what, at, base)
	c.Outcome("%s", op)
}

// secondary: the classes of the second feature keep their shares, and within
// each the classes of the target that occur are equally likely.
func secondary(c *mc.Ctx) {
	n := 1 + c.Choose(c.Int(4, 5), "cases - 1")
	k := 1
	if n <= 3 {
		k = c.Choose(3, "draws")
	}
	a, b := make([]int, n), make([]int, n)
	cell := map[[2]int][]int{}
	count := map[int]int64{}
	total := int64(0)
	for i := range a {
		a[i], b[i] = c.Choose(3, "class")-1, c.Choose(3, "second class")-1
		if a[i] >= 0 && b[i] >= 0 {
			p := [2]int{b[i], a[i]}
			cell[p] = append(cell[p], i)
			count[b[i]]++
			total++
		}
	}
	if total == 0 {
		c.Discard()
	}
	one := map[int]*big.Rat{}
	for p, l := range cell {
		cells := int64(0)
		for q := range cell {
			if q[0] == p[0] {
				cells++
			}
		}
		for _, i := range l {
			one[i] = big.NewRat(count[p[0]], total*cells*int64(len(l)))
		}
	}
	what := fmt.Sprintf("%d draws balanced from %v within %v", k, a, b)
	s := C.NewSecondaryBalancedSampler(cf.Cat("C:x", cf.Names(2), a), cf.Cat("C:y", cf.Names(2), b))
	got := c.Enumerate(func() string {
		samples := []int{5, 6, 7}
		s.Sample(&samples, k)
		return fmt.Sprint(append([]int{}, samples...))
	})
	d := differ(product(one, k), got)
	c.Check(d == "", "%s: %s", what, d)
	c.Eval(1)
	c.State(what)
	c.Outcome("%d cells, %d draws", len(cell), k)
}

// contrasts: an added feature copies each original equally often, shuffled.
func contrasts(c *mc.Ctx) {
	n := 1 + c.Choose(3, "cases - 1")
	f, fe := column(c, n)
	g := cf.Cat("C:other", cf.Names(3), []int{2, 1, -1}[:n])
	ge := list(g)
	k := 1
	all := c.Bool("all")
	if all {
		k = 2
	}
	what := fmt.Sprintf("contrasts (%v) of %s and %s", all, cf.Describe(f), cf.Describe(g))
	got := c.Enumerate(func() string {
		fm := cf.FM(f, g)
		if all {
			fm.ContrastAll()
		} else {
			fm.AddContrasts(k)
		}
		c.Check(len(fm.Data) == 2+k, "%s: there are %d features", what, len(fm.Data))
		c.Check(fmt.Sprint(list(fm.Data[0]), list(fm.Data[1])) == fmt.Sprint(fe, ge), "%s: the originals changed", what)
		var out []string
		for i := 2; i < len(fm.Data); i++ {
			x := fm.Data[i]
			c.Check(fm.Map[x.GetName()] == i, "%s: the index of %s is %d", what, x.GetName(), fm.Map[x.GetName()])
			out = append(out, x.GetName()+" "+strings.Join(list(x), " "))
		}
		return strings.Join(out, "; ")
	})
	var want []string
	fp, gp := permutations(fe, cf.Seq(n)), permutations(ge, cf.Seq(n))
	for i := range fp {
		fp[i] = f.GetName() + ":SHUFFLED " + fp[i]
		gp[i] = g.GetName() + ":SHUFFLED " + gp[i]
	}
	if all {
		for _, x := range fp {
			for _, y := range gp {
				want = append(want, x+"; "+y)
			}
		}
	} else {
		want = append(fp, gp...)
	}
	d := differ(uniform(want), got)
	c.Check(d == "", "%s: %s", what, d)
	c.Eval(1)
	c.State(what)
	c.Outcome("%d %v", n, all)
}

// command: the cases growforest gives to its first tree.
func command(c *mc.Ctx) {
	n := 2 + c.Choose(c.Int(2, 3), "cases - 2")
	t := cf.Table{Cols: []cf.Column{{Name: "N:x", Num: true}, {Name: "C:t"}, {Name: "C:b"}}}
	cats := make([]int, n)
	class, second := map[int][]int{}, map[int]map[int][]int{}
	for i := 0; i < n; i++ {
		cats[i] = c.Choose(2, "class")
		b := []int{0, 1, 1, 0, 1}[i]
		class[cats[i]] = append(class[cats[i]], i)
		if second[b] == nil {
			second[b] = map[int][]int{}
		}
		second[b][cats[i]] = append(second[b][cats[i]], i)
		t.Labels = append(t.Labels, fmt.Sprint("case", i))
		t.Cols[0].Vals = append(t.Cols[0].Vals, fmt.Sprint(i))
		t.Cols[1].Vals = append(t.Cols[1].Vals, []string{"a", "b"}[cats[i]])
		t.Cols[2].Vals = append(t.Cols[2].Vals, []string{"p", "q"}[b])
	}
	k := 1 + c.Choose(2, "samples - 1")
	if n == k && n > 3 {
		c.Discard()
	}
	cmd.Keep("train.afm", t.AFM(false, ".", "NA", "\n", true))
	args := []string{"-train", cmd.Path("train.afm"), "-target", "C:t", "-nTrees", "1", "-nSamples", fmt.Sprint(k), "-mTry", "1", "-leafSize", "9", "-blacklist", ""}
	args = args[:len(args)-2]
	want := map[string]*big.Rat{}
	switch c.Choose(4, "sampling") {
	case 0:
		want = uniform(words(sequences(cf.Seq(n), k)))
	case 1:
		args = append(args, "-balance")
		one := map[int]*big.Rat{}
		for _, l := range class {
			for _, i := range l {
				one[i] = big.NewRat(1, int64(len(class)*len(l)))
			}
		}
		want = product(one, k)
	case 2:
		args = append(args, "-balanceby", "C:b")
		one := map[int]*big.Rat{}
		for _, cells := range second {
			cnt := 0
			for _, l := range cells {
				cnt += len(l)
			}
			for _, l := range cells {
				for _, i := range l {
					one[i] = big.NewRat(int64(cnt), int64(n*len(cells)*len(l)))
				}
			}
		}
		want = product(one, k)
	case 3:
		args = append(args, "-nobag")
		if k == n {
			k = n
			want = uniform([]string{fmt.Sprint(cf.Seq(n))})
		} else {
			var sets []string
			for _, a := range arrangements(cf.Seq(n), k) {
				sort.Ints(a)
				sets = append(sets, fmt.Sprint(a))
			}
			want = uniform(sets)
		}
	}
	what := fmt.Sprintf("growforest %v, classes %v", args[2:], cats)
	nobag := args[len(args)-1] == "-nobag"
	got := c.Enumerate(func() string {
		s := ""
		_, res := cmd.Run(c, sched.Config{NoRaces: true, KeepRand: true, Traced: func(leave bool, name string, thread int, lg []sched.Draw, a []interface{}) {
			if !leave {
				cases := append([]int{}, a[3].([]int)...)
				if nobag {
					sort.Ints(cases)
				}
				s = fmt.Sprint(cases)
			}
		}}, growforest.Main, args...)
		c.Check(res.Exit == "" && res.Deadlock == "", "%s: %s%s\n%s", what, res.Exit, res.Deadlock, res.Stack)
		return s
	})
	d := differ(want, got)
	c.Check(d == "", "%s: the first tree is grown from cases of which %s", what, d)
	c.Eval(1)
	c.State(what)
	c.Outcome("%d %v", len(got), args[10:])
}

// shuffled: growforest -permute and -shuffleRE put the values of the columns
// they name, and of no other, in an order in which all are equally likely.
func shuffled(c *mc.Ctx) {
	n := 2 + c.Choose(c.Int(3, 4), "cases - 2")
	num := c.Bool("numbers")
	target := cf.Column{Name: "N:t", Num: true}
	if !num {
		target.Name = "C:t"
		target.Num = false
	}
	t := cf.Table{Cols: []cf.Column{{Name: "N:x", Num: true}, target, {Name: "C:xz"}}}
	miss := c.Choose(2, "missing") == 1
	for i := 0; i < n; i++ {
		t.Labels = append(t.Labels, fmt.Sprint("case", i))
		t.Cols[0].Vals = append(t.Cols[0].Vals, fmt.Sprint(i+1))
		if num {
			t.Cols[1].Vals = append(t.Cols[1].Vals, fmt.Sprint(10*i+10))
		} else {
			t.Cols[1].Vals = append(t.Cols[1].Vals, []string{"a", "b", "c", "a", "d"}[i])
		}
		t.Cols[2].Vals = append(t.Cols[2].Vals, []string{"p", "q", "r", "q", "s"}[i])
	}
	if miss {
		t.Cols[0].Vals[1] = ""
		t.Cols[2].Vals[0] = ""
		if n > 2 {
			t.Cols[1].Vals[0] = ""
		}
	}
	cmd.Keep("train.afm", t.AFM(false, ".", "NA", "\n", true))
	trees := 1 + c.Choose(2, "trees - 1")
	args := []string{"-train", cmd.Path("train.afm"), "-target", target.Name, "-nTrees", fmt.Sprint(trees), "-mTry", "1", "-leafSize", "99", "-nobag", "-nSamples", fmt.Sprint(n)}
	moves := [3]bool{}
	if c.Bool("permute") {
		args = append(args, "-permute")
		moves[1] = true
	}
	switch c.Choose(6, "shuffleRE") {
	case 1:
		args = append(args, "-shuffleRE", "N:x")
		moves[0] = true
	case 2:
		args = append(args, "-shuffleRE", "^C:x")
		moves[2] = true
	case 3:
		args = append(args, "-shuffleRE", "x")
		moves[0], moves[2] = true, true
	case 4:
		args = append(args, "-shuffleRE", ":[t]")
	case 5:
		args = append(args, "-shuffleRE", ".*")
		moves[0], moves[2] = true, true
	}
	k := 0
	for _, m := range moves {
		if m {
			k++
		}
	}
	if k*n > 9 {
		c.Discard() // too many orders
	}
	list := []string{""}
	for j, col := range t.Cols {
		orders := [][]int{cf.Seq(n)}
		if moves[j] {
			orders = arrangements(cf.Seq(n), n)
		}
		var next []string
		for _, a := range list {
			for _, o := range orders {
				next = append(next, a+fmt.Sprint(pickVals(col.Vals, o), ";"))
			}
		}
		list = next
	}
	what := fmt.Sprintf("growforest %v, data %v", args[2:], t)
	got := c.Enumerate(func() string {
		s := ""
		grown := 0
		_, res := cmd.Run(c, sched.Config{NoRaces: true, KeepRand: true, Traced: func(leave bool, name string, thread int, lg []sched.Draw, a []interface{}) {
			if leave {
				return
			}
			grown++
			fm := a[1].(*C.FeatureMatrix)
			now := ""
			for j := range t.Cols {
				f := fm.Data[j]
				vals := make([]string, n)
				for i := range vals {
					if !f.IsMissing(i) {
						vals[i] = f.GetStr(i)
					}
				}
				now += fmt.Sprint(vals, ";")
			}
			c.Check(s == "" || s == now, "%s: the data of the second tree are %s, of the first %s", what, now, s)
			s = now
		}}, growforest.Main, args...)
		c.Check(res.Exit == "" && res.Deadlock == "", "%s: %s%s\n%s", what, res.Exit, res.Deadlock, res.Stack)
		c.Check(grown == trees, "%s: %d trees are grown", what, grown)
		return s
	})
	d := differ(uniform(list), got)
	c.Check(d == "", "%s: trees are grown from data %s", what, d)
	c.Eval(1)
	c.State(what)
	c.Outcome("%d", len(got))
}

func pickVals(vals []string, order []int) []string {
	out := make([]string, len(order))
	for i, o := range order {
		out[i] = vals[o]
	}
	return out
}

// grown: the library draws as many cases as it is asked for, with replacement,
// for each tree, from those with a target.
func grown(c *mc.Ctx) {
	n := 1 + c.Choose(3, "cases - 1")
	k := 1 + c.Choose(c.Int(5, 6), "samples - 1")
	trees := 1 + c.Choose(2, "trees - 1")
	if trees == 2 && k > 3 {
		c.Discard()
	}
	vals := []float64{1, 16, 256}[:n]
	miss := c.Choose(n+1, "missing") // n: none
	y := cf.Num("N:t", append([]float64{}, vals...))
	var known []int
	for i := range vals {
		if i == miss {
			y.PutMissing(i)
		} else {
			known = append(known, i)
		}
	}
	if len(known) == 0 {
		c.Discard()
	}
	x := cf.Num("N:x", append([]float64{}, vals...))
	what := fmt.Sprintf("%d trees of %d of the cases %v", trees, k, known)
	got := c.Enumerate(func() string {
		fm := cf.FM(x.Copy(), y.Copy())
		f := C.GrowRandomForest(fm, fm.Data[1].(C.Target), []int{0}, k, 1, trees, k, -1, false, false, false, false, nil)
		out := ""
		for _, t := range f.Trees {
			// a single leaf whose prediction is the mean of the sample
			m, err := strconv.ParseFloat(t.Root.Pred, 64)
			c.Check(err == nil && t.Root.Splitter == nil, "%s: the tree is split", what)
			out += fmt.Sprint(math.Round(m*float64(k)*1024)/1024, " ")
		}
		return out
	})
	c.Eval(1)
	c.State(what)
	var sums []string
	for _, s := range sequences(known, k) {
		sum := 0.0
		for _, i := range s {
			sum += vals[i]
		}
		sums = append(sums, fmt.Sprint(sum, " "))
	}
	if trees == 2 {
		var two []string
		for _, a := range sums {
			for _, b := range sums {
				two = append(two, a+b)
			}
		}
		sums = two
	}
	d := differ(uniform(sums), got)
	c.Check(d == "", "%s: the sums of the samples: %s", what, d)
	c.Outcome("%d of %d", k, len(known))
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C16", Quick: 150, ThoroughS: 800, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution enumerates every sequence of answers of the random source for one population and computes the exact probability of every result, which must be the documented one",
		Assumptions: []string{"the random source answers every request for a number below n with each of the n numbers equally likely and independently"},
		Scenarios: []mc.Scenario{
			{Name: "first of a shuffle", Run: firstN, Bound: "0..5 (6) cards in 3 orders, any number of draws and constants"},
			{Name: "with replacement", Run: withReplacement, Bound: "1..4 cases, 0..4 (5) draws"},
			{Name: "shuffling features", Run: shuffles, Bound: "1..4 (5) entries, numeric or categorical, distinct, equal or missing; whole, copied, or among any subset of cases"},
			{Name: "balanced", Run: balanced, Bound: "1..4 (5) cases in 3 classes, some empty, missing; 0..3 draws"},
			{Name: "balanced within", Run: secondary, Bound: "1..4 (5) cases in 2x2 classes, some empty, missing; up to 2 draws"},
			{Name: "contrasts", Run: contrasts, Bound: "2 features of 1..3 cases"},
			{Name: "big", Run: big100, Bound: "65 and 130 (33, 65, 130, 257) cases: shuffling, shuffling cases, first half, with replacement, balanced; every answer to every draw, the others being first, last or in between"},
			{Name: "forests", Run: grown, Bound: "1..3 cases, none or one without a target, 1..5 (6) samples, 1..2 trees of one leaf"},
			{Name: "growforest shuffles", Run: shuffled, Bound: "2..4 (5) cases, a number or class as target, with and without missing values, 1..2 trees, -permute and 6 -shuffleRE, up to 9 values moved: the data every tree is given"},
			{Name: "growforest", Run: command, Bound: "2..3 (4) cases in 2 classes, 1..2 samples, with replacement, balanced, balanced within, without bagging"},
		},
	})
}

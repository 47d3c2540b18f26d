// C06: the search over candidate features draws what it should, returns the
// best of what it evaluated and keeps its list of constant features.
package main

import (
	"fmt"
	"math/big"
	"math/rand"
	"sort"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
	"verifmc/ref"
)

const (
	constant = iota
	zero
	low
	high
)

var gains = []float64{1e-7, 1e-7, 0.25, 0.5}
var letters = "czlh"

// probe is a feature whose splits are decided by the scenario.
type probe struct {
	*C.DenseNumFeature
	id   int
	kind int
	log  *[]int
}

func (p *probe) BestSplit(target C.Target, cases *[]int, parentImp float64, leafSize int, randomSplit bool, allocs *C.BestSplitAllocs) (interface{}, float64, bool) {
	*p.log = append(*p.log, p.id)
	return float64(p.id), gains[p.kind], p.kind == constant
}

func key(eval []int, nc int) string {
	s := append([]int{}, eval...)
	sort.Ints(s)
	return fmt.Sprint(s, " constants ", nc)
}

// expect is the distribution of what gets evaluated: candidates are drawn
// without replacement, every remaining one equally likely, known constants
// are not evaluated; drawing ends after mTry draws (when forced: not before
// something other than a constant was drawn) or when nothing is left.
func expect(cans []int, kinds map[int]int, before, mTry int, force bool) map[string]*big.Rat {
	out := map[string]*big.Rat{}
	known := map[int]bool{}
	for _, f := range cans[len(cans)-before:] {
		known[f] = true
	}
	var rec func(rest []int, eval []int, draws, drawnConst, nc int, w *big.Rat)
	rec = func(rest []int, eval []int, draws, drawnConst, nc int, w *big.Rat) {
		if !(draws < mTry || force && draws <= drawnConst) || nc == len(cans) || len(rest) == 0 {
			k := key(eval, nc)
			if out[k] == nil {
				out[k] = new(big.Rat)
			}
			out[k].Add(out[k], w)
			return
		}
		w2 := new(big.Rat).Mul(w, big.NewRat(1, int64(len(rest))))
		for i, f := range rest {
			r2 := append(append([]int{}, rest[:i]...), rest[i+1:]...)
			if known[f] {
				rec(r2, eval, draws+1, drawnConst+1, nc, w2)
				continue
			}
			e2 := append(append([]int{}, eval...), f)
			if kinds[f] == constant {
				rec(r2, e2, draws+1, drawnConst+1, nc+1, w2)
			} else {
				rec(r2, e2, draws+1, drawnConst, nc, w2)
			}
		}
	}
	rec(cans, nil, 0, 0, before, big.NewRat(1, 1))
	return out
}

type world struct {
	fm     *C.FeatureMatrix
	t      C.Target
	allocs *C.BestSplitAllocs
	log    []int
	kinds  map[int]int
}

func build(n int, kind func(i int) int) *world {
	w := &world{kinds: map[int]int{}}
	y := cf.Cat("C:y", cf.Names(2), []int{0, 1, 0, 1})
	fs := []C.Feature{y}
	for i := 1; i <= n; i++ {
		p := &probe{cf.Num(fmt.Sprint("N:", i), []float64{1, 2, 3, 4}), i, kind(i), &w.log}
		w.kinds[i] = p.kind
		fs = append(fs, p)
	}
	w.fm = cf.FM(fs...)
	w.t = y
	w.allocs = C.NewBestSplitAllocs(4, y)
	return w
}

func set(xs []int) string {
	s := append([]int{}, xs...)
	sort.Ints(s)
	return fmt.Sprint(s)
}

// call runs BestSplitter and checks everything about one call. It returns the
// number of constants.
func (w *world) call(c *mc.Ctx, what string, cans *[]int, before, mTry int, force bool) (int, string) {
	w.log = w.log[:0]
	cases := []int{0, 1, 2, 3}
	was := append([]int{}, *cans...)
	var fi, nc int
	var split interface{}
	var dec float64
	p := c.Try(func() {
		fi, split, dec, nc = w.fm.BestSplitter(w.t, &cases, cans, mTry, nil, 1, force, false, false, false, w.allocs, before)
	})
	c.Check(p == "", "%s: candidates %v with %d known constants: panic %s", what, was, before, p)
	c.Eval(1)
	known := map[int]bool{}
	for _, f := range was[len(was)-before:] {
		known[f] = true
	}
	seen := map[int]bool{}
	best := 1e-7
	found := 0
	for _, f := range w.log {
		c.Check(!seen[f], "%s: feature %d was evaluated twice", what, f)
		c.Check(!known[f], "%s: feature %d is known to be constant but was evaluated", what, f)
		seen[f] = true
		if w.kinds[f] == constant {
			found++
		} else if g := gains[w.kinds[f]]; g > best {
			best = g
		}
	}
	if best > 1e-7 {
		c.Check(split != nil && dec == best && seen[fi] && gains[w.kinds[fi]] == best, "%s: evaluated %v, returned feature %d with decrease %v and split %v, the best of those evaluated has %v", what, w.log, fi, dec, split, best)
		c.Check(split.(float64) == float64(fi), "%s: the split returned is that of feature %v, the feature %d", what, split, fi)
	} else {
		c.Check(split == nil, "%s: evaluated %v, none of which splits, returned split %v of feature %d", what, w.log, split, fi)
	}
	c.Check(set(*cans) == set(was), "%s: candidate list %v became %v", what, was, *cans)
	c.Check(nc == before+found, "%s: %d constants known, %d found, returned %d", what, before, found, nc)
	now := *cans
	if before > 0 {
		c.Check(set(now[len(now)-before:]) == set(was[len(was)-before:]), "%s: the known constants at the end of %v changed: %v", what, was, now)
	}
	for _, f := range now[len(now)-nc:] {
		c.Check(w.kinds[f] == constant && (seen[f] || known[f]), "%s: feature %d is recorded as constant in %v (%d constants)", what, f, now, nc)
	}
	return nc, key(w.log, nc)
}

func same(a, b map[string]*big.Rat) string {
	for k, v := range a {
		if b[k] == nil || b[k].Cmp(v) != 0 {
			return fmt.Sprintf("%q has probability %v, should be %v", k, b[k], v)
		}
	}
	for k, v := range b {
		if a[k] == nil {
			return fmt.Sprintf("%q has probability %v, should be impossible", k, v)
		}
	}
	return ""
}

func single(c *mc.Ctx) {
	n := 1 + c.Choose(c.Int(4, 5), "candidates - 1")
	before := c.Choose(n+1, "known constants")
	// candidates in descending order, known constants last
	w := build(n, func(i int) int {
		if i <= before {
			return constant
		}
		return c.Choose(4, "")
	})
	mTry := 1 + c.Choose(n+2, "mTry - 1")
	force := c.Bool("force")
	fresh := make([]int, n)
	ks := make([]string, n)
	for i := range fresh {
		fresh[i] = n - i
		ks[i] = letters[w.kinds[n-i] : w.kinds[n-i]+1]
	}
	what := fmt.Sprintf("candidates %s (%d known constants) mTry=%d force=%v", strings.Join(ks, ""), before, mTry, force)
	got := c.Enumerate(func() string {
		cans := append([]int{}, fresh...)
		_, k := w.call(c, what, &cans, before, mTry, force)
		return k
	})
	want := expect(fresh, w.kinds, before, mTry, force)
	c.State(what)
	c.Outcome("%d", len(got))
	d := same(want, got)
	c.Check(d == "", "%s: over all answers of the random source, %s", what, d)
	c.Sample("%s: %d distinct results, each with its exact probability", what, len(got))
}

// crowd: many candidates, one of which is best.
func crowd(c *mc.Ctx) {
	ns := []int{65, 130, 300}
	if c.Thorough() {
		ns = append(ns, 33, 129, 257, 600)
	}
	n := mc.Pick(c, ns, "candidates")
	before := mc.Pick(c, []int{0, 7, n / 2}, "known constants")
	at := before + 1 + c.Choose(9, "best")*(n-before-1)/8
	some := mc.Pick(c, []int{0, 2, 5}, "constants")
	w := build(n, func(i int) int {
		switch {
		case i == at:
			return high
		case i <= before || some > 0 && i%some == 0:
			return constant
		case i%3 == 0:
			return zero
		}
		return low
	})
	mTry := mc.Pick(c, []int{n, n / 2, 10, n + 1}, "mTry")
	force := c.Bool("force")
	base := c.Choose(3, "answers")
	k := 0
	c.Rand(func(b int) int {
		k++
		return []int{0, b - 1, k * 37 % b}[base]
	})
	cans := make([]int, n)
	for i := range cans {
		cans[i] = n - i
	}
	what := fmt.Sprintf("%d candidates (%d known constants, best %d), mTry %d, force %v", n, before, at, mTry, force)
	w.call(c, what, &cans, before, mTry, force)
	c.Rand(nil)
	c.Statef("%s %d %d", what, some, base)
	if mTry >= n {
		c.Check(len(w.log) == n-before, "%s: %d of the others are evaluated", what, len(w.log))
	} else if !force {
		c.Check(len(w.log) <= mTry, "%s: %d are evaluated", what, len(w.log))
	}
	c.Outcome("%d", len(w.log))
}

// nested calls: a node, its child with the constants found, then the sibling
// with the constants known before.
func nested(c *mc.Ctx) {
	n := 2 + c.Choose(c.Int(2, 3), "candidates - 2")
	w := build(n, func(i int) int { return mc.Pick(c, []int{constant, low, high}, "") })
	m := 1 + c.Choose(n, "mTry - 1")
	force := c.Bool("force")
	c.RandAll()
	cans := make([]int, n)
	for i := range cans {
		cans[i] = n - i
	}
	what := fmt.Sprintf("%v mTry=%d force=%v", w.kinds, m, force)
	n1, _ := w.call(c, what+" node", &cans, 0, m, force)
	c.Statef("%s %v %d", what, cans, n1)
	n2, _ := w.call(c, what+" child", &cans, n1, m, force)
	c.Statef("%s %v %d %d", what, cans, n1, n2)
	if c.Bool("grandchild") {
		w.call(c, what+" grandchild", &cans, n2, m, force)
	}
	n3, _ := w.call(c, what+" sibling", &cans, n1, m, force)
	c.Statef("%s %v %d %d %d", what, cans, n1, n2, n3)
	c.Outcome("%v", cans)
}

// evaloob: the decrease reported is the one over the out of bag cases.
func evaloob(c *mc.Ctx) {
	n := 6
	y := make([]int, n)
	for i := range y {
		y[i] = c.Choose(2, "")
	}
	t, r := cf.CatTarget("gini", 2, y)
	x1, x2 := make([]float64, n), make([]int, n)
	for i := range x1 {
		x1[i] = float64((i * 5) % 4)
		x2[i] = (i*5 + i/3) % 3
	}
	f1, f2 := cf.Num("N:1", x1), cf.Cat("C:2", cf.Names(3), x2)
	fm := cf.FM(t.(C.Feature), f1, f2)
	in := []int{0, 1, 2, 3}
	oob := []int{4, 5}
	switch c.Choose(3, "bag") {
	case 1:
		in, oob = []int{0, 2, 2}, []int{1, 3, 4, 5}
	case 2:
		in, oob = []int{5, 4, 3, 2, 1}, []int{0}
	}
	ob := append([]int{}, oob...)
	allocs := C.NewBestSplitAllocs(n, t)
	cans := mc.Pick(c, [][]int{{1}, {2}, {1, 2}}, "candidates")
	cans = append([]int{}, cans...)
	given := append([]int{}, in...)
	c.RandAll()
	fi, split, dec, _ := fm.BestSplitter(t, &in, &cans, len(cans), &oob, 1, false, false, true, false, allocs, 0)
	c.Eval(1)
	what := fmt.Sprintf("%s in bag %v out of bag %v", r, given, ob)
	c.State(what)
	c.Check(cf.SameMultiset(ob, oob), "%s: out of bag cases changed to %v", what, oob)
	val := func(fi int, split interface{}) (float64, bool) {
		var l, rr []int
		for _, i := range ob {
			left := false
			if fi == 1 {
				left = x1[i] <= split.(float64)
			} else {
				left = split.(int)&(1<<uint(x2[i])) != 0
			}
			if left {
				l = append(l, i)
			} else {
				rr = append(rr, i)
			}
		}
		if len(l) == 0 || len(rr) == 0 {
			return 0, false
		}
		return r.Dec(l, rr, nil), true
	}
	if split != nil {
		want, _ := val(fi, split)
		c.Check(cf.Close(dec, want, 1e-9) && dec > 1e-7, "%s: feature %d split %v reported with decrease %v, out of bag it achieves %v", what, fi, split, dec, want)
		c.Outcome("%v", dec)
	} else if len(cans) == 1 && r.Imp(given) > 1e-6 {
		in2 := append([]int{}, given...)
		s, d, _ := fm.Data[cans[0]].BestSplit(t, &in2, t.Impurity(&in2, allocs.Counter), 1, false, allocs)
		if d > 1e-7 {
			v, ok := val(cans[0], s)
			c.Check(!ok || v <= 1e-7+1e-9, "%s: nothing reported, feature %d split %v achieves %v out of bag", what, cans[0], s, v)
		}
	}
}

type vetProbe struct {
	*C.DenseNumFeature
	calls []string
	decs  []float64
}

func (p *vetProbe) BestSplit(target C.Target, cases *[]int, parentImp float64, leafSize int, randomSplit bool, allocs *C.BestSplitAllocs) (interface{}, float64, bool) {
	s, d, k := p.DenseNumFeature.BestSplit(target, cases, parentImp, leafSize, randomSplit, allocs)
	p.calls = append(p.calls, cf.Describe(target.(C.Feature)))
	p.decs = append(p.decs, d)
	return s, d, k
}

// dirty leaves in the scratch space what another search may have left there.
func dirty(allocs *C.BestSplitAllocs) {
	switch f := allocs.ContrastTarget.(C.Feature).(type) {
	case C.NumFeature:
		for i := 0; i < f.Length(); i++ {
			f.Put(i, 99)
		}
	case C.CatFeature:
		for i := 0; i < f.Length(); i++ {
			f.Puti(i, 0)
		}
	}
}

// candidates: the column alone, or with another one that is known to be constant.
func candidates(c *mc.Ctx, n int) (others []C.Feature, cans func() []int, known int) {
	if c.Bool("another candidate is known to be constant") {
		return []C.Feature{cf.Num("N:k", make([]float64, n))}, func() []int { return []int{0, 1} }, 1
	}
	return nil, func() []int { return []int{0} }, 0
}

// vet: the decrease is reduced by what the same feature achieves on a randomly
// permuted target, the target itself stays as it was.
func vet(c *mc.Ctx) {
	n := 4
	y := make([]int, n)
	for i := range y {
		y[i] = c.Choose(2, "")
	}
	in := mc.Pick(c, [][]int{{0, 1, 2, 3}, {3, 1, 0}, {2, 0}}, "cases")
	x := mc.Pick(c, [][]float64{{1, 2, 3, 4}, {2, 1, 2, 1}, {1, 1, 2, 3}}, "column")
	numeric := c.Bool("numeric target")
	mk := func() C.Target {
		if numeric {
			yy := make([]float64, n)
			for i := range yy {
				yy[i] = float64(y[i])
			}
			t, _ := cf.NumTarget("num", yy)
			return t
		}
		t, _ := cf.CatTarget("gini", 2, y)
		return t
	}
	var r *ref.T
	if numeric {
		yy := make([]float64, n)
		for i := range yy {
			yy[i] = float64(y[i])
		}
		r = &ref.T{Kind: "num", Num: yy}
	} else {
		r = &ref.T{Kind: "gini", Cat: y, NCats: 2}
	}
	if r.Imp(in) <= 1e-7 {
		c.Discard()
	}
	t := mk()
	orig := cf.Describe(t.(C.Feature))
	origVals := make([]string, n)
	for i := range origVals {
		origVals[i] = t.(C.Feature).GetStr(i)
	}
	allocs := C.NewBestSplitAllocs(n, t)
	allocs.Rnd = rand.New(rand.NewSource(1))
	perms := map[string]bool{}
	others, list, known := candidates(c, n)
	got := c.Enumerate(func() string {
		p := &vetProbe{DenseNumFeature: cf.Num("N:x", x)}
		fm := cf.FM(append([]C.Feature{p}, others...)...)
		cases := append([]int{}, in...)
		cans := list()
		dirty(allocs)
		_, split, dec, _ := fm.BestSplitter(t, &cases, &cans, 1, nil, 1, true, true, false, false, allocs, known)
		c.Eval(1)
		c.Check(cf.Describe(t.(C.Feature)) == orig, "vetting changed the target from %s to %s", orig, cf.Describe(t.(C.Feature)))
		if len(p.calls) < 2 {
			c.Check(p.decs[0] <= 1e-7+1e-9, "a split with decrease %v was not vetted", p.decs[0])
			return "not vetted"
		}
		c.Check(p.calls[0] == orig, "the split was searched on %s, not on the target %s", p.calls[0], orig)
		// what the contrast does
		cm := p.calls[1]
		var cv []string
		cm2 := cm[strings.Index(cm, "[")+1 : len(cm)-1]
		cv = strings.Split(cm2, " ")
		inSet := map[int]bool{}
		var a, b []string
		for _, i := range in {
			inSet[i] = true
			a = append(a, origVals[i])
			b = append(b, cv[i])
		}
		sort.Strings(a)
		sort.Strings(b)
		c.Check(fmt.Sprint(a) == fmt.Sprint(b), "contrast %s is no permutation of %s over cases %v", cm, orig, in)
		for i := range cv {
			c.Check(inSet[i] || cv[i] == origVals[i], "contrast %s differs from %s outside of cases %v", cm, orig, in)
		}
		want := p.decs[0] - p.decs[1]
		if want > 1e-7 {
			c.Check(split != nil && cf.Close(dec, want, 1e-9), "vetted decrease is %v, should be %v - %v", dec, p.decs[0], p.decs[1])
		} else {
			c.Check(split == nil, "split reported though its vetted decrease is %v", want)
		}
		perms[cm] = true
		return cm
	})
	c.State(fmt.Sprint(orig, in, x))
	if len(perms) > 0 {
		// every arrangement equally likely
		var p0 *big.Rat
		for k, v := range got {
			if p0 == nil {
				p0 = v
			}
			c.Check(v.Cmp(p0) == 0, "contrast %s of %s over %v has probability %v, another one %v", k, orig, in, v, p0)
			at := strings.Index(k, "[")
			if at < 0 {
				continue
			}
			cv := strings.Split(k[at+1:len(k)-1], " ")
			for _, i := range in {
				for _, j := range in {
					x := append([]string{}, cv...)
					x[i], x[j] = x[j], x[i]
					other := k[:at+1] + strings.Join(x, " ") + k[len(k)-1:]
					c.Check(got[other] != nil, "contrast %s of %s over %v occurs, %s does not", k, orig, in, other)
				}
			}
		}
	}
	c.Outcome("%d", len(perms))
}

// both: vetting and evaluating out of bag together. Both decreases are those
// over the out of bag cases.
type bothProbe struct {
	*C.DenseNumFeature
	targets []C.Target
	cases   [][]int
	splits  []float64
	decs    []float64
}

func (p *bothProbe) BestSplit(target C.Target, cases *[]int, parentImp float64, leafSize int, randomSplit bool, allocs *C.BestSplitAllocs) (interface{}, float64, bool) {
	s, d, k := p.DenseNumFeature.BestSplit(target, cases, parentImp, leafSize, randomSplit, allocs)
	p.targets = append(p.targets, target)
	p.cases = append(p.cases, append([]int{}, *cases...))
	v, _ := s.(float64)
	p.splits = append(p.splits, v)
	p.decs = append(p.decs, d)
	return s, d, k
}

func both(c *mc.Ctx) {
	n := 6
	y := make([]int, n)
	yy := make([]float64, n)
	for i := range y {
		y[i] = c.Choose(2, "")
		yy[i] = float64(y[i])
	}
	x := mc.Pick(c, [][]float64{{1, 2, 3, 4, 1.5, 2.5}, {2, 1, 2, 1, 1, 2}, {1, 1, 2, 3, 3, 1}}, "column")
	in, oob := []int{0, 1, 2, 3}, []int{4, 5}
	switch c.Choose(4, "bag") {
	case 1:
		in, oob = []int{0, 2, 2}, []int{1, 3, 4, 5}
	case 2:
		in, oob = []int{5, 4}, []int{0, 1, 2, 3}
	case 3:
		in, oob = []int{5, 4, 3, 2, 1}, []int{0}
	}
	numeric := c.Bool("numeric target")
	var t C.Target
	r := &ref.T{Kind: "gini", Cat: y, NCats: 2}
	if numeric {
		t, _ = cf.NumTarget("num", yy)
		r = &ref.T{Kind: "num", Num: yy}
	} else {
		t, _ = cf.CatTarget("gini", 2, y)
	}
	if r.Imp(in) <= 1e-7 {
		c.Discard()
	}
	what := fmt.Sprintf("%s x=%v in bag %v out of bag %v", r, x, in, oob)
	allocs := C.NewBestSplitAllocs(n, t)
	others, list, known := candidates(c, n)
	c.State(fmt.Sprint(what, known))
	got := c.Enumerate(func() string {
		p := &bothProbe{DenseNumFeature: cf.Num("N:x", x)}
		fm := cf.FM(append([]C.Feature{p}, others...)...)
		cases, ob := append([]int{}, in...), append([]int{}, oob...)
		cans := list()
		dirty(allocs)
		var split interface{}
		var dec float64
		pn := c.Try(func() {
			_, split, dec, _ = fm.BestSplitter(t, &cases, &cans, 1, &ob, 1, true, true, true, false, allocs, known)
		})
		c.Check(pn == "", "%s: panic %s", what, pn)
		c.Eval(1)
		part := func(v float64) (l, rr []int) {
			for _, i := range oob {
				if x[i] <= v {
					l = append(l, i)
				} else {
					rr = append(rr, i)
				}
			}
			return
		}
		own := p.decs[0]
		if own > 1e-7 {
			if l, rr := part(p.splits[0]); len(l) == 0 || len(rr) == 0 {
				return "" // nothing to tell apart out of bag
			} else {
				own = r.Dec(l, rr, nil)
			}
		}
		if own <= 1e-7+1e-9 {
			c.Check(split == nil || own > 1e-7-1e-9, "%s: a split was reported though the decrease out of bag is %v", what, own)
			return ""
		}
		c.Check(len(p.decs) == 2, "%s: a split with an out of bag decrease of %v was searched %d times", what, own, len(p.decs))
		c.Check(cf.SameMultiset(p.cases[1], oob), "%s: the contrast was searched on cases %v, the decrease it is compared with is out of bag", what, p.cases[1])
		ct := p.targets[1].(C.Feature)
		cr := &ref.T{Kind: r.Kind, NCats: 2}
		for i := 0; i < n; i++ {
			one := 0
			if numeric {
				v := ct.(C.NumFeature).Get(i)
				cr.Num = append(cr.Num, v)
				if v == 1 {
					one = 1
				}
			} else {
				one = ct.(C.CatFeature).Geti(i)
				cr.Cat = append(cr.Cat, one)
			}
		}
		sum, want := 0, 0
		for _, i := range oob {
			want += y[i]
			if numeric {
				sum += int(cr.Num[i])
			} else {
				sum += cr.Cat[i]
			}
		}
		c.Check(sum == want, "%s: the contrast %s is no permutation out of bag", what, cf.Describe(ct))
		vetted := 1e-7
		for _, v := range x {
			l, rr := part(v)
			if len(l) == 0 || len(rr) == 0 {
				continue
			}
			if d := cr.Dec(l, rr, nil); d > vetted {
				vetted = d
			}
		}
		if own-vetted > 1e-7+1e-9 {
			c.Check(split != nil && cf.Close(dec, own-vetted, 1e-6), "%s: reported %v, the decrease out of bag is %v and that of the contrast %s is %v", what, dec, own, cf.Describe(ct), vetted)
		} else if own-vetted < 1e-7-1e-9 {
			c.Check(split == nil, "%s: a split was reported with %v, the decrease out of bag is %v and that of the contrast %s is %v", what, dec, own, cf.Describe(ct), vetted)
		}
		c.Outcome("%.3f", own-vetted)
		out := "contrast"
		for _, i := range oob {
			out += " " + ct.GetStr(i)
		}
		return out
	})
	// every arrangement of the out of bag cases, all equally likely
	sum := 0
	for _, i := range oob {
		sum += y[i]
	}
	all := new(big.Int).Binomial(int64(len(oob)), int64(sum))
	for k, v := range got {
		if k != "" {
			want := new(big.Rat).SetFrac(big.NewInt(1), all)
			c.Check(v.Cmp(want) == 0, "%s: %s out of bag has probability %v, should be one of %v", what, k, v, all)
		}
	}
}

// forest: a whole forest grown with splits evaluated out of bag and perhaps
// vetted. With a single feature that equals the response a tree splits exactly
// if its sample and what is left out both have both classes.
func forest(c *mc.Ctx) {
	n := 4
	if c.Bool("five cases") {
		n = 5 // so that more are left out than sampled
	}
	y := make([]int, n)
	x := make([]float64, n)
	for i := range y {
		y[i] = c.Choose(2, "")
		x[i] = float64(y[i])
	}
	ns := 2
	if n == 4 || c.Thorough() {
		ns = 1 + c.Choose(n, "samples - 1")
	}
	vet := c.Bool("vet")
	c.RandAll()
	t, _ := cf.CatTarget("gini", 2, y)
	p := &bothProbe{DenseNumFeature: cf.Num("N:x", x)}
	fm := cf.FM(t.(C.Feature), p)
	var f *C.Forest
	pn := c.Try(func() {
		f = C.GrowRandomForest(fm, t, []int{1}, ns, 1, 1, 1, 0, false, false, vet, true, nil)
	})
	c.Eval(1)
	c.State(fmt.Sprint(y, ns, vet, p.cases))
	c.Check(pn == "", "GrowRandomForest with response %v, %d samples, vetting %v: panic %s", y, ns, vet, pn)
	split := f.Trees[0].Root.Splitter != nil
	if len(p.cases) == 0 {
		c.Check(!split, "a pure sample was split")
		return
	}
	in := map[int]bool{}
	for _, i := range p.cases[0] {
		in[i] = true
	}
	var has [2]bool
	for i := range y {
		if !in[i] {
			has[y[i]] = true
		}
	}
	want := has[0] && has[1]
	c.Outcome("%v %v", want, split)
	what := fmt.Sprintf("response %v, sample %v, vetting %v", y, p.cases[0], vet)
	if vet {
		c.Check(want || !split, "%s: split although that decreases nothing out of bag", what)
		return
	}
	c.Check(want == split, "%s: split: %v, out of bag it separates the classes: %v", what, split, want)
}

func main() {
	mc.Main(mc.Spec{
		Property: "C06", Quick: 150, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one candidate list and setting under one or all sequences of random answers; evaluated features, result and constants bookkeeping are compared with drawing without replacement",
		Assumptions: []string{"features are stand-ins with chosen gains, so the search is decided apart from the split evaluation (C02, C03)"},
		Scenarios: []mc.Scenario{
			{Name: "one node", Run: single, Bound: "1..4 (5) candidates, every mix of constant/zero/low/high gain, every number of known constants, mTry 1..n+2, forced or not; every answer of the random source with its exact probability"},
			{Name: "many candidates", Run: crowd, Bound: "65, 130 and 300 (600) candidates, up to half of them known constants, none, half or a fifth of the others constant, the best at 9 places, mTry 10 to n+1, 3 sequences of answers"},
			{Name: "node child sibling", Run: nested, Bound: "2..3 (4) candidates, every mix, mTry 1..n, forced or not, every answer over 3..4 successive calls"},
			{Name: "evaluate out of bag", Run: evaloob, Bound: "every two class response of 6 cases, 3 bags, numeric and categorical candidates, every answer"},
			{Name: "forest out of bag", Run: forest, Bound: "GrowRandomForest of one tree: every two class response of 4 cases with samples of 1..4 and of 5 cases with samples of 2 (1..5), with and without vetting, every sample"},
			{Name: "vetting out of bag", Run: both, Bound: "every two valued response (numeric or categorical) of 6 cases, 3 columns, 4 bags, every permutation"},
			{Name: "vetting", Run: vet, Bound: "every response of 4 cases, 3 case lists, 3 columns, every permutation with its probability"},
		},
	})
}

// C01: a split partitions its cases and every router agrees on the side.
package main

import (
	"fmt"
	"math"
	"math/big"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
)

// side per case: 'L','R','M' as defined by the statement
type oracle func(i int) byte

func sides(o oracle, cases []int) string {
	b := make([]byte, len(cases))
	for k, i := range cases {
		b[k] = o(i)
	}
	return string(b)
}

// verify sends cases through every router and compares with the oracle.
func verify(c *mc.Ctx, f C.Feature, coded interface{}, cases []int, o oracle) {
	check := func(how string, l, m, r []int, all []int) {
		c.Eval(1)
		c.Check(len(l)+len(m)+len(r) == len(cases), "%s: %d+%d+%d cases out of %d", how, len(l), len(m), len(r), len(cases))
		for _, part := range []struct {
			name byte
			cs   []int
		}{{'L', l}, {'M', m}, {'R', r}} {
			for _, i := range part.cs {
				c.Check(o(i) == part.name, "%s: case %d (%s) went %c, should go %c; split %v, column %s, cases %v", how, i, f.GetStr(i), part.name, o(i), coded, cf.Describe(f), cases)
			}
		}
		joined := append(append(append([]int{}, l...), m...), r...)
		c.Check(cf.SameMultiset(joined, cases), "%s: parts %v %v %v are not a permutation of %v", how, l, m, r, cases)
		if all != nil {
			c.Check(fmt.Sprint(joined) == fmt.Sprint(all), "%s: the array %v is not left %v, missing %v, right %v", how, all, l, m, r)
		}
	}
	fresh := func() []int { // guards on both sides detect writes outside the list
		b := make([]int, len(cases)+2)
		b[0], b[len(b)-1] = -7, -8
		copy(b[1:], cases)
		return b
	}
	guard := func(how string, b []int) {
		c.Check(b[0] == -7 && b[len(b)-1] == -8, "%s wrote outside of its cases", how)
	}
	before := cf.Describe(f)

	b := fresh()
	w := b[1 : len(b)-1]
	l, r, m := f.Split(coded, w)
	check("Split", l, m, r, w)
	guard("Split", b)

	b = fresh()
	w = b[1 : len(b)-1]
	nl, fr := f.SplitPoints(coded, &w)
	c.Check(nl >= 0 && nl <= fr && fr <= len(w), "SplitPoints: %d, %d of %d", nl, fr, len(w))
	check("SplitPoints", w[:nl], w[nl:fr], w[fr:], w)
	guard("SplitPoints", b)

	s := f.DecodeSplit(coded)
	c.Check(s.Feature == f.GetName(), "DecodeSplit: feature %q instead of %q", s.Feature, f.GetName())
	// a decoy first column shows whether the splitter looks its feature up
	decoy := cf.Num("N:decoy", make([]float64, f.Length()))
	fm := cf.FM(decoy, f)
	b = fresh()
	w = b[1 : len(b)-1]
	l, r, m = s.Split(fm, w)
	check("Splitter.Split", l, m, r, w)
	guard("Splitter.Split", b)
	for _, i := range cases {
		if !f.IsMissing(i) {
			c.Check(f.GoesLeft(i, s) == (o(i) == 'L'), "GoesLeft: case %d (%s) %v, should be %c; split %v", i, f.GetStr(i), f.GoesLeft(i, s), o(i), coded)
			c.Eval(1)
		}
	}
	// a second, already split list is split the same way (idempotence)
	b2 := append([]int{}, w...)
	l, r, m = f.Split(coded, b2)
	check("Split of a split list", l, m, r, b2)

	c.Check(cf.Describe(f) == before, "splitting changed the column: %s -> %s", before, cf.Describe(f))
}

func numColumn(c *mc.Ctx) (*C.DenseNumFeature, func(i int) (float64, bool)) {
	vals := []float64{-2.5, 0, 1, math.Copysign(0, -1), math.MaxFloat64, 1, -math.MaxFloat64}
	kind := c.Choose(4, "kind")
	stale := []float64{-5, 5}
	f := cf.Num("N:x", vals)
	miss := map[int]bool{}
	switch kind {
	case 1: // cells put to missing keep their old data
		for k, v := range stale {
			f.Put(k, v)
			f.PutMissing(k)
			miss[k] = true
		}
	case 2: // appended missing
		f = cf.Num("N:x", append([]float64{math.NaN(), 3, math.NaN()}, vals[:4]...))
		vals = append([]float64{0, 3, 0}, vals[:4]...)
		miss[0], miss[2] = true, true
	case 3: // flag set although nothing is missing any more
		f.PutMissing(1)
		f.Put(1, vals[1])
	}
	return f, func(i int) (float64, bool) { return vals[i], miss[i] }
}

func caseList(c *mc.Ctx, n, max int) []int {
	k := c.Choose(max+1, "len")
	cs := make([]int, k)
	for i := range cs {
		cs[i] = c.Choose(n, "")
	}
	return cs
}

var thresholds = []float64{-1, 0, 0.5, 1, math.Inf(-1), math.Inf(1), math.MaxFloat64, -math.MaxFloat64, -2.5, math.Nextafter(1, 0), math.Nextafter(0, -1)}

func main() {
	mc.Main(mc.Spec{
		Property: "C01", Quick: 100, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is a column, a split and a case list, sent through Split, SplitPoints, DecodeSplit+Splitter.Split, GoesLeft and a second Split and compared case by case with the definition; all are distinct",
		Assumptions: []string{"NaN feature values are outside the domain", "a splitter is applied to data that has its feature"},
		Scenarios: []mc.Scenario{
			{Name: "numeric", Bound: "columns of 7 values with ties, signed zero, extremes, stale data under missing marks; 11 thresholds; every case list of length 0..5 (6) with repetition", Run: func(c *mc.Ctx) {
				f, val := numColumn(c)
				t := mc.Pick(c, thresholds, "threshold")
				cases := caseList(c, 7, c.Int(4, 6))
				o := func(i int) byte {
					v, m := val(i)
					if m {
						return 'M'
					}
					if v <= t {
						return 'L'
					}
					return 'R'
				}
				c.Sample("%s threshold %v cases %v sides %s", cf.Describe(f), t, cases, sides(o, cases))
				c.State(fmt.Sprint(cf.Describe(f), t, cases))
				c.Outcome("%s", sides(o, cases))
				verify(c, f, t, cases, o)
			}},
			{Name: "numeric-long", Bound: "every pattern of left, right and missing over 1..9 (11) cases", Run: func(c *mc.Ctx) {
				n := 1 + c.Choose(c.Int(9, 11), "n")
				vals := make([]float64, n)
				pat := make([]byte, n)
				for i := range vals {
					switch c.Choose(3, "") {
					case 0:
						vals[i], pat[i] = 1, 'L'
					case 1:
						vals[i], pat[i] = 2, 'R'
					case 2:
						vals[i], pat[i] = math.NaN(), 'M'
					}
				}
				f := cf.Num("N:x", vals)
				cases := cf.Seq(n)
				c.State(string(pat))
				c.Outcome("%s", pat)
				verify(c, f, 1.5, cases, func(i int) byte { return pat[i] })
			}},
			{Name: "categorical", Bound: "1..4 categories: every set of categories as int and big code, every case list of length 0..4 (5) with missing values", Run: func(c *mc.Ctx) {
				n := 1 + c.Choose(4, "cats")
				catCase(c, n, c.Choose(1<<uint(n), "code"), nil)
			}},
			{Name: "categorical-wide", Bound: "5,6,11,12,30,31,32,33,40,62,64,65,70 categories: single bits at the ends, alternating, all, none and complements", Run: func(c *mc.Ctx) {
				n := mc.Pick(c, []int{5, 6, 11, 12, 30, 31, 32, 33, 40, 62, 64, 65, 70}, "cats")
				code := new(big.Int)
				switch c.Choose(7, "code") {
				case 0:
					code.SetBit(code, n-1, 1)
				case 1:
					code.SetBit(code, 0, 1)
				case 2:
					for i := 0; i < n; i += 2 {
						code.SetBit(code, i, 1)
					}
				case 3:
					for i := 0; i < n; i++ {
						code.SetBit(code, i, 1)
					}
				case 4:
				case 5:
					for i := 0; i < n-1; i++ {
						code.SetBit(code, i, 1)
					}
				case 6:
					for i := n / 2; i < n; i++ {
						code.SetBit(code, i, 1)
					}
				}
				catCase(c, n, 0, code)
			}},
			{Name: "other-encoding", Bound: "splitters decoded on one column, applied to a column whose categories are numbered differently or unknown", Run: func(c *mc.Ctx) {
				n := 1 + c.Choose(4, "cats")
				names := cf.Names(n)
				train := cf.Cat("C:x", names, cf.Seq(n))
				code := c.Choose(1<<uint(n), "code")
				var coded interface{} = code
				if c.Bool("big") {
					coded = big.NewInt(int64(code))
				}
				s := train.DecodeSplit(coded)
				perm := permutation(c, n+1)
				all := append(append([]string{}, names...), "unseen")
				test := &C.DenseCatFeature{CatMap: &C.CatMap{Map: map[string]int{}}, Name: "C:x"}
				want := []byte{}
				for _, p := range perm {
					test.Append(all[p])
					if p < n && code&(1<<uint(p)) != 0 {
						want = append(want, 'L')
					} else {
						want = append(want, 'R')
					}
				}
				test.Append("NA")
				want = append(want, 'M')
				fm := cf.FM(cf.Num("N:d", make([]float64, n+2)), test)
				l, r, m := s.Split(fm, cf.Seq(n+2))
				c.Eval(1)
				got := make([]byte, n+2)
				for k, part := range [][]int{l, r, m} {
					for _, i := range part {
						got[i] = "LRM"[k]
					}
				}
				c.State(fmt.Sprint(n, code, perm))
				c.Outcome("%s", got)
				c.Check(string(got) == string(want), "splitter %v on %s: sides %s, should be %s", s.Left, cf.Describe(test), got, want)
				for i := 0; i <= n; i++ {
					c.Check(test.GoesLeft(i, s) == (want[i] == 'L'), "GoesLeft %d of %s by %v is %v", i, cf.Describe(test), s.Left, test.GoesLeft(i, s))
				}
			}},
		},
	})
}

func permutation(c *mc.Ctx, n int) []int {
	left := cf.Seq(n)
	var out []int
	for len(left) > 0 {
		k := c.Choose(len(left), "")
		out = append(out, left[k])
		left = append(left[:k], left[k+1:]...)
	}
	return out
}

func catCase(c *mc.Ctx, n, code int, bigCode *big.Int) {
	var coded interface{} = code
	bit := func(v int) bool { return code&(1<<uint(v)) != 0 }
	if bigCode != nil {
		coded = bigCode
		bit = func(v int) bool { return bigCode.Bit(v) == 1 }
		if n <= 62 && c.Bool("int") {
			coded = int(bigCode.Int64())
		}
	} else if c.Bool("big") {
		coded = big.NewInt(int64(code))
	}
	names := cf.Names(n)
	var vals []int
	var cases []int
	kind := c.Choose(3, "missing")
	var f *C.DenseCatFeature
	miss := map[int]bool{}
	if n <= 4 {
		vals = append(cf.Seq(n), 0, n-1)
	} else {
		vals = []int{0, 1, n / 2, n - 2, n - 1, 0, n - 1}
	}
	switch kind {
	case 0:
		f = cf.Cat("C:x", names, vals)
	case 1: // appended
		f = cf.Cat("C:x", names, append(append([]int{}, vals...), -1))
		vals = append(vals, 0)
		miss[len(vals)-1] = true
	case 2: // put, stale data below
		f = cf.Cat("C:x", names, vals)
		f.PutMissing(0)
		miss[0] = true
		f.PutMissing(len(vals) - 1)
		miss[len(vals)-1] = true
	}
	if n <= 4 {
		cases = caseList(c, len(vals), c.Int(4, 5))
	} else {
		cases = caseList(c, len(vals), c.Int(3, 4))
	}
	o := func(i int) byte {
		if miss[i] {
			return 'M'
		}
		if bit(vals[i]) {
			return 'L'
		}
		return 'R'
	}
	c.Sample("%s code %v cases %v sides %s", cf.Describe(f), coded, cases, sides(o, cases))
	c.State(fmt.Sprint(cf.Describe(f), coded, n, cases))
	c.Outcome("%s", sides(o, cases))
	verify(c, f, coded, cases, o)
}

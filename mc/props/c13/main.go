// C13: ballot boxes and accumulators are linearizable: under every
// interleaving of their operations the outcome is that of some sequential
// order of them.
package main

import (
	"bytes"
	"fmt"
	"io/ioutil"
	"log"
	"math"
	"sort"
	"strconv"
	"strings"

	C "github.com/ryanbressler/CloudForest"
	"verifmc/cf"
	"verifmc/mc"
	"verifmc/sched"
	"verifmc/vsync"
)

// op is an operation, what it returned and when it was called and returned.
type op struct {
	name   string
	i      int
	pred   string
	w      float64
	got    string
	s, e   int
	thread int
}

func (o op) String() string {
	switch o.name {
	case "vote":
		return fmt.Sprintf("Vote(%d,%q,%v)", o.i, o.pred, o.w)
	case "add":
		return fmt.Sprintf("Add(%d,%q,%v)", o.i, o.pred, o.w)
	}
	return fmt.Sprintf("%s(%d)", o.name, o.i)
}

// object is what the operations act on; model is its sequential meaning.
type object interface {
	do(o *op)
	final() string
}
type model interface {
	clone() model
	do(o op) string // what the operation returns, "" if nothing is demanded
	final() string
}

func linear(ops []*op, m model, final string, done int) bool {
	if done == 1<<uint(len(ops))-1 {
		return m.final() == final
	}
	for i, o := range ops {
		if done>>uint(i)&1 == 1 {
			continue
		}
		first := true
		for j, p := range ops {
			if done>>uint(j)&1 == 0 && j != i && p.e < o.s {
				first = false
			}
		}
		if !first {
			continue
		}
		n := m.clone()
		if r := n.do(*o); r != "" && r != o.got {
			continue
		}
		if linear(ops, n, final, done|1<<uint(i)) {
			return true
		}
	}
	return false
}

func program(c *mc.Ctx, threads, each int, menu []op) [][]*op {
	var prog [][]*op
	for t := 0; t < threads; t++ {
		var ops []*op
		for k := 0; k < each; k++ {
			o := menu[c.Choose(len(menu), fmt.Sprintf("thread %d", t))]
			o.thread = t
			ops = append(ops, &o)
		}
		prog = append(prog, ops)
	}
	// threads that only differ by their names: one order of them is enough
	for t := 1; t < threads; t++ {
		if fmt.Sprint(prog[t]) < fmt.Sprint(prog[t-1]) {
			c.Discard()
		}
	}
	return prog
}

func execute(c *mc.Ctx, prog [][]*op, build func() (object, model)) {
	var ob object
	var m model
	clock := 0
	var final string
	res := sched.Run(c, sched.Config{}, func() {
		ob, m = build()
		var wg vsync.WaitGroup
		wg.Add(len(prog))
		for _, ops := range prog {
			ops := ops
			sched.GoFunc(func() {
				for _, o := range ops {
					clock++
					o.s = clock
					ob.do(o)
					clock++
					o.e = clock
				}
				wg.Done()
			})
		}
		wg.Wait()
	})
	c.Check(res.Deadlock == "", "%v: %s", prog, res.Deadlock)
	c.Check(res.Exit == "", "%v: %s\n%s", prog, res.Exit, res.Stack)
	final = ob.final()
	var all []*op
	desc := func() (desc string) {
		for t, ops := range prog {
			desc += fmt.Sprintf(" thread %d:", t+1)
			for _, o := range ops {
				desc += fmt.Sprintf(" %v@%d..%d=%q", *o, o.s, o.e, o.got)
			}
		}
		return
	}
	for _, ops := range prog {
		all = append(all, ops...)
	}
	c.Statef("%s -> %s", desc(), final)
	if !linear(all, m, final, 0) {
		c.Failf("no sequential order of the operations has this outcome:%s; in the end %s", desc(), final)
	}
	c.Eval(1)
	c.Outcome("%s", final)
}

// ---- categorical ballot box

type catBox struct {
	bb     *C.CatBallotBox
	n      int
	target C.Feature
}

func (x *catBox) do(o *op) {
	switch o.name {
	case "vote":
		x.bb.Vote(o.i, o.pred, o.w)
	case "tally":
		o.got = x.bb.Tally(o.i)
	case "error":
		o.got = fmt.Sprint(x.bb.TallyError(x.target))
	}
}

// final finds the weight of each category from the outside: the winner of a
// case is found, its weight measured with a rival and taken away again.
func (x *catBox) final() string {
	out := ""
	for i := 0; i < x.n; i++ {
		out += fmt.Sprint(i, ":")
		var got []string
		for k := 0; k < 10; k++ {
			w := x.bb.Tally(i)
			if w == "NA" {
				break
			}
			v := 0.0
			for x.bb.Tally(i) == w && v < 64 {
				x.bb.Vote(i, "~", 0.5)
				v += 0.5
			}
			x.bb.Vote(i, "~", -v)
			v -= 0.5 // ties go to the lesser name, and ~ is greater than all
			x.bb.Vote(i, w, -v)
			got = append(got, fmt.Sprintf("%s=%v", w, v))
		}
		sort.Strings(got)
		out += strings.Join(got, ",") + " "
	}
	return out
}

type catModel struct {
	w    []map[string]float64
	err0 bool
}

func (m *catModel) clone() model {
	n := &catModel{}
	for _, a := range m.w {
		b := map[string]float64{}
		for k, v := range a {
			b[k] = v
		}
		n.w = append(n.w, b)
	}
	return n
}

func (m *catModel) do(o op) string {
	switch o.name {
	case "vote":
		m.w[o.i][o.pred] += o.w
	case "tally":
		best, name := 0.0, "NA"
		for k, v := range m.w[o.i] {
			if v > best || v == best && v > 0 && k < name {
				best, name = v, k
			}
		}
		return name
	}
	return ""
}

func (m *catModel) final() string {
	out := ""
	for i, a := range m.w {
		var got []string
		for k, v := range a {
			if v > 0 {
				got = append(got, fmt.Sprintf("%s=%v", k, v))
			}
		}
		sort.Strings(got)
		out += fmt.Sprint(i, ":") + strings.Join(got, ",") + " "
	}
	return out
}

func newCat() (object, model) {
	x := &catBox{bb: C.NewCatBallotBox(2), n: 2, target: cf.Cat("C:t", []string{"a", "b"}, []int{0, 1})}
	m := &catModel{w: []map[string]float64{{}, {}}}
	x.bb.Vote(0, "a", 1)
	m.w[0]["a"] = 1
	return x, m
}

func catScenario(threads, each int, menu []op) func(*mc.Ctx) {
	return func(c *mc.Ctx) { execute(c, program(c, threads, each, menu), newCat) }
}

func v(i int, p string, w float64) op { return op{name: "vote", i: i, pred: p, w: w} }
func rdop(n string, i int) op         { return op{name: n, i: i} }

// ---- numeric and sum boxes

type numBox struct {
	nb     *C.NumBallotBox
	sb     *C.SumBallotBox
	sum    bool
	n      int
	target C.Feature
}

func num(x float64) string { return strconv.FormatFloat(x, 'g', 9, 64) }

func (x *numBox) do(o *op) {
	var t C.VoteTallyer = x.nb
	if x.sum {
		t = x.sb
	}
	switch o.name {
	case "vote":
		t.Vote(o.i, o.pred, o.w)
	case "tally":
		s := t.Tally(o.i)
		if f, err := strconv.ParseFloat(s, 64); err == nil {
			s = num(f)
		}
		o.got = s
	case "error":
		o.got = fmt.Sprint(t.TallyError(x.target))
	}
}

func (x *numBox) final() string {
	out := ""
	for i := 0; i < x.n; i++ {
		if x.sum {
			out += num(x.sb.TallyNum(i)) + " "
			continue
		}
		if x.nb.Tally(i) == "NA" {
			out += "none "
			continue
		}
		m := x.nb.TallyNum(i)
		x.nb.Vote(i, fmt.Sprint(m+1000), 1)
		cnt := 1000/(x.nb.TallyNum(i)-m) - 1
		out += fmt.Sprintf("%s/%.3f ", num(m), cnt)
	}
	return out
}

type numModel struct {
	sum []float64
	w   []float64
	add bool
}

func (m *numModel) clone() model {
	return &numModel{append([]float64{}, m.sum...), append([]float64{}, m.w...), m.add}
}

func (m *numModel) do(o op) string {
	switch o.name {
	case "vote":
		if f, err := strconv.ParseFloat(o.pred, 64); err == nil {
			m.sum[o.i] += f * o.w
			m.w[o.i] += o.w
		}
	case "tally":
		if m.add {
			return num(m.sum[o.i])
		}
		if m.w[o.i] == 0 {
			return "NA"
		}
		return num(m.sum[o.i] / m.w[o.i])
	}
	return ""
}

func (m *numModel) final() string {
	out := ""
	for i := range m.sum {
		switch {
		case m.add:
			out += num(m.sum[i]) + " "
		case m.w[i] == 0:
			out += "none "
		default:
			out += fmt.Sprintf("%s/%.3f ", num(m.sum[i]/m.w[i]), m.w[i])
		}
	}
	return out
}

func numScenario(threads, each int, menu []op) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		add := c.Bool("sum box")
		execute(c, program(c, threads, each, menu), func() (object, model) {
			return &numBox{C.NewNumBallotBox(2), C.NewSumBallotBox(2), add, 2, cf.Num("N:t", []float64{1, 2})}, &numModel{make([]float64, 2), make([]float64, 2), add}
		})
	}
}

// ---- running means and sparse counters

type acc struct {
	rm *[]*C.RunningMean
	sc *C.SparseCounter
}

func (x *acc) do(o *op) {
	switch o.name {
	case "add":
		f, _ := strconv.ParseFloat(o.pred, 64)
		switch {
		case o.i >= 10:
			x.sc.Add(o.i, int(f), int(o.w))
		case o.w == 1:
			(*x.rm)[o.i].Add(f)
		default:
			(*x.rm)[o.i].WeightedAdd(f, o.w)
		}
	case "read":
		m, n := (*x.rm)[o.i].Read()
		o.got = num(m) + "/" + num(n)
	case "print":
		o.got = x.tsv()
	}
}

func (x *acc) tsv() string {
	var b bytes.Buffer
	x.sc.WriteTsv(&b)
	l := strings.Split(strings.TrimSpace(b.String()), "\n")
	sort.Strings(l)
	return strings.Replace(strings.Join(l, ";"), "\t", ",", -1)
}

func (x *acc) final() string {
	out := ""
	for _, r := range *x.rm {
		m, n := r.Read()
		out += num(m) + "/" + num(n) + " "
	}
	return out + x.tsv()
}

type accModel struct {
	sum, w [2]float64
	cnt    map[string]int
}

func (m *accModel) clone() model {
	n := *m
	n.cnt = map[string]int{}
	for k, v := range m.cnt {
		n.cnt[k] = v
	}
	return &n
}

func (m *accModel) do(o op) string {
	switch o.name {
	case "add":
		f, _ := strconv.ParseFloat(o.pred, 64)
		if o.i >= 10 {
			m.cnt[fmt.Sprintf("%d,%d", o.i, int(f))] += int(o.w)
			break
		}
		m.sum[o.i] += f * o.w
		m.w[o.i] += o.w
	case "read":
		return m.mean(o.i)
	case "print":
		return m.tsv()
	}
	return ""
}

func (m *accModel) mean(i int) string {
	if m.w[i] == 0 {
		return "0/0"
	}
	return num(m.sum[i]/m.w[i]) + "/" + num(m.w[i])
}

func (m *accModel) tsv() string {
	var l []string
	for k, v := range m.cnt {
		l = append(l, fmt.Sprint(k, ",", v))
	}
	sort.Strings(l)
	return strings.Join(l, ";")
}

func (m *accModel) final() string { return m.mean(0) + " " + m.mean(1) + " " + m.tsv() }

func accScenario(threads, each int, menu []op) func(*mc.Ctx) {
	return func(c *mc.Ctx) {
		execute(c, program(c, threads, each, menu), func() (object, model) {
			return &acc{C.NewRunningMeans(2), new(C.SparseCounter)}, &accModel{cnt: map[string]int{}}
		})
	}
}

func add(i int, p string, w float64) op { return op{name: "add", i: i, pred: p, w: w} }

// Two trees vote for overlapping cases at the same time.
func trees(c *mc.Ctx) {
	n := 4
	fm := &C.FeatureMatrix{Data: []C.Feature{cf.Num("N:x", []float64{1, 2, 3, math.NaN()})}, Map: map[string]int{"N:x": 0}}
	for i := 0; i < n; i++ {
		fm.CaseLabels = append(fm.CaseLabels, fmt.Sprint("c", i))
	}
	leaf := func(p string) *C.Node { return &C.Node{Pred: p} }
	mk := func(th float64, l, r, m string) *C.Tree {
		t := C.NewTree()
		t.Root.Splitter = &C.Splitter{Feature: "N:x", Numerical: true, Value: th}
		t.Root.Left, t.Root.Right, t.Root.Missing = leaf(l), leaf(r), leaf(m)
		return t
	}
	kind := c.Choose(2, "box")
	preds := []string{"a", "b", "c", "a"}
	if kind == 1 {
		preds = []string{"1", "2", "4", "-8"}
	}
	ths := []float64{mc.Pick(c, []float64{1.5, 2.5}, "threshold"), mc.Pick(c, []float64{1.5, 2.5}, "threshold")}
	m := c.Choose(2, "category at the missing branch")
	ts := []*C.Tree{mk(ths[0], preds[0], preds[1], preds[2]), mk(ths[1], preds[1], preds[m*2], preds[3])}
	sub := [][]int{{0, 1, 3}, {1, 2, 3}}
	whole := c.Bool("all cases")
	box := func() C.VoteTallyer {
		if kind == 0 {
			return C.NewCatBallotBox(n)
		}
		return C.NewNumBallotBox(n)
	}
	vote := func(t int, b C.VoteTallyer) {
		if whole {
			ts[t].Vote(fm, b)
		} else {
			ts[t].VoteCases(fm, b, sub[t])
		}
	}
	ref := box()
	vote(0, ref)
	vote(1, ref)
	var bb C.VoteTallyer
	res := sched.Run(c, sched.Config{}, func() {
		bb = box()
		var wg vsync.WaitGroup
		wg.Add(2)
		for t := range ts {
			t := t
			sched.GoFunc(func() { vote(t, bb); wg.Done() })
		}
		wg.Wait()
	})
	c.Check(res.Deadlock == "" && res.Exit == "", "two trees vote: %s%s\n%s", res.Deadlock, res.Exit, res.Stack)
	out := ""
	for i := 0; i < n; i++ {
		a, b := ref.Tally(i), bb.Tally(i)
		fa, err := strconv.ParseFloat(a, 64)
		fb, _ := strconv.ParseFloat(b, 64)
		c.Check(a == b || err == nil && cf.Close(fa, fb, 1e-12), "case %d gets %q when the trees vote at the same time, %q one after the other", i, b, a)
		out += b + " "
	}
	c.State(out)
	c.Eval(1)
	c.Outcome("%s", out)
}

// many: what one thread adds again and again is counted however often.
func many(c *mc.Ctx) {
	n := mc.Pick(c, []int{1, 127, 129, 255, 257, 1000, 32769, 65537, 100000}, "additions")
	w := mc.Pick(c, []float64{1, 0.5, 3}, "weight")
	ms, sc := C.NewRunningMeans(3), new(C.SparseCounter)
	sched.Run(c, sched.Config{NoRaces: true, OneSchedule: true, MaxPoints: 20000000}, func() {
		for i := 0; i < n; i++ {
			(*ms)[1].WeightedAdd(float64(i%4), w)
			(*ms)[2].Add(float64(i%4 + 1))
			sc.Add(n, 70000, 1)
			sc.Add(i%3, i, 2)
		}
	})
	sum := 0
	for i := 0; i < n; i++ {
		sum += i % 4
	}
	m, k := (*ms)[1].Read()
	c.Check(cf.Close(m, float64(sum)/float64(n), 1e-9) && k == float64(n)*w, "%d values of weight %v added: mean %v and weight %v instead of %v and %v", n, w, m, k, float64(sum)/float64(n), float64(n)*w)
	m, k = (*ms)[2].Read()
	c.Check(cf.Close(m, 1+float64(sum)/float64(n), 1e-9) && k == float64(n), "%d values added: mean %v of %v instead of %v", n, m, k, 1+float64(sum)/float64(n))
	m, k = (*ms)[0].Read()
	c.Check(m == 0 && k == 0, "a mean nothing was added to is %v of %v", m, k)
	var b bytes.Buffer
	sc.WriteTsv(&b)
	lines := strings.Split(strings.TrimSpace(b.String()), "\n")
	left := map[string]bool{fmt.Sprintf("%d\t70000\t%d", n, n): true}
	for i := 0; i < n; i++ {
		left[fmt.Sprintf("%d\t%d\t2", i%3, i)] = true
	}
	c.Check(len(lines) == len(left), "%d cells counted, %d written", len(left), len(lines))
	for _, l := range lines {
		c.Check(left[l], "after %d additions %q is written", n, l)
	}
	c.Statef("%d %v", n, w)
	c.Step(4 * n)
	c.Eval(1)
	c.Outcome("%d", n)
}

func main() {
	log.SetOutput(ioutil.Discard)
	cat := []op{v(0, "a", 1), v(0, "b", 2), v(1, "b", 1), v(1, "c", 4), rdop("tally", 0), rdop("tally", 1)}
	catE := []op{v(0, "b", 2), v(1, "c", 4), rdop("error", 0), rdop("tally", 0)}
	nums := []op{v(0, "1", 1), v(0, "4", 2), v(1, "-2", 0.5), rdop("tally", 0), rdop("error", 0)}
	accs := []op{add(0, "1", 1), add(0, "4", 2), add(1, "2", 1), rdop("read", 0), add(10, "1", 1), add(10, "2", 2), add(11, "1", 1), rdop("print", 0)}
	mc.Main(mc.Spec{
		Property: "C13", Quick: 120, ThoroughS: 780, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one program of operations and one schedule of its threads at their synchronization operations, up to a number of preemptions; it must be explained by a sequential order of the operations that respects the order of calls that do not overlap, and no two accesses to the same memory may be unordered",
		Assumptions: []string{"schedules change only at synchronization operations; the data race detector justifies this", "the error of a box computed while votes are cast need not be that of a moment", "mutexes are sequentially consistent"},
		Scenarios: []mc.Scenario{
			{Name: "categorical box", Run: catScenario(2, 2, cat), Dev: 2, DevThorough: 3, Bound: "2 threads of 2 operations from 6, 2 (3) preemptions"},
			{Name: "categorical box, error", Run: catScenario(2, 2, catE), Dev: 2, DevThorough: 3, Bound: "2 threads of 2 operations from 4 including the error of all cases, 2 (3) preemptions"},
			{Name: "categorical box, 3 threads", Run: catScenario(3, 1, cat), Dev: 2, DevThorough: 3, Bound: "3 threads of 1 operation from 6, 2 (3) preemptions"},
			{Name: "categorical box, 3 operations", Run: catScenario(2, 3, cat[:5]), Dev: 1, DevThorough: 2, ThoroughOnly: true, Bound: "2 threads of 3 operations from 5, 2 preemptions"},
			{Name: "categorical box, 3 threads of 2", Run: catScenario(3, 2, cat[1:5]), Dev: 1, DevThorough: 2, ThoroughOnly: true, Bound: "3 threads of 2 operations from 4, 2 preemptions"},
			{Name: "numeric and sum boxes", Run: numScenario(2, 2, nums), Dev: 2, DevThorough: 3, Bound: "2 threads of 2 operations from 5, 2 (3) preemptions"},
			{Name: "numeric and sum boxes, 3 threads", Run: numScenario(3, 1, nums), Dev: 2, DevThorough: 3, Bound: "3 threads of 1 operation from 5, 2 (3) preemptions"},
			{Name: "means and counters", Run: accScenario(2, 2, accs), Dev: 2, DevThorough: 3, Bound: "2 threads of 2 operations from 8, 2 (3) preemptions"},
			{Name: "means and counters, 3 threads", Run: accScenario(3, 1, accs), Dev: 2, DevThorough: 3, Bound: "3 threads of 1 operation from 8, 2 (3) preemptions"},
			{Name: "many additions", Run: many, Bound: "1..100000 additions (around 2^7, 2^8, 2^15, 2^16) of 3 weights by one thread"},
			{Name: "trees", Run: trees, Dev: 2, DevThorough: 4, Bound: "2 trees voting for 3 or 4 cases, 2 (4) preemptions"},
		},
	})
}

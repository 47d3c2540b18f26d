// C30: failing or interrupted input and output is noticed, and what is read
// does not depend on how it arrives.
package main

import (
	"archive/zip"
	"bytes"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"log"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"syscall"

	C "github.com/ryanbressler/CloudForest"
	applyforest "github.com/ryanbressler/CloudForest/applyforest"
	growforest "github.com/ryanbressler/CloudForest/growforest"
	leafcount "github.com/ryanbressler/CloudForest/leafcount"
	nfold "github.com/ryanbressler/CloudForest/utils/nfold"
	toafm "github.com/ryanbressler/CloudForest/utils/toafm"
	"verifmc/cf"
	"verifmc/cmd"
	"verifmc/mc"
	"verifmc/sched"
)

// ---- commands

// fault makes one operation on the files of a run fail.
type fault struct {
	read    bool
	at      int  // the operation that fails, counted from 0; -1: none
	part    bool // a write stores half of its bytes before it fails
	forever bool // and so does every one after it
	chunk   int  // reads return at most this many bytes; 0: as asked for
	n       int  // operations seen
	hit     bool
	name    string
}

func (ft *fault) mine(f *os.File) bool {
	return filepath.Dir(f.Name()) == cmd.Dir() && filepath.Base(f.Name()) != "stdout"
}

// due counts an operation and reports whether it fails.
func (ft *fault) due(f *os.File) bool {
	k := ft.n
	ft.n++
	if ft.at < 0 || k < ft.at || k > ft.at && !ft.forever {
		return false
	}
	if !ft.hit {
		ft.name = filepath.Base(f.Name())
	}
	ft.hit = true
	return true
}

func (ft *fault) install() {
	os.VerifWrite = func(f *os.File, b []byte) (int, error, bool) {
		if ft.read || !ft.mine(f) || !ft.due(f) {
			return 0, nil, false
		}
		n := 0
		if ft.part {
			h := os.VerifWrite
			os.VerifWrite = nil
			n, _ = f.Write(b[:len(b)/2])
			os.VerifWrite = h
		}
		return n, &os.PathError{Op: "write", Path: f.Name(), Err: syscall.ENOSPC}, true
	}
	os.VerifRead = func(f *os.File, b []byte) (int, error, bool) {
		if !ft.read || !ft.mine(f) {
			return 0, nil, false
		}
		if ft.due(f) {
			return 0, &os.PathError{Op: "read", Path: f.Name(), Err: syscall.EIO}, true
		}
		if ft.chunk == 0 || len(b) <= ft.chunk {
			return 0, nil, false
		}
		h := os.VerifRead
		os.VerifRead = nil
		n, err := f.Read(b[:ft.chunk])
		os.VerifRead = h
		return n, err, true
	}
}

// task is one call of a command.
type task struct {
	name string
	main func()
	args func() []string
	outs []string
}

func p(name string) string { return cmd.Path(name) }

const rows = ".\tc0\tc1\tc2\tc3\tc4\tc5\nN:x\t1\t2\t3\t4\tNA\t6\nC:k\ta\tb\ta\tb\ta\tNA\nN:z\t5\t-2\t3\t1\t9\t0\nC:y\tu\tu\tu\tv\tv\tv\nN:t\t1.5\t2\t2\t8\t9\t7\n"

const catForest = "FOREST=0,TARGET=\"C:y\"\nTREE=0,TARGET=\"C:y\"\nNODE=*,SPLITTER=N:x,SPLITTERTYPE=NUMERICAL,LVALUES=3,RVALUES=3\nNODE=*L,PRED=u\nNODE=*R,PRED=v\nTREE=1,TARGET=\"C:y\"\nNODE=*,SPLITTER=C:k,SPLITTERTYPE=CATEGORICAL,LVALUES=\"a\"\nNODE=*L,PRED=v\nNODE=*R,PRED=u\nTREE=2,TARGET=\"C:y\",WEIGHT=2\nNODE=*,PRED=u\n"

const numForest = "FOREST=0,TARGET=\"N:t\",INTERCEPT=2.5\nTREE=0,TARGET=\"N:t\"\nNODE=*,SPLITTER=N:z,SPLITTERTYPE=NUMERICAL,LVALUES=0,RVALUES=0\nNODE=*L,PRED=1\nNODE=*R,PRED=-0.5\nTREE=1,TARGET=\"N:t\"\nNODE=*,PRED=4\n"

func inputs() {
	cmd.Keep("in.afm", rows)
	cmd.Keep("in.arff", "@relation r\n@attribute x numeric\n@attribute y {u,v}\n@data\n1,u\n2,v\n?,u\n4,v\n")
	cmd.Keep("in.libsvm", "1 1:2 2:3\n0 2:1.5\n1 1:-2\n")
	cmd.Keep("black", "N:z\n")
	cmd.Keep("cat.sf", catForest)
	cmd.Keep("num.sf", numForest)
}

func grow(name string, outs []string, more ...string) task {
	return task{"growforest " + name, growforest.Main, func() []string {
		a := []string{"-train", p("in.afm"), "-nTrees", "2", "-leafSize", "1"}
		for _, m := range more {
			if strings.HasPrefix(m, "@") {
				m = p(m[1:])
			}
			a = append(a, m)
		}
		return a
	}, outs}
}

func call(name string, main func(), outs []string, args ...string) task {
	return task{name, main, func() (a []string) {
		for _, m := range args {
			if strings.HasPrefix(m, "@") {
				m = p(m[1:])
			}
			a = append(a, m)
		}
		return
	}, outs}
}

var tasks = []task{
	grow("-rfpred, classes", []string{"f.sf"}, "-target", "C:y", "-rfpred", "@f.sf"),
	grow("-rfpred, numbers", []string{"f.sf"}, "-target", "N:t", "-rfpred", "@f.sf", "-splitmissing"),
	grow("-importance", []string{"imp"}, "-target", "C:y", "-importance", "@imp"),
	grow("-oobpreds", []string{"oob"}, "-target", "C:y", "-oobpreds", "@oob", "-nSamples", "4"),
	grow("-scikitforest", []string{"f.json"}, "-target", "C:y", "-scikitforest", "@f.json", "-blacklist", "@black"),
	grow("-ace", []string{"imp", "f.sf"}, "-target", "N:t", "-ace", "2", "-importance", "@imp", "-rfpred", "@f.sf"),
	grow("-gbt", []string{"f.sf"}, "-target", "N:t", "-gbt", "0.5", "-rfpred", "@f.sf"),
	grow("everything", []string{"f.sf", "imp", "oob", "f.json"}, "-target", "C:y", "-rfpred", "@f.sf", "-importance", "@imp", "-oobpreds", "@oob", "-scikitforest", "@f.json", "-test", "@in.afm", "-nCores", "2", "-progress"),
	call("applyforest -preds, classes", applyforest.Main, []string{"preds"}, "-fm", "@in.afm", "-rfpred", "@cat.sf", "-preds", "@preds"),
	call("applyforest -preds, numbers", applyforest.Main, []string{"preds"}, "-fm", "@in.afm", "-rfpred", "@num.sf", "-preds", "@preds"),
	call("applyforest -preds -sum", applyforest.Main, []string{"preds"}, "-fm", "@in.afm", "-rfpred", "@num.sf", "-sum", "-preds", "@preds"),
	call("applyforest -votes", applyforest.Main, []string{"votes"}, "-fm", "@in.afm", "-rfpred", "@cat.sf", "-votes", "@votes"),
	call("leafcount", leafcount.Main, []string{"leaves"}, "-fm", "@in.afm", "-rfpred", "@num.sf", "-leaves", "@leaves"),
	call("leafcount, everything", leafcount.Main, []string{"leaves", "branches", "splits"}, "-fm", "@in.afm", "-rfpred", "@cat.sf", "-leaves", "@leaves", "-branches", "@branches", "-splits", "@splits"),
	call("nfold", nfold.Main, []string{"train_0", "train_1", "test_0", "test_1"}, "-fm", "@in.afm", "-target", "C:y", "-folds", "2", "-train", "@train_%v", "-test", "@test_%v"),
	call("nfold -writearff", nfold.Main, []string{"train_0.arff", "train_1.arff", "test_0.arff", "test_1.arff"}, "-fm", "@in.afm", "-target", "N:t", "-unstratified", "-folds", "2", "-train", "@train_%v", "-test", "@test_%v", "-writearff", "-blacklist", "@black"),
	call("nfold -writelibsvm", nfold.Main, []string{"train_0.libsvm", "train_1.libsvm", "test_0.libsvm", "test_1.libsvm"}, "-fm", "@in.afm", "-target", "C:y", "-folds", "2", "-train", "@train_%v", "-test", "@test_%v", "-writelibsvm"),
	call("toafm, arff", toafm.Main, []string{"out"}, "-data", "@in.arff", "-out", "@out"),
	call("toafm, libsvm", toafm.Main, []string{"out"}, "-data", "@in.libsvm", "-out", "@out"),
	call("toafm -libsvmtarget", toafm.Main, []string{"out"}, "-data", "@in.afm", "-out", "@out", "-libsvmtarget", "C:y", "-blacklist", "@black"),
}

var sets = regexp.MustCompile(`LVALUES="[^"]*"`)

// canon forgets the orders that are arbitrary.
func canon(s string) string {
	s = sets.ReplaceAllStringFunc(s, func(m string) string {
		v := strings.Split(m[9:len(m)-1], ":")
		sort.Strings(v)
		return "LVALUES=" + strings.Join(v, ":")
	})
	return s
}

// counts are written in any order
func lines(s string) string {
	l := strings.Split(s, "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func (t task) outputs(c *mc.Ctx) map[string]string {
	m := map[string]string{}
	for _, o := range t.outs {
		s, ok := cmd.Get(o)
		c.Check(ok, "%s: %s is not written", t.name, o)
		s = canon(s)
		if o == "leaves" || o == "branches" {
			s = lines(s)
		}
		m[o] = s
	}
	return m
}

func (t task) run(c *mc.Ctx, ft *fault) sched.Result {
	inputs()
	ft.install()
	defer func() { os.VerifRead, os.VerifWrite = nil, nil }()
	seed := uint64(7)
	next := func() uint64 {
		seed = seed*6364136223846793005 + 1442695040888963407
		return seed ^ seed>>29
	}
	c.Rand(func(n int) int { return int(next()>>33) % n })
	c.RandRaw(next)
	_, res := cmd.Run(c, sched.Config{NoRaces: true, OneSchedule: true, KeepRand: true}, t.main, t.args()...)
	c.Check(res.Deadlock == "", "%s: %s\n%s", t.name, res.Deadlock, res.Stack)
	return res
}

type count struct{ reads, writes int }

var counts = map[string]count{}

// size runs a task undisturbed: its outputs, and how often it reads and writes.
func (t task) size(c *mc.Ctx) count {
	if n, ok := counts[t.name]; ok {
		return n
	}
	cmd.Drop(t.outs...)
	w := &fault{at: -1}
	res := t.run(c, w)
	c.Check(res.Exit == "", "%s: %s\n%s", t.name, res.Exit, res.Stack)
	r := &fault{at: -1, read: true}
	t.run(c, r)
	n := count{r.n, w.n}
	counts[t.name] = n
	c.Check(n.reads > 0 && n.writes > 0, "%s: %d reads, %d writes", t.name, n.reads, n.writes)
	return n
}

func failing(read bool) func(c *mc.Ctx) {
	return func(c *mc.Ctx) {
		t := mc.Pick(c, tasks, "command")
		n := t.size(c)
		ft := &fault{read: read}
		k := n.writes
		if read {
			k = n.reads
		}
		ft.at = c.Choose(k, "operation")
		ft.forever = c.Bool("for good")
		if !read {
			ft.part = c.Bool("half")
		}
		res := t.run(c, ft)
		what := "write to"
		if read {
			what = "read of"
		}
		c.Check(ft.hit, "%s: operation %d of %d does not happen", t.name, ft.at, k)
		c.Check(res.Exit != "" && res.Exit != "exit 0", "%s ends as if nothing was wrong though the %s %s fails (operation %d of %d, half of it done: %v, for good: %v)", t.name, what, ft.name, ft.at+1, k, ft.part, ft.forever)
		c.State(fmt.Sprint(t.name, read, ft.at, ft.forever, ft.part))
		c.Outcome("%s %s", t.name, res.Exit)
		c.Eval(1)
	}
}

var whole = map[string]map[string]string{}

// old files and files that arrive in pieces make no difference.
func pieces(c *mc.Ctx) {
	t := mc.Pick(c, tasks, "command")
	if whole[t.name] == nil {
		cmd.Drop(t.outs...)
		res := t.run(c, &fault{at: -1})
		c.Check(res.Exit == "", "%s: %s\n%s", t.name, res.Exit, res.Stack)
		whole[t.name] = t.outputs(c)
	}
	chunk := c.Choose(c.Int(40, 300), "bytes at a time")
	for _, o := range t.outs {
		cmd.Put(o, strings.Repeat("old\tcontents\n", 3)+strings.Repeat("x", 5000))
	}
	res := t.run(c, &fault{at: -1, read: true, chunk: chunk})
	c.Check(res.Exit == "", "%s, %d bytes at a time: %s\n%s", t.name, chunk, res.Exit, res.Stack)
	for o, s := range t.outputs(c) {
		c.Check(s == whole[t.name][o], "%s: reading %d bytes at a time, %s is\n%s\ninstead of\n%s", t.name, chunk, o, s, whole[t.name][o])
		c.Eval(1)
	}
	c.State(fmt.Sprint(t.name, chunk))
}

// ---- readers

// source delivers text in pieces that end where cut says so, and an error
// instead of what follows the first limit bytes.
type source struct {
	text  string
	pos   int
	cut   func(pos int) bool
	limit int
	err   error
	with  bool // the error comes with the last bytes
	empty bool // every read is preceded by one without bytes
	gap   bool
}

func (s *source) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if s.empty && !s.gap {
		s.gap = true
		return 0, nil
	}
	s.gap = false
	if s.pos == s.limit {
		return 0, s.err
	}
	n := 0
	for n < len(b) && s.pos < s.limit {
		b[n] = s.text[s.pos]
		n++
		s.pos++
		if s.cut(s.pos) {
			break
		}
	}
	if s.with && s.pos == s.limit {
		return n, s.err
	}
	return n, nil
}

type reader struct {
	name string
	text string
	read func(r io.Reader) string
}

func table(fm *C.FeatureMatrix) string {
	if fm == nil {
		return "nothing"
	}
	t, bad := cf.TableOf(fm)
	return t.String() + " " + bad
}

func node(n *C.Node) string { return nodeAt(n, 0) }

// what is read of a torn line may be no tree
func nodeAt(n *C.Node, depth int) string {
	if n == nil {
		return "-"
	}
	if depth > 20 {
		return "..."
	}
	s := fmt.Sprintf("(%q", n.Pred)
	if n.Splitter != nil {
		var l []string
		for k, v := range n.Splitter.Left {
			if v {
				l = append(l, fmt.Sprintf("%q", k))
			}
		}
		sort.Strings(l)
		s += fmt.Sprintf(" %q %v %v %v", n.Splitter.Feature, n.Splitter.Numerical, n.Splitter.Value, l)
	}
	return s + " " + nodeAt(n.Left, depth+1) + nodeAt(n.Right, depth+1) + nodeAt(n.Missing, depth+1) + ")"
}

func tree(t *C.Tree) string {
	return fmt.Sprintf("%q %v %s", t.Target, t.Weight, node(t.Root))
}

func forestText(f *C.Forest) string {
	if f == nil {
		return "nothing"
	}
	s := fmt.Sprintf("%q %v:", f.Target, f.Intercept)
	for _, t := range f.Trees {
		s += "\n" + tree(t)
	}
	return s
}

func readForest(r io.Reader) string {
	f, err := C.NewForestReader(r).ReadForest()
	return fmt.Sprintf("%s error %v", forestText(f), err)
}

// one by one, as far as it goes
func readTrees(r io.Reader) (trees []string, end string) {
	fr := C.NewForestReader(r)
	for k := 0; k < 100; k++ {
		var t *C.Tree
		var f *C.Forest
		var err error
		func() {
			defer func() {
				if e := recover(); e != nil {
					err = fmt.Errorf("panic %v", e)
				}
			}()
			t, f, err = fr.ReadTree()
		}()
		s := ""
		if f != nil {
			s = fmt.Sprintf("%q %v: ", f.Target, f.Intercept)
		}
		if t != nil {
			trees = append(trees, s+tree(t))
		}
		if err != nil {
			return trees, err.Error()
		}
	}
	return trees, "no end"
}

const twoForests = catForest + numForest

var readers = []reader{
	{"a forest", catForest, readForest},
	{"a forest without a final newline", strings.TrimSuffix(numForest, "\n"), readForest},
	{"the trees of two forests", twoForests, func(r io.Reader) string {
		t, e := readTrees(r)
		return strings.Join(t, "\n") + e
	}},
	{"features in rows", rows, func(r io.Reader) string { return table(C.ParseAFM(r)) }},
	{"features in rows, ends of lines as on Windows", strings.Replace(strings.TrimSuffix(rows, "\n"), "\n", "\r\n", -1), func(r io.Reader) string { return table(C.ParseAFM(r)) }},
	{"features in columns", ".\tN:x\tC:\u00e4\nc0\t1\tu\nc1\t\t\"v w\"\nc2\t-3e2\tNA", func(r io.Reader) string { return table(C.ParseAFM(r)) }},
	{"ARFF", "% comment\n@RELATION r\n\n@Attribute x Real\n@attribute y {u,'v w'}\n@data\n1,u\n% more\n2, 'v w'\n?,u", func(r io.Reader) string { return table(C.ParseARFF(r)) }},
	{"libsvm", "1 1:2 3:3\n0 2:1.5\n\n1 1:-2", func(r io.Reader) string { return table(C.ParseLibSVM(r)) }},
}

var end = map[string]string{}

func uncut(rd reader) string {
	s, ok := end[rd.name]
	if !ok {
		s = rd.read(strings.NewReader(rd.text))
		end[rd.name] = s
	}
	return s
}

func deliver(c *mc.Ctx, rd reader, how string, cut func(int) bool, with, empty bool) {
	want := uncut(rd)
	var got string
	e := c.Try(func() {
		got = rd.read(&source{text: rd.text, limit: len(rd.text), err: io.EOF, cut: cut, with: with, empty: empty})
	})
	c.Check(e == "" && got == want, "%s, %s, end with the last bytes: %v, empty reads: %v: it reads as\n%s %s\ninstead of\n%s\ntext %q", rd.name, how, with, empty, got, e, want, rd.text)
	c.Eval(1)
}

func windows(c *mc.Ctx) {
	rd := mc.Pick(c, readers, "what")
	size := c.Int(6, 9)
	at := c.Choose(len(rd.text), "from")
	with, empty := c.Bool("end with data"), c.Bool("empty reads")
	for m := 0; m < 1<<uint(size); m++ {
		deliver(c, rd, fmt.Sprintf("cut at %b from %d", m, at), func(pos int) bool { return pos > at && pos <= at+size && m>>uint(pos-at-1)&1 == 1 }, with, empty)
		c.State(fmt.Sprint(rd.name, at, m, with, empty))
	}
}

func chunks(c *mc.Ctx) {
	rd := mc.Pick(c, readers, "what")
	n := 1 + c.Choose(len(rd.text), "bytes")
	with, empty := c.Bool("end with data"), c.Bool("empty reads")
	deliver(c, rd, fmt.Sprintf("%d bytes at a time", n), func(pos int) bool { return pos%n == 0 }, with, empty)
	c.State(fmt.Sprint(rd.name, n, with, empty))
}

// long lines cross the buffers of whoever reads them.
func long(c *mc.Ctx) {
	kind := c.Choose(5, "kind")
	n := 4080 + c.Choose(40, "length")
	if c.Bool("longer") {
		n = 65520 + (n - 4080)
	}
	pad := strings.Repeat("q", n)
	var rd reader
	switch kind {
	case 0:
		rd = reader{"a forest", strings.Replace(catForest, "LVALUES=\"a\"", "LVALUES=\"a:"+pad+"\"", 1), readForest}
	case 1:
		rd = reader{"features in rows", strings.Replace(rows, "N:x", "N:"+pad, 1), readers[3].read}
	case 2:
		rd = reader{"features in columns", ".\tN:x\tC:" + pad + "\nc0\t1\tu\n" + pad + "\t2\tv\n", readers[5].read}
	case 3:
		rd = reader{"ARFF", "@attribute x real\n@attribute " + pad + " {u,v}\n@data\n1," + pad + "\n2,v\n", readers[6].read}
	case 4:
		rd = reader{"libsvm", "1 1:2" + strings.Repeat("0", n) + "e-" + fmt.Sprint(n) + " 2:3\n0 1:3\n", readers[7].read}
	}
	rd.name += fmt.Sprint(" long ", n)
	want := rd.read(strings.NewReader(rd.text))
	for _, k := range []int{1, 7, 4095, 4096, 4097, 65536} {
		got := rd.read(&source{text: rd.text, limit: len(rd.text), err: io.EOF, cut: func(pos int) bool { return pos%k == 0 }})
		c.Check(got == want, "%s: it reads otherwise %d bytes at a time", rd.name, k)
		c.Eval(1)
	}
	// what is long must be there
	c.Check(kind == 4 && strings.Contains(want, "2") || strings.Contains(want, pad), "%s: it does not read as it is", rd.name)
	short := rd.read(strings.NewReader(strings.Replace(rd.text, pad, "qq", -1)))
	if kind == 4 {
		short = rd.read(strings.NewReader("1 1:2 2:3\n0 1:3\n"))
	}
	c.Check(short == strings.Replace(want, pad, "qq", -1), "%s: it does not read like one with short names:\n%.600s\n%.600s", rd.name, want, short)
	c.State(fmt.Sprint(kind, n))
}

var broken = errors.New("broken")

// A forest that can't be read to its end is an error.
func readError(c *mc.Ctx) {
	text := mc.Pick(c, []string{catForest, numForest, twoForests}, "forest")
	at := c.Choose(len(text)+1, "after")
	n := c.Choose(3, "pieces")
	with, empty := c.Bool("error with data"), c.Bool("empty reads")
	src := func() *source {
		return &source{text: text, limit: at, err: broken, with: with && at > 0, empty: empty, cut: func(pos int) bool { return n == 1 || n == 2 && pos%7 == 0 }}
	}
	want, _ := readTrees(strings.NewReader(text))
	if text != twoForests || at <= len(catForest) {
		// otherwise the first forest is complete
		var f *C.Forest
		var err error
		p := c.Try(func() { f, err = C.NewForestReader(src()).ReadForest() })
		c.Check(p != "" || err != nil, "ReadForest returns %s and no error though reading fails after %d bytes of %q", forestText(f), at, text)
		c.Check(p != "" || err != io.EOF, "ReadForest takes an error after %d bytes for the end of %q", at, text)
	}
	got, end := readTrees(src())
	c.Check(end != "EOF" && end != "no end", "ReadTree ends with %q though reading fails after %d bytes of %q", end, at, text)
	prefix(c, text, at, got, want)
	c.State(fmt.Sprint(text == twoForests, at, n, with, empty))
	c.Eval(3)
}

// prefix checks that the trees that were complete are as in the whole file.
func prefix(c *mc.Ctx, text string, at int, got, want []string) {
	done := 0 // trees after which something begins before the cut
	for i := 1; i < at; i++ {
		if text[i-1] == '\n' && (text[i] == 'T' || text[i] == 'F') {
			done++
		}
	}
	if strings.HasPrefix(text, "FOREST") && done > 0 {
		done-- // the line of the forest ends there as well
	}
	if k := strings.LastIndex(text[:at], "\nFOREST"); k >= 0 && done > 0 && strings.Contains(text[k+1:at], "\nT") {
		done-- // and so does the next
	}
	c.Check(len(got) >= done, "%d trees are read of the %d that are complete in the first %d bytes of %q", len(got), done, at, text)
	for i := 0; i < done; i++ {
		c.Check(got[i] == want[i], "tree %d of the first %d bytes of %q is read as\n%s\ninstead of\n%s", i, at, text, got[i], want[i])
	}
}

// torn files: writing stopped at any byte.
func torn(c *mc.Ctx) {
	text := mc.Pick(c, []string{catForest, numForest, twoForests}, "forest")
	at := c.Choose(len(text)+1, "bytes")
	want, _ := readTrees(strings.NewReader(text))
	got, _ := readTrees(strings.NewReader(text[:at]))
	prefix(c, text, at, got, want)
	c.Check(len(got) <= len(want), "%d trees are read of %d: %q", len(got), len(want), text[:at])
	c.State(fmt.Sprint(text == twoForests, at))
	c.Eval(1)
}

// ---- writers

// sink takes limit bytes and then fails, once or for good.
type sink struct {
	limit  int
	once   bool
	failed bool
	got    bytes.Buffer
}

func (s *sink) Write(b []byte) (int, error) {
	room := s.limit - s.got.Len()
	if len(b) <= room || s.failed && s.once {
		return s.got.Write(b)
	}
	s.failed = true
	n := 0
	if room > 0 {
		n, _ = s.got.Write(b[:room])
	}
	return n, broken
}

type writer struct {
	name  string
	write func(w io.Writer) error
}

func data() *C.FeatureMatrix { return C.ParseAFM(strings.NewReader(rows)) }

func many() *C.FeatureMatrix {
	var b bytes.Buffer
	b.WriteString(".")
	for i := 0; i < 900; i++ {
		fmt.Fprintf(&b, "\tc%d", i)
	}
	b.WriteString("\nN:x")
	for i := 0; i < 900; i++ {
		fmt.Fprintf(&b, "\t%d", i+1)
	}
	b.WriteString("\nC:y")
	for i := 0; i < 900; i++ {
		fmt.Fprintf(&b, "\tu%d", i%3)
	}
	b.WriteString("\n")
	return C.ParseAFM(&b)
}

var few = []int{0, 3, 5}

var writers = []writer{
	{"WriteCases", func(w io.Writer) error { return data().WriteCases(w, few) }},
	{"WriteCases of none", func(w io.Writer) error { return data().WriteCases(w, nil) }},
	{"WriteArffCases", func(w io.Writer) error { return C.WriteArffCases(data(), few, "r", w) }},
	{"WriteArffCases of none", func(w io.Writer) error { return C.WriteArffCases(data(), nil, "r", w) }},
	{"WriteLibSvm", func(w io.Writer) error { return C.WriteLibSvm(data(), "C:y", w) }},
	{"WriteLibSvmCases", func(w io.Writer) error { return C.WriteLibSvmCases(data(), few, "N:t", w) }},
	{"WriteTsv", func(w io.Writer) (err error) {
		var sc C.SparseCounter
		sc.Add(3, 5, 7)
		return fatal(func() { sc.WriteTsv(w) })
	}},
}

var large = []writer{
	{"WriteCases, large", func(w io.Writer) error { return many().WriteCases(w, cf.Seq(900)) }},
	{"WriteArffCases, large", func(w io.Writer) error { return C.WriteArffCases(many(), cf.Seq(900), "r", w) }},
	{"WriteLibSvm, large", func(w io.Writer) error { return C.WriteLibSvm(many(), "C:y", w) }},
	{"WriteLibSvmCases, large", func(w io.Writer) error { return C.WriteLibSvmCases(many(), cf.Seq(900), "C:y", w) }},
}

// fatal makes an error of log.Fatal.
func fatal(f func()) (err error) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(mc.Fatal); !ok {
				panic(e)
			}
			err = broken
		}
	}()
	f()
	return
}

var full = map[string]string{}

func refuse(c *mc.Ctx, w writer, at int, once bool) {
	s := &sink{limit: at, once: once}
	var err error
	p := c.Try(func() { err = w.write(s) })
	c.Check(p == "", "%s: %s when the destination fails after %d bytes", w.name, p, at)
	if at >= len(full[w.name]) && !s.failed {
		c.Check(err == nil && s.got.String() == full[w.name], "%s: error %v, %d bytes are written of %d", w.name, err, s.got.Len(), len(full[w.name]))
	} else {
		c.Check(err != nil, "%s reports no error though the destination fails after %d of %d bytes (once: %v)", w.name, at, len(full[w.name]), once)
		if !once {
			c.Check(strings.HasPrefix(full[w.name], s.got.String()), "%s: with a destination that fails after %d bytes, what it holds does not begin what is written otherwise", w.name, at)
		}
	}
	c.Eval(2)
	c.State(fmt.Sprint(w.name, at, once))
}

func all(w writer) string {
	if _, ok := full[w.name]; !ok {
		var b bytes.Buffer
		if err := w.write(&b); err != nil {
			panic(err)
		}
		full[w.name] = b.String()
	}
	return full[w.name]
}

func writing(c *mc.Ctx) {
	w := mc.Pick(c, writers, "writer")
	at := c.Choose(len(all(w))+1, "bytes")
	refuse(c, w, at, c.Bool("once"))
}

// larger outputs pass through buffers: fail around their ends.
func writingLarge(c *mc.Ctx) {
	w := mc.Pick(c, large, "writer")
	n := len(all(w))
	var at []int
	for _, p := range []int{0, 4096, 8192, n} {
		for d := -c.Int(3, 20); d <= c.Int(3, 20); d++ {
			if p+d >= 0 && p+d <= n+1 {
				at = append(at, p+d)
			}
		}
	}
	refuse(c, w, at[c.Choose(len(at), "bytes")], c.Bool("once"))
}

// ---- LoadAFM

// zipped makes an archive of one file.
func zipped(name, text string, method uint16) []byte {
	var b bytes.Buffer
	z := zip.NewWriter(&b)
	w, err := z.CreateHeader(&zip.FileHeader{Name: name, Method: method})
	if err != nil {
		panic(err)
	}
	w.Write([]byte(text))
	z.Close()
	return b.Bytes()
}

// loading: files that are not there, and archives, whole and damaged.
func loading(c *mc.Ctx) {
	switch c.Choose(3, "what") {
	case 0:
		name := mc.Pick(c, []string{"nosuch.afm", "nosuch.arff", "nosuch.libsvm", "no/such.afm", ""}, "name")
		p := cmd.Path(name)
		var fm *C.FeatureMatrix
		var err error
		e := c.Try(func() { fm, err = C.LoadAFM(p) })
		c.Check(e == "" && err != nil, "LoadAFM of %q gives %v, error %v %s", name, table(fm), err, e)
		c.State(name)
	case 1:
		method := mc.Pick(c, []uint16{zip.Store, zip.Deflate}, "method")
		rd := readers[3+c.Choose(3, "data")]
		cmd.Put("z.zip", string(zipped("d.afm", rd.text, method)))
		fm, err := C.LoadAFM(p("z.zip"))
		c.Check(err == nil && table(fm) == uncut(rd), "an archive of %s reads as\n%s\nerror %v", rd.name, table(fm), err)
		c.State(fmt.Sprint(rd.name, method))
	case 2:
		z := zipped("d.afm", rows, zip.Store)
		at := bytes.Index(z, []byte(rows)) + c.Choose(len(rows), "byte")
		z[at] ^= 1 << uint(c.Choose(c.Int(2, 8), "bit"))
		cmd.Put("z.zip", string(z))
		var fm *C.FeatureMatrix
		var err error
		e := c.Try(func() { fm, err = C.LoadAFM(p("z.zip")) })
		c.Check(e != "" || err != nil, "LoadAFM reports no error though byte %d of the archive is damaged; it gives\n%s", at, table(fm))
		c.State(fmt.Sprint(at, z[at]))
	}
	c.Eval(1)
}

// malformed: a line that does not have the fields of the others, or a number
// that is none, is an error and not something else.
func malformed(c *mc.Ctx) {
	switch c.Choose(5, "what") {
	case 0, 1, 2: // one line with a field more or less
		format := mc.Pick(c, []struct {
			name, text, sep string
			from            int
		}{
			{"z.afm", rows, "\t", 1},
			{"z.afm", ".\tN:x\tC:y\nc0\t1\tu\nc1\t\tv\nc2\t3\tNA\n", "\t", 1},
			{"z.arff", "@attribute x real\n@attribute y {u,v}\n@data\n1,u\n2,v\n3,u\n", ",", 4},
		}, "format")
		l := strings.Split(strings.TrimSuffix(format.text, "\n"), "\n")
		at := format.from + c.Choose(len(l)-format.from, "line")
		if c.Bool("more") {
			l[at] += format.sep + "9"
		} else {
			l[at] = l[at][:strings.LastIndex(l[at], format.sep)]
		}
		text := strings.Join(l, "\n") + "\n"
		cmd.Put(format.name, text)
		var fm *C.FeatureMatrix
		var err error
		e := c.Try(func() { fm, err = C.LoadAFM(p(format.name)) })
		c.Check(e != "" || err != nil, "LoadAFM reports no error though line %d does not have as many fields as the others:\n%s\nit gives\n%s", at+1, text, table(fm))
		c.State(text)
	case 3: // columns of libsvm that are no numbers
		entry := mc.Pick(c, []string{"x:1", ":1", "1.5:2", "1e2:3", "0x1:1"}, "entry")
		text := mc.Pick(c, []string{"1 1:2 @\n0 1:1\n", "1 1:2\n0 @\n", "1 @ 2:3\n"}, "line")
		text = strings.Replace(text, "@", entry, 1)
		cmd.Put("z.libsvm", text)
		var fm *C.FeatureMatrix
		var err error
		e := c.Try(func() { fm, err = C.LoadAFM(p("z.libsvm")) })
		c.Check(e != "" || err != nil, "LoadAFM reports no error of %q in libsvm data\n%s\nit gives\n%s", entry, text, table(fm))
		c.State(text)
	case 4: // numbers of a forest
		bad := mc.Pick(c, []string{"", "x", "1.5e", "1,5", "--1", "0x", "1 2"}, "number")
		field := mc.Pick(c, []string{"INTERCEPT=2.5", "LVALUES=0", "LVALUES=3", "WEIGHT=2\n"}, "field")
		text := twoForests
		k := strings.Index(text, field)
		i := k + strings.Index(field, "=") + 1
		j := i + len(strings.TrimRight(field[i-k:], "\n"))
		text = text[:i] + bad + text[j:]
		if bad == "1,5" { // the rest is another term
			text = text[:i] + "\"" + bad + "\"" + text[i+len(bad):]
		}
		ok := false
		p := c.Try(func() {
			r := C.NewForestReader(strings.NewReader(text))
			for k := 0; k < 2 && !ok; k++ {
				_, err := r.ReadForest()
				ok = err != nil
			}
		})
		c.Check(ok || p != "", "ReadForest reports no error though %s is %q\n%s", field, bad, text)
		c.State(text)
	}
	c.Eval(1)
}

func main() {
	log.SetOutput(ioutil.Discard)
	mc.Main(mc.Spec{
		Property: "C30", Quick: 150, BeginExec: mc.Begin, EndExec: mc.End,
		Rule:        "an execution is one run of a real command, a reader or a writer with one fault, one way of delivering the input or one point at which a file ends; every such point is visited",
		Assumptions: []string{"an error that a command ends with is any exit other than success; closing a file does not fail; a failed read returns no bytes"},
		Scenarios: []mc.Scenario{
			{Name: "failing writes", Run: failing(false), Bound: "20 calls of the commands: each of their writes to a file fails, having stored nothing or half, once or for good"},
			{Name: "failing reads", Run: failing(true), Bound: "the same calls: each of their reads of a file fails, once or for good"},
			{Name: "input in pieces", Run: pieces, Bound: "the same calls: reads of at most 1..39 (thorough: 299) bytes, over old output files"},
			{Name: "windows", Run: windows, Bound: "8 texts in every format: every set of cuts within 6 (thorough: 9) consecutive bytes anywhere, end of file with or after the last bytes, with and without empty reads"},
			{Name: "chunks", Run: chunks, Bound: "the same texts, every size of chunk"},
			{Name: "long lines", Run: long, Bound: "5 formats, lines around 4096 and 65536 bytes, 6 sizes of chunk"},
			{Name: "forest read errors", Run: readError, Bound: "3 files, an error after every number of bytes, 3 sizes of chunk"},
			{Name: "torn forests", Run: torn, Bound: "3 files, ending after every number of bytes"},
			{Name: "failing destinations", Run: writing, Bound: "7 writers, a destination that fails after every number of bytes, once or for good"},
			{Name: "failing destinations, large", Run: writingLarge, Bound: "4 writers of 900 cases, failing around the ends of buffers"},
			{Name: "malformed", Run: malformed, Bound: "every line of 3 data files with one field more or less; 5 columns that are no number in 3 places; 7 numbers of a forest that are none in 4 places"},
			{Name: "loading", Run: loading, Bound: "5 missing files, archives stored and deflated, every byte of an archived file damaged in 2 (thorough: 8) bits"},
		},
	})
}

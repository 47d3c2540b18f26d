package mc

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"
)

// Scenario is one bounded choice tree.
type Scenario struct {
	Name string
	Run  func(c *Ctx)
	// Dev is the deviation (preemption) bound per tier.
	Dev, DevThorough int
	// Split is the number of subtrees handed out to workers (default 64).
	Split int
	// ThoroughOnly scenarios do not run in the quick tier.
	ThoroughOnly bool
	// Bound says what is enumerated, for the evidence file.
	Bound string
}

// Spec describes a check.
type Spec struct {
	Property    string
	Assumptions []string
	Scenarios   []Scenario
	Rule        string
	// Budget is the wall clock seconds per tier after which the run stops,
	// reports exhaustive:false and passes.
	Quick, ThoroughS int
	// Setup runs once in every worker.
	Setup func()
	// BeginExec and EndExec bracket every execution (hooks on globals).
	BeginExec func(c *Ctx)
	EndExec   func()
}

type found struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Tier     string   `json:"tier"`
	Dev      int      `json:"dev_bound"`
	Choices  []int    `json:"choices"`
	Message  string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
}

type result struct {
	Execs, Transitions, Evals, Discards int64
	MaxDepth                            int
	Capped                              bool
	StatesCapped                        bool
	Known                               map[string]int64
	Violation                           *found
	Samples                             []string
	Seconds                             float64
}

type worker struct {
	spec     *Spec
	sc       *Scenario
	tier     string
	dev      int
	id       int
	res      result
	states   map[uint64]struct{}
	outcomes map[uint64]struct{}
	known    map[string]string
	shm      []byte
	deadline time.Time
	execNo   int64
	progress int64
}

const maxStates = 3000000

func (w *worker) addState(h uint64) {
	if len(w.states) < maxStates {
		w.states[h] = struct{}{}
	} else {
		w.res.StatesCapped = true
	}
}

func (w *worker) wantSample() bool {
	n := w.res.Execs
	return len(w.res.Samples) < 2 && (n == 3 || n >= 40)
}

// shared memory: 64 counters, then 64 KiB per worker for its current prefix
const shmHead = 4096
const shmSlot = 1 << 16
const maxWorkers = 64

func openShm(path string) []byte {
	f, err := os.OpenFile(path, os.O_RDWR, 0600)
	if err != nil {
		panic(err)
	}
	b, err := syscall.Mmap(int(f.Fd()), 0, shmHead+shmSlot*maxWorkers, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
	f.Close()
	return b
}

func (w *worker) counter() *int64 { return (*int64)(unsafe.Pointer(&w.shm[0])) }
func (w *worker) stopFlag() *int64 {
	return (*int64)(unsafe.Pointer(&w.shm[8]))
}

func (w *worker) publish(prefix []int) {
	if w.shm == nil {
		return
	}
	s := w.shm[shmHead+w.id*shmSlot : shmHead+(w.id+1)*shmSlot]
	n := len(prefix)
	if n > shmSlot/2-4 {
		n = 0
	}
	binary.LittleEndian.PutUint32(s, uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint16(s[4+2*i:], uint16(prefix[i]))
	}
}

func published(shm []byte, id int) []int {
	s := shm[shmHead+id*shmSlot : shmHead+(id+1)*shmSlot]
	n := int(binary.LittleEndian.Uint32(s))
	p := make([]int, n)
	for i := range p {
		p[i] = int(binary.LittleEndian.Uint16(s[4+2*i:]))
	}
	return p
}

// exec runs the scenario once.
func (w *worker) exec(prefix []int, quiet, tracing bool) (c *Ctx, viol string) {
	c = &Ctx{prefix: prefix, tier: w.tier, devBound: w.dev, r: w, quiet: quiet, tracing: tracing}
	w.publish(prefix)
	atomic.AddInt64(&w.progress, 1)
	func() {
		defer func() {
			if w.spec.EndExec != nil {
				w.spec.EndExec()
			}
			if e := recover(); e != nil {
				switch v := e.(type) {
				case violation:
					viol = v.msg
				case discard:
					if !quiet {
						w.res.Discards++
					}
				default:
					msg := fmt.Sprint(e)
					if strings.HasPrefix(msg, "mc: ") {
						panic(e)
					}
					viol = "panic: " + msg + "\n" + stack()
				}
			}
		}()
		if w.spec.BeginExec != nil {
			w.spec.BeginExec(c)
		}
		w.sc.Run(c)
	}()
	if len(prefix) > len(c.choices) && viol == "" {
		panic(fmt.Sprintf("mc: replay diverged: %d choices made, %d recorded", len(c.choices), len(prefix)))
	}
	if !quiet {
		w.res.Execs++
		if len(c.choices) > w.res.MaxDepth {
			w.res.MaxDepth = len(c.choices)
		}
		for _, s := range c.samples {
			if len(w.res.Samples) < 2 {
				w.res.Samples = append(w.res.Samples, s)
			}
		}
		if c.outcome != "" && len(w.outcomes) < maxStates {
			w.outcomes[hashString(c.outcome)] = struct{}{}
		}
	}
	return
}

func stack() string {
	lines := strings.Split(string(debug.Stack()), "\n")
	var out []string
	for _, l := range lines {
		if strings.Contains(l, "CloudForest") || strings.Contains(l, "verifmc") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 24 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// expand splits the choice tree into about n disjoint subtrees.
func (w *worker) expand(n int) [][]int {
	type node struct {
		p    []int
		leaf bool
	}
	list := []node{{nil, false}}
	for round := 0; round < 200; round++ {
		done := true
		var next []node
		for i, nd := range list {
			if nd.leaf || len(next)+len(list)-i >= n {
				next = append(next, nd)
				continue
			}
			c, viol := w.exec(nd.p, true, false)
			if len(c.choices) <= len(nd.p) || viol != "" {
				nd.leaf = true
				next = append(next, nd)
				continue
			}
			done = false
			for k := 0; k < c.arity[len(nd.p)]; k++ {
				next = append(next, node{append(append([]int{}, nd.p...), k), false})
			}
		}
		list = next
		if done || len(list) >= n {
			break
		}
	}
	out := make([][]int, len(list))
	for i := range list {
		out[i] = list[i].p
	}
	return out
}

// dfs explores the subtree under root.
func (w *worker) dfs(root []int) {
	prefix := root
	for {
		if time.Now().After(w.deadline) || atomic.LoadInt64(w.stopFlag()) != 0 {
			w.res.Capped = true
			return
		}
		c, viol := w.exec(prefix, false, false)
		if viol != "" {
			w.res.Violation = &found{Property: w.spec.Property, Scenario: w.sc.Name, Tier: w.tier, Dev: w.dev, Choices: append([]int{}, c.choices...), Message: viol}
			atomic.StoreInt64(w.stopFlag(), 1)
			return
		}
		i := len(c.choices) - 1
		for ; i >= len(root); i-- {
			if c.choices[i]+1 < c.arity[i] {
				break
			}
		}
		if i < len(root) {
			return
		}
		prefix = append(append(make([]int, 0, i+1), c.choices[:i]...), c.choices[i]+1)
	}
}

// Hang is the time after which one execution counts as non terminating. Normal
// executions take micro to milliseconds.
var Hang = 60 * time.Second

func (w *worker) watchdog() {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(500 * time.Millisecond)
		p := atomic.LoadInt64(&w.progress)
		if p != last {
			last, since = p, time.Now()
		} else if p > 0 && time.Since(since) > Hang {
			buf := make([]byte, 1<<16)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "HANG: one execution has not finished in %v\n%s\n", Hang, buf[:n])
			os.Exit(77)
		}
	}
}

var (
	fWorker   = flag.Int("mcworker", -1, "")
	fShm      = flag.String("mcshm", "", "")
	fOut      = flag.String("mcout", "", "")
	fScenario = flag.String("mcscenario", "", "")
	fDeadline = flag.Int64("mcdeadline", 0, "")
	fDev      = flag.Int("mcdev", 0, "")
	fReplay   = flag.String("replay", "", "replay file")
	fOnly     = flag.String("only", "", "run only this scenario")
	fVerif    = flag.String("verif", "/verif", "")
	fKnown    = flag.String("known", "", "")
)

func loadKnown(verif, prop string) map[string]string {
	known := map[string]string{}
	b, err := ioutil.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return known
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=<id> key=<key> <text>
		if !strings.HasPrefix(l, "finding: property="+prop+" key=") {
			continue
		}
		rest := strings.TrimPrefix(l, "finding: property="+prop+" key=")
		parts := strings.SplitN(rest, " ", 2)
		if len(parts) == 2 {
			known[parts[0]] = parts[1]
		}
	}
	return known
}

func newWorker(spec *Spec, sc *Scenario, tier string) *worker {
	return &worker{spec: spec, sc: sc, tier: tier, states: map[uint64]struct{}{}, outcomes: map[uint64]struct{}{}, known: loadKnown(*fVerif, spec.Property)}
}

func scenario(spec *Spec, name string) *Scenario {
	for i := range spec.Scenarios {
		if spec.Scenarios[i].Name == name {
			return &spec.Scenarios[i]
		}
	}
	return nil
}

func dumpSet(path string, m map[uint64]struct{}) {
	b := make([]byte, 0, 8*len(m))
	for h := range m {
		b = binary.LittleEndian.AppendUint64(b, h)
	}
	ioutil.WriteFile(path, b, 0600)
}

func loadSet(path string, m map[uint64]struct{}) {
	b, err := ioutil.ReadFile(path)
	if err != nil {
		return
	}
	for i := 0; i+8 <= len(b); i += 8 {
		m[binary.LittleEndian.Uint64(b[i:])] = struct{}{}
	}
}

// Args of the program under test must not disturb our flags: the real command
// line is parsed once, into this private set, at start up.
func parseFlags() {
	if err := flag.CommandLine.Parse(os.Args[1:]); err != nil {
		os.Exit(2)
	}
}

// Main runs a check.
func Main(spec Spec) {
	parseFlags()
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	if spec.Setup != nil && (*fWorker >= 0 || *fReplay != "") {
		spec.Setup()
	}
	switch {
	case *fWorker >= 0:
		workerMain(&spec, tier)
	case *fReplay != "":
		os.Exit(replayMain(&spec))
	default:
		os.Exit(parent(&spec, tier))
	}
}

func workerMain(spec *Spec, tier string) {
	sc := scenario(spec, *fScenario)
	w := newWorker(spec, sc, tier)
	w.id = *fWorker
	w.dev = *fDev
	w.shm = openShm(*fShm)
	w.deadline = time.Unix(0, *fDeadline)
	go w.watchdog()
	n := sc.Split
	if n == 0 {
		n = 64
	}
	roots := w.expand(n)
	for {
		k := int(atomic.AddInt64(w.counter(), 1)) - 1
		if k >= len(roots) {
			break
		}
		w.dfs(roots[k])
		if w.res.Violation != nil {
			break
		}
	}
	dumpSet(*fOut+".states", w.states)
	dumpSet(*fOut+".outcomes", w.outcomes)
	b, _ := json.Marshal(w.res)
	if err := ioutil.WriteFile(*fOut, b, 0600); err != nil {
		panic(err)
	}
	os.Exit(0)
}

// replayMain replays one recorded execution. Exit 1: it violates. Exit 0: it
// does not. Anything else: the replay itself failed.
func replayMain(spec *Spec) int {
	b, err := ioutil.ReadFile(*fReplay)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var f found
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Println(err)
		return 2
	}
	sc := scenario(spec, f.Scenario)
	if sc == nil {
		fmt.Println("no such scenario", f.Scenario)
		return 2
	}
	w := newWorker(spec, sc, f.Tier)
	w.dev = f.Dev
	go w.watchdog()
	defer func() {
		if e := recover(); e != nil {
			fmt.Println("REPLAY ERROR:", e)
			os.Exit(3)
		}
	}()
	c, viol := w.exec(f.Choices, false, true)
	for _, l := range c.trace {
		fmt.Println(l)
	}
	if viol != "" {
		fmt.Println("VIOLATED:", viol)
		return 1
	}
	fmt.Println("held on this execution")
	return 0
}

func nWorkers() int {
	n := runtime.NumCPU()
	if s := os.Getenv("VERIF_WORKERS"); s != "" {
		if v, err := strconv.Atoi(s); err == nil && v > 0 {
			n = v
		}
	}
	if n > 16 {
		n = 16
	}
	if n < 1 {
		n = 1
	}
	return n
}

type scenReport struct {
	Name        string           `json:"name"`
	Bound       string           `json:"bound,omitempty"`
	Executions  int64            `json:"executions"`
	Discarded   int64            `json:"discarded_as_infeasible_or_symmetric"`
	States      int              `json:"distinct_states"`
	Transitions int64            `json:"transitions"`
	Comparisons int64            `json:"comparisons_with_reference"`
	Outcomes    int              `json:"distinct_outcomes,omitempty"`
	MaxDepth    int              `json:"max_choices_in_one_execution"`
	DevBound    int              `json:"deviation_bound_completed"`
	Exhaustive  bool             `json:"exhaustive"`
	Known       map[string]int64 `json:"known_findings_met,omitempty"`
	Seconds     float64          `json:"seconds"`
}

func parent(spec *Spec, tier string) int {
	start := time.Now()
	self, err := os.Executable()
	if err != nil {
		panic(err)
	}
	tmp, err := ioutil.TempDir("", "mc")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(tmp)
	budget := spec.Quick
	if budget == 0 {
		budget = 100
	}
	if tier == "thorough" {
		budget = spec.ThoroughS
		if budget == 0 {
			budget = 600
		}
	}
	end := start.Add(time.Duration(budget) * time.Second)
	var todo []*Scenario
	for i := range spec.Scenarios {
		s := &spec.Scenarios[i]
		if *fOnly != "" && s.Name != *fOnly {
			continue
		}
		if s.ThoroughOnly && tier != "thorough" {
			continue
		}
		todo = append(todo, s)
	}
	allStates := map[uint64]struct{}{}
	var reports []scenReport
	var samples []interface{}
	var execs, trans, evals, nontrivial int64
	exhaustive := true
	known := map[string]int64{}
	var viol *found
	knownText := loadKnown(*fVerif, spec.Property)
	for si, sc := range todo {
		left := time.Until(end)
		share := left / time.Duration(len(todo)-si)
		// a scenario may use up to three fair shares, as most finish early
		if 3*share < left {
			share = 3 * share
		} else {
			share = left
		}
		dev := sc.Dev
		if tier == "thorough" && sc.DevThorough > 0 {
			dev = sc.DevThorough
		}
		t0 := time.Now()
		scEnd := time.Now().Add(share)
		var rep scenReport
		completed := -1
		// iterate the deviation bound: the first counterexample has the fewest
		for d := 0; d <= dev; d++ {
			res, st, oc, v := runScenario(self, tmp, spec, sc, tier, d, scEnd)
			rep = scenReport{Name: sc.Name, Bound: sc.Bound, Executions: res.Execs, Discarded: res.Discards, States: len(st), Transitions: res.Transitions, Comparisons: res.Evals,
				Outcomes: len(oc), MaxDepth: res.MaxDepth, Exhaustive: !res.Capped, Known: res.Known, Seconds: time.Since(t0).Seconds()}
			if !res.Capped {
				completed = d
			}
			rep.DevBound = completed
			if v != nil {
				viol = v
				break
			}
			if d == dev || res.Capped {
				for h := range st {
					allStates[h^hashString(sc.Name)] = struct{}{}
				}
				for _, s := range res.Samples {
					samples = append(samples, map[string]interface{}{"scenario": sc.Name, "case": s})
				}
				break
			}
		}
		if len(samples) == 0 || samples[len(samples)-1].(map[string]interface{})["scenario"] != sc.Name {
			samples = append(samples, map[string]interface{}{"scenario": sc.Name, "case": "see bound: " + sc.Bound})
		}
		reports = append(reports, rep)
		execs += rep.Executions
		trans += rep.Transitions
		evals += rep.Comparisons
		nontrivial += rep.Executions - rep.Discarded
		for k, n := range rep.Known {
			known[k] += n
		}
		if !rep.Exhaustive {
			exhaustive = false
		}
		fmt.Printf("%s %s: executions=%d states=%d transitions=%d comparisons=%d outcomes=%d devbound=%d exhaustive=%v %.1fs\n",
			spec.Property, sc.Name, rep.Executions, rep.States, rep.Transitions, rep.Comparisons, rep.Outcomes, rep.DevBound, rep.Exhaustive, rep.Seconds)
		if viol != nil {
			break
		}
	}
	nv := 0
	code := 0
	if viol != nil {
		path := saveReplay(spec, viol)
		n, total, trace := confirm(self, path)
		if n > 0 {
			nv = 1
			code = 1
			viol.Trace = trace
			fmt.Println(indent(strings.Join(trace, "\n")))
			fmt.Printf("violated (%d of %d replays fail): %s\n", n, total, viol.Message)
			fmt.Printf("VIOLATION property=%s replay=%s\n", spec.Property, path)
		} else {
			exhaustive = false
			fmt.Printf("NOT REPRODUCIBLE, not reported: %s: %s\n", viol.Scenario, viol.Message)
		}
	}
	var keys []string
	for k := range known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s %s (met in %d executions)\n", spec.Property, knownText[k], known[k])
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": spec.Property, "tier": tier, "seed": seed, "level": "model_checking",
		"coverage": map[string]interface{}{
			"states": len(allStates), "transitions": trans, "traces_validated_against_impl": nontrivial,
			"evaluations": evals, "distinct_nontrivial": nontrivial,
			"executions": execs, "rule": spec.Rule, "samples": samples, "scenarios": reports, "exhaustive": exhaustive,
		},
		"assumptions": spec.Assumptions, "wall_s": time.Since(start).Seconds(), "violations": nv,
	}
	if spec.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(*fVerif, "evidence")
	os.MkdirAll(dir, 0777)
	if err := ioutil.WriteFile(filepath.Join(dir, spec.Property+".json"), append(b, '\n'), 0666); err != nil {
		fmt.Println(err)
	}
	return code
}

func indent(s string) string { return "  " + strings.Replace(s, "\n", "\n  ", -1) }

func saveReplay(spec *Spec, v *found) string {
	dir := filepath.Join(*fVerif, "replays")
	os.MkdirAll(dir, 0777)
	path := filepath.Join(dir, spec.Property+"-"+strings.Replace(v.Scenario, " ", "-", -1)+".json")
	b, _ := json.MarshalIndent(v, "", " ")
	ioutil.WriteFile(path, b, 0666)
	return path
}

// confirm replays the violation in fresh processes.
func confirm(self, path string) (fails, total int, trace []string) {
	for total = 0; total < 5; total++ {
		cmd := exec.Command(self, "-replay", path, "-verif", *fVerif)
		cmd.Env = os.Environ()
		out, err := cmd.CombinedOutput()
		if err != nil {
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() != 3 {
				fails++
				if trace == nil {
					lines := strings.Split(strings.TrimSpace(string(out)), "\n")
					if len(lines) > 120 {
						lines = append(lines[:60], lines[len(lines)-60:]...)
					}
					trace = lines
				}
				if ee.ExitCode() == 77 { // a hang takes long to confirm
					total++
					return
				}
			}
		}
	}
	return
}

func runScenario(self, tmp string, spec *Spec, sc *Scenario, tier string, dev int, end time.Time) (sum result, st, oc map[uint64]struct{}, v *found) {
	st, oc = map[uint64]struct{}{}, map[uint64]struct{}{}
	shmPath := filepath.Join(tmp, "shm")
	if err := ioutil.WriteFile(shmPath, make([]byte, shmHead+shmSlot*maxWorkers), 0600); err != nil {
		panic(err)
	}
	n := nWorkers()
	type done struct {
		id  int
		err error
		msg string
	}
	ch := make(chan done, n)
	for i := 0; i < n; i++ {
		go func(i int) {
			cmd := exec.Command(self, "-mcworker", strconv.Itoa(i), "-mcshm", shmPath, "-mcout", filepath.Join(tmp, fmt.Sprint("out", i)),
				"-mcscenario", sc.Name, "-mcdeadline", strconv.FormatInt(end.UnixNano(), 10), "-mcdev", strconv.Itoa(dev), "-verif", *fVerif)
			cmd.Env = append(os.Environ(), "VERIF_TIER="+tier, "GOGC=400", "GOMAXPROCS=2")
			var buf bytes.Buffer
			cmd.Stdout = &buf
			cmd.Stderr = &buf
			err := cmd.Run()
			s := buf.String()
			if len(s) > 6000 {
				s = s[:3000] + "\n...\n" + s[len(s)-3000:]
			}
			ch <- done{i, err, s}
		}(i)
	}
	shm := openShm(shmPath)
	defer syscall.Munmap(shm)
	var broken []done
	for i := 0; i < n; i++ {
		d := <-ch
		out := filepath.Join(tmp, fmt.Sprint("out", d.id))
		if d.err != nil {
			broken = append(broken, d)
			// let the others finish quickly
			atomic.StoreInt64((*int64)(unsafe.Pointer(&shm[8])), 1)
			continue
		}
		b, err := ioutil.ReadFile(out)
		if err != nil {
			panic(err)
		}
		var r result
		if err := json.Unmarshal(b, &r); err != nil {
			panic(err)
		}
		sum.Execs += r.Execs
		sum.Transitions += r.Transitions
		sum.Evals += r.Evals
		sum.Discards += r.Discards
		if r.MaxDepth > sum.MaxDepth {
			sum.MaxDepth = r.MaxDepth
		}
		sum.Capped = sum.Capped || r.Capped
		for k, x := range r.Known {
			if sum.Known == nil {
				sum.Known = map[string]int64{}
			}
			sum.Known[k] += x
		}
		if len(sum.Samples) < 3 {
			sum.Samples = append(sum.Samples, r.Samples...)
		}
		if r.Violation != nil && (v == nil || len(r.Violation.Choices) < len(v.Choices)) {
			v = r.Violation
		}
		loadSet(out+".states", st)
		loadSet(out+".outcomes", oc)
		os.Remove(out)
		os.Remove(out + ".states")
		os.Remove(out + ".outcomes")
	}
	for _, d := range broken {
		sum.Capped = true
		if v == nil {
			if strings.Contains(d.msg, "panic: mc: ") {
				fmt.Printf("HARNESS ERROR in %s: %s\n", sc.Name, d.msg)
				continue
			}
			v = &found{Property: spec.Property, Scenario: sc.Name, Tier: tier, Dev: dev, Choices: published(shm, d.id), Message: "the process died: " + d.err.Error() + "\n" + d.msg}
		}
	}
	return
}

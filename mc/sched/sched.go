// Package sched is a cooperative scheduler: the threads of an instrumented
// program run one at a time, and at every synchronization operation the
// explorer decides which one continues. Every memory access that the
// instrumentation reports is checked for data races by vector clocks, so that
// scheduling points at synchronization operations are enough.
package sched

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"strings"
	"time"
	"unsafe"

	"verifmc/mc"
)

type vclock []uint32

func (a vclock) covers(t int, n uint32) bool { return t < len(a) && a[t] >= n }

func join(a, b vclock) vclock {
	for len(a) < len(b) {
		a = append(a, 0)
	}
	for i, n := range b {
		if n > a[i] {
			a[i] = n
		}
	}
	return a
}

type thread struct {
	id    int
	vc    vclock
	wake  chan struct{}
	ready func() bool
	done  bool
	rnd   uint64
	draws uint64
	Log   []Draw
	tag   interface{}
}

// Draw is an answer of the random source.
type Draw struct {
	N int // 0 for raw bits
	V uint64
}

// Sync is the clock of a synchronization object.
type Sync struct{ vc vclock }

type epoch struct {
	t  int
	n  uint32
	at uintptr
}

type cell struct {
	w     epoch
	reads []epoch
}

type run struct {
	c        *mc.Ctx
	threads  []*thread
	cur      *thread
	points   int
	forked   bool
	dead     bool
	over     chan interface{}
	shadow   map[unsafe.Pointer]*cell
	atom     vclock
	chans    map[unsafe.Pointer]*channel
	keep     []interface{}
	switches int
}

var cur *run

// Config of a run.
type Config struct {
	MaxPoints int
	// Traced receives the calls that the instrumentation reports.
	Traced func(leave bool, name string, thread int, log []Draw, args []interface{})
	// IO makes formatted output to a writer a scheduling point.
	IO bool
	// KeepRand leaves the answers of the random source to whoever set them.
	KeepRand bool
	// NoRaces turns the race detector off.
	NoRaces bool
	// OneSchedule continues the first thread that can, always.
	OneSchedule bool
	// DelayBound makes every departure from the first thread that can
	// continue a deviation, not only preemptions.
	DelayBound bool
}

var config Config

// Result says how a run ended.
type Result struct {
	Exit     string // "", "fatal", "exit N" or "panic: ..."
	Deadlock string
	Points   int
	Threads  int
	Switches int
	Stack    string
}

type exitCode struct{ code int }
type killed struct{}

// Active reports whether a controlled run is under way.
func Active() bool { return cur != nil && !cur.dead }

// Run executes main as thread 0 under control of the explorer.
func Run(c *mc.Ctx, cfg Config, main func()) (res Result) {
	if cfg.MaxPoints == 0 {
		cfg.MaxPoints = 50000
	}
	config = cfg
	r := &run{c: c, over: make(chan interface{}, 64), shadow: map[unsafe.Pointer]*cell{}, chans: map[unsafe.Pointer]*channel{}}
	cur = r
	if !cfg.KeepRand {
		c.Rand(func(n int) int {
			t := r.cur
			v := int(t.next() % uint64(n))
			t.Log = append(t.Log, Draw{n, uint64(v)})
			return v
		})
		c.RandRaw(func() uint64 {
			t := r.cur
			v := t.next()
			t.Log = append(t.Log, Draw{0, v})
			return v
		})
	}
	t0 := r.spawn(main, nil)
	r.cur = t0
	t0.wake <- struct{}{}
	end := <-r.over
	r.dead = true
	for _, t := range r.threads {
		if !t.done && t != r.cur {
			t.wake <- struct{}{}
			<-r.over
		}
	}
	res.Points, res.Threads, res.Switches = r.points, len(r.threads), r.switches
	cur = nil
	if !cfg.KeepRand {
		c.Rand(nil)
		c.RandRaw(nil)
	}
	c.Step(r.points)
	switch e := end.(type) {
	case nil:
	case deadlock:
		res.Deadlock = e.msg
	case exitCode:
		res.Exit = fmt.Sprint("exit ", e.code)
	case mc.Fatal:
		res.Exit = "fatal"
	case failure:
		if _, ok := e.v.(error); ok || isString(e.v) && !strings.HasPrefix(fmt.Sprint(e.v), "mc: ") {
			res.Exit = fmt.Sprintf("panic: %v", e.v)
			res.Stack = e.stack
			break
		}
		panic(e.v) // the explorer's own
	default:
		panic(fmt.Sprint("sched: ", end))
	}
	return
}

func isString(v interface{}) bool { _, ok := v.(string); return ok }

type failure struct {
	v     interface{}
	stack string
}
type deadlock struct{ msg string }

func (t *thread) next() uint64 {
	t.draws++
	z := t.rnd + t.draws*0x9e3779b97f4a7c15
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// Seed selects the random streams of the threads started from now on.
var Seed uint64

func (r *run) spawn(f func(), parent *thread) *thread {
	t := &thread{id: len(r.threads), wake: make(chan struct{})}
	t.rnd = (uint64(t.id)+1)*0xd1342543de82ef95 + Seed*0x2545f4914f6cdd1d
	if parent != nil {
		t.vc = append(vclock{}, parent.vc...)
	}
	for len(t.vc) <= t.id {
		t.vc = append(t.vc, 0)
	}
	t.vc[t.id] = 1
	r.threads = append(r.threads, t)
	go func() {
		<-t.wake
		var end interface{}
		normal := false
		defer func() {
			if r.dead {
				t.done = true
				recover()
				r.over <- nil
				return
			}
			if !normal {
				e := recover()
				switch e.(type) {
				case exitCode, mc.Fatal, deadlock:
					end = e
				case nil: // runtime.Goexit
					end = failure{"mc: Goexit in a controlled thread", ""}
				default:
					end = failure{e, string(debug.Stack())}
				}
				t.done = true
				r.over <- end
				return
			}
			t.done = true
			if t.id == 0 { // main returns: the program ends
				r.over <- nil
				return
			}
			n, err := r.pickSafe(false)
			if err != nil {
				r.over <- err
				return
			}
			r.cur = n
			n.wake <- struct{}{}
		}()
		f()
		normal = true
	}()
	return t
}

func (r *run) pickSafe(running bool) (t *thread, err interface{}) {
	defer func() {
		if e := recover(); e != nil {
			if d, ok := e.(deadlock); ok {
				err = d
			} else {
				err = failure{e, ""}
			}
		}
	}()
	return r.pick(running, "thread ends"), nil
}

// pick chooses the thread to continue.
func (r *run) pick(running bool, label string) *thread {
	r.points++
	if r.points > config.MaxPoints {
		r.c.Failf("no end after %d scheduling points", r.points)
	}
	var enabled []*thread
	if running {
		enabled = append(enabled, r.cur)
	}
	for _, t := range r.threads {
		if t.done || running && t == r.cur {
			continue
		}
		if t.ready == nil || t.ready() {
			enabled = append(enabled, t)
		}
	}
	if len(enabled) == 0 {
		panic(deadlock{fmt.Sprintf("all %d threads that have not ended are blocked", r.alive())})
	}
	k := 0
	if len(enabled) > 1 && !config.OneSchedule {
		if running || config.DelayBound {
			k = r.c.Dev(len(enabled), "preempt or delay: "+label)
		} else {
			k = r.c.Choose(len(enabled), "next thread: "+label)
		}
	}
	return enabled[k]
}

func (r *run) alive() (n int) {
	for _, t := range r.threads {
		if !t.done {
			n++
		}
	}
	return
}

func (r *run) switchTo(n *thread) {
	me := r.cur
	if n == me {
		return
	}
	r.switches++
	r.c.Logf("thread %d -> %d", me.id, n.id)
	r.cur = n
	n.wake <- struct{}{}
	<-me.wake
	if r.dead {
		runtime.Goexit()
	}
}

// Point is a scheduling point.
func Point(label string) {
	r := cur
	if r == nil || r.dead {
		return
	}
	r.switchTo(r.pick(true, label))
}

// Yield lets another thread run, if one can.
func Yield() {
	r := cur
	if r == nil || r.dead {
		return
	}
	r.points++
	if r.points > config.MaxPoints {
		r.c.Failf("no end after %d scheduling points", r.points)
	}
	n := len(r.threads)
	for k := 1; k < n; k++ {
		t := r.threads[(r.cur.id+k)%n]
		if !t.done && (t.ready == nil || t.ready()) {
			r.switchTo(t)
			return
		}
	}
}

// Sleep wraps time.Sleep.
func Sleep[F any](f F) F {
	Yield()
	if g, ok := any(func(time.Duration) {}).(F); ok && Active() {
		return g
	}
	return f
}

// Await blocks until cond holds; cond is evaluated while no thread runs.
func Await(label string, cond func() bool) {
	r := cur
	if r == nil || r.dead {
		return
	}
	for !cond() {
		t := r.cur
		t.ready = cond
		n := r.pick(false, label)
		t.ready = cond
		r.switchTo(n)
		t.ready = nil
	}
}

// Acquire and Release order accesses through a synchronization object.
func (s *Sync) Acquire() {
	if r := cur; r != nil && !r.dead {
		r.cur.vc = join(r.cur.vc, s.vc)
	}
}
func (s *Sync) Release() {
	if r := cur; r != nil && !r.dead {
		t := r.cur
		s.vc = join(s.vc, t.vc)
		t.vc[t.id]++
	}
}

// GoFunc starts a thread.
func GoFunc(f func()) {
	r := cur
	if r == nil {
		go f()
		return
	}
	if r.dead {
		return
	}
	r.forked = true
	p := r.cur
	r.spawn(f, p)
	p.vc[p.id]++
	Point("go")
}

// Go returns a function of the same type that starts a thread calling f.
func Go[F any](f F) F {
	if g, ok := any(f).(func()); ok {
		return any(func() { GoFunc(g) }).(F)
	}
	v := reflect.ValueOf(f)
	t := v.Type()
	w := reflect.MakeFunc(t, func(args []reflect.Value) []reflect.Value {
		GoFunc(func() {
			if t.IsVariadic() {
				v.CallSlice(args)
			} else {
				v.Call(args)
			}
		})
		var out []reflect.Value
		for i := 0; i < t.NumOut(); i++ {
			out = append(out, reflect.Zero(t.Out(i)))
		}
		return out
	})
	return w.Interface().(F)
}

// Exit replaces os.Exit.
func Exit(code int) {
	if Active() {
		panic(exitCode{code})
	}
	panic(fmt.Sprint("os.Exit ", code))
}

// ThreadID is the running thread.
func ThreadID() int {
	if cur == nil {
		return 0
	}
	return cur.cur.id
}

// Enter and Leave report calls of traced functions.
func Enter(name string, args ...interface{}) {
	if Active() && config.Traced != nil {
		config.Traced(false, name, cur.cur.id, cur.cur.Log, args)
	}
}
func Leave(name string, args ...interface{}) {
	if Active() && config.Traced != nil {
		config.Traced(true, name, cur.cur.id, cur.cur.Log, args)
	}
}

// ---- memory accesses

func callers() uintptr {
	var pc [1]uintptr
	runtime.Callers(4, pc[:])
	return pc[0]
}

func where(pc uintptr) string {
	if pc == 0 {
		return "?"
	}
	f, _ := runtime.CallersFrames([]uintptr{pc}).Next()
	name := f.Function
	if i := strings.LastIndex(name, "/"); i >= 0 {
		name = name[i+1:]
	}
	file := f.File
	if i := strings.LastIndex(file, "/"); i >= 0 {
		file = file[i+1:]
	}
	return fmt.Sprintf("%s (%s:%d)", name, file, f.Line)
}

func access(p unsafe.Pointer, write bool) {
	r := cur
	t := r.cur
	x := r.shadow[p]
	if x == nil {
		x = &cell{w: epoch{t: -1}}
		r.shadow[p] = x
	}
	now := epoch{t.id, t.vc[t.id], 0}
	if x.w.t >= 0 && x.w.t != t.id && !t.vc.covers(x.w.t, x.w.n) {
		now.at = callers()
		r.race(p, now, x.w, write, true)
	}
	if write {
		for _, e := range x.reads {
			if e.t != t.id && !t.vc.covers(e.t, e.n) {
				now.at = callers()
				r.race(p, now, e, true, false)
			}
		}
		if x.w.t != now.t || x.w.n != now.n {
			now.at = callers()
			x.w = now
		}
		x.reads = x.reads[:0]
		return
	}
	for i := range x.reads {
		if x.reads[i].t == t.id {
			if x.reads[i].n != now.n {
				now.at = callers()
				x.reads[i] = now
			}
			return
		}
	}
	now.at = callers()
	x.reads = append(x.reads, now)
}

func (r *run) race(p unsafe.Pointer, now, old epoch, w1, w2 bool) {
	if config.NoRaces {
		return
	}
	kind := func(w bool) string {
		if w {
			return "writes"
		}
		return "reads"
	}
	r.c.Failf("data race: thread %d %s in %s what thread %d %s in %s, and nothing orders the two", now.t, kind(w1), where(now.at), old.t, kind(w2), where(old.at))
}

func on() bool { r := cur; return r != nil && r.forked && !r.dead }

// R, W and RW report access to a variable.
func R[T any](p *T) *T {
	if on() && unsafe.Sizeof(*p) > 0 {
		access(unsafe.Pointer(p), false)
	}
	return p
}

func W[T any](p *T) *T {
	if on() && unsafe.Sizeof(*p) > 0 {
		access(unsafe.Pointer(p), true)
	}
	return p
}

// mapPtr identifies a map.
func mapPtr[M ~map[K]V, K comparable, V any](m M) unsafe.Pointer {
	return *(*unsafe.Pointer)(unsafe.Pointer(&m))
}

// MR and MW report access to a map.
func MR[M ~map[K]V, K comparable, V any](m M) M {
	if on() && m != nil {
		access(mapPtr[M, K, V](m), false)
	}
	return m
}

func MW[M ~map[K]V, K comparable, V any](m M) M {
	if on() && m != nil {
		access(mapPtr[M, K, V](m), true)
	}
	return m
}

// RS and WS report access to all elements of a slice.
func RS[S ~[]E, E any](s S) S {
	if on() {
		for i := range s {
			if unsafe.Sizeof(s[i]) > 0 {
				access(unsafe.Pointer(&s[i]), false)
			}
		}
	}
	return s
}

func WS[S ~[]E, E any](s S, n int) S {
	if on() {
		for i := range s {
			if i < n && unsafe.Sizeof(s[i]) > 0 {
				access(unsafe.Pointer(&s[i]), true)
			}
		}
	}
	return s
}

// AppendTo reports the elements that appending n elements writes in place.
func AppendTo[S ~[]E, E any](s S, n int) S {
	if on() {
		if m := len(s) + n; m <= cap(s) {
			t := s[len(s):m]
			WS[S, E](t, len(t))
		}
	}
	return s
}

// Copy reports the elements that copy touches.
func Copy[S, T ~[]E, E any](d S, s T) int {
	n := len(s)
	if len(d) < n {
		n = len(d)
	}
	WS[S, E](d, n)
	RS[T, E](s[:n])
	return copy(d, s)
}

// Obj reports a write to an object behind a pointer that is not safe for
// concurrent use.
func Obj[T any](p *T) *T {
	if on() && p != nil {
		access(unsafe.Pointer(p), true)
	}
	return p
}

// IO makes output to a writer a scheduling point.
func IO[T any](w T) T {
	if on() && config.IO {
		Point("output")
	}
	return w
}

// A orders atomic operations (all of them, which is more than they promise).
func A[F any](f F) F {
	if on() {
		Point("atomic")
		t := cur.cur
		t.vc = join(t.vc, cur.atom)
		cur.atom = join(cur.atom, t.vc)
		t.vc[t.id]++
	}
	return f
}

var Used int

// ---- channels

type item struct {
	v    interface{}
	vc   vclock
	from *thread
	got  bool
	back vclock
}

type channel struct {
	cap    int
	buf    []*item
	recvs  int // receivers waiting on an unbuffered channel
	closed bool
	clk    Sync
	freed  []vclock
}

func chanOf(ch interface{}) *channel {
	p := reflect.ValueOf(ch).UnsafePointer()
	if p == nil {
		return nil
	}
	x := cur.chans[p]
	if x == nil {
		x = &channel{cap: reflect.ValueOf(ch).Cap()}
		cur.chans[p] = x
		cur.keep = append(cur.keep, ch)
	}
	return x
}

func never() bool { return false }

// SendTo sends on a channel.
func SendTo[T any](ch chan<- T) func(T) {
	return func(v T) {
		if !Active() {
			if cur == nil {
				ch <- v
			}
			return
		}
		x := chanOf(ch)
		Point("send")
		if x == nil {
			Await("send on nil channel", never)
			return
		}
		Await("send", func() bool { return x.closed || x.cap == 0 || len(x.buf) < x.cap })
		if !Active() {
			return
		}
		x.push(v)
	}
}

func (x *channel) push(v interface{}) {
	if x.closed {
		panic(fmt.Errorf("send on closed channel"))
	}
	t := cur.cur
	it := &item{v: v, vc: append(vclock{}, t.vc...), from: t}
	if len(x.freed) > 0 { // reuse of a buffer slot follows the receive that freed it
		t.vc = join(t.vc, x.freed[0])
		x.freed = x.freed[1:]
	}
	t.vc[t.id]++
	x.buf = append(x.buf, it)
	if x.cap == 0 {
		Await("send", func() bool { return it.got })
		t.vc = join(t.vc, it.back)
	}
}

func (x *channel) pop() (interface{}, bool) {
	t := cur.cur
	if len(x.buf) > 0 {
		it := x.buf[0]
		x.buf = x.buf[1:]
		t.vc = join(t.vc, it.vc)
		it.got, it.back = true, append(vclock{}, t.vc...)
		if x.cap > 0 {
			x.freed = append(x.freed, it.back)
		}
		t.vc[t.id]++
		return it.v, true
	}
	t.vc = join(t.vc, x.clk.vc)
	return nil, false
}

func recv[T any](ch <-chan T) (v T, ok bool) {
	if !Active() {
		if cur == nil {
			v, ok = <-ch
		}
		return
	}
	x := chanOf(ch)
	Point("receive")
	if x == nil {
		Await("receive on nil channel", never)
		return
	}
	Await("receive", func() bool { return x.closed || len(x.buf) > 0 })
	if !Active() {
		return
	}
	e, ok := x.pop()
	if ok {
		v, _ = e.(T)
	}
	return v, ok
}

// Recv receives from a channel.
func Recv[T any](ch <-chan T) T { v, _ := recv(ch); return v }

// Recv2 is the two value form.
func Recv2[T any](ch <-chan T) (T, bool) { return recv(ch) }

// Range ranges over a channel.
func Range[T any](ch <-chan T) func(func(T) bool) {
	return func(yield func(T) bool) {
		for {
			v, ok := recv(ch)
			if !ok || !yield(v) {
				return
			}
		}
	}
}

// Close closes a channel.
func Close[T any](ch chan<- T) {
	if !Active() {
		if cur == nil {
			close(ch)
		}
		return
	}
	x := chanOf(ch)
	Point("close")
	if x == nil || x.closed {
		panic(fmt.Errorf("close of closed or nil channel"))
	}
	x.closed = true
	x.clk.Release()
}

// Len is len of a channel.
func Len[T any](ch <-chan T) int {
	if !Active() {
		return len(ch)
	}
	if x := chanOf(ch); x != nil && x.cap > 0 {
		return len(x.buf)
	}
	return 0
}

// Case is a case of a select statement.
type Case struct {
	x    *channel
	send bool
	v    interface{}
}

// Selected is the outcome of a select statement.
type Selected struct {
	I  int
	V  interface{}
	Ok bool
}

func CaseRecv[T any](ch <-chan T) Case { return Case{x: chanOf(ch)} }
func CaseSend[T any](ch chan<- T) func(T) Case {
	return func(v T) Case { return Case{x: chanOf(ch), send: true, v: v} }
}
func Val[T any](ch <-chan T, s Selected) T { v, _ := s.V.(T); return v }
func Val2[T any](ch <-chan T, s Selected) (T, bool) {
	v, _ := s.V.(T)
	return v, s.Ok
}

// Select runs a select statement. Sends on unbuffered channels are ready only
// when a receiver is blocked on the channel outside of a select.
func Select(def bool, cases ...Case) Selected {
	Point("select")
	ready := func() (out []int) {
		for i, k := range cases {
			switch {
			case k.x == nil:
			case k.x.closed, !k.send && len(k.x.buf) > 0, k.send && len(k.x.buf) < k.x.cap, k.send && k.x.cap == 0:
				out = append(out, i)
			}
		}
		return
	}
	if len(ready()) == 0 {
		if def {
			return Selected{I: -1}
		}
		Await("select", func() bool { return len(ready()) > 0 })
	}
	rs := ready()
	i := rs[cur.c.Choose(len(rs), "select")]
	k := cases[i]
	if k.send {
		k.x.push(k.v)
		return Selected{I: i}
	}
	v, ok := k.x.pop()
	return Selected{I: i, V: v, Ok: ok}
}

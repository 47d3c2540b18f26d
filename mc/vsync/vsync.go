// Package vsync stands in for package sync in instrumented programs.
package vsync

import (
	"sync"
	"verifmc/sched"
)

type Locker = sync.Locker
type Pool = sync.Pool

type Mutex struct {
	locked bool
	clk    sched.Sync
}

func (m *Mutex) Lock() {
	if !sched.Active() {
		return
	}
	sched.Point("lock")
	sched.Await("lock", func() bool { return !m.locked })
	m.locked = true
	m.clk.Acquire()
}

func (m *Mutex) TryLock() bool {
	if !sched.Active() {
		return true
	}
	sched.Point("trylock")
	if m.locked {
		return false
	}
	m.locked = true
	m.clk.Acquire()
	return true
}

type misuse string

func (m misuse) Error() string { return string(m) }

func (m *Mutex) Unlock() {
	if !sched.Active() {
		return
	}
	if !m.locked {
		panic(misuse("sync: unlock of unlocked mutex"))
	}
	m.clk.Release()
	m.locked = false
	sched.Point("unlock")
}

type RWMutex struct {
	writer  bool
	readers int
	w, r    sched.Sync
}

func (m *RWMutex) Lock() {
	if !sched.Active() {
		return
	}
	sched.Point("lock")
	sched.Await("lock", func() bool { return !m.writer && m.readers == 0 })
	m.writer = true
	m.w.Acquire()
	m.r.Acquire()
}

func (m *RWMutex) Unlock() {
	if !sched.Active() {
		return
	}
	if !m.writer {
		panic(misuse("sync: Unlock of unlocked RWMutex"))
	}
	m.w.Release()
	m.writer = false
	sched.Point("unlock")
}

func (m *RWMutex) RLock() {
	if !sched.Active() {
		return
	}
	sched.Point("rlock")
	sched.Await("rlock", func() bool { return !m.writer })
	m.readers++
	m.w.Acquire()
}

func (m *RWMutex) RUnlock() {
	if !sched.Active() {
		return
	}
	if m.readers == 0 {
		panic(misuse("sync: RUnlock of unlocked RWMutex"))
	}
	m.r.Release()
	m.readers--
	sched.Point("runlock")
}

func (m *RWMutex) RLocker() Locker { return (*rlocker)(m) }

type rlocker RWMutex

func (r *rlocker) Lock()   { (*RWMutex)(r).RLock() }
func (r *rlocker) Unlock() { (*RWMutex)(r).RUnlock() }

type WaitGroup struct {
	n   int
	clk sched.Sync
}

func (g *WaitGroup) Add(d int) {
	if !sched.Active() {
		g.n += d
		return
	}
	if d > 0 {
		sched.Point("wg add")
	} else {
		g.clk.Release()
	}
	g.n += d
	if g.n < 0 {
		panic(misuse("sync: negative WaitGroup counter"))
	}
	if d < 0 {
		sched.Point("wg done")
	}
}

func (g *WaitGroup) Done() { g.Add(-1) }

func (g *WaitGroup) Wait() {
	if !sched.Active() {
		return
	}
	sched.Point("wg wait")
	sched.Await("wg wait", func() bool { return g.n == 0 })
	g.clk.Acquire()
}

func (g *WaitGroup) Go(f func()) {
	g.Add(1)
	sched.GoFunc(func() {
		defer g.Done()
		f()
	})
}

type Once struct {
	m    Mutex
	done bool
}

func (o *Once) Do(f func()) {
	o.m.Lock()
	defer o.m.Unlock()
	if !o.done {
		defer func() { o.done = true }()
		f()
	}
}

type Cond struct {
	L       Locker
	waiting []*bool
	clk     sched.Sync
}

func NewCond(l Locker) *Cond { return &Cond{L: l} }

func (c *Cond) Wait() {
	w := new(bool)
	c.waiting = append(c.waiting, w)
	c.L.Unlock()
	sched.Await("cond", func() bool { return *w })
	c.clk.Acquire()
	c.L.Lock()
}

func (c *Cond) Signal() {
	c.clk.Release()
	if len(c.waiting) > 0 {
		*c.waiting[0] = true
		c.waiting = c.waiting[1:]
	}
	sched.Point("signal")
}

func (c *Cond) Broadcast() {
	c.clk.Release()
	for _, w := range c.waiting {
		*w = true
	}
	c.waiting = nil
	sched.Point("broadcast")
}

// Map is a concurrent map.
type Map struct {
	m  map[interface{}]interface{}
	mu Mutex
}

func (m *Map) with(f func()) {
	m.mu.Lock()
	if m.m == nil {
		m.m = map[interface{}]interface{}{}
	}
	f()
	m.mu.Unlock()
}

func (m *Map) Load(k interface{}) (v interface{}, ok bool) {
	m.with(func() { v, ok = m.m[k] })
	return
}
func (m *Map) Store(k, v interface{}) { m.with(func() { m.m[k] = v }) }
func (m *Map) Delete(k interface{})   { m.with(func() { delete(m.m, k) }) }
func (m *Map) LoadOrStore(k, v interface{}) (a interface{}, loaded bool) {
	m.with(func() {
		if a, loaded = m.m[k]; !loaded {
			m.m[k] = v
			a = v
		}
	})
	return
}
func (m *Map) LoadAndDelete(k interface{}) (v interface{}, ok bool) {
	m.with(func() { v, ok = m.m[k]; delete(m.m, k) })
	return
}
func (m *Map) Range(f func(k, v interface{}) bool) {
	var ks, vs []interface{}
	m.with(func() {
		for k, v := range m.m {
			ks, vs = append(ks, k), append(vs, v)
		}
	})
	for i := range ks {
		if !f(ks[i], vs[i]) {
			return
		}
	}
}

func OnceFunc(f func()) func() {
	var o Once
	return func() { o.Do(f) }
}

func OnceValue[T any](f func() T) func() T {
	var o Once
	var v T
	return func() T { o.Do(func() { v = f() }); return v }
}

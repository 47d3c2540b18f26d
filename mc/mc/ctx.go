// Package mc is a stateless explorer. A scenario is a function that asks its
// Ctx for every choice it makes (input data, configuration, answers of the
// random source, which thread runs next). The explorer runs the scenario once
// for every sequence of answers, depth first, so a finished run covers the
// complete bounded choice tree.
package mc

import (
	"fmt"
	"hash/fnv"
	"strings"
)

// Ctx is one execution of a scenario.
type Ctx struct {
	prefix   []int
	choices  []int
	arity    []int
	dev      int // deviations used so far
	devBound int // deviations allowed
	tier     string
	tracing  bool
	quiet    bool // expansion run: count nothing
	trace    []string
	r        *worker
	samples  []string
	outcome  string
	seedRaw  uint64
}

type violation struct{ msg string }
type discard struct{}

// Horizon bounds the number of choices of one execution.
const Horizon = 200000

func (c *Ctx) pick(n int, cost bool, label string) int {
	if n <= 0 {
		panic(fmt.Sprintf("mc: Choose(%d) %s", n, label))
	}
	eff := n
	if cost && c.dev >= c.devBound {
		eff = 1
	}
	if eff == 1 {
		return 0 // not a choice point: nothing to record
	}
	i := len(c.choices)
	if i > Horizon {
		panic(violation{"execution exceeds the horizon of choices: it does not terminate"})
	}
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v >= eff {
			panic(fmt.Sprintf("mc: replay diverged at choice %d (%s): %d >= %d", i, label, v, eff))
		}
	}
	c.choices = append(c.choices, v)
	c.arity = append(c.arity, eff)
	if cost && v != 0 {
		c.dev++
	}
	return v
}

// Choose returns every value 0..n-1, one per execution.
func (c *Ctx) Choose(n int, label string) int {
	v := c.pick(n, false, label)
	if c.tracing && label != "" && n > 1 {
		c.trace = append(c.trace, fmt.Sprintf("choose %s = %d of %d", label, v, n))
	}
	return v
}

// Dev is Choose where every answer but 0 is a deviation from the default, of
// which an execution may contain at most the scenario's bound.
func (c *Ctx) Dev(n int, label string) int {
	v := c.pick(n, true, label)
	if c.tracing && label != "" && n > 1 && v > 0 {
		c.trace = append(c.trace, fmt.Sprintf("deviate %s = %d of %d", label, v, n))
	}
	return v
}

func (c *Ctx) Bool(label string) bool { return c.Choose(2, label) == 1 }

// Pick chooses an element of a slice.
func Pick[T any](c *Ctx, xs []T, label string) T {
	i := c.pick(len(xs), false, label)
	if c.tracing && label != "" {
		c.trace = append(c.trace, fmt.Sprintf("choose %s = %v", label, xs[i]))
	}
	return xs[i]
}

// Thorough says whether the deep tier is running.
func (c *Ctx) Thorough() bool { return c.tier == "thorough" }

// Int returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Int(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

// Failf reports a violation and ends the execution.
func (c *Ctx) Failf(format string, a ...interface{}) {
	panic(violation{fmt.Sprintf(format, a...)})
}

// Check fails unless ok.
func (c *Ctx) Check(ok bool, format string, a ...interface{}) {
	if !ok {
		c.Failf(format, a...)
	}
}

// Discard ends the execution as infeasible (or a symmetric duplicate).
func (c *Ctx) Discard() { panic(discard{}) }

// Logf adds a line to the trace of a replay.
func (c *Ctx) Logf(format string, a ...interface{}) {
	if c.tracing {
		c.trace = append(c.trace, fmt.Sprintf(format, a...))
	}
}

func hashString(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

// State records a transition into the state canonically described by s.
func (c *Ctx) State(s string) {
	if c.quiet {
		return
	}
	c.r.res.Transitions++
	c.r.addState(hashString(s))
}

// Statef is State with formatting.
func (c *Ctx) Statef(format string, a ...interface{}) {
	if c.quiet {
		return
	}
	c.State(fmt.Sprintf(format, a...))
}

// Step counts n transitions that need no state of their own.
func (c *Ctx) Step(n int) {
	if !c.quiet {
		c.r.res.Transitions += int64(n)
	}
}

// Eval counts comparisons of the implementation with the reference.
func (c *Ctx) Eval(n int) {
	if !c.quiet {
		c.r.res.Evals += int64(n)
	}
}

// Outcome describes what was observed in this execution (for counting
// distinct outcomes: one outcome from many executions means nothing collided).
func (c *Ctx) Outcome(format string, a ...interface{}) {
	if !c.quiet {
		c.outcome = fmt.Sprintf(format, a...)
	}
}

// Sample writes the case of this execution out for the evidence file.
func (c *Ctx) Sample(format string, a ...interface{}) {
	if !c.quiet && c.r.wantSample() {
		c.samples = append(c.samples, fmt.Sprintf(format, a...))
	}
}

// Known fails unless key is listed in known_findings.txt for this property.
// A listed finding is counted and the execution goes on.
func (c *Ctx) Known(key string, format string, a ...interface{}) {
	if d, ok := c.r.known[key]; ok {
		if !c.quiet {
			if c.r.res.Known == nil {
				c.r.res.Known = map[string]int64{}
			}
			c.r.res.Known[key]++
			_ = d
		}
		return
	}
	c.Failf(format, a...)
}

// Try runs f and returns the panic value (as text) if it panics. Panics of the
// explorer itself pass through.
func (c *Ctx) Try(f func()) (p string) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case violation, discard:
				panic(e)
			}
			p = fmt.Sprint(e)
			if strings.HasPrefix(p, "mc: ") {
				panic(e)
			}
			if p == "" {
				p = "panic"
			}
		}
	}()
	f()
	return ""
}

// Raw returns 64 deterministic pseudo random bits, for callers that ask the
// random source for bits rather than for a number below a bound.
func (c *Ctx) Raw() uint64 {
	c.seedRaw += 0x9e3779b97f4a7c15
	z := c.seedRaw
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

// SeedRaw selects the stream that Raw returns.
func (c *Ctx) SeedRaw(s int) { c.seedRaw = uint64(s) * 0x2545f4914f6cdd1d }

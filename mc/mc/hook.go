package mc

import (
	"log"
	"math/big"
	"math/rand"
	"os"
)

// RandHook answers a request for a random number below n during an execution.
// Scenarios set Ctx-based policies with Rand.
type Policy func(n int) int

var current *Ctx
var policy Policy
var rawPolicy func() uint64

// Begin and End bracket an execution, for the random source's hooks.
func Begin(c *Ctx) { current = c; policy, rawPolicy = nil, nil }
func End()         { current = nil; policy, rawPolicy = nil, nil }

// Rand sets the policy answering the random source in this execution. Without
// one, draws come from a fixed pseudo random stream.
func (c *Ctx) Rand(p Policy) { policy = p }

// RandRaw sets the stream of random bits (used where no bound is asked for, or
// a huge one).
func (c *Ctx) RandRaw(f func() uint64) { rawPolicy = f }

func raw() uint64 {
	if rawPolicy != nil {
		return rawPolicy()
	}
	return current.Raw()
}

// RandAll lets the explorer enumerate every answer of the random source.
func (c *Ctx) RandAll() {
	policy = func(n int) int { return c.Choose(n, "rand") }
}

// RandDev enumerates answers as deviations from answer 0.
func (c *Ctx) RandDev() {
	policy = func(n int) int { return c.Dev(n, "rand") }
}

// RandFirst enumerates the first k answers, the rest come from a fixed stream.
func (c *Ctx) RandFirst(k int) {
	policy = func(n int) int {
		if k > 0 {
			k--
			return c.Choose(n, "rand")
		}
		return int(c.Raw() % uint64(n))
	}
}

// AnswerIntn is called by the instrumented math/rand.
func AnswerIntn(n int) (int, bool) {
	if current == nil {
		return 0, false
	}
	if n <= 0 {
		return 0, false // let the library panic as usual
	}
	if n > 1<<15 {
		return int(raw() % uint64(n)), true
	}
	if policy != nil {
		return policy(n), true
	}
	return int(raw() % uint64(n)), true
}

// Seeded counts the times the random source was seeded.
var Seeded int

// AnswerRaw is called by the instrumented math/rand for raw bits.
func AnswerRaw() (uint64, bool) {
	if current == nil {
		return 0, false
	}
	return raw(), true
}

// Fatal is what log.Fatal does under exploration: end the execution.
type Fatal struct{}

func (Fatal) Error() string { return "log.Fatal was called" }

func init() {
	rand.VerifIntn = AnswerIntn
	rand.VerifRaw = AnswerRaw
	rand.VerifSeed = func(int64) { Seeded++ }
	log.VerifExit = func(code int) {
		if current == nil {
			os.Exit(code)
		}
		panic(Fatal{})
	}
}

// Enumerate runs f once for every sequence of answers of the random source,
// within this execution, and returns for every distinct result of f the exact
// probability of getting it when all answers below a bound are equally likely.
func (c *Ctx) Enumerate(f func() string) map[string]*big.Rat {
	out := map[string]*big.Rat{}
	var prefix []int
	saved := policy
	defer func() { policy = saved }()
	for runs := 0; ; runs++ {
		var ans, bound []int
		policy = func(n int) int {
			v := 0
			if len(ans) < len(prefix) {
				v = prefix[len(ans)]
			}
			if v >= n {
				panic("mc: Enumerate diverged")
			}
			ans = append(ans, v)
			bound = append(bound, n)
			if len(ans) > 10000 {
				panic(violation{"drawing random numbers does not end"})
			}
			return v
		}
		r := f()
		w := big.NewRat(1, 1)
		for _, n := range bound {
			w.Mul(w, big.NewRat(1, int64(n)))
		}
		if out[r] == nil {
			out[r] = new(big.Rat)
		}
		out[r].Add(out[r], w)
		i := len(ans) - 1
		for ; i >= 0 && ans[i]+1 >= bound[i]; i-- {
		}
		if i < 0 {
			c.Step(runs + 1)
			return out
		}
		prefix = append(append([]int{}, ans[:i]...), ans[i]+1)
	}
}

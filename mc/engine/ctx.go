// Package engine is a small stateless model checker: a scenario is a closed driver whose only
// sources of nondeterminism are calls to Ctx.Choose (operations, arguments, environment answers)
// and the random choices of the library under test (owned through an overlay of math/rand).
// The explorer enumerates every choice vector of a scenario depth-first; an execution is
// replayed from its choice vector alone.
package engine

import (
	"fmt"
	"hash/fnv"
	"math"
	"math/rand"
	randv2 "math/rand/v2"
	"runtime"
	"strings"
)

// Choice is one resolved nondeterministic choice.
type Choice struct {
	N, V int
}

// Violation is raised (as a panic) by an oracle.
type Violation struct {
	Sig string // stable identification of the failing clause
	Msg string
}

type pruned struct{}
type notMine struct{}

// Ctx is the environment of one execution.
type Ctx struct {
	prefix  []int
	choices []Choice

	Tier    string
	tracing bool
	trace   []string

	states  map[uint64]struct{} // distinct states seen by this worker in this scenario
	visited map[uint64]struct{}
	outcome map[uint64]struct{}
	nSteps  int64
	nOracle int64

	shard, nshards, shardDepth int
	mineDecided                bool

	randMode  int
	randPol   int
	randDev   int
	randCount int
	floatGrid []float64
	RandUsed  int // number of library random calls in this execution
	RandHook  func(kind string, n uint64) (uint64, bool)

	journal *journal
}

const (
	randOff    = iota // fail-safe: policy 0
	randEnum          // enumerate every outcome
	randPolicy        // a fixed policy with a bounded number of deviations
	randCustom
)

// Choose resolves a choice among n alternatives (0..n-1).
func (c *Ctx) Choose(n int, label string) int {
	if n <= 0 {
		panic(fmt.Sprintf("engine: Choose(%d) %s", n, label))
	}
	i := len(c.choices)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
		if v < 0 || v >= n {
			panic(fmt.Sprintf("engine: replay divergence: choice %d is %d, only %d alternatives (%s)", i, v, n, label))
		}
	}
	c.choices = append(c.choices, Choice{n, v})
	if c.journal != nil {
		c.journal.put(i, v)
	}
	if c.tracing && label != "" {
		c.trace = append(c.trace, fmt.Sprintf("%s=%d/%d", label, v, n))
	}
	if c.nshards > 1 && !c.mineDecided && len(c.choices) >= c.shardDepth {
		c.decideMine()
	}
	return v
}

func (c *Ctx) decideMine() {
	c.mineDecided = true
	h := fnv.New32a()
	for _, ch := range c.choices {
		h.Write([]byte{byte(ch.V), byte(ch.V >> 8)})
	}
	x := h.Sum32()
	x ^= x >> 15
	x *= 0x2c1b3c6d
	x ^= x >> 12
	if int(x%uint32(c.nshards)) != c.shard {
		panic(notMine{})
	}
}

// Tracing reports whether a human-readable trace is being recorded.
func (c *Ctx) Tracing() bool { return c.tracing }

// Logf appends to the human-readable trace (only when tracing).
func (c *Ctx) Logf(f string, a ...any) {
	if c.tracing {
		c.trace = append(c.trace, fmt.Sprintf(f, a...))
	}
}

// Step counts an operation of the implementation (a transition).
func (c *Ctx) Step() { c.nSteps++ }

// Steps counts n operations.
func (c *Ctx) Steps(n int) { c.nSteps += int64(n) }

// State records a fingerprint of the reached state (coverage measure only; never prunes).
func (c *Ctx) State(h uint64) { c.states[h] = struct{}{} }

// Seen prunes the execution when a state with identical futures was already expanded.
func (c *Ctx) PruneIfSeen(h uint64) {
	// replaying a prefix must not prune before the frontier
	if len(c.choices) < len(c.prefix) {
		c.visited[h] = struct{}{}
		return
	}
	if _, ok := c.visited[h]; ok {
		panic(pruned{})
	}
	c.visited[h] = struct{}{}
}

// Outcome records a distinct observed outcome (vacuity measure).
func (c *Ctx) Outcome(h uint64) { c.outcome[h] = struct{}{} }

// Checked counts an oracle evaluation.
func (c *Ctx) Checked() { c.nOracle++ }

// Fail reports a violation of the property.
func (c *Ctx) Fail(sig, f string, a ...any) {
	panic(Violation{Sig: sig, Msg: fmt.Sprintf(f, a...)})
}

// Assert reports a violation unless ok.
func (c *Ctx) Assert(ok bool, sig, f string, a ...any) {
	c.nOracle++
	if !ok {
		panic(Violation{Sig: sig, Msg: fmt.Sprintf(f, a...)})
	}
}

// NoErr reports a violation if err is non-nil.
func (c *Ctx) NoErr(err error, sig string) {
	c.nOracle++
	if err != nil {
		panic(Violation{Sig: sig, Msg: "unexpected error: " + err.Error()})
	}
}

// RandEnumerate makes every library random call an enumerated choice.
func (c *Ctx) RandEnumerate(grid []float64) { c.randMode = randEnum; c.floatGrid = grid }

// Random policies: 0 all-zero, 1 all-max, 2 alternating from 0, 3 alternating from max,
// 4 a fixed de-Bruijn-like bit pattern. dev is the number of positions that may deviate.
func (c *Ctx) RandPolicy(policy, dev int) {
	c.randMode = randPolicy
	c.randPol = policy
	c.randDev = dev
	c.randCount = 0
}

// RandCustom installs a scenario-specific resolver.
func (c *Ctx) RandCustom(f func(kind string, n uint64) (uint64, bool)) {
	c.randMode = randCustom
	c.RandHook = f
}

const NumPolicies = 6

var pattern = uint64(0x0b6e_9c35_d1a7_4f82)

func (c *Ctx) policyBit() uint64 {
	i := c.randCount
	c.randCount++
	var b uint64
	switch c.randPol {
	case 0:
		b = 0
	case 1:
		b = 1
	case 2:
		b = uint64(i & 1)
	case 3:
		b = uint64(1 - i&1)
	case 4:
		b = (pattern >> (uint(i*7) & 63)) & 1
	default: // splitmix of the call index: a fixed, reproducible bit string
		z := uint64(i)*0x9e3779b97f4a7c15 + 0x9e3779b97f4a7c15
		z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
		z = (z ^ (z >> 27)) * 0x94d049bb133111eb
		b = (z >> 60) & 1
	}
	return b
}

func (c *Ctx) resolve(kind string, n uint64) (uint64, bool) {
	if kind == "perm" || kind == "shuffle" {
		return n, true // expands to integer choices
	}
	if kind == "int" && (n == 0 || n > 1<<62) {
		return 0, false // let the original function panic on an invalid bound
	}
	if Thread() == 0 {
		c.RandUsed++
	}
	if c.randMode == randCustom {
		return c.RandHook(kind, n)
	}
	if kind == "int" && n == 1 {
		return 0, true
	}
	enum := c.randMode == randEnum
	switch kind {
	case "int":
		if enum {
			if n > 64 {
				// too wide to enumerate: ends and middle
				v := c.Choose(3, "rnd")
				return []uint64{0, n - 1, n / 2}[v], true
			}
			return uint64(c.Choose(int(n), "rnd")), true
		}
		b := c.policyBit()
		if n == 2 {
			if c.randDev > 0 {
				if c.Choose(2, "dev") == 1 {
					c.randDev--
					b = 1 - b
				}
			}
			return b, true
		}
		v := uint64(0)
		if b == 1 {
			v = n - 1
		}
		if c.randPol >= 4 {
			z := (uint64(c.randCount) + 1) * 0x9e3779b97f4a7c15
			z ^= z >> 29
			v = z % n
		}
		if c.randDev > 0 {
			k := c.Choose(3, "dev")
			if k > 0 {
				c.randDev--
				if k == 1 {
					v = n - 1 - v
				} else {
					v = n / 2
				}
			}
		}
		return v, true
	case "float":
		var f float64
		if enum {
			g := c.floatGrid
			if g == nil {
				g = []float64{0.25, 0.75}
			}
			f = g[c.Choose(len(g), "rndf")]
		} else {
			b := c.policyBit()
			f = 1e-9
			if b == 1 {
				f = 1 - 1e-9
			}
			if c.randPol >= 4 {
				z := (uint64(c.randCount) + 1) * 0x9e3779b97f4a7c15
				z ^= z >> 29
				f = float64(z>>11) / (1 << 53)
			}
			if c.randDev > 0 {
				k := c.Choose(3, "dev")
				if k > 0 {
					c.randDev--
					if k == 1 {
						f = 1 - f
					} else {
						f = 0.5
					}
				}
			}
		}
		return uint64(f*(1<<53)) << 11, true
	case "raw":
		var k uint64
		if enum {
			k = uint64(c.Choose(2, "rndraw"))
		} else {
			k = c.policyBit()
			if c.randDev > 0 && c.Choose(2, "dev") == 1 {
				c.randDev--
				k = 1 - k
			}
		}
		if k == 1 {
			return math.MaxUint64, true
		}
		return 0, true
	}
	return 0, false
}

var current *Ctx

func installHook() {
	f := func(kind string, n uint64) (uint64, bool) {
		if current == nil {
			return 0, false
		}
		return current.resolve(kind, n)
	}
	rand.VerifHook = f
	randv2.VerifHook = f
}

// Catch runs f and returns a description of a panic of the library, or "".
func Catch(f func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			switch r.(type) {
			case Violation, pruned, notMine:
				panic(r)
			}
			if s, ok := r.(string); ok && strings.HasPrefix(s, "engine:") {
				panic(r)
			}
			msg = fmt.Sprintf("%v", r) + " @ " + libFrame()
			if msg == "" {
				msg = "panic"
			}
		}
	}()
	f()
	return ""
}

// libFrame names the innermost frame of the library under test.
func libFrame() string {
	pc := make([]uintptr, 64)
	n := runtime.Callers(2, pc)
	fr := runtime.CallersFrames(pc[:n])
	for {
		f, more := fr.Next()
		if strings.Contains(f.Function, "apache/datasketches-go") {
			name := f.Function
			if i := strings.LastIndex(name, "datasketches-go/"); i >= 0 {
				name = name[i+len("datasketches-go/"):]
			}
			return name
		}
		if !more {
			return "?"
		}
	}
}

// Hash helpers -------------------------------------------------------------

// H64 hashes bytes.
func H64(b []byte) uint64 {
	h := uint64(14695981039346656037)
	for _, x := range b {
		h ^= uint64(x)
		h *= 1099511628211
	}
	h ^= h >> 29
	h *= 0xbf58476d1ce4e5b9
	h ^= h >> 32
	return h
}

// HAny hashes a printable value.
func HAny(a ...any) uint64 { return H64([]byte(fmt.Sprint(a...))) }

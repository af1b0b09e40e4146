package engine

import (
	"fmt"
	"os"
	"regexp"
	"runtime"
	"runtime/debug"
	"strings"
	"sync"
)

// Two-thread executions.
//
// The threads run one after the other, but nothing the race detector (or the Go memory model) knows of orders them:
// the flags below are read and written by functions the detector does not see. The detector therefore reports
// every pair of conflicting accesses, whichever way a real scheduler would have placed them; without such a pair,
// all interleavings are equivalent to the one that ran.

var thread, threadDone int

//go:norace
//go:noinline
func enterThread(i int) { thread, threadDone = i, 0 }

//go:norace
//go:noinline
func leaveThread() { thread, threadDone = 0, 1 }

//go:norace
//go:noinline
func isDone() bool { return threadDone == 1 }

// Thread is the running thread: 0 outside of Threads, then 1, 2, ...
//
//go:norace
//go:noinline
func Thread() int { return thread }

// Threads runs the functions as unordered threads, each with a Ctx of its own, and fails if they race.
func (c *Ctx) Threads(fs ...func(c *Ctx)) {
	if !RaceBuild {
		panic("engine: Threads needs a build with -race")
	}
	kids := make([]*Ctx, len(fs))
	failed := make([]any, len(fs))
	var wg sync.WaitGroup
	wg.Add(len(fs))
	for i := range fs {
		k := &Ctx{Tier: c.Tier, tracing: c.tracing, states: map[uint64]struct{}{}, outcome: map[uint64]struct{}{}, visited: map[uint64]struct{}{}}
		kids[i] = k
		enterThread(i + 1)
		go func() {
			defer wg.Done()
			defer leaveThread()
			defer func() {
				r := recover()
				if r == nil {
					return
				}
				if _, ok := r.(Violation); !ok {
					if s := fmt.Sprintf("%v", r); !strings.HasPrefix(s, "engine:") {
						r = Violation{Sig: "panic:" + libFrame(), Msg: "the library panicked: " + s + "\n" + string(debug.Stack())}
					}
				}
				failed[i] = r
			}()
			fs[i](k)
		}()
		for !isDone() {
			runtime.Gosched()
		}
	}
	wg.Wait()
	for i, k := range kids {
		c.nSteps += k.nSteps
		c.nOracle += k.nOracle
		for _, l := range k.trace {
			c.Logf("thread %d: %s", i+1, l)
		}
	}
	if rep := newRaces(); rep != "" {
		c.Fail("race:"+raceSite(rep), "data race:\n%s", rep)
	}
	for _, r := range failed {
		if r != nil {
			panic(r)
		}
	}
	c.nOracle++
}

var racesSeen, raceLogRead int

// newRaces returns the detector's reports since the last call.
func newRaces() string {
	n := raceErrors()
	if n == racesSeen {
		return ""
	}
	racesSeen = n
	log := ""
	for _, f := range strings.Fields(os.Getenv("GORACE")) {
		if p, ok := strings.CutPrefix(f, "log_path="); ok {
			b, _ := os.ReadFile(fmt.Sprintf("%s.%d", p, os.Getpid()))
			log = string(b[min(raceLogRead, len(b)):])
			raceLogRead = len(b)
		}
	}
	if log == "" {
		log = "(no report)"
	}
	return log
}

var reLibFunc = regexp.MustCompile(`(?m)^  github\.com/apache/datasketches-go/(\S+?)\(\)$`)

func raceSite(rep string) string {
	if m := reLibFunc.FindStringSubmatch(rep); m != nil {
		return strings.ReplaceAll(m[1], "[...]", "")
	}
	return "shared memory"
}

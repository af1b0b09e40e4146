package props

import (
	"fmt"

	"verifmc/engine"
)

// C31: different objects may be used by different goroutines, and objects that never change by several at once.
//
// An execution builds a population as in C30, then lets two threads each run one operation and a full observation.
// The threads are unordered (engine.Threads), so the race detector decides whether any two of their accesses conflict;
// if none do, every interleaving is equivalent to the explored one, whose results must be those of each thread alone.

// ccOp is what one thread does.
type ccOp struct {
	who, arg int
	step     *indStep // nil: observe only
}

func (o ccOp) mutates(f *indFam, pop []*indObj) bool {
	return o.step != nil && o.step.kind < 2 || !f.types[pop[o.who].r.typ].shared
}

// ops lists what a thread may do to object i while other goes on in another thread (other.who < 0: nothing does).
func ccOps(f *indFam, pop []*indObj, i int, other ccOp, otherObj int) []ccOp {
	t := f.types[pop[i].r.typ]
	ops := []ccOp{{i, -1, nil}}
	argOK := func(k int) bool {
		if k == i || pop[k].r.dead {
			return false
		}
		shared := f.types[pop[k].r.typ].shared
		if k == otherObj && !shared || k == other.arg && !shared {
			return false
		}
		return other.who != k || !other.mutates(f, pop)
	}
	used := i == otherObj || other.arg == i // something else reads it: no changes
	for k := range t.acts {
		if !used {
			ops = append(ops, ccOp{i, -1, &indStep{kind: 0, idx: k}})
		}
	}
	for k, tk := range t.takes {
		for j, p := range pop {
			if !used && p.r.typ == tk.from && argOK(j) {
				ops = append(ops, ccOp{i, j, &indStep{kind: 1, idx: k, arg: p.r}})
			}
		}
	}
	for k, dv := range t.ders {
		if dv.with == "" {
			ops = append(ops, ccOp{i, -1, &indStep{kind: 2, idx: k}})
			continue
		}
		for j, p := range pop {
			if p.r.typ == dv.with && argOK(j) {
				ops = append(ops, ccOp{i, j, &indStep{kind: 2, idx: k, arg: p.r}})
			}
		}
	}
	return ops
}

func (o ccOp) String(f *indFam, pop []*indObj) string {
	t := f.types[pop[o.who].r.typ]
	s := "observe"
	if o.step != nil {
		switch o.step.kind {
		case 0:
			s = t.acts[o.step.idx].name
		case 1:
			s = t.takes[o.step.idx].name
		case 2:
			s = t.ders[o.step.idx].name
		}
	}
	s = pop[o.who].name + ": " + s
	if o.arg >= 0 {
		s += " " + pop[o.arg].name
	}
	return s
}

// run performs the operation in world w on object x (with argument arg) and reports everything there is to see.
func (o ccOp) run(w *indWorld, f *indFam, r *indRecipe, x, arg any) string {
	w.c.Step()
	s := ""
	if o.step != nil {
		if o.step.kind == 2 {
			dv := f.types[r.typ].ders[o.step.idx]
			nr := &indRecipe{fam: f, set: r.set, parent: r, with: o.step.arg, der: o.step.idx, typ: dv.to, id: mix(r.id, uint64(r.steps), uint64(o.step.idx), 99), born: true}
			y, l := w.create(nr, x, arg)
			s = l
			if l == "" {
				w.charge(nr)
				s = "derived " + f.types[dv.to].obs(w.c, y)
			}
		} else {
			s = w.apply(r, *o.step, x, arg)
		}
		r = r.then(*o.step)
	}
	w.charge(r)
	return s + "|" + f.types[r.typ].obs(w.c, x)
}

// alone does the same to objects made afresh.
func (o ccOp) alone(c *C, f *indFam, r *indRecipe) string {
	w := &indWorld{c: c}
	c.RandCustom(func(kind string, n uint64) (uint64, bool) { return w.rnd.hook(kind, n) })
	x, _ := w.rebuild(r)
	var arg any
	if o.step != nil && o.step.arg != nil {
		arg, _ = w.rebuild(o.step.arg)
	}
	return o.run(w, f, r, x, arg)
}

func ccCompare(c *C, f *indFam, what, got, want string) {
	if got != want {
		i := 0
		for i < len(got) && i < len(want) && got[i] == want[i] {
			i++
		}
		cut := func(s string) string { return s[max(0, min(i-40, len(s))):min(i+160, len(s))] }
		c.Fail("concurrent:"+f.name, "%s: %s gives a result that differs from its own, at character %d:\n got ...%s...\nwant ...%s...", f.name, what, i, cut(got), cut(want))
	}
	c.Checked()
}

func ccScenario(f *indFam, depth int) engine.Scenario {
	return engine.Scenario{
		Name: f.name,
		Bound: fmt.Sprintf("every population C30 reaches in up to %d steps from %d initial ones; every pair of its objects, and every object that never changes paired with itself; every pair of operations (observations, changes, derivations, merges) by two unordered threads; one execution covers all interleavings when it has no conflicting accesses",
			depth, len(f.sets)),
		ShardDepth: depth + 3,
		Run: func(c *C) {
			w := &indWorld{c: c}
			c.RandCustom(func(kind string, n uint64) (uint64, bool) { return w.rnd.hook(kind, n) })
			set := c.Choose(len(f.sets), "population")
			var pop []*indObj
			for i, rt := range f.sets[set] {
				r := &indRecipe{fam: f, set: set, root: i, typ: rt.typ, id: mix(uint64(i), 77), born: true}
				x, _ := w.create(r, nil, nil)
				pop = append(pop, &indObj{x, r, "", fmt.Sprint("#", i, " ", rt.name)})
			}
			pop, hist := w.grow(f, set, pop, depth, 40)
			type pair struct{ i, j int }
			var pairs []pair
			for i, o := range pop {
				for j := i; j < len(pop); j++ {
					if !o.r.dead && !pop[j].r.dead && (i != j || f.types[o.r.typ].shared) {
						pairs = append(pairs, pair{i, j})
					}
				}
			}
			if len(pairs) == 0 {
				return
			}
			p := pairs[c.Choose(len(pairs), "pair")]
			ops1 := ccOps(f, pop, p.i, ccOp{-1, -1, nil}, p.j)
			o1 := ops1[c.Choose(len(ops1), "thread 1")]
			ops2 := ccOps(f, pop, p.j, o1, p.i)
			if o1.arg == p.j { // thread 1 reads thread 2's object
				ro := ops2[:0]
				for _, o := range ops2 {
					if !o.mutates(f, pop) {
						ro = append(ro, o)
					}
				}
				ops2 = ro
			}
			o2 := ops2[c.Choose(len(ops2), "thread 2")]
			c.Logf("thread 1: %s; thread 2: %s", o1.String(f, pop), o2.String(f, pop))
			ops := []ccOp{o1, o2}
			ws := []*indWorld{w, {}, {}}
			c.RandCustom(func(kind string, n uint64) (uint64, bool) { return ws[engine.Thread()].rnd.hook(kind, n) })
			var got [2]string
			run := func(t int) func(*C) {
				return func(k *C) {
					ws[t+1].c = k
					o := ops[t]
					var arg any
					if o.arg >= 0 {
						arg = pop[o.arg].x
					}
					got[t] = o.run(ws[t+1], f, pop[o.who].r, pop[o.who].x, arg)
				}
			}
			c.Threads(run(0), run(1))
			for t, o := range ops {
				ccCompare(c, f, "thread "+fmt.Sprint(t+1), got[t], o.alone(c, f, pop[o.who].r))
			}
			c.State(mix(hist, engine.HAny(got[0]), engine.HAny(got[1])))
			c.Outcome(mix(uint64(set), uint64(len(ops1)), uint64(len(ops2))))
		},
	}
}

// make is rebuild for a history some derivation of which may be refused.
func (w *indWorld) make(r *indRecipe) (x any, log string, ok bool) {
	if !r.born {
		if x, log, ok = w.make(r.prev); !ok {
			return
		}
		var arg any
		if r.step.arg != nil {
			arg, _ = w.rebuild(r.step.arg)
		}
		return x, log + w.apply(r.prev, r.step, x, arg), true
	}
	var p, o any
	if r.parent != nil {
		if p, log, ok = w.make(r.parent); !ok {
			return
		}
		if r.with != nil {
			o, _ = w.rebuild(r.with)
		}
	}
	x, log = w.create(r, p, o)
	return x, log, log == ""
}

// ccCold: in a process where nothing has run yet, two threads each make and use objects of their own.
func ccCold(f *indFam, depth int) engine.Scenario {
	name := f.name + "-from-the-start"
	return engine.Scenario{
		Name: name,
		Bound: fmt.Sprintf("in a fresh process, two unordered threads each make the same object (every object C30 reaches in up to %d steps from %d initial populations) from nothing and observe it: the first use of anything the package sets up on demand is concurrent",
			depth, len(f.sets)),
		ShardDepth: 2,
		Run: func(c *C) {
			set := c.Choose(len(f.sets), "population")
			// the recipe is chosen without touching the library
			var rs []*indRecipe
			for i, rt := range f.sets[set] {
				rs = append(rs, &indRecipe{fam: f, set: set, root: i, typ: rt.typ, id: mix(uint64(i), 77), born: true})
			}
			r := rs[c.Choose(len(rs), "object")]
			for d := 0; d < depth; d++ {
				t := f.types[r.typ]
				next := []*indRecipe{nil}
				for k := range t.acts {
					next = append(next, r.then(indStep{kind: 0, idx: k}))
				}
				for k, tk := range t.takes {
					for _, o := range rs {
						if o != r && o.typ == tk.from {
							next = append(next, r.then(indStep{kind: 1, idx: k, arg: o}))
						}
					}
				}
				for k, dv := range t.ders {
					n := &indRecipe{fam: f, set: set, parent: r, der: k, typ: dv.to, id: mix(r.id, uint64(r.steps), uint64(k), 99), born: true}
					if dv.with == "" {
						next = append(next, n)
						continue
					}
					for _, o := range rs {
						if o != r && o.typ == dv.with {
							m := *n
							m.with = o
							next = append(next, &m)
						}
					}
				}
				if r = next[c.Choose(len(next), "step")]; r == nil {
					break
				}
			}
			if r == nil {
				return
			}
			if c.Child("C31", name) {
				return
			}
			ws := []*indWorld{{}, {}, {}}
			c.RandCustom(func(kind string, n uint64) (uint64, bool) { return ws[engine.Thread()].rnd.hook(kind, n) })
			var got [2]string
			run := func(t int) func(*C) {
				return func(k *C) {
					w := ws[t+1]
					w.c = k
					x, log, ok := w.make(r)
					if got[t] = log; ok {
						w.charge(r)
						got[t] += "|" + f.types[r.typ].obs(k, x)
					}
				}
			}
			c.Threads(run(0), run(1))
			ccCompare(c, f, "a thread", got[0], got[1])
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C31",
		Assumptions: []string{
			"one object that can change is used by one goroutine at a time; queries of such objects may reorganise them and count as changes",
			"the race detector keeps the last few accesses to each eight bytes; a conflict with an access it has already dropped goes unreported",
		},
		Scenarios: func(tier string) []engine.Scenario {
			fs := indFamilies()
			d := 1
			if tier == "thorough" {
				d = 2
			}
			var r []engine.Scenario
			for _, f := range fs {
				r = append(r, ccScenario(f, d), ccCold(f, d))
			}
			return append(r, ccScenario(indAll(fs), 0))
		},
	})
}

package props

import (
	"encoding/hex"
	"fmt"
	"sort"
	"strings"

	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"

	"verifmc/engine"
)

// C30 (instances are independent).
//
// A population of objects grows by operations on one object, by deriving a new object from one or two others
// (copies, compact forms, results, images, decoded sketches, views) and by merging one object into another.
// In the end every object must look as if its own history had been run alone.

// indAct is an operation on one object; n is the number of earlier steps of that object.
type indAct struct {
	name  string
	final bool // nothing is derived or merged from the object afterwards
	f     func(c *C, x any, n int) error
}

type indTake struct {
	name, from string
	f          func(c *C, x, o any) error
}

// indDer makes a new object (of type to) from x and, if with is set, from a second object o.
type indDer struct {
	name, with, to string
	f              func(c *C, x, o any) (any, error)
}

type indType struct {
	shared bool // never changes: several goroutines may read one
	acts   []indAct
	takes  []indTake
	ders   []indDer
	obs    func(c *C, x any) string
}

type indRoot struct {
	typ, name string
	mk        func(c *C) any
}

type indFam struct {
	name  string
	types map[string]*indType
	sets  [][]indRoot // initial populations
}

func act[T any](name string, f func(c *C, x T, n int) error) indAct {
	return indAct{name, false, func(c *C, x any, n int) error { return f(c, x.(T), n) }}
}

func take[T, U any](name, from string, f func(c *C, x T, o U) error) indTake {
	return indTake{name, from, func(c *C, x, o any) error { return f(c, x.(T), o.(U)) }}
}

func der[T, R any](name, to string, f func(c *C, x T) (R, error)) indDer {
	return indDer{name, "", to, func(c *C, x, _ any) (any, error) {
		r, err := f(c, x.(T))
		return r, err
	}}
}

func der2[T, U, R any](name, with, to string, f func(c *C, x T, o U) (R, error)) indDer {
	return indDer{name, with, to, func(c *C, x, o any) (any, error) {
		r, err := f(c, x.(T), o.(U))
		return r, err
	}}
}

func obs[T any](f func(c *C, x T) string) func(c *C, x any) string {
	return func(c *C, x any) string { return f(c, x.(T)) }
}

// slice objects: something the library handed out and the caller overwrites.
func indSlice[T any](dead T, ders ...indDer) *indType {
	return &indType{
		shared: true,
		acts: []indAct{{"overwrite", true, func(c *C, x any, n int) error {
			s := x.([]T)
			s = s[:cap(s)]
			for i := range s {
				s[i] = dead
			}
			return nil
		}}},
		ders: ders,
		obs: obs(func(c *C, x []T) string {
			if b, ok := any(x).([]byte); ok {
				return hex.EncodeToString(b)
			}
			return fmt.Sprint(x)
		}),
	}
}

type indStep struct {
	kind, idx int // 0 act, 1 take, 2 derive (the object itself goes on)
	arg       *indRecipe
}

// indRecipe says how an object came to be. Recipes are immutable: every step makes a new one.
type indRecipe struct {
	fam        *indFam
	set, root  int
	parent     *indRecipe
	with       *indRecipe
	der        int
	typ        string
	id         uint64 // random stream
	prev       *indRecipe
	step       indStep
	steps      int
	born, dead bool
}

func (r *indRecipe) then(s indStep) *indRecipe {
	n := *r
	n.prev, n.step, n.steps, n.born = r, s, r.steps+1, false
	return &n
}

// indRand gives every object its own stream of random numbers.
type indRand struct{ id, step, k uint64 }

func (q *indRand) hook(kind string, n uint64) (uint64, bool) {
	q.k++
	x := mix(q.id, q.step, q.k)
	switch {
	case kind == "int":
		return x % n, true
	case kind == "float":
		return max(x, 1<<40), true
	}
	return x, true
}

type indWorld struct {
	c    *C
	rnd  indRand
	logf func(string, ...any)
}

func (w *indWorld) charge(r *indRecipe) { w.rnd = indRand{r.id, uint64(r.steps), 0} }

func (w *indWorld) create(r *indRecipe, parent, with any) (any, string) {
	if r.parent == nil {
		w.rnd = indRand{r.id, 1 << 32, 0}
		return r.fam.sets[r.set][r.root].mk(w.c), ""
	}
	w.charge(r.parent)
	x, err := r.fam.types[r.parent.typ].ders[r.der].f(w.c, parent, with)
	return x, errStr(err)
}

func errStr(err error) string {
	if err == nil {
		return ""
	}
	return "[" + err.Error() + "]"
}

// apply runs a step that turns an object of recipe r into one of recipe r.then(s).
func (w *indWorld) apply(r *indRecipe, s indStep, x, arg any) string {
	w.charge(r)
	t := r.fam.types[r.typ]
	switch s.kind {
	case 0:
		return errStr(t.acts[s.idx].f(w.c, x, r.steps))
	case 1:
		return errStr(t.takes[s.idx].f(w.c, x, arg))
	}
	_, err := t.ders[s.idx].f(w.c, x, arg)
	return errStr(err)
}

// rebuild makes the object alone, from fresh copies of everything it depends on.
func (w *indWorld) rebuild(r *indRecipe) (any, string) {
	if r.steps > 0 && r.prev != nil && !r.born {
		x, log := w.rebuild(r.prev)
		var arg any
		if r.step.arg != nil {
			arg, _ = w.rebuild(r.step.arg)
		}
		return x, log + w.apply(r.prev, r.step, x, arg)
	}
	var p, o any
	if r.parent != nil {
		p, _ = w.rebuild(r.parent)
		if r.with != nil {
			o, _ = w.rebuild(r.with)
		}
	}
	return w.create(r, p, o)
}

type indObj struct {
	x    any
	r    *indRecipe
	log  string
	name string
}

// grow takes up to depth steps from the population.
func (w *indWorld) grow(f *indFam, set int, pop []*indObj, depth, maxObj int) ([]*indObj, uint64) {
	c, hist := w.c, mix(uint64(set))
	type move struct {
		who, arg int
		s        indStep
	}
	for d := 0; d < depth; d++ {
		moves := []move{{who: -1}}
		for i, o := range pop {
			if o.r.dead {
				continue
			}
			t := f.types[o.r.typ]
			for k := range t.acts {
				moves = append(moves, move{i, -1, indStep{kind: 0, idx: k}})
			}
			for k, tk := range t.takes {
				for j, p := range pop {
					if i != j && p.r.typ == tk.from && !p.r.dead {
						moves = append(moves, move{i, j, indStep{kind: 1, idx: k}})
					}
				}
			}
			for k, dv := range t.ders {
				if len(pop) >= maxObj {
					break
				}
				if dv.with == "" {
					moves = append(moves, move{i, -1, indStep{kind: 2, idx: k}})
					continue
				}
				for j, p := range pop {
					if i != j && p.r.typ == dv.with && !p.r.dead {
						moves = append(moves, move{i, j, indStep{kind: 2, idx: k}})
					}
				}
			}
		}
		n := c.Choose(len(moves), "step")
		hist = mix(hist, uint64(n))
		m := moves[n]
		if m.who < 0 {
			break
		}
		o := pop[m.who]
		s := m.s
		var arg any
		if m.arg >= 0 {
			s.arg, arg = pop[m.arg].r, pop[m.arg].x
		}
		t := f.types[o.r.typ]
		c.Step()
		switch s.kind {
		case 0, 1:
			nm := ""
			if s.kind == 0 {
				nm = t.acts[s.idx].name
			} else {
				nm = t.takes[s.idx].name + " " + pop[m.arg].name
			}
			l := w.apply(o.r, s, o.x, arg)
			c.Logf("%s: %s %s", o.name, nm, l)
			o.log += l
			o.r = o.r.then(s)
			o.r.dead = s.kind == 0 && t.acts[s.idx].final
		case 2:
			dv := t.ders[s.idx]
			nr := &indRecipe{fam: f, set: set, parent: o.r, with: s.arg, der: s.idx, typ: dv.to, id: mix(o.r.id, uint64(o.r.steps), uint64(s.idx), 99), born: true}
			x, l := w.create(nr, o.x, arg)
			with := ""
			if m.arg >= 0 {
				with = " " + pop[m.arg].name
			}
			c.Logf("#%d = %s of %s%s %s", len(pop), dv.name, o.name, with, l)
			o.log += l
			o.r = o.r.then(s)
			if l == "" {
				pop = append(pop, &indObj{x, nr, "", fmt.Sprintf("#%d %s", len(pop), dv.to)})
			}
		}
	}
	return pop, hist
}

func indScenario(f *indFam, depth, maxObj int) engine.Scenario {
	var ts []string
	for t := range f.types {
		ts = append(ts, t)
	}
	sort.Strings(ts)
	return engine.Scenario{
		Name: f.name,
		Bound: fmt.Sprintf("%d initial populations over the object kinds %s; every sequence of up to %d steps among: each operation on each object, each derivation from each object (pair), each merge of one object into another (up to %d objects)",
			len(f.sets), strings.Join(ts, ", "), depth, maxObj),
		ShardDepth: 2,
		Run: func(c *C) {
			w := &indWorld{c: c}
			c.RandCustom(func(kind string, n uint64) (uint64, bool) { return w.rnd.hook(kind, n) })
			set := c.Choose(len(f.sets), "population")
			var pop []*indObj
			for i, rt := range f.sets[set] {
				r := &indRecipe{fam: f, set: set, root: i, typ: rt.typ, id: mix(uint64(i), 77), born: true}
				x, _ := w.create(r, nil, nil)
				pop = append(pop, &indObj{x, r, "", fmt.Sprint("#", i, " ", rt.name)})
			}
			hist := uint64(0)
			pop, hist = w.grow(f, set, pop, depth, maxObj)
			for _, o := range pop {
				w.charge(o.r)
				got := f.types[o.r.typ].obs(c, o.x)
				y, log := w.rebuild(o.r)
				w.charge(o.r)
				want := f.types[o.r.typ].obs(c, y)
				c.Assert(o.log == log, "independent-errors", "%s: %s reported %q, alone %q", f.name, o.name, o.log, log)
				if got != want {
					i := 0
					for i < len(got) && i < len(want) && got[i] == want[i] {
						i++
					}
					cut := func(s string) string { return s[max(0, min(i-40, len(s))):min(i+160, len(s))] }
					c.Fail("independent:"+f.name+":"+o.r.typ, "%s: %s differs from one made by its own history alone, at character %d:\n got ...%s...\nwant ...%s...", f.name, o.name, i, cut(got), cut(want))
				}
				hist = mix(hist, engine.HAny(got))
				c.Checked()
			}
			c.State(hist)
			c.Outcome(mix(uint64(len(pop)), uint64(set)))
		},
	}
}

// ---- families -------------------------------------------------------------------------------------

func indSkStr(c *C, s theta.Sketch) string {
	l, e1 := s.LowerBound(2)
	u, e2 := s.UpperBound(2)
	return fmt.Sprint(observe(c, s, "sketch"), hashesInOrder(s), s.IsOrdered(), s.Estimate(), l, u, e1, e2, s.IsEstimationMode(), s.String(true))
}

func indTheta() *indFam {
	type upd = *theta.QuickSelectUpdateSketch
	type cmp = *theta.CompactSketch
	type wrp = *theta.WrappedCompactSketch
	more := func(c *C, s upd, from, to int) error {
		for k := from; k < to; k++ {
			_ = s.UpdateInt64(int64(k))
		}
		return nil
	}
	anotb := func(c *C, a, b theta.Sketch) (cmp, error) { return theta.ANotB(a, b, defaultSeed, true) }
	res := func(u *theta.Union, ord bool) (cmp, error) { return u.Result(ord) }
	mkU := func(lgK, lo, hi int) func(c *C) any {
		return func(c *C) any { return thetaSpec{lgK: lgK, p: 1, lo: lo, hi: hi}.build(c, defaultSeed) }
	}
	union := func(c *C) any {
		u, err := theta.NewUnion(theta.WithUnionLgK(5))
		c.NoErr(err, "union")
		c.NoErr(u.Update(thetaSpec{lgK: 5, p: 1, lo: 50, hi: 75}.build(c, defaultSeed)), "union-update")
		return u
	}
	inter := func(c *C) any { return theta.NewIntersection() }
	f := &indFam{name: "theta", types: map[string]*indType{
		"update": {
			acts: []indAct{
				act("add 3", func(c *C, s upd, n int) error { return more(c, s, 5000+10*n, 5003+10*n) }),
				act("add 90", func(c *C, s upd, n int) error { return more(c, s, 200*n, 200*n+90) }),
				act("trim", func(c *C, s upd, n int) error { s.Trim(); return nil }),
				act("reset", func(c *C, s upd, n int) error { s.Reset(); return nil }),
			},
			ders: []indDer{
				der("compact", "compact", func(c *C, s upd) (cmp, error) { return s.Compact(false), nil }),
				der("ordered compact", "compact", func(c *C, s upd) (cmp, error) { return s.Compact(true), nil }),
				der2("difference with", "compact", "compact", func(c *C, s upd, o cmp) (cmp, error) { return anotb(c, s, o) }),
				der2("difference with", "update", "compact", func(c *C, s, o upd) (cmp, error) { return anotb(c, s, o) }),
			},
			obs: obs(func(c *C, s upd) string { return indSkStr(c, s) }),
		},
		"compact": {
			shared: true,
			ders: []indDer{
				der("image", "bytes", func(c *C, s cmp) ([]byte, error) { return encodeTheta(c, s, false), nil }),
				der("compressed image", "bytes", func(c *C, s cmp) ([]byte, error) { return encodeTheta(c, s, true), nil }),
				der2("difference with", "update", "compact", func(c *C, s cmp, o upd) (cmp, error) { return anotb(c, s, o) }),
				der2("difference with", "compact", "compact", func(c *C, s, o cmp) (cmp, error) { return anotb(c, s, o) }),
			},
			obs: obs(func(c *C, s cmp) string {
				return indSkStr(c, s) + hex.EncodeToString(encodeTheta(c, s, false))
			}),
		},
		"bytes": indSlice[byte](0xEE,
			der("decode", "compact", func(c *C, b []byte) (cmp, error) { return theta.Decode(b, defaultSeed) }),
			der("wrap a copy", "wrapped", func(c *C, b []byte) (wrp, error) {
				return theta.WrapCompactSketch(append([]byte{}, b...), defaultSeed)
			})),
		"wrapped": {shared: true, obs: obs(func(c *C, s wrp) string { return indSkStr(c, s) })},
		"union": {
			acts: []indAct{act("reset", func(c *C, u *theta.Union, n int) error { u.Reset(); return nil })},
			takes: []indTake{
				take("merge", "update", func(c *C, u *theta.Union, s upd) error { return u.Update(s) }),
				take("merge", "compact", func(c *C, u *theta.Union, s cmp) error { return u.Update(s) }),
				take("merge", "wrapped", func(c *C, u *theta.Union, s wrp) error { return u.Update(s) }),
			},
			ders: []indDer{
				der("result", "compact", func(c *C, u *theta.Union) (cmp, error) { return res(u, false) }),
				der("ordered result", "compact", func(c *C, u *theta.Union) (cmp, error) { return res(u, true) }),
			},
			obs: obs(func(c *C, u *theta.Union) string {
				r, err := res(u, false)
				c.NoErr(err, "union-result")
				return indSkStr(c, r)
			}),
		},
		"intersection": {
			takes: []indTake{
				take("intersect", "update", func(c *C, u *theta.Intersection, s upd) error { return u.Update(s) }),
				take("intersect", "compact", func(c *C, u *theta.Intersection, s cmp) error { return u.Update(s) }),
				take("intersect", "wrapped", func(c *C, u *theta.Intersection, s wrp) error { return u.Update(s) }),
			},
			ders: []indDer{
				der("result", "compact", func(c *C, u *theta.Intersection) (cmp, error) { return u.Result(false) }),
				der("ordered result", "compact", func(c *C, u *theta.Intersection) (cmp, error) { return u.Result(true) }),
			},
			obs: obs(func(c *C, u *theta.Intersection) string {
				if !u.HasResult() {
					return "none"
				}
				r, err := u.Result(false)
				c.NoErr(err, "intersection-result")
				return indSkStr(c, r)
			}),
		},
	}}
	est, small := indRoot{"update", "estimating", mkU(5, 0, 200)}, indRoot{"update", "exact", mkU(6, 50, 80)}
	cm := func(lo, hi int, ord bool) indRoot {
		return indRoot{"compact", fmt.Sprint("compact ", lo, "-", hi), func(c *C) any { return thetaSpec{lgK: 5, p: 1, lo: lo, hi: hi}.build(c, defaultSeed).Compact(ord) }}
	}
	f.sets = [][]indRoot{
		{est, small},
		{est, {"union", "union", union}},
		{cm(0, 20, false), {"union", "union", union}},
		{cm(0, 200, true), {"intersection", "intersection", inter}, small},
		{cm(0, 1, true), cm(0, 40, false), {"intersection", "intersection", inter}},
	}
	return f
}

func indTuple(f tfam) *indFam {
	type box struct{ topd } // compact
	more := func(s tupd, from, to, n int) error {
		for k := from; k < to; k++ {
			_ = s.update(int64(k), n%5)
		}
		return nil
	}
	str := func(c *C, s topd) string {
		v := s.view(c, "sketch")
		return fmt.Sprint(v.tref, v.s, v.order, s.ordered(), s.str())
	}
	wrap := func(s topd, err error) (box, error) { return box{s}, err }
	mutate := func(s topd) { s.mutate() }
	fam := &indFam{name: "tuple-" + f.nm(), types: map[string]*indType{
		"update": {
			acts: []indAct{
				act("add 3", func(c *C, s tupd, n int) error { return more(s, 5000+10*n, 5003+10*n, n) }),
				act("again", func(c *C, s tupd, n int) error { return more(s, 0, 60, n) }),
				act("add 90", func(c *C, s tupd, n int) error { return more(s, 200*n, 200*n+90, n) }),
				act("trim", func(c *C, s tupd, n int) error { s.trim(); return nil }),
				act("reset", func(c *C, s tupd, n int) error { s.reset(); return nil }),
			},
			ders: []indDer{
				der("compact", "compact", func(c *C, s tupd) (box, error) { return box{s.compact(c, false)}, nil }),
				der("ordered compact", "compact", func(c *C, s tupd) (box, error) { return box{s.compact(c, true)}, nil }),
				der2("difference with", "compact", "compact", func(c *C, s tupd, o box) (box, error) { return wrap(f.aNotB(s, o.topd, defaultSeed, false)) }),
			},
			obs: obs(func(c *C, s tupd) string { return str(c, s) }),
		},
		"compact": {
			shared: true,
			acts:   []indAct{act("change the summaries", func(c *C, s box, n int) error { mutate(s.topd); return nil })},
			ders: []indDer{
				der("image", "bytes", func(c *C, s box) ([]byte, error) { return f.encode(c, s.topd), nil }),
				der2("difference with", "update", "compact", func(c *C, s box, o tupd) (box, error) { return wrap(f.aNotB(s.topd, o, defaultSeed, true)) }),
				der2("difference with", "compact", "compact", func(c *C, s, o box) (box, error) { return wrap(f.aNotB(s.topd, o.topd, defaultSeed, true)) }),
			},
			obs: obs(func(c *C, s box) string { return str(c, s.topd) }),
		},
		"bytes": indSlice[byte](0xEE, der("decode", "compact", func(c *C, b []byte) (box, error) { return wrap(f.decode(b, defaultSeed)) })),
		"union": {
			acts: []indAct{act("reset", func(c *C, u tunion, n int) error { u.reset(); return nil })},
			takes: []indTake{
				take("merge", "update", func(c *C, u tunion, s tupd) error { return u.update(s) }),
				take("merge", "compact", func(c *C, u tunion, s box) error { return u.update(s.topd) }),
			},
			ders: []indDer{
				der("result", "compact", func(c *C, u tunion) (box, error) { return box{u.result(c, false)}, nil }),
				der("ordered result", "compact", func(c *C, u tunion) (box, error) { return box{u.result(c, true)}, nil }),
			},
			obs: obs(func(c *C, u tunion) string { return str(c, u.result(c, false)) }),
		},
		"intersection": {
			takes: []indTake{
				take("intersect", "update", func(c *C, u tinter, s tupd) error { return u.update(s) }),
				take("intersect", "compact", func(c *C, u tinter, s box) error { return u.update(s.topd) }),
			},
			ders: []indDer{
				der("result", "compact", func(c *C, u tinter) (box, error) { return wrap(u.result(false)) }),
				der("ordered result", "compact", func(c *C, u tinter) (box, error) { return wrap(u.result(true)) }),
			},
			obs: obs(func(c *C, u tinter) string {
				if !u.hasResult() {
					return "none"
				}
				r, err := u.result(false)
				c.NoErr(err, "intersection-result")
				return str(c, r)
			}),
		},
	}}
	if f != tfam(famF64) && f != tfam(famI64) {
		t := fam.types["compact"]
		t.ders = append(t.ders, der("filter", "compact", func(c *C, s box) (box, error) {
			return box{f.filter(c, s.topd, func(t tsum) bool { return t[0]%2 == 0 })}, nil
		}))
	}
	up := func(lgK, lo, hi int) indRoot {
		return indRoot{"update", fmt.Sprint("update ", lo, "-", hi), func(c *C) any { return buildTuple(c, f, thetaSpec{lgK: lgK, p: 1, lo: lo, hi: hi}, 1, defaultSeed) }}
	}
	cm := func(lo, hi int, ord bool) indRoot {
		return indRoot{"compact", fmt.Sprint("compact ", lo, "-", hi), func(c *C) any {
			return box{buildTuple(c, f, thetaSpec{lgK: 5, p: 1, lo: lo, hi: hi}, 2, defaultSeed).compact(c, ord)}
		}}
	}
	union := indRoot{"union", "union", func(c *C) any {
		u := f.newUnion(c, 5, 3, 1, defaultSeed)
		c.NoErr(u.update(buildTuple(c, f, thetaSpec{lgK: 5, p: 1, lo: 50, hi: 75}, 3, defaultSeed)), "union-update")
		return u
	}}
	empty := indRoot{"union", "empty union", func(c *C) any { return f.newUnion(c, 5, 3, 1, defaultSeed) }}
	inter := indRoot{"intersection", "intersection", func(c *C) any { return f.newInter(defaultSeed) }}
	fam.sets = [][]indRoot{
		{up(5, 0, 200), up(6, 50, 80)},
		{up(5, 0, 30), union},
		{cm(0, 20, false), empty},
		{cm(0, 200, true), inter, up(6, 0, 30)},
		{cm(0, 1, true), cm(0, 40, false), inter},
	}
	return fam
}

func indHll() *indFam {
	str := func(s hll.HllSketch) string {
		e, e1 := s.GetEstimate()
		p, e2 := s.GetCompositeEstimate()
		b1, e3 := s.ToCompactSlice()
		b2, e4 := s.ToUpdatableSlice()
		return fmt.Sprintf("%v %v %v %v %v %v %v %x %x", s.GetLgConfigK(), s.GetTgtHllType(), e, p, s.IsEmpty(), []error{e1, e2, e3, e4}, fmt.Sprint(s.GetCurMode()), b1, b2)
	}
	feed := func(s interface{ UpdateSlice([]byte) error }, cs []coup) error {
		for _, k := range cs {
			b := append([]byte{}, k.item()...)
			if err := s.UpdateSlice(b); err != nil {
				return err
			}
			for i := range b { // the caller's buffer is used again
				b[i] = 0xEE
			}
		}
		return nil
	}
	few := func(n int) []coup {
		return seqCoups(3, func(i int) uint32 { return uint32(i*5 + n + 100*n) }, func(i int) uint8 { return uint8(2 + 15*i + n%9) })
	}
	many := func(n int) []coup {
		return seqCoups(30, func(i int) uint32 { return uint32(i*3 + 64*n) }, func(i int) uint8 { return uint8(1 + i%4) })
	}
	type sk = hll.HllSketch
	sketch := &indType{
		acts: []indAct{
			act("add 3", func(c *C, s sk, n int) error { return feed(s, few(n)) }),
			act("add 30", func(c *C, s sk, n int) error { return feed(s, many(n)) }),
			act("reset", func(c *C, s sk, n int) error { return s.Reset() }),
		},
		ders: []indDer{
			der("copy", "sketch", func(c *C, s sk) (sk, error) { return s.Copy() }),
			der("compact image", "bytes", func(c *C, s sk) ([]byte, error) { return s.ToCompactSlice() }),
			der("updatable image", "bytes", func(c *C, s sk) ([]byte, error) { return s.ToUpdatableSlice() }),
		},
		obs: obs(func(c *C, s sk) string { return str(s) }),
	}
	union := &indType{
		acts: []indAct{
			act("add 3", func(c *C, u hll.Union, n int) error { return feed(u, few(n)) }),
			act("reset", func(c *C, u hll.Union, n int) error { return u.Reset() }),
		},
		takes: []indTake{take("merge", "sketch", func(c *C, u hll.Union, s sk) error { return u.UpdateSketch(s) })},
		ders: []indDer{
			der("image", "bytes", func(c *C, u hll.Union) ([]byte, error) { return u.ToCompactSlice() }),
		},
		obs: obs(func(c *C, u hll.Union) string {
			r, err := u.GetResult(hll.TgtHllTypeHll8)
			c.NoErr(err, "union-result")
			e, e1 := u.GetEstimate()
			b, e2 := u.ToUpdatableSlice()
			return str(r) + fmt.Sprintf("%v %v %x %v", e, e1, b, e2)
		}),
	}
	for i, t := range hllTypes {
		t := t
		sketch.ders = append(sketch.ders, der("copy as "+hllTypeNames[i], "sketch", func(c *C, s sk) (sk, error) { return s.CopyAs(t) }))
		union.ders = append(union.ders, der("result as "+hllTypeNames[i], "sketch", func(c *C, u hll.Union) (sk, error) { return u.GetResult(t) }))
	}
	f := &indFam{name: "hll", types: map[string]*indType{
		"sketch": sketch,
		"union":  union,
		"bytes": indSlice[byte](0xEE,
			der("decode", "sketch", func(c *C, b []byte) (sk, error) { return hll.NewHllSketchFromSlice(b, true) }),
			der("decode without check", "sketch", func(c *C, b []byte) (sk, error) { return hll.NewHllSketchFromSlice(b, false) }),
			der("decode as union", "union", func(c *C, b []byte) (hll.Union, error) { return hll.NewUnionFromSlice(b) })),
	}}
	un := func(lgMax int, specs ...hspec) indRoot {
		return indRoot{"union", fmt.Sprint("union lgMaxK=", lgMax, specs), func(c *C) any {
			u, err := hll.NewUnion(lgMax)
			c.NoErr(err, "union")
			for _, sp := range specs {
				s, _ := sp.build(c)
				c.NoErr(u.UpdateSketch(s), "union-update")
			}
			return u
		}}
	}
	var specs []hspec
	specs = append(specs, hllSpecs([]int{4}, []int{0, 1, 2}, "array-exceptions")...)
	specs = append(specs, hllSpecs([]int{4}, []int{0, 2}, "list-almost-full")...)
	specs = append(specs, hllSpecs([]int{8}, []int{0, 1}, "set-almost-full")...)
	specs = append(specs, hllSpecs([]int{4}, []int{1}, "empty")...)
	for i, sp := range specs {
		sp := sp
		r := indRoot{"sketch", sp.String(), func(c *C) any { s, _ := sp.build(c); return s }}
		f.sets = append(f.sets, []indRoot{r})
		switch i % 3 {
		case 0:
			f.sets = append(f.sets, []indRoot{r, un(8)})
		case 1:
			f.sets = append(f.sets, []indRoot{r, un(4, specs[1])})
		case 2:
			f.sets = append(f.sets, []indRoot{r, un(5, specs[3])})
		}
	}
	return f
}

func indCpc() *indFam {
	const seed = defaultSeed
	type sk = *cpc.CpcSketch
	type un = *cpc.CpcUnion
	feed := func(s sk, cs []cc) error {
		for _, x := range cs {
			b := append([]byte{}, x.item(seed)...)
			if err := s.UpdateByteSlice(b); err != nil {
				return err
			}
			for i := range b {
				b[i] = 0xEE
			}
		}
		return nil
	}
	f := &indFam{name: "cpc", types: map[string]*indType{
		"sketch": {
			acts: []indAct{
				act("add 2", func(c *C, s sk, n int) error { return feed(s, []cc{{n & 15, 11 + n}, {(n + 5) & 15, 1}}) }),
				act("add 16", func(c *C, s sk, n int) error {
					var cs []cc
					for r := 0; r < 16; r++ {
						cs = append(cs, cc{r, (r + n) % 5})
					}
					return feed(s, cs)
				}),
			},
			ders: []indDer{
				der("copy", "sketch", func(c *C, s sk) (sk, error) { return s.Copy() }),
				der("image", "bytes", func(c *C, s sk) ([]byte, error) { return s.ToCompactSlice() }),
			},
			obs: obs(func(c *C, s sk) string {
				return fmt.Sprintf("%d %v %v %v %x %v", s.GetLgK(), s.GetEstimate(), s.GetLowerBound(2), s.GetUpperBound(1), cpcBytes(c, s, "sketch"), cpcMatrix(c, s, seed, "sketch"))
			}),
		},
		"bytes": indSlice[byte](0xEE,
			der("decode", "sketch", func(c *C, b []byte) (sk, error) { return cpc.NewCpcSketchFromSlice(b, seed) }),
			der("wrap a copy", "wrapper", func(c *C, b []byte) (*cpc.CpcWrapper, error) {
				return cpc.NewCpcWrapperFromBytes(append([]byte{}, b...))
			})),
		"wrapper": {shared: true, obs: obs(func(c *C, w *cpc.CpcWrapper) string {
			return fmt.Sprint(w.GetLgK(), w.GetEstimate(), w.GetLowerBound(1), w.GetUpperBound(3))
		})},
		"matrix": indSlice[uint64](0xEEEE),
		"union": {
			takes: []indTake{take("merge", "sketch", func(c *C, u un, s sk) error { return u.Update(s) })},
			ders: []indDer{
				der("result", "sketch", func(c *C, u un) (sk, error) { return u.GetResult() }),
				der("bit matrix", "matrix", func(c *C, u un) ([]uint64, error) { return u.GetBitMatrix() }),
			},
			obs: obs(func(c *C, u un) string {
				m, err := u.GetBitMatrix()
				r, err2 := u.GetResult()
				c.NoErr(err2, "union-result")
				return fmt.Sprintf("%v %v %x %v", m, err, cpcBytes(c, r, "result"), r.GetEstimate())
			}),
		},
	}}
	base := func(lgK int, kind string, n int) cbase {
		return cbase{fmt.Sprint("independent-", kind, "-", n), lgK, func() []cc { return orderedCoupons(kind, lgK, n) }}
	}
	sk0 := func(b cbase) indRoot {
		return indRoot{"sketch", b.String(), func(c *C) any { s, _ := b.build(c, seed); return s }}
	}
	uni := func(lgK int, bs ...cbase) indRoot {
		return indRoot{"union", fmt.Sprint("union lgK=", lgK, bs), func(c *C) any {
			u, err := cpc.NewCpcUnionSketch(lgK, seed)
			c.NoErr(err, "union")
			for _, b := range bs {
				s, _ := b.build(c, seed)
				c.NoErr(u.Update(s), "union-update")
			}
			return &u
		}}
	}
	empty, sparse, hybrid, pinned, sliding := base(4, "columns", 0), base(4, "columns", 1), base(4, "columns", 5), base(4, "stride", 20), base(4, "columns", 70)
	for _, b := range []cbase{empty, sparse, hybrid, pinned, sliding} {
		f.sets = append(f.sets, []indRoot{sk0(b), uni(4)}, []indRoot{sk0(b), uni(5, sparse)}, []indRoot{sk0(b), uni(4, pinned)})
	}
	return f
}

func indKll[T comparable](t ktype[T]) *indFam {
	type sk = *kll.ItemsSketch[T]
	add := func(s sk, from, to int) error {
		for i := from; i < to; i++ {
			s.Update(t.mk(int64(i * 37 % 101)))
		}
		return nil
	}
	view := func(v *kll.ItemsSketchSortedView[T]) string {
		r := ""
		it := v.Iterator()
		for it.Next() {
			r += fmt.Sprintf(" %#v:%d:%d", it.GetQuantile(), it.GetWeight(), it.GetNaturalRank(true))
		}
		q, err := v.GetQuantile(0.4, true)
		k, err2 := v.GetRank(t.mk(40), false)
		return r + fmt.Sprintf(" q=%#v %v rank=%v %v", q, err, k, err2)
	}
	f := &indFam{name: "kll-" + t.name, types: map[string]*indType{
		"sketch": {
			acts: []indAct{
				act("add 2", func(c *C, s sk, n int) error { return add(s, 7*n, 7*n+2) }),
				act("add 40", func(c *C, s sk, n int) error { return add(s, 50*n, 50*n+40) }),
				act("query", func(c *C, s sk, n int) error { _, err := s.GetQuantile(0.3, n%2 == 0); return err }),
				act("reset", func(c *C, s sk, n int) error { s.Reset(); return nil }),
			},
			takes: []indTake{take("merge", "sketch", func(c *C, s, o sk) error { s.Merge(o); return nil })},
			ders: []indDer{
				der("sorted view", "view", func(c *C, s sk) (*kll.ItemsSketchSortedView[T], error) { return s.GetSortedView() }),
				der("image", "bytes", func(c *C, s sk) ([]byte, error) { return s.ToSlice() }),
				der("items", "items", func(c *C, s sk) ([]T, error) { return s.GetTotalItemsArray(), nil }),
			},
			obs: obs(func(c *C, s sk) string {
				b, err := s.ToSlice()
				r := fmt.Sprintf("%v %v %x %v", s.GetN(), s.GetNumRetained(), b, err)
				if s.IsEmpty() {
					return r
				}
				mn, e1 := s.GetMinItem()
				mx, e2 := s.GetMaxItem()
				v, e3 := s.GetSortedView()
				c.NoErr(e3, "view")
				return r + fmt.Sprintf(" %#v %#v %v %v", mn, mx, e1, e2) + view(v)
			}),
		},
		"view": {shared: true, obs: obs(func(c *C, v *kll.ItemsSketchSortedView[T]) string { return view(v) })},
		"bytes": indSlice[byte](0xEE, der("decode", "sketch", func(c *C, b []byte) (sk, error) {
			return kll.NewKllItemsSketchFromSlice[T](b, t.less, t.serde)
		})),
		"items": indSlice[T](t.mk(-1)),
	}}
	mk := func(k, n, base int) indRoot {
		return indRoot{"sketch", fmt.Sprint("k=", k, " n=", n), func(c *C) any {
			s, err := kll.NewKllItemsSketch[T](uint16(k), 8, t.less, t.serde)
			c.NoErr(err, "new")
			_ = add(s, base, base+n)
			return s
		}}
	}
	f.sets = [][]indRoot{{mk(8, 0, 0), mk(8, 5, 0)}, {mk(8, 7, 3), mk(12, 60, 9)}, {mk(16, 1, 0), mk(8, 200, 5)}}
	return f
}

func indReq() *indFam {
	type sk = *req.Sketch
	add := func(s sk, from, to int) error {
		for i := from; i < to; i++ {
			if err := s.Update(float32(i * 37 % 101)); err != nil {
				return err
			}
		}
		return nil
	}
	type vw struct{ f func() string }
	f := &indFam{name: "req", types: map[string]*indType{
		"sketch": {
			acts: []indAct{
				act("add 2", func(c *C, s sk, n int) error { return add(s, 7*n, 7*n+2) }),
				act("add 90", func(c *C, s sk, n int) error { return add(s, 50*n, 50*n+90) }),
				act("query", func(c *C, s sk, n int) error {
					_, err := s.Quantile(0.3)
					_, err2 := s.Rank(17)
					return fmt.Errorf("%v %v", err, err2)
				}),
				act("reset", func(c *C, s sk, n int) error { s.Reset(); return nil }),
			},
			takes: []indTake{take("merge", "sketch", func(c *C, s, o sk) error { return s.Merge(o) })},
			ders: []indDer{
				der("sorted view", "view", func(c *C, s sk) (vw, error) {
					v, err := s.SortedView()
					return vw{func() string {
						mn, e1 := v.MinItem()
						mx, e2 := v.MaxItem()
						r := fmt.Sprint(v.Quantiles(), v.CumulativeWeights(), v.N(), mn, mx, e1, e2)
						it := v.Iterator()
						for it.Next() {
							x, _ := it.Quantile()
							w, _ := it.Weight()
							r += fmt.Sprint(" ", x, ":", w)
						}
						return r
					}}, err
				}),
				der("items", "items", func(c *C, s sk) ([]req.Item, error) { return s.All(), nil }),
			},
			obs: obs(func(c *C, s sk) string {
				r := fmt.Sprint(s.N(), s.NumRetained(), s.All(), s.IsEstimationMode(), s.String(), s.CompactorDetailString(true))
				if s.IsEmpty() {
					return r
				}
				mn, e1 := s.MinItem()
				mx, e2 := s.MaxItem()
				qs, e3 := s.Quantiles([]float64{0, 0.2, 0.5, 0.9, 1})
				rs, e4 := s.Ranks([]float32{0, 20, 50, 77})
				return r + fmt.Sprint(mn, mx, qs, rs, e1, e2, e3, e4)
			}),
		},
		"view":  {shared: true, obs: obs(func(c *C, v vw) string { return v.f() })},
		"items": indSlice[req.Item](req.Item{Quantile: -9, Weight: 77}),
	}}
	mk := func(k, n, base int, hra bool) indRoot {
		return indRoot{"sketch", fmt.Sprint("k=", k, " n=", n, " hra=", hra), func(c *C) any {
			s := newR(c, k, hra).s
			_ = add(s, base, base+n)
			return s
		}}
	}
	f.sets = [][]indRoot{{mk(4, 0, 0, true), mk(4, 5, 0, true)}, {mk(4, 23, 3, false), mk(6, 90, 9, false)}, {mk(4, 1, 0, true), mk(4, 300, 5, true)}}
	return f
}

func indTd() *indFam {
	type sk = *tdigest.Double
	add := func(s sk, from, to int) error {
		for i := from; i < to; i++ {
			if err := s.Update(float64(i*37%101) / 4); err != nil {
				return err
			}
		}
		return nil
	}
	f := &indFam{name: "tdigest", types: map[string]*indType{
		"sketch": {
			acts: []indAct{
				act("add 2", func(c *C, s sk, n int) error { return add(s, 7*n, 7*n+2) }),
				act("add 200", func(c *C, s sk, n int) error { return add(s, 50*n, 50*n+200) }),
				act("query", func(c *C, s sk, n int) error { _, err := s.Quantile(0.3); return err }),
			},
			takes: []indTake{take("merge", "sketch", func(c *C, s, o sk) error { return s.Merge(o) })},
			ders: []indDer{
				der("image", "bytes", func(c *C, s sk) ([]byte, error) { return tdEncode(c, s, false, true), nil }),
				der("image without buffer", "bytes", func(c *C, s sk) ([]byte, error) { return tdEncode(c, s, true, false), nil }),
			},
			obs: obs(func(c *C, s sk) string {
				b := tdEncode(c, s, false, true)
				r := fmt.Sprintf("%d %x", s.TotalWeight(), b)
				if s.IsEmpty() {
					return r
				}
				mn, e1 := s.MinValue()
				mx, e2 := s.MaxValue()
				for _, v := range []float64{0, 3, 10, 20, 30} {
					x, err := s.Rank(v)
					y, err2 := s.Quantile(v / 30)
					r += fmt.Sprint(" ", x, y, err, err2)
				}
				return r + fmt.Sprint(mn, mx, e1, e2)
			}),
		},
		"bytes": indSlice[byte](0xEE, der("decode", "sketch", func(c *C, b []byte) (sk, error) { return tdigest.DecodeDouble(b) })),
	}}
	mk := func(k, n, base int) indRoot {
		return indRoot{"sketch", fmt.Sprint("k=", k, " n=", n), func(c *C) any {
			s := tdNew(c, k)
			_ = add(s, base, base+n)
			return s
		}}
	}
	f.sets = [][]indRoot{{mk(10, 0, 0), mk(10, 5, 0)}, {mk(10, 40, 3), mk(12, 300, 9)}, {mk(10, 1, 0), mk(20, 700, 5)}}
	return f
}

func indFreq(f *fqFam) *indFam {
	add := func(s fqSk, from, to int) error {
		for i := from; i < to; i++ {
			if err := s.update(i%60, int64(1+i*7%13)); err != nil {
				return err
			}
		}
		return nil
	}
	f.keys(0, 60)
	fam := &indFam{name: "frequencies-" + f.name, types: map[string]*indType{
		"sketch": {
			acts: []indAct{
				act("add 2", func(c *C, s fqSk, n int) error { return add(s, 7*n, 7*n+2) }),
				act("add 40", func(c *C, s fqSk, n int) error { return add(s, 13*n, 13*n+40) }),
				act("reset", func(c *C, s fqSk, n int) error { return s.reset() }),
			},
			takes: []indTake{take("merge", "sketch", func(c *C, s, o fqSk) error { return s.merge(o) })},
			ders:  []indDer{der("image", "bytes", func(c *C, s fqSk) ([]byte, error) { return s.bytes() })},
			obs: obs(func(c *C, s fqSk) string {
				b, err := s.bytes()
				rows, err2 := s.rows(0, false, true)
				sort.Slice(rows, func(i, j int) bool { return fmt.Sprint(rows[i]) < fmt.Sprint(rows[j]) })
				r := fmt.Sprintf("%d %d %d %d %d %x %v %v %v", s.weight(), s.maxErr(), s.active(), s.curCap(), s.maxCap(), b, err, rows, err2)
				for k := 0; k < 60; k += 7 {
					e, l, u, err := s.bounds(k)
					r += fmt.Sprint(" ", e, l, u, err)
				}
				return r
			}),
		},
	}}
	fam.types["bytes"] = indSlice[byte](0xEE, der("decode", "sketch", func(c *C, b []byte) (fqSk, error) {
		s, err := f.mk(3, 3)
		c.NoErr(err, "new")
		return s.decode(b)
	}))
	mk := func(lgMax, lgCur, n int) indRoot {
		return indRoot{"sketch", fmt.Sprint("2^", lgMax, " n=", n), func(c *C) any {
			s, err := f.mk(lgMax, lgCur)
			c.NoErr(err, "new")
			c.NoErr(add(s, 0, n), "update")
			return s
		}}
	}
	fam.sets = [][]indRoot{{mk(3, 3, 0), mk(4, 3, 5)}, {mk(3, 3, 30), mk(5, 3, 20)}, {mk(4, 4, 100), mk(4, 3, 11)}}
	return fam
}

func indCount() *indFam {
	type sk = *count.CountMinSketch
	add := func(s sk, from, to int) error {
		for i := from; i < to; i++ {
			b := []byte{byte(i), 7}
			if err := s.Update(b, int64(i%5)); err != nil {
				return err
			}
			b[0], b[1] = 0xEE, 0xEE
		}
		return nil
	}
	f := &indFam{name: "count-min", types: map[string]*indType{
		"sketch": {
			acts: []indAct{
				act("add 2", func(c *C, s sk, n int) error { return add(s, 7*n, 7*n+2) }),
				act("add 20", func(c *C, s sk, n int) error { return add(s, 13*n, 13*n+20) }),
			},
			takes: []indTake{take("merge", "sketch", func(c *C, s, o sk) error { return s.Merge(o) })},
			ders: []indDer{
				der("image", "bytes", func(c *C, s sk) ([]byte, error) { return cmSer(c, s).raw, nil }),
				der2("deserialize, called on", "bytes", "sketch", func(c *C, s sk, b []byte) (sk, error) { return s.Deserialize(b, int64(defaultSeed)) }),
			},
			obs: obs(func(c *C, s sk) string {
				r := hex.EncodeToString(cmSer(c, s).raw) + fmt.Sprint(s.GetTotalWeight(), s.GetNumHashes(), s.GetNumBuckets())
				for i := 0; i < 50; i += 3 {
					b := []byte{byte(i), 7}
					r += fmt.Sprint(" ", s.GetEstimate(b), s.GetLowerBound(b), s.GetUpperBound(b))
				}
				return r
			}),
		},
		"bytes": indSlice[byte](0xEE, der("decode", "sketch", func(c *C, b []byte) (sk, error) { return cmDecode(c, b, int64(defaultSeed)), nil })),
	}}
	mk := func(n int) indRoot {
		return indRoot{"sketch", fmt.Sprint("n=", n), func(c *C) any {
			s := cmCfg{3, 7, int64(defaultSeed)}.mk(c)
			c.NoErr(add(s, 0, n), "update")
			return s
		}}
	}
	f.sets = [][]indRoot{{mk(0), mk(3)}, {mk(5), mk(40), mk(0)}}
	return f
}

func indBloom() *indFam {
	type sk = filters.BloomFilter
	add := func(s sk, from, to int) error {
		for i := from; i < to; i++ {
			b := []byte{byte(i), 7}
			if err := s.UpdateSlice(b); err != nil {
				return err
			}
			b[0], b[1] = 0xEE, 0xEE
		}
		return nil
	}
	f := &indFam{name: "bloom", types: map[string]*indType{
		"filter": {
			acts: []indAct{
				act("add 2", func(c *C, s sk, n int) error { return add(s, 7*n, 7*n+2) }),
				act("query and add", func(c *C, s sk, n int) error { return fmt.Errorf("%v", s.QueryAndUpdateInt64(int64(n))) }),
				act("invert", func(c *C, s sk, n int) error { return s.Invert() }),
				act("reset", func(c *C, s sk, n int) error { return s.Reset() }),
			},
			takes: []indTake{
				take("union", "filter", func(c *C, s, o sk) error { return s.Union(o) }),
				take("intersect", "filter", func(c *C, s, o sk) error { return s.Intersect(o) }),
			},
			ders: []indDer{der("image", "bytes", func(c *C, s sk) ([]byte, error) { return s.ToCompactSlice() })},
			obs: obs(func(c *C, s sk) string {
				b, err := s.ToCompactSlice()
				return fmt.Sprintf("%x %v %v %v %v", b, err, s.IsEmpty(), s.BitsUsed(), s.QuerySlice([]byte{1, 7}))
			}),
		},
		"bytes": indSlice[byte](0xEE, der("decode", "filter", func(c *C, b []byte) (sk, error) { return filters.NewBloomFilterFromSlice(b) })),
	}}
	mk := func(n int) indRoot {
		return indRoot{"filter", fmt.Sprint("n=", n), func(c *C) any {
			s := bfCfg{130, 3, 9001}.mk(c)
			c.NoErr(add(s, 0, n), "update")
			return s
		}}
	}
	f.sets = [][]indRoot{{mk(0), mk(3)}, {mk(5), mk(20), mk(0)}}
	return f
}

func indReservoir() *indFam {
	type sk = *rsSk
	type un = *rsUn
	str := func(c *C, s sk) string {
		b := ""
		if s.K() >= 2 {
			b = hex.EncodeToString(rsEnc(c, s))
		}
		return fmt.Sprint(s.K(), s.N(), s.NumSamples(), s.Samples(), b)
	}
	add := func(s interface{ Update(int64) error }, n, m int) error {
		for i := 0; i < m; i++ {
			if err := s.Update(int64(1000*(n+1) + i)); err != nil {
				return err
			}
		}
		return nil
	}
	f := &indFam{name: "reservoir", types: map[string]*indType{
		"sketch": {
			acts: []indAct{
				act("add 1", func(c *C, s sk, n int) error { return add(s, n, 1) }),
				act("add 9", func(c *C, s sk, n int) error { return add(s, n, 9) }),
				act("reset", func(c *C, s sk, n int) error { s.Reset(); return nil }),
			},
			ders: []indDer{
				der("copy", "sketch", func(c *C, s sk) (sk, error) { return s.Copy(), nil }),
				der("samples", "items", func(c *C, s sk) ([]int64, error) { return s.Samples(), nil }),
				der("image", "bytes", func(c *C, s sk) ([]byte, error) { return s.ToSlice(rsSerde) }),
			},
			obs: obs(func(c *C, s sk) string { return str(c, s) }),
		},
		"items": indSlice[int64](-77),
		"bytes": indSlice[byte](0xEE, der("decode", "sketch", func(c *C, b []byte) (sk, error) {
			return sampling.NewReservoirItemsSketchFromSlice[int64](b, rsSerde)
		})),
		"union": {
			acts: []indAct{
				act("add 2", func(c *C, u un, n int) error { return add(u, n, 2) }),
				act("add raw", func(c *C, u un, n int) error {
					return u.UpdateFromRaw(3, 4, []int64{int64(n) + 1, int64(n) + 2, int64(n) + 3})
				}),
				act("reset", func(c *C, u un, n int) error { u.Reset(); return nil }),
			},
			takes: []indTake{take("merge", "sketch", func(c *C, u un, s sk) error { return u.UpdateSketch(s) })},
			ders: []indDer{
				der("result", "sketch", func(c *C, u un) (sk, error) {
					s, err := u.Result()
					if s == nil && err == nil {
						err = fmt.Errorf("no result")
					}
					return s, err
				}),
				der("image", "union-bytes", func(c *C, u un) ([]byte, error) { return u.ToSlice(rsSerde) }),
			},
			obs: obs(func(c *C, u un) string {
				s, err := u.Result()
				c.NoErr(err, "union-result")
				r := "none"
				if s != nil {
					r = str(c, s)
				}
				return r + fmt.Sprintf("%d %x", u.MaxK(), rsUnBytes(c, u))
			}),
		},
		"union-bytes": indSlice[byte](0xEE, der("decode", "union", func(c *C, b []byte) (un, error) {
			return sampling.NewReservoirItemsUnionFromSlice[int64](b, rsSerde)
		})),
	}}
	mk := func(k int, n int64) indRoot {
		return indRoot{"sketch", fmt.Sprint("k=", k, " n=", n), func(c *C) any { return rsMake(c, k, n, 10) }}
	}
	uni := func(maxK int, ins ...rsIn) indRoot {
		return indRoot{"union", fmt.Sprint("union maxK=", maxK, ins), func(c *C) any {
			u, err := sampling.NewReservoirItemsUnion[int64](maxK)
			c.NoErr(err, "union")
			for i, x := range ins {
				c.NoErr(u.UpdateSketch(rsMake(c, x.k, x.n, int64(500+100*i))), "union-update")
			}
			return u
		}}
	}
	f.sets = [][]indRoot{
		{mk(4, 0), mk(4, 3)}, {mk(4, 20), uni(4)}, {mk(4, 3), uni(5)}, {mk(6, 6), uni(4, rsIn{k: 4, n: 10})}, {mk(3, 9), uni(8, rsIn{k: 5, n: 3})}, {mk(8, 30), uni(5, rsIn{k: 5, n: 5})},
	}
	return f
}

func indVarOpt() *indFam {
	type sk = *voSk
	type un = *voUn
	add := func(s sk, n, m int) error {
		for i := 0; i < m; i++ {
			if err := s.Update(int64(1000*(n+1)+i), float64(1+(i*7+n)%10)); err != nil {
				return err
			}
		}
		return nil
	}
	str := func(c *C, s sk) string { return voSampleStr(s) + fmt.Sprintf("%d %x", s.R(), voBytes(c, s)) }
	f := &indFam{name: "varopt", types: map[string]*indType{
		"sketch": {
			acts: []indAct{
				act("add 1", func(c *C, s sk, n int) error { return add(s, n, 1) }),
				act("add 9", func(c *C, s sk, n int) error { return add(s, n, 9) }),
				act("reset", func(c *C, s sk, n int) error { s.Reset(); return nil }),
			},
			ders: []indDer{der("image", "bytes", func(c *C, s sk) ([]byte, error) { return voBytes(c, s), nil })},
			obs:  obs(func(c *C, s sk) string { return str(c, s) }),
		},
		"reservoir": {
			acts: []indAct{act("add 3", func(c *C, s *rsSk, n int) error {
				for i := 0; i < 3; i++ {
					_ = s.Update(int64(2000*(n+1) + i))
				}
				return nil
			})},
			obs: obs(func(c *C, s *rsSk) string { return fmt.Sprint(s.K(), s.N(), s.Samples()) }),
		},
		"bytes": indSlice[byte](0xEE, der("decode", "sketch", func(c *C, b []byte) (sk, error) { return sampling.DecodeVarOptItemsSketch[int64](b, voSerde) })),
		"union": {
			acts: []indAct{act("reset", func(c *C, u un, n int) error { u.Reset(); return nil })},
			takes: []indTake{
				take("merge", "sketch", func(c *C, u un, s sk) error { return u.Update(s) }),
				take("merge", "reservoir", func(c *C, u un, s *rsSk) error { return u.UpdateReservoirItemsSketch(s) }),
			},
			ders: []indDer{
				der("result", "sketch", func(c *C, u un) (sk, error) { return u.Result() }),
				der("image", "union-bytes", func(c *C, u un) ([]byte, error) { return []byte(voUnBytes(c, u)), nil }),
			},
			obs: obs(func(c *C, u un) string {
				s, err := u.Result()
				c.NoErr(err, "union-result")
				return str(c, s) + fmt.Sprintf(" %x", voUnBytes(c, u))
			}),
		},
		"union-bytes": indSlice[byte](0xEE, der("decode", "union", func(c *C, b []byte) (un, error) { return sampling.DecodeVarOptItemsUnion[int64](b, voSerde) })),
	}}
	mk := func(x voIn) indRoot {
		if x.res {
			return indRoot{"reservoir", x.String(), func(c *C) any { return rsMake(c, x.k, x.n, 10) }}
		}
		return indRoot{"sketch", x.String(), func(c *C) any { return voMake(c, x, 10) }}
	}
	uni := func(maxK int, ins ...voIn) indRoot {
		return indRoot{"union", fmt.Sprint("union maxK=", maxK, ins), func(c *C) any {
			u := voUnNew(c, maxK)
			for i, x := range ins {
				voFeed(c, u, x, int64(500+100*i))
			}
			return u
		}}
	}
	exact, est, big, res := voIn{k: 4, h: []float64{1, 5, 2}}, voIn{k: 4, h: []float64{50}, r: 3, tot: 12, n: 9}, voIn{k: 6, h: []float64{30, 40}, r: 4, tot: 8, n: 12}, voIn{k: 4, n: 9, res: true}
	f.sets = [][]indRoot{
		{mk(exact), mk(est)}, {mk(exact), uni(4)}, {mk(est), uni(6)}, {mk(big), uni(4, est)}, {mk(res), uni(5)}, {mk(res), mk(est), uni(5, big)}, {mk(est), uni(4, exact)},
	}
	return f
}

// indAll puts one population of every family together (package-level state shared between families).
func indAll(fs []*indFam) *indFam {
	all := &indFam{name: "all-families", types: map[string]*indType{}}
	for _, f := range fs {
		for n, t := range f.types {
			u := &indType{shared: t.shared, acts: t.acts, obs: t.obs}
			for _, x := range t.takes {
				x.from = f.name + "/" + x.from
				u.takes = append(u.takes, x)
			}
			for _, x := range t.ders {
				if x.with != "" {
					x.with = f.name + "/" + x.with
				}
				x.to = f.name + "/" + x.to
				u.ders = append(u.ders, x)
			}
			all.types[f.name+"/"+n] = u
		}
	}
	var set []indRoot
	for _, f := range fs {
		s := f.sets[len(f.sets)/2]
		for _, r := range s[:min(2, len(s))] {
			r.typ, r.name = f.name+"/"+r.typ, f.name+" "+r.name
			set = append(set, r)
		}
	}
	all.sets = [][]indRoot{set}
	return all
}

func indFamilies() []*indFam {
	fq := fqFamilies()
	return []*indFam{indTheta(), indTuple(famPtr), indTuple(famF64), indHll(), indCpc(), indKll(kInt), indKll(kStr), indReq(), indTd(),
		indFreq(fq[0]), indFreq(fq[2]), indCount(), indBloom(), indReservoir(), indVarOpt()}
}

func init() {
	engine.Register(engine.Property{
		ID: "C30",
		Assumptions: []string{
			"objects documented as views keep the caller's bytes (wrapped theta sketches, CPC wrappers): they wrap private copies here",
			"UpdateFromRaw and inline string summaries keep the slice they are given, as documented",
			"a sketch is not merged into itself",
			"each object is used by one goroutine at a time; C31 covers several",
		},
		Scenarios: func(tier string) []engine.Scenario {
			fs := indFamilies()
			d := 3
			if tier == "thorough" {
				d = 4
			}
			var r []engine.Scenario
			for _, f := range fs {
				r = append(r, indScenario(f, d, 6))
			}
			return append(r, indScenario(indAll(fs), d-1, 40))
		},
	})
}

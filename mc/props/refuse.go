package props

import (
	"fmt"
	"math"

	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/req"
	"github.com/apache/datasketches-go/sampling"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"github.com/apache/datasketches-go/tuple"

	"verifmc/engine"
)

// C36 (a refused operation changes nothing).
//
// The populations of C30 take their steps, and before, between and after the steps an operation that has to be
// refused or ignored is tried. Every object must look as if its own history, without those, had been run alone.

type rfOp struct {
	name string
	must bool // an error is due
	warm bool // a query: tried only right after a proper query, which may build caches
	f    func(c *C, x any) error
}

func refused[T any](name string, f func(c *C, x T) error) rfOp {
	return rfOp{name, true, false, func(c *C, x any) error { return f(c, x.(T)) }}
}

func ignored[T any](name string, f func(c *C, x T) error) rfOp {
	return rfOp{name, false, false, func(c *C, x any) error { return f(c, x.(T)) }}
}

func badQuery[T any](name string, f func(c *C, x T) error) rfOp {
	return rfOp{name, true, true, func(c *C, x any) error { return f(c, x.(T)) }}
}

const rfSeed = 123

// rfUnchanged runs f and fails if it changed what was handed to it.
func rfUnchanged(c *C, what string, obs func() string, f func() error) error {
	before := obs()
	err := f()
	c.Assert(obs() == before, "refused-argument", "%s changed its argument", what)
	return err
}

func rfTheta() map[string][]rfOp {
	type upd = *theta.QuickSelectUpdateSketch
	foreign := func(c *C, kind int) theta.Sketch {
		switch kind {
		case 0:
			return thetaSpec{lgK: 5, p: 1, lo: 10, hi: 20}.build(c, rfSeed)
		case 1:
			return thetaSpec{lgK: 5, p: 1, lo: 10, hi: 300}.build(c, rfSeed).Compact(true)
		}
		return thetaSpec{lgK: 5, p: 0.01, lo: 10, hi: 11}.build(c, rfSeed).Compact(false)
	}
	m := map[string][]rfOp{}
	for k, what := range []string{"an exact sketch", "an estimating sketch", "a sampled sketch without entries"} {
		m["union"] = append(m["union"], refused("merge "+what+" of another seed", func(c *C, u *theta.Union) error {
			s := foreign(c, k)
			return rfUnchanged(c, "theta union", func() string { return indSkStr(c, s) }, func() error { return u.Update(s) })
		}))
		m["intersection"] = append(m["intersection"], ignored("intersect "+what+" of another seed", func(c *C, u *theta.Intersection) error {
			had := u.HasResult()
			err := u.Update(foreign(c, k))
			c.Assert(err != nil || had, "refused-error", "theta: the first sketch of an intersection is accepted with another seed")
			return err
		}))
	}
	m["intersection"] = append(m["intersection"], ignored("result before any input", func(c *C, u *theta.Intersection) error {
		if u.HasResult() {
			return nil
		}
		_, err := u.Result(true)
		c.Assert(err != nil, "refused-error", "theta: an intersection of nothing has a result")
		return err
	}))
	m["update"] = []rfOp{
		refused("update an empty string", func(c *C, s upd) error { return s.UpdateString("") }),
		ignored("difference with another seed", func(c *C, s upd) error { _, err := theta.ANotB(s, foreign(c, 0), defaultSeed, true); return err }),
		ignored("difference from another seed", func(c *C, s upd) error { _, err := theta.ANotB(foreign(c, 1), s, defaultSeed, true); return err }),
	}
	return m
}

func rfTuple(f tfam) map[string][]rfOp {
	foreign := func(c *C, n int) topd {
		s := f.newUpd(c, 5, 3, 1, rfSeed)
		for k := 0; k < n; k++ {
			_ = s.update(int64(k), k%5)
		}
		return s
	}
	m := map[string][]rfOp{}
	for _, n := range []int{10, 300} {
		m["union"] = append(m["union"], refused(fmt.Sprintf("merge %d keys of another seed", n), func(c *C, u tunion) error {
			s := foreign(c, n)
			return rfUnchanged(c, f.nm()+" union", func() string { return fmt.Sprint(s.view(c, "foreign").tref) }, func() error { return u.update(s) })
		}))
		m["intersection"] = append(m["intersection"], ignored(fmt.Sprintf("intersect %d keys of another seed", n), func(c *C, u tinter) error {
			had := u.hasResult()
			err := u.update(foreign(c, n))
			c.Assert(err != nil || had, "refused-error", "%s: the first sketch of an intersection is accepted with another seed", f.nm())
			return err
		}))
	}
	if f == tfam(famF64) {
		wide := func(c *C) topd {
			s, err := tuple.NewArrayOfNumbersUpdateSketch[float64](4, tuple.WithUpdateSketchLgK(5))
			c.NoErr(err, "new")
			for k := int64(0); k < 90; k++ {
				_ = s.UpdateInt64(k, []float64{1, 2, 3, 4})
			}
			return aonSk[float64]{famF64, s}
		}
		m["union"] = append(m["union"], refused("merge arrays of another length", func(c *C, u tunion) error { return u.update(wide(c)) }))
		m["intersection"] = append(m["intersection"], ignored("intersect arrays of another length", func(c *C, u tinter) error {
			had := u.hasResult()
			err := u.update(wide(c))
			c.Assert(err != nil || had, "refused-error", "%s: the first sketch of an intersection is accepted with arrays of another length", f.nm())
			return err
		}))
	}
	m["intersection"] = append(m["intersection"], ignored("result before any input", func(c *C, u tinter) error {
		if u.hasResult() {
			return nil
		}
		_, err := u.result(true)
		c.Assert(err != nil, "refused-error", "%s: an intersection of nothing has a result", f.nm())
		return err
	}))
	m["update"] = []rfOp{
		refused("update an empty string", func(c *C, s tupd) error { return s.typed("", 3) }),
		ignored("difference with another seed", func(c *C, s tupd) error { _, err := f.aNotB(s, foreign(c, 10), defaultSeed, true); return err }),
	}
	return m
}

func rfFamily(f *indFam) map[string][]rfOp {
	switch f.name {
	case "theta":
		return rfTheta()
	case "tuple-" + famPtr.nm():
		return rfTuple(famPtr)
	case "tuple-" + famF64.nm():
		return rfTuple(famF64)
	case "hll":
		return map[string][]rfOp{
			"sketch": {
				ignored("update an empty string", func(c *C, s hll.HllSketch) error { return s.UpdateString("") }),
				ignored("update an empty slice", func(c *C, s hll.HllSketch) error { return s.UpdateSlice(nil) }),
				refused("bound at 0 deviations", func(c *C, s hll.HllSketch) error { _, err := s.GetUpperBound(0); return err }),
				refused("bound at 4 deviations", func(c *C, s hll.HllSketch) error { _, err := s.GetLowerBound(4); return err }),
			},
			"union": {
				ignored("update an empty string", func(c *C, s hll.Union) error { return s.UpdateString("") }),
				ignored("update an empty slice", func(c *C, s hll.Union) error { return s.UpdateSlice([]byte{}) }),
				refused("bound at 4 deviations", func(c *C, s hll.Union) error { _, err := s.GetUpperBound(4); return err }),
			},
		}
	case "cpc":
		m := map[string][]rfOp{"sketch": {ignored("update an empty string", func(c *C, s *cpc.CpcSketch) error { return s.UpdateString("") })}}
		for _, x := range [][2]int{{4, 3}, {4, 200}, {9, 700}, {5, 0}} {
			m["union"] = append(m["union"], refused(fmt.Sprintf("merge %d items at lgK=%d of another seed", x[1], x[0]), func(c *C, u *cpc.CpcUnion) error {
				s, err := cpc.NewCpcSketch(x[0], rfSeed)
				c.NoErr(err, "new")
				for i := 0; i < x[1]; i++ {
					c.NoErr(s.UpdateInt64(int64(i)), "update")
				}
				return u.Update(s)
			}))
		}
		return m
	case "kll-" + kInt.name:
		return rfKll(kInt)
	case "kll-" + kStr.name:
		return rfKll(kStr)
	case "req":
		var ops []rfOp
		{
			for _, hra := range []bool{false, true} {
				for _, n := range []int{3, 200} {
					ops = append(ops, ignored(fmt.Sprintf("merge %d items with high-rank accuracy %v", n, hra), func(c *C, s *req.Sketch) error {
						if s.IsHighRankAccuracyMode() == hra {
							return nil // not an invalid merge: left out
						}
						o := newR(c, 6, hra).s
						for i := 0; i < n; i++ {
							c.NoErr(o.Update(float32(i+1000)), "update")
						}
						err := s.Merge(o)
						c.Assert(err != nil, "refused-error", "REQ: a sketch of the other accuracy setting is merged")
						return err
					}))
				}
			}
		}
		nan := float32(math.NaN())
		return map[string][]rfOp{"sketch": append(ops,
			ignored("update NaN", func(c *C, s *req.Sketch) error { return s.Update(nan) }),
			badQuery("quantile of rank 2", func(c *C, s *req.Sketch) error { _, err := s.Quantile(2); return err }),
			badQuery("quantile of rank NaN", func(c *C, s *req.Sketch) error { _, err := s.Quantile(math.NaN()); return err }),
			badQuery("rank of NaN", func(c *C, s *req.Sketch) error { _, err := s.Rank(nan); return err }),
			badQuery("masses of unordered split points", func(c *C, s *req.Sketch) error { _, err := s.PMF([]float32{9, 3}); return err }),
		)}
	case "tdigest":
		type sk = *tdigest.Double
		return map[string][]rfOp{"sketch": {
			refused("update NaN", func(c *C, s sk) error { return s.Update(math.NaN()) }),
			refused("update +Inf", func(c *C, s sk) error { return s.Update(math.Inf(1)) }),
			refused("update -Inf", func(c *C, s sk) error { return s.Update(math.Inf(-1)) }),
			ignored("merge an empty digest", func(c *C, s sk) error { return s.Merge(tdNew(c, 50)) }),
			badQuery("quantile of rank 2", func(c *C, s sk) error { _, err := s.Quantile(2); return err }),
			badQuery("rank of NaN", func(c *C, s sk) error { _, err := s.Rank(math.NaN()); return err }),
			badQuery("masses of unordered split points", func(c *C, s sk) error { _, err := s.PMF([]float64{9, 3}); return err }),
		}}
	case "count-min":
		var ops []rfOp
		for _, g := range []cmCfg{{2, 7, int64(defaultSeed)}, {3, 8, int64(defaultSeed)}, {3, 7, rfSeed}, {7, 3, int64(defaultSeed)}} {
			ops = append(ops, refused(fmt.Sprintf("merge %+v", g), func(c *C, s *count.CountMinSketch) error {
				o := g.mk(c)
				c.NoErr(o.UpdateUint64(5, 9), "update")
				return s.Merge(o)
			}))
		}
		return map[string][]rfOp{"sketch": append(ops,
			refused("deserialize with another seed", func(c *C, s *count.CountMinSketch) error {
				o := cmCfg{3, 7, int64(defaultSeed)}.mk(c)
				c.NoErr(o.UpdateUint64(5, 9), "update")
				_, err := s.Deserialize(cmSer(c, o).raw, rfSeed)
				return err
			}),
			refused("deserialize a cut image", func(c *C, s *count.CountMinSketch) error {
				o := cmCfg{3, 7, int64(defaultSeed)}.mk(c)
				c.NoErr(o.UpdateUint64(5, 9), "update")
				b := cmSer(c, o).raw
				_, err := s.Deserialize(b[:len(b)-8], int64(defaultSeed))
				return err
			}),
			refused("merge into itself", func(c *C, s *count.CountMinSketch) error { return s.Merge(s) }),
			ignored("update an empty string", func(c *C, s *count.CountMinSketch) error { return s.UpdateString("", 7) }),
			ignored("update an empty slice", func(c *C, s *count.CountMinSketch) error { return s.Update(nil, 7) }))}
	case "bloom":
		type sk = filters.BloomFilter
		var ops []rfOp
		for _, g := range []bfCfg{{194, 3, 9001}, {130, 4, 9001}, {130, 3, 9002}} {
			mk := func(c *C) sk {
				o := g.mk(c)
				for i := 0; i < 9; i++ {
					c.NoErr(o.UpdateInt64(int64(i)), "update")
				}
				return o
			}
			ops = append(ops, refused(fmt.Sprintf("union with %+v", g), func(c *C, s sk) error { return s.Union(mk(c)) }),
				refused(fmt.Sprintf("intersect with %+v", g), func(c *C, s sk) error { return s.Intersect(mk(c)) }))
		}
		return map[string][]rfOp{"filter": append(ops,
			ignored("update an empty string", func(c *C, s sk) error { return s.UpdateString("") }),
			ignored("query and update an empty string", func(c *C, s sk) error { s.QueryAndUpdateString(""); return nil }))}
	case "reservoir":
		const most = 1<<48 - 1
		full := func(name string, n int64, mk func(c *C) *rsSk) rfOp {
			return ignored("merge "+name+" into a union it does not fit", func(c *C, u *rsUn) error {
				if r, err := u.Result(); err != nil || r == nil || r.N()+n <= most {
					return nil // to be accepted: left out
				}
				err := u.UpdateSketch(mk(c))
				c.Assert(err != nil, "refused-error", "reservoir: a union has seen more than %d items", int64(most))
				return err
			})
		}
		return map[string][]rfOp{"sketch": {
			ignored("update when full", func(c *C, s *rsSk) error {
				if s.N() < most {
					return nil
				}
				err := s.Update(-5)
				c.Assert(err != nil, "refused-error", "reservoir: a sketch has seen more than %d items", int64(most))
				return err
			}),
		}, "union": {
			full("three items", 3, func(c *C) *rsSk { return rsMake(c, 4, 3, 9000) }),
			full("many items", most, func(c *C) *rsSk { return rsMake(c, 3, most, 9000) }),
			full("many items of a larger sample", most-3, func(c *C) *rsSk { return rsMake(c, 12, most-3, 9000) }),
			ignored("merge nothing", func(c *C, u *rsUn) error { return u.UpdateSketch(nil) }),
			refused("merge raw with k=1", func(c *C, u *rsUn) error { return u.UpdateFromRaw(5, 1, []int64{9}) }),
			refused("merge raw with more items than k", func(c *C, u *rsUn) error { return u.UpdateFromRaw(5, 2, []int64{9, 8, 7}) }),
			refused("merge raw with too few items", func(c *C, u *rsUn) error { return u.UpdateFromRaw(50, 8, []int64{9, 8, 7}) }),
		}}
	case "varopt":
		var ops []rfOp
		for _, w := range []float64{0, -1, math.NaN(), math.Inf(1), math.Inf(-1)} {
			ops = append(ops, refused(fmt.Sprintf("update with weight %v", w), func(c *C, s *voSk) error { return s.Update(-5, w) }))
		}
		return map[string][]rfOp{"sketch": ops, "union": {
			ignored("merge nothing", func(c *C, u *voUn) error { return u.Update(nil) }),
			ignored("merge an empty sketch", func(c *C, u *voUn) error { return u.Update(voNew(c, 3, 3)) }),
		}}
	}
	for _, g := range fqFamilies() {
		if f.name == "frequencies-"+g.name {
			return map[string][]rfOp{"sketch": {
				refused("update a held item a negative number of times", func(c *C, s fqSk) error { return s.update(2, -1) }),
				refused("update a new item a negative number of times", func(c *C, s fqSk) error { return s.update(59, math.MinInt64) }),
				ignored("update an item no times", func(c *C, s fqSk) error { return s.update(58, 0) }),
			}}
		}
	}
	panic("no operations for " + f.name)
}

func rfKll[T comparable](t ktype[T]) map[string][]rfOp {
	type sk = *kll.ItemsSketch[T]
	return map[string][]rfOp{"sketch": {
		badQuery("quantile of rank 2", func(c *C, s sk) error { _, err := s.GetQuantile(2, true); return err }),
		badQuery("quantile of rank -0.1", func(c *C, s sk) error { _, err := s.GetQuantile(-0.1, false); return err }),
		badQuery("quantiles, one of rank 2", func(c *C, s sk) error { _, err := s.GetQuantiles([]float64{0.5, 2}, true); return err }),
		badQuery("masses of unordered split points", func(c *C, s sk) error {
			_, err := s.GetPMF([]T{t.mk(9), t.mk(3)}, true)
			return err
		}),
		badQuery("masses of equal split points", func(c *C, s sk) error {
			_, err := s.GetCDF([]T{t.mk(3), t.mk(3)}, true)
			return err
		}),
	}}
}

func rfScenario(f *indFam, name string, depth, tries int) engine.Scenario {
	if f.name == "reservoir" { // objects that have seen all but as many items as they can
		g := *f
		g.sets = append([][]indRoot{}, f.sets...)
		for _, n := range []int64{1<<48 - 1, 1<<48 - 3} {
			g.sets = append(g.sets, []indRoot{
				{"sketch", fmt.Sprint("k=4 n=", n), func(c *C) any { return rsMake(c, 4, n, 10) }},
				{"union", fmt.Sprint("union n=", n), func(c *C) any {
					u, err := sampling.NewReservoirItemsUnion[int64](5)
					c.NoErr(err, "union")
					c.NoErr(u.UpdateSketch(rsMake(c, 4, n, 500)), "union-update")
					return u
				}},
			})
		}
		f = &g
	}
	if f.name == "cpc" { // unions that a sketch of another seed could reduce
		g := *f
		g.sets = append([][]indRoot{}, f.sets...)
		for _, n := range []int{0, 5, 900} {
			g.sets = append(g.sets, []indRoot{
				{"sketch", "lgK=5", func(c *C) any {
					s, err := cpc.NewCpcSketch(5, defaultSeed)
					c.NoErr(err, "new")
					for i := 0; i < 40; i++ {
						c.NoErr(s.UpdateInt64(int64(i)), "update")
					}
					return s
				}},
				{"union", fmt.Sprint("lgK=8 n=", n), func(c *C) any {
					u, err := cpc.NewCpcUnionSketch(8, defaultSeed)
					c.NoErr(err, "union")
					s, err := cpc.NewCpcSketch(8, defaultSeed)
					c.NoErr(err, "new")
					for i := 0; i < n; i++ {
						c.NoErr(s.UpdateInt64(int64(i)), "update")
					}
					c.NoErr(u.Update(s), "union-update")
					return &u
				}},
			})
		}
		f = &g
	}
	ops := rfFamily(f)
	n := 0
	for _, x := range ops {
		n += len(x)
	}
	return engine.Scenario{
		Name: f.name + name,
		Bound: fmt.Sprintf("%d initial populations; every sequence of up to %d operations, derivations and merges, before, between or after which one object is given one of %d operations that are to be refused or ignored, at up to %d points",
			len(f.sets), depth, n, tries),
		ShardDepth: 2,
		Run: func(c *C) {
			w := &indWorld{c: c}
			c.RandCustom(func(kind string, n uint64) (uint64, bool) { return w.rnd.hook(kind, n) })
			set := c.Choose(len(f.sets), "population")
			var pop []*indObj
			for i, rt := range f.sets[set] {
				r := &indRecipe{fam: f, set: set, root: i, typ: rt.typ, id: mix(uint64(i), 77), born: true}
				x, _ := w.create(r, nil, nil)
				pop = append(pop, &indObj{x, r, "", fmt.Sprint("#", i, " ", rt.name)})
			}
			hist, tried := uint64(0), 0
			try := func(last bool) {
				type pick struct {
					o  *indObj
					op rfOp
				}
				var ps []pick
				for _, o := range pop {
					if o.r.dead {
						continue
					}
					warm := o.r.prev != nil && !o.r.born && o.r.step.kind == 0 && f.types[o.r.typ].acts[o.r.step.idx].name == "query"
					for _, op := range ops[o.r.typ] {
						if !op.warm || warm {
							ps = append(ps, pick{o, op})
						}
					}
				}
				if tried == tries {
					return
				}
				n := 0
				if last && tried == 0 { // otherwise nothing would be tested
					if len(ps) == 0 {
						return
					}
					n = 1 + c.Choose(len(ps), "refused operation")
				} else {
					n = c.Choose(len(ps)+1, "refused operation")
				}
				hist = mix(hist, uint64(n))
				if n == 0 {
					return
				}
				tried++
				p := ps[n-1]
				w.rnd = indRand{424242, uint64(tried), 0}
				var err error
				pan := engine.Catch(func() { err = p.op.f(c, p.o.x) })
				c.Assert(pan == "", "refused-panic:"+f.name, "%s: %s: %s: panic %s", f.name, p.o.name, p.op.name, pan)
				c.Assert(err != nil || !p.op.must, "refused-error", "%s: %s: %s is not refused", f.name, p.o.name, p.op.name)
				c.Logf("%s: %s %s", p.o.name, p.op.name, errStr(err))
				c.Step()
			}
			for d := 0; d < depth; d++ {
				try(false)
				h := uint64(0)
				pop, h = w.grow(f, set, pop, 1, 6)
				hist = mix(hist, h)
			}
			try(true)
			if tried == 0 {
				return
			}
			for _, o := range pop {
				w.charge(o.r)
				got := f.types[o.r.typ].obs(c, o.x)
				y, log := w.rebuild(o.r)
				w.charge(o.r)
				want := f.types[o.r.typ].obs(c, y)
				c.Assert(o.log == log, "refused-errors", "%s: %s reported %q, without the refused operations %q", f.name, o.name, o.log, log)
				if got != want {
					i := 0
					for i < len(got) && i < len(want) && got[i] == want[i] {
						i++
					}
					cut := func(s string) string { return s[max(0, min(i-40, len(s))):min(i+160, len(s))] }
					c.Fail("refused:"+f.name+":"+o.r.typ, "%s: %s differs from one without the refused operations, at character %d:\n got ...%s...\nwant ...%s...", f.name, o.name, i, cut(got), cut(want))
				}
				hist = mix(hist, engine.HAny(got))
				c.Checked()
			}
			c.State(hist)
			c.Outcome(mix(uint64(len(pop)), uint64(set)))
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C36",
		Assumptions: []string{
			"whether an operation is to be refused with an error or ignored follows the library's documentation (HLL, CPC, Bloom and count-min ignore empty strings)",
			"caches built by a proper query beforehand are not changes; refused quantile queries are tried right after a proper query",
		},
		Scenarios: func(tier string) []engine.Scenario {
			d := 0
			if tier == "thorough" {
				d = 1
			}
			var r []engine.Scenario
			for _, f := range indFamilies() {
				r = append(r, rfScenario(f, "", 2+d, 1), rfScenario(f, "-twice", 1+d, 2))
			}
			return r
		},
	})
}

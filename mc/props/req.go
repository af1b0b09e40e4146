package props

import (
	"fmt"
	"math"
	"sort"

	"github.com/apache/datasketches-go/req"
	"verifmc/engine"
)

// robj is a REQ sketch together with everything that went into it.
type robj struct {
	s        *req.Sketch
	k, kmin  int
	hra      bool
	n        int64
	in       map[float32]int64
	min, max float32
	exact    bool
	plain    bool // a single stream
	maxRet   int
}

func newR(c *C, k int, hra bool) *robj {
	s, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
	c.NoErr(err, "new")
	return &robj{s: s, k: k, kmin: k, hra: hra, in: map[float32]int64{}, exact: true, plain: true}
}

func (o *robj) upd(c *C, x float32) {
	c.NoErr(o.s.Update(x), "update")
	c.Step()
	if x != x {
		return
	}
	if o.n == 0 || x < o.min {
		o.min = x
	}
	if o.n == 0 || x > o.max {
		o.max = x
	}
	o.n++
	o.in[x]++
	if o.n >= int64(6*o.k) {
		o.exact = false
	}
}

func (o *robj) merge(c *C, p *robj) {
	before := p.fingerprint()
	c.NoErr(o.s.Merge(p.s), "merge")
	c.Step()
	if p.n > 0 {
		if o.n == 0 || p.min < o.min {
			o.min = p.min
		}
		if o.n == 0 || p.max > o.max {
			o.max = p.max
		}
		o.plain = false
		if o.n > 0 || p.kmin < o.kmin {
			o.kmin = min(o.kmin, p.kmin)
		}
	}
	o.n += p.n
	for v, k := range p.in {
		o.in[v] += k
	}
	o.exact = o.exact && p.exact && o.n < int64(6*o.k)
	if p != o {
		c.Assert(p.fingerprint() == before, "merge-changed-source", "REQ k=%d,%d n=%d,%d: merging changed the sketch merged from", o.k, p.k, o.n, p.n)
	}
}

func (o *robj) reset(c *C) {
	o.s.Reset()
	c.Step()
	o.n = 0
	o.in = map[float32]int64{}
	o.exact = true
	o.plain = true
	o.kmin = o.k
}

func (o *robj) items() []req.Item {
	it := o.s.All()
	sort.Slice(it, func(i, j int) bool {
		return it[i].Quantile < it[j].Quantile || it[i].Quantile == it[j].Quantile && it[i].Weight < it[j].Weight
	})
	return it
}

func (o *robj) fingerprint() uint64 {
	h := engine.HAny(o.s.N(), o.s.K(), o.s.NumRetained(), o.s.IsEstimationMode(), o.items())
	if o.s.N() > 0 {
		a, _ := o.s.MinItem()
		b, _ := o.s.MaxItem()
		h = mix(h, engine.HAny(a, b))
	}
	return h
}

func (o *robj) what() string { return fmt.Sprintf("REQ k=%d hra=%v n=%d", o.k, o.hra, o.n) }

func (o *robj) check(c *C) {
	s := o.s
	c.Assert(s.N() == o.n && s.IsEmpty() == (o.n == 0), "n", "%s: N=%d", o.what(), s.N())
	c.Assert(s.K() == o.k && s.IsHighRankAccuracyMode() == o.hra, "k", "%s: K=%d hra=%v", o.what(), s.K(), s.IsHighRankAccuracyMode())
	mn, e1 := s.MinItem()
	mx, e2 := s.MaxItem()
	it := o.items()
	if o.n == 0 {
		c.Assert(e1 != nil && e2 != nil && s.NumRetained() == 0 && len(it) == 0, "empty", "%s: extremes %v %v, %d items", o.what(), mn, mx, len(it))
		return
	}
	c.Assert(e1 == nil && mn == o.min, "min", "%s: min %v err %v, want %v", o.what(), mn, e1, o.min)
	c.Assert(e2 == nil && mx == o.max, "max", "%s: max %v err %v, want %v", o.what(), mx, e2, o.max)
	c.Assert(s.NumRetained() == len(it), "retained-count", "%s: NumRetained %d, All has %d", o.what(), s.NumRetained(), len(it))
	o.maxRet = max(o.maxRet, len(it))
	got := map[float32]int64{}
	sum := int64(0)
	top := int64(1)
	for _, x := range it {
		c.Assert(x.Weight > 0 && x.Weight&(x.Weight-1) == 0, "weight", "%s: weight %d", o.what(), x.Weight)
		sum += x.Weight
		top = max(top, x.Weight)
		got[x.Quantile]++
		if got[x.Quantile] > o.in[x.Quantile] {
			c.Fail("retained-not-input", "%s: item %v retained %d times, occurred %d times", o.what(), x.Quantile, got[x.Quantile], o.in[x.Quantile])
		}
	}
	c.Assert(sum == o.n, "weight-sum", "%s: weights sum to %d", o.what(), sum)
	c.Assert(s.IsEstimationMode() == (top > 1), "estimation-mode", "%s: estimation mode %v, largest weight %d", o.what(), s.IsEstimationMode(), top)
	if o.exact {
		c.Assert(!s.IsEstimationMode() && len(it) == int(o.n), "exact", "%s: %d items retained, estimation mode %v, before anything must be discarded", o.what(), len(it), s.IsEstimationMode())
	}
	c.Assert(len(it) >= min(int(min(o.n, 1<<30)), 5*o.kmin), "early-discard", "%s: only %d items retained", o.what(), len(it))
	levels := 1
	for int64(1)<<(levels-1) < top {
		levels++
	}
	bound := levels * 6 * o.k * 4
	c.Assert(len(it) <= bound, "size", "%s: %d items retained in %d levels", o.what(), len(it), levels)

	// the protected end: ranks of its 3*kmin items are exact
	vs, truth := o.trueRanks()
	est := o.estRanks(vs)
	t := int64(3 * o.kmin)
	for i := range vs {
		var inside bool
		below := truth[i] - float64(o.in[vs[i]])
		if o.hra {
			inside = float64(o.n)-truth[i] < float64(t) // fewer than t items above vs[i]
		} else {
			inside = below < float64(t)
		}
		if !inside || o.n >= 1<<52 { // (the reference ranks are exact floats)
			continue
		}
		if o.hra {
			c.Assert(est[i] == truth[i], "protected", "%s: rank of %v is %v, true %v, although it is among the %d largest", o.what(), vs[i], est[i], truth[i], t)
		} else {
			e := 0.0
			if i > 0 {
				e = est[i-1]
			}
			c.Assert(e == below, "protected", "%s: %v items below %v, true %v, although it is among the %d smallest", o.what(), e, vs[i], below, t)
		}
		// inside the protected end every item is retained (the outermost value may straddle the edge)
		if o.hra && float64(o.n)-below <= float64(t) || !o.hra && truth[i] <= float64(t) {
			c.Assert(got[vs[i]] == o.in[vs[i]], "protected-retained", "%s: %v occurred %d times, retained %d times, although among the %d items of the accurate end", o.what(), vs[i], o.in[vs[i]], got[vs[i]], t)
		}
	}
	c.State(engine.HAny(o.k, o.hra, o.n, it))
}

func (o *robj) trueRanks() ([]float32, []float64) {
	var vs []float32
	for v := range o.in {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	r := make([]float64, len(vs))
	sum := 0.0
	for i, v := range vs {
		sum += float64(o.in[v])
		r[i] = sum
	}
	return vs, r
}

func (o *robj) estRanks(vs []float32) []float64 {
	items := o.items()
	r := make([]float64, len(vs))
	sum, j := 0.0, 0
	for i, v := range vs {
		for j < len(items) && items[j].Quantile <= v {
			sum += float64(items[j].Weight)
			j++
		}
		r[i] = sum
	}
	return r
}

func rStream(c *C, o *robj, shape, n, off int, chk bool) {
	for i := 0; i < n; i++ {
		o.upd(c, float32(int64(off)+streamVal(shape, i, n)))
		if chk && (i%4 == 0 || i == n-1) {
			o.check(c)
		}
	}
}

func c16Coins(maxCoins int, ks []int, sizes int) engine.Scenario {
	return engine.Scenario{
		Name:       "req-coins",
		ShardDepth: 5,
		Bound:      fmt.Sprintf("every outcome of up to %d coins; k in %v, both accuracy modes; %d input orders; streams of %d lengths, two-, three- and four-sketch merges of unequal k and n, merge then update; deterministic invariants, and over all outcomes the exact expectation of the rank of every input", maxCoins, ks, nShapes, sizes),
		Run: func(c *C) {
			k := ks[c.Choose(len(ks), "k")]
			hra := c.Choose(2, "hra") == 1
			shape := c.Choose(nShapes, "shape")
			hist := c.Choose(11, "history")
			size := c.Choose(sizes, "size")
			n := 5*k + size*k
			k2 := k
			if c.Choose(2, "k2") == 1 {
				k2 = k + 2
			}
			if hist < 2 && k2 != k {
				return
			}
			build := func(chk bool) *robj {
				a := newR(c, k, hra)
				b := newR(c, k2, hra)
				switch hist {
				case 0:
					rStream(c, a, shape, n, 0, chk)
				case 1:
					rStream(c, a, shape, n/2, 100, false)
					a.reset(c)
					rStream(c, a, shape, n, 0, chk)
				case 2:
					rStream(c, a, shape, n, 0, false)
					rStream(c, b, (shape+1)%nShapes, n+3, 7, false)
					a.merge(c, b)
				case 3: // into an exact one
					rStream(c, a, shape, k, 3, false)
					rStream(c, b, shape, n, 0, false)
					a.merge(c, b)
				case 4: // into an empty one
					rStream(c, b, shape, n, 1, false)
					a.merge(c, b)
				case 5:
					rStream(c, a, shape, n, 0, false)
					rStream(c, b, shape, 7, 5, false)
					a.merge(c, b)
				case 6: // merge, then update
					rStream(c, a, shape, n*2/3, 0, false)
					rStream(c, b, shape, n*2/3, n/2, false)
					a.merge(c, b)
					rStream(c, a, shape, n/2, n/4, chk)
				case 7: // merged before a's first compaction, b after one; then go on
					rStream(c, a, shape, 5*k, 0, false)
					rStream(c, b, shape, 6*k2+size, 2, false)
					a.merge(c, b)
					rStream(c, a, shape, 2*k, 1, chk)
				case 8: // the same source twice
					rStream(c, a, shape, n/3, 0, false)
					rStream(c, b, shape, n/2+1, 2, false)
					a.merge(c, b)
					a.merge(c, b)
				case 9: // tree
					b2, a2 := newR(c, k, hra), newR(c, k2, hra)
					rStream(c, a, shape, n/2, 0, false)
					rStream(c, b, shape, n/2+2, 5, false)
					rStream(c, a2, shape, n/2+3, n/2, false)
					rStream(c, b2, shape, n/2, 9, false)
					a.merge(c, b)
					a2.merge(c, b2)
					a.merge(c, a2)
				case 10: // queries in between
					rStream(c, a, shape, n/2, 0, false)
					_, err := a.s.Rank(3)
					c.NoErr(err, "rank")
					rStream(c, b, shape, n/2, n/4, false)
					_, err = b.s.Quantile(0.5)
					c.NoErr(err, "quantile")
					a.merge(c, b)
					_, err = a.s.Quantile(0.5)
					c.NoErr(err, "quantile")
					rStream(c, a, shape, n/3, 0, false)
				}
				a.check(c)
				return a
			}
			c.RandPolicy(0, 0)
			u := c.RandUsed
			a := build(true)
			if c.RandUsed-u > maxCoins {
				return
			}
			vs, truth := a.trueRanks()
			exp := make([]float64, len(vs))
			miss := make([]float64, len(vs))
			var t randTree
			t.forAll(c, func() func(float64) {
				a := build(false)
				est := a.estRanks(vs)
				return func(p float64) {
					for i := range est {
						exp[i] += p * est[i]
						r, slack := est[i]/float64(a.n), 2/float64(a.n)
						lo, _ := a.s.RankLowerBound(r)
						hi, _ := a.s.RankUpperBound(r)
						if x := truth[i] / float64(a.n); x < lo-slack || x > hi+slack {
							miss[i] += p
						}
					}
				}
			})
			for i := range vs {
				c.Assert(math.Abs(exp[i]-truth[i]) <= 1e-9*float64(a.n), "biased", "history %d %s: over all %d coin outcomes the expected rank of %v is %v, true rank %v", hist, a.what(), t.runs, vs[i], exp[i], truth[i])
				if a.plain {
					c.Assert(miss[i] <= 0.05, "rank-bounds", "history %d %s: the true rank of %v is more than 2 items outside the 2 std dev bounds with probability %v", hist, a.what(), vs[i], miss[i])
				}
			}
			c.Outcome(uint64(t.runs))
		},
	}
}

func c16Long(n int, ks []int, dev int) engine.Scenario {
	return engine.Scenario{
		Name:       "req-long",
		ShardDepth: 4,
		Bound:      fmt.Sprintf("streams of %d items, k in %v, both modes, %d input orders, 6 coin policies, every single deviation for the first configurations; invariants at growing intervals; then merged into sketches of other k and continued", n, ks, nShapes),
		Run: func(c *C) {
			ki := c.Choose(len(ks), "k")
			hra := c.Choose(2, "hra") == 1
			shape := c.Choose(nShapes, "shape")
			pol := c.Choose(engine.NumPolicies, "policy")
			d, N := 0, n
			if ki < dev {
				d, N = 1, n/40
			}
			c.RandPolicy(pol, d)
			o := newR(c, ks[ki], hra)
			next := 0
			for i := 0; i < N; i++ {
				o.upd(c, float32(streamVal(shape, i, N)))
				if i >= next {
					o.check(c)
					next = i + 1 + i/15
				}
			}
			o.check(c)
			for _, k2 := range []int{4, 10, 40} {
				p := newR(c, k2, hra)
				p.merge(c, o)
				p.check(c)
				p.upd(c, -1)
				p.merge(c, o)
				p.check(c)
				for i := 0; i < 300; i++ {
					p.upd(c, float32(i))
				}
				p.check(c)
			}
		},
	}
}

func c16Deep(doublings int, ks []int) engine.Scenario {
	return engine.Scenario{
		Name:       "req-deep",
		ShardDepth: 3,
		Bound:      fmt.Sprintf("k in %v, both modes, %d doublings by merging (n to 2^60), also merging a sketch with itself, 6 coin policies; invariants and queries at every size", ks, doublings),
		Run: func(c *C) {
			k := ks[c.Choose(len(ks), "k")]
			hra := c.Choose(2, "hra") == 1
			pol := c.Choose(engine.NumPolicies, "policy")
			c.RandPolicy(pol, 0)
			a, b := newR(c, k, hra), newR(c, k, hra)
			rStream(c, a, 2, 3*k+1, 0, false)
			rStream(c, b, 2, 3*k+1, 5, false)
			for d := 0; d < doublings && a.n < 1<<60; d++ {
				a.merge(c, b)
				a.check(c)
				if d%4 == 3 {
					a.upd(c, 1)
				}
				e := newR(c, k, hra)
				e.merge(c, a)
				e.check(c)
				b = e
				r, err := a.s.Rank(1 << 20)
				c.Assert(err == nil && r == 1, "rank-top", "%s: rank above the maximum is %v err %v", a.what(), r, err)
				_, err = a.s.Quantile(0.3)
				c.NoErr(err, "quantile")
			}
		},
	}
}

func c16Ops(depth int) engine.Scenario {
	return engine.Scenario{
		Name:       "req-ops",
		ShardDepth: 3,
		Bound:      fmt.Sprintf("all operation sequences of length %d over two sketches, k in {(4,4),(6,4),(12,20)}, both modes: 1/13/70 updates, merge either way, merge a fresh empty one, reset, query, update with NaN and infinities; 3 coin policies; invariants after each", depth),
		Run: func(c *C) {
			cfg := [][2]int{{4, 4}, {6, 4}, {12, 20}}[c.Choose(3, "config")]
			hra := c.Choose(2, "hra") == 1
			c.RandPolicy([]int{0, 1, 4}[c.Choose(3, "policy")], 0)
			o := [2]*robj{newR(c, cfg[0], hra), newR(c, cfg[1], hra)}
			cnt := 0
			for i := 0; i < depth; i++ {
				op := c.Choose(14, "op")
				t := op & 1
				switch op / 2 {
				case 0, 1, 2:
					n := []int{1, 13, 70}[op/2]
					for j := 0; j < n; j++ {
						cnt++
						o[t].upd(c, float32((cnt*37)%101)-50)
					}
				case 3:
					o[t].merge(c, o[1-t])
				case 4:
					o[t].reset(c)
				case 5:
					if o[t].n > 0 {
						_, err := o[t].s.Rank(3)
						c.NoErr(err, "rank")
						_, err = o[t].s.PMF([]float32{1, 2})
						c.NoErr(err, "pmf")
					}
					e := newR(c, 8, hra)
					o[t].merge(c, e)
				case 6:
					o[t].upd(c, float32(math.NaN()))
					o[t].upd(c, float32(math.Inf(1-2*t)))
				}
				if c.Tracing() {
					c.Logf("op %d on sketch %d", op/2, t)
				}
				o[0].check(c)
				o[1].check(c)
			}
			// modes do not mix
			w := newR(c, 4, !hra)
			w.upd(c, 1)
			f := o[0].fingerprint()
			err := o[0].s.Merge(w.s)
			c.Assert(err != nil && o[0].fingerprint() == f, "mode-mismatch", "merging the other accuracy mode: err %v", err)
		},
	}
}

// c16MergeSizes merges sketches of every pair of sizes, and the result into a fresh and into an exact sketch.
func c16MergeSizes(nMax, stepB int) engine.Scenario {
	return engine.Scenario{
		Name:       "req-merge-sizes",
		ShardDepth: 3,
		Bound:      fmt.Sprintf("k and k2 from {4,6,12}, both modes: every size up to %d merged with every %d-th, the result merged into a fresh sketch and into one of 3 items, each updated afterwards; 3 coin policies", nMax, stepB),
		Run: func(c *C) {
			k, k2 := pickInt(c, "k", 4, 6, 12), pickInt(c, "k2", 4, 6, 12)
			n1 := 1 + c.Choose(nMax, "n1")
			hra := c.Choose(2, "hra") == 1
			pol := []int{0, 1, 4}[c.Choose(3, "policy")]
			for n2 := 1 + n1%stepB; n2 <= nMax; n2 += stepB {
				c.RandPolicy(pol, 0)
				a, b := newR(c, k, hra), newR(c, k2, hra)
				for i := 0; i < n1; i++ {
					a.upd(c, float32(i*37%101))
				}
				for i := 0; i < n2; i++ {
					b.upd(c, float32(i*41%103)+5)
				}
				a.merge(c, b)
				a.check(c)
				for j := 0; j < 2; j++ {
					f := newR(c, []int{k, k2}[j], hra)
					for i := 0; i < 3*j; i++ {
						f.upd(c, float32(40+i))
					}
					f.merge(c, a)
					f.check(c)
					for i := 0; i < 5; i++ {
						f.upd(c, float32(50+i))
						f.check(c)
					}
				}
				c.Step()
			}
		},
	}
}

func c16Config() engine.Scenario {
	return engine.Scenario{
		Name:       "req-config",
		ShardDepth: 1,
		Bound:      "every k in -2..1100: accepted iff even and 4..1024; accepted ones run through 9k updates with invariants at each compaction",
		Run: func(c *C) {
			k := c.Choose(1103, "k") - 2
			hra := k%4 == 0
			s, err := req.NewSketch(req.WithK(k), req.WithHighRankAccuracyMode(hra))
			c.Assert((err == nil) == (k >= 4 && k <= 1024 && k%2 == 0), "k-range", "k=%d: err %v", k, err)
			if err != nil {
				return
			}
			c.RandPolicy(2, 0)
			_ = s
			o := newR(c, k, hra)
			for i := 0; i < 9*k; i++ {
				r := o.s.NumRetained()
				o.upd(c, float32(streamVal(2, i, 9*k)))
				if o.s.NumRetained() <= r || i == 9*k-1 || i%(k/2) == 0 {
					o.check(c)
				}
			}
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID:          "C16",
		Assumptions: []string{"the library's only randomness is math/rand/v2's top-level functions, whose outcomes are enumerated; coins are fair"},
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				return []engine.Scenario{
					c16Coins(15, []int{4, 6, 8, 12}, 30),
					c16Long(60000, []int{4, 6, 12, 20, 50, 100, 1024}, 3),
					c16Deep(64, []int{4, 6, 12, 30, 50}),
					c16Ops(5),
					c16MergeSizes(200, 1),
					c16RankError([]int{4, 6, 12, 30, 100}, []int{1000, 20000, 200000}, 64),
					c16Config(),
				}
			}
			return []engine.Scenario{
				c16Coins(10, []int{4, 6, 8}, 14),
				c16Long(12000, []int{4, 6, 12, 50, 100}, 1),
				c16Deep(64, []int{4, 12, 50}),
				c16Ops(4),
				c16MergeSizes(64, 4),
				c16RankError([]int{4, 12, 50}, []int{1000, 20000}, 64),
				c16Config(),
			}
		},
	})
}

package props

import (
	"fmt"
	"math"
	"math/big"
	"sort"
	"strings"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/kll"
	"verifmc/engine"
)

// ktype describes an item type: mk is strictly monotone in the order given by less.
type ktype[T comparable] struct {
	name  string
	mk    func(int64) T
	less  common.CompareFn[T]
	serde common.ItemSketchSerde[T]
	size  func(T) int
}

var (
	kInt = ktype[int64]{"int64", func(v int64) int64 { return v }, common.ItemSketchLongComparator(false), common.ItemSketchLongSerDe{}, func(int64) int { return 8 }}
	kRev = ktype[int64]{"int64-reversed", func(v int64) int64 { return -v }, common.ItemSketchLongComparator(true), common.ItemSketchLongSerDe{}, func(int64) int { return 8 }}
	kDbl = ktype[float64]{"float64", func(v int64) float64 { return float64(v) / 4 }, common.ItemSketchDoubleComparator(false), common.ItemSketchDoubleSerDe{}, func(float64) int { return 8 }}
	kFlt = ktype[float32]{"float32", func(v int64) float32 { return float32(v) / 4 }, common.ItemSketchFloatComparator(false), common.ItemSketchFloatSerDe{}, func(float32) int { return 4 }}
	kStr = ktype[string]{"string", func(v int64) string {
		if v < 0 {
			return ""
		}
		return fmt.Sprintf("%08d", v) + strings.Repeat("é", int(v%4))
	}, common.ItemSketchStringComparator(false), common.ItemSketchStringSerDe{}, func(s string) int { return 4 + len(s) }}
)

var (
	kDblRev = ktype[float64]{"float64-reversed", func(v int64) float64 { return -float64(v) / 4 }, common.ItemSketchDoubleComparator(true), common.ItemSketchDoubleSerDe{}, func(float64) int { return 8 }}
	kFltRev = ktype[float32]{"float32-reversed", func(v int64) float32 { return -float32(v) / 4 }, common.ItemSketchFloatComparator(true), common.ItemSketchFloatSerDe{}, func(float32) int { return 4 }}
	kStrRev = ktype[string]{"string-reversed", func(v int64) string { return kStr.mk(50000000 - v) }, common.ItemSketchStringComparator(true), common.ItemSketchStringSerDe{}, func(s string) int { return 4 + len(s) }}
)

// kobj is a KLL sketch together with everything that went into it.
type kobj[T comparable] struct {
	t        ktype[T]
	s        *kll.ItemsSketch[T]
	k        uint16
	m        uint8
	n        uint64
	in       map[T]uint64
	min, max T
	exact    bool // nothing can have been discarded yet
}

func newK[T comparable](c *C, t ktype[T], k uint16, m uint8) *kobj[T] {
	s, err := kll.NewKllItemsSketch[T](k, m, t.less, t.serde)
	c.NoErr(err, "new")
	return &kobj[T]{t: t, s: s, k: k, m: m, in: map[T]uint64{}, exact: true}
}

func (o *kobj[T]) upd(c *C, v int64) {
	x := o.t.mk(v)
	before := o.s.GetNumRetained()
	o.s.Update(x)
	c.Step()
	if o.n == 0 || o.t.less(x, o.min) {
		o.min = x
	}
	if o.n == 0 || o.t.less(o.max, x) {
		o.max = x
	}
	o.n++
	o.in[x]++
	if o.n > uint64(o.k) {
		o.exact = false
	}
	after := o.s.GetNumRetained()
	if after != before+1 {
		// something was discarded: only allowed when all the space the sketch is entitled to was in use
		l := o.levels()
		full := kllCapacity(o.k, o.m, l)
		if l > 1 {
			full = min(full, kllCapacity(o.k, o.m, l-1))
		}
		c.Assert(before >= full, "early-discard", "k=%d m=%d: item %d made the sketch discard with %d of %d slots used", o.k, o.m, o.n, before, full)
	}
}

// levels is the number of levels, read off the largest retained weight.
func (o *kobj[T]) levels() int {
	it := o.s.GetIterator()
	l := 1
	for it.Next() {
		for int64(1)<<(l-1) < it.GetWeight() {
			l++
		}
	}
	return l
}

// kllCapacity is the documented space bound: level h of l may hold max(m, round(k*(2/3)^(l-1-h))) items.
func kllCapacity(k uint16, m uint8, l int) uint32 {
	total := uint32(0)
	for d := 0; d < l; d++ {
		c := kllLevelCap(int(k), d)
		if c < int(m) {
			c = int(m)
		}
		total += uint32(c)
	}
	return total
}

var kllCapMemo = map[[2]int]int{}

func kllLevelCap(k, depth int) int {
	if v, ok := kllCapMemo[[2]int{k, depth}]; ok {
		return v
	}
	f := func(k, d int) int {
		num := new(big.Int).Lsh(big.NewInt(int64(2*k)), uint(d))
		den := new(big.Int).Exp(big.NewInt(3), big.NewInt(int64(d)), nil)
		num.Div(num, den)
		return int(num.Int64()+1) / 2
	}
	var v int
	if depth <= 30 {
		v = f(k, depth)
	} else {
		v = f(f(k, depth/2), depth-depth/2)
	}
	kllCapMemo[[2]int{k, depth}] = v
	return v
}

// merge merges p into o.
func (o *kobj[T]) merge(c *C, p *kobj[T]) {
	before := p.fingerprint(c)
	both := o.s.GetNumRetained() + p.s.GetNumRetained()
	o.s.Merge(p.s)
	c.Step()
	// nothing is discarded while everything fits, and compaction halves a level at a time
	if after := o.s.GetNumRetained(); both <= uint32(o.k) {
		c.Assert(after == both, "merge-early-discard", "k=%d,%d n=%d,%d: %d items together, %d after the merge", o.k, p.k, o.n, p.n, both, after)
	} else {
		c.Assert(after > uint32(o.k)/2 && after <= both, "merge-discard", "k=%d,%d n=%d,%d: %d items together, %d after the merge", o.k, p.k, o.n, p.n, both, after)
	}
	if p.n > 0 {
		if o.n == 0 || p.t.less(p.min, o.min) {
			o.min = p.min
		}
		if o.n == 0 || p.t.less(o.max, p.max) {
			o.max = p.max
		}
	}
	o.n += p.n
	for v, k := range p.in {
		o.in[v] += k
	}
	o.exact = o.exact && p.exact && o.n <= uint64(o.k)
	c.Assert(p.fingerprint(c) == before, "merge-changed-source", "k=%d,%d n=%d,%d: merging changed the sketch merged from", o.k, p.k, o.n, p.n)
}

func (o *kobj[T]) reset(c *C) {
	o.s.Reset()
	c.Step()
	o.n = 0
	o.in = map[T]uint64{}
	o.exact = true
}

type wit[T comparable] struct {
	v T
	w int64
}

func (o *kobj[T]) retained() []wit[T] {
	var r []wit[T]
	it := o.s.GetIterator()
	for it.Next() {
		r = append(r, wit[T]{it.GetQuantile(), it.GetWeight()})
	}
	return r
}

func (o *kobj[T]) sortedItems() []wit[T] {
	r := o.retained()
	sort.Slice(r, func(i, j int) bool {
		if o.t.less(r[i].v, r[j].v) {
			return true
		}
		return r[i].v == r[j].v && r[i].w < r[j].w
	})
	return r
}

// fingerprint covers all of the sketch's observable state.
func (o *kobj[T]) fingerprint(c *C) uint64 {
	h := engine.HAny(o.s.GetN(), o.s.GetK(), o.s.GetNumRetained(), o.s.GetNormalizedRankError(false), o.sortedItems())
	if o.s.GetN() > 0 {
		a, e1 := o.s.GetMinItem()
		b, e2 := o.s.GetMaxItem()
		h = mix(h, engine.HAny(a, b, e1, e2))
	}
	return h
}

func (o *kobj[T]) what() string {
	return fmt.Sprintf("KLL %s k=%d m=%d n=%d", o.t.name, o.k, o.m, o.n)
}

// check compares everything decided by the input alone.
func (o *kobj[T]) check(c *C) {
	s := o.s
	c.Assert(s.GetN() == o.n && s.IsEmpty() == (o.n == 0), "n", "%s: N=%d", o.what(), s.GetN())
	c.Assert(s.GetK() == o.k, "k", "%s: K=%d", o.what(), s.GetK())
	mn, e1 := s.GetMinItem()
	mx, e2 := s.GetMaxItem()
	if o.n == 0 {
		c.Assert(e1 != nil && e2 != nil, "empty-extremes", "%s: extremes of an empty sketch %v %v", o.what(), mn, mx)
		c.Assert(s.GetNumRetained() == 0 && len(o.retained()) == 0, "empty-items", "%s: empty sketch retains items", o.what())
		return
	}
	c.Assert(e1 == nil && mn == o.min, "min", "%s: min %v err %v, want %v", o.what(), mn, e1, o.min)
	c.Assert(e2 == nil && mx == o.max, "max", "%s: max %v err %v, want %v", o.what(), mx, e2, o.max)
	r := o.retained()
	c.Assert(int(s.GetNumRetained()) == len(r), "retained-count", "%s: GetNumRetained %d, iterator has %d", o.what(), s.GetNumRetained(), len(r))
	got := map[T]uint64{}
	sum := uint64(0)
	l := 1
	for _, x := range r {
		c.Assert(x.w > 0 && x.w&(x.w-1) == 0, "weight", "%s: weight %d", o.what(), x.w)
		for int64(1)<<(l-1) < x.w {
			l++
		}
		sum += uint64(x.w)
		got[x.v]++
		if got[x.v] > o.in[x.v] {
			c.Fail("retained-not-input", "%s: item %v retained %d times, occurred %d times", o.what(), x.v, got[x.v], o.in[x.v])
		}
	}
	c.Assert(sum == o.n, "weight-sum", "%s: weights sum to %d", o.what(), sum)
	c.Assert(s.IsEstimationMode() == (l > 1), "estimation-mode", "%s: estimation mode %v with %d levels", o.what(), s.IsEstimationMode(), l)
	if o.exact {
		c.Assert(!s.IsEstimationMode() && len(r) == int(o.n), "exact", "%s: %d items retained, estimation mode %v, before anything must be discarded", o.what(), len(r), s.IsEstimationMode())
	}
	c.Assert(uint32(len(r)) <= kllCapacity(o.k, o.m, l), "capacity", "%s: %d items retained in %d levels, bound %d", o.what(), len(r), l, kllCapacity(o.k, o.m, l))
	c.State(engine.HAny(o.k, o.m, o.n, o.sortedItems()))
}

// trueRanks lists the distinct inputs in order with the number of inputs <= each.
func (o *kobj[T]) trueRanks() ([]T, []float64) {
	var vs []T
	for v := range o.in {
		vs = append(vs, v)
	}
	sort.Slice(vs, func(i, j int) bool { return o.t.less(vs[i], vs[j]) })
	r := make([]float64, len(vs))
	sum := 0.0
	for i, v := range vs {
		sum += float64(o.in[v])
		r[i] = sum
	}
	return vs, r
}

// estRanks is the weight of retained items <= each of vs.
func (o *kobj[T]) estRanks(vs []T) []float64 {
	items := o.sortedItems()
	r := make([]float64, len(vs))
	sum, j := 0.0, 0
	for i, v := range vs {
		for j < len(items) && !o.t.less(v, items[j].v) {
			sum += float64(items[j].w)
			j++
		}
		r[i] = sum
	}
	return r
}

func kStream(c *C, o *kobj[int64], shape, n, off int, chk bool) {
	for i := 0; i < n; i++ {
		o.upd(c, int64(off)+streamVal(shape, i, n))
		if chk && (i%5 == 0 || i == n-1) {
			o.check(c)
		}
	}
}

func c15Coins(maxCoins int, ks [][2]int) engine.Scenario {
	return engine.Scenario{
		Name:       "kll-coins",
		ShardDepth: 4,
		Bound:      fmt.Sprintf("every outcome of up to %d coins; (k,m) in %v; %d input orders; streams of 1..40 lengths, two- and three-sketch merges of unequal k and n, merge then update; at every outcome the deterministic invariants, over all outcomes exact expectation of the rank of every input and probability that a rank is outside the stated 99%% error", maxCoins, ks, nShapes),
		Run: func(c *C) {
			km := ks[c.Choose(len(ks), "km")]
			k, m := uint16(km[0]), uint8(km[1])
			shape := c.Choose(nShapes, "shape")
			hist := c.Choose(12, "history")
			size := c.Choose(14, "size")
			n := int(k) + 1 + size*int(k)/2
			k2 := uint16(8)
			if c.Choose(2, "k2") == 1 {
				k2 = k + 5
			}
			if hist < 2 && k2 != 8 {
				return
			}
			build := func(chk bool) *kobj[int64] {
				a := newK(c, kInt, k, m)
				b := newK(c, kInt, k2, 8)
				switch hist {
				case 0: // plain stream
					kStream(c, a, shape, n, 0, chk)
				case 1: // stream, reset, stream
					kStream(c, a, shape, int(k)/2, 100, false)
					a.reset(c)
					kStream(c, a, shape, n+3, 0, chk)
				case 2: // merge of two estimating sketches, overlapping
					kStream(c, a, shape, n/2+int(k), 0, chk)
					kStream(c, b, (shape+1)%nShapes, n/2+9, 7, false)
					a.merge(c, b)
				case 3: // into an exact one
					kStream(c, a, shape, int(k)-2, 3, false)
					kStream(c, b, shape, n, 0, false)
					a.merge(c, b)
				case 4: // into an empty one
					kStream(c, b, shape, n, 0, false)
					a.merge(c, b)
				case 5: // exact into estimating
					kStream(c, a, shape, n, 0, false)
					kStream(c, b, shape, 7, 5, false)
					a.merge(c, b)
				case 6: // merge, then update
					kStream(c, a, shape, n/2, 0, false)
					kStream(c, b, shape, n/2, n/2, false)
					a.merge(c, b)
					kStream(c, a, shape, n/3, n, chk)
				case 7: // the same source twice
					kStream(c, a, shape, n/3, 0, false)
					kStream(c, b, shape, n/2+1, 2, false)
					a.merge(c, b)
					a.merge(c, b)
				case 8: // chain
					kStream(c, a, shape, n/3, 0, false)
					for j := 0; j < 3; j++ {
						d := newK(c, kInt, k2+uint16(j), 4)
						kStream(c, d, shape, n/3+j, j*n/3, false)
						a.merge(c, d)
						a.check(c)
					}
				case 9: // tree
					b2 := newK(c, kInt, k, m)
					a2 := newK(c, kInt, k2, m)
					kStream(c, a, shape, n/4, 0, false)
					kStream(c, b, shape, n/4+2, 5, false)
					kStream(c, a2, shape, n/4+3, n, false)
					kStream(c, b2, shape, n/4, 9, false)
					a.merge(c, b)
					a2.merge(c, b2)
					a.merge(c, a2)
				case 10: // small into large number of levels and empty ones
					e := newK(c, kInt, 30, 8)
					kStream(c, a, shape, n, 0, false)
					a.merge(c, e)
					kStream(c, e, shape, 31, 0, false)
					a.merge(c, e)
				case 11: // queries in between
					kStream(c, a, shape, n/2, 0, false)
					_, err := a.s.GetRank(3, true)
					c.NoErr(err, "rank")
					kStream(c, b, shape, n/2, n/4, false)
					_, err = b.s.GetQuantile(0.5, true)
					c.NoErr(err, "quantile")
					a.merge(c, b)
					_, err = a.s.GetQuantile(0.5, false)
					c.NoErr(err, "quantile")
					kStream(c, a, shape, n/3, 0, false)
				}
				a.check(c)
				return a
			}
			c.RandPolicy(0, 0)
			u := c.RandUsed
			a := build(true)
			if c.RandUsed-u > maxCoins {
				return
			}
			vs, truth := a.trueRanks()
			exp := make([]float64, len(vs))
			miss := make([]float64, len(vs))
			var t randTree
			eps := a.s.GetNormalizedRankError(false)
			t.forAll(c, func() func(float64) {
				a := build(false)
				est := a.estRanks(vs)
				return func(p float64) {
					for i := range est {
						exp[i] += p * est[i]
						if math.Abs(est[i]-truth[i]) > eps*float64(a.n) {
							miss[i] += p
						}
					}
				}
			})
			for i := range vs {
				c.Assert(math.Abs(exp[i]-truth[i]) <= 1e-9*float64(a.n), "biased", "history %d %s: over all %d coin outcomes the expected rank of %d is %v, true rank %v", hist, a.what(), t.runs, vs[i], exp[i], truth[i])
				c.Assert(miss[i] <= 0.01+1e-12, "rank-error", "history %d %s: rank of %d is off by more than %v with probability %v", hist, a.what(), vs[i], eps, miss[i])
			}
			c.Outcome(uint64(t.runs))
		},
	}
}

func c15Long(n int, ks [][2]int, dev int) engine.Scenario {
	return engine.Scenario{
		Name:       "kll-long",
		ShardDepth: 4,
		Bound:      fmt.Sprintf("streams of %d items, (k,m) in %v, %d input orders, 6 coin policies, every single deviation from the policy for the first configurations; invariants every 5..97 items", n, ks, nShapes),
		Run: func(c *C) {
			ki := c.Choose(len(ks), "km")
			km := ks[ki]
			shape := c.Choose(nShapes, "shape")
			pol := c.Choose(engine.NumPolicies, "policy")
			d := 0
			if ki < dev {
				d = 1
			}
			c.RandPolicy(pol, d)
			N := n
			if ki < dev {
				N = n / 30
			}
			o := newK(c, kInt, uint16(km[0]), uint8(km[1]))
			next := 0
			for i := 0; i < N; i++ {
				o.upd(c, streamVal(shape, i, N))
				if i >= next {
					o.check(c)
					next = i + 1 + i/20
				}
			}
			o.check(c)
			// merging the sketch into fresh ones of other sizes
			for _, k2 := range []uint16{8, 9, 100} {
				p := newK(c, kInt, k2, 8)
				p.merge(c, o)
				p.check(c)
				p.upd(c, -1)
				p.merge(c, o)
				p.check(c)
				for i := 0; i < 300; i++ {
					p.upd(c, int64(i))
				}
				p.check(c)
			}
		},
	}
}

// c15Deep doubles a sketch by merging copies of itself until the count nears 2^62.
func c15Deep(doublings int, ks []int) engine.Scenario {
	return engine.Scenario{
		Name:       "kll-deep",
		ShardDepth: 3,
		Bound:      fmt.Sprintf("k in %v, %d successive merges of equal sketches (n up to 2^62), 6 coin policies; invariants, source unchanged, size and byte round trip at every level", ks, doublings),
		Run: func(c *C) {
			k := uint16(ks[c.Choose(len(ks), "k")])
			m := []uint8{8, 2}[c.Choose(2, "m")]
			pol := c.Choose(engine.NumPolicies, "policy")
			shape := c.Choose(3, "shape")
			c.RandPolicy(pol, 0)
			mk := func() *kobj[int64] {
				o := newK(c, kInt, k, m)
				kStream(c, o, shape, int(k)+3, 0, false)
				return o
			}
			a, b := mk(), mk()
			for d := 0; d < doublings && a.n < 1<<62; d++ {
				a.merge(c, b)
				a.check(c)
				cp, err := a.s.ToSlice()
				c.NoErr(err, "toslice")
				s2, err := kll.NewKllItemsSketchFromSlice[int64](cp, kInt.less, kInt.serde)
				c.NoErr(err, "fromslice")
				q := *a
				q.s = s2
				q.in = map[int64]uint64{}
				for v, x := range a.in {
					q.in[v] = x
				}
				q.check(c)
				c.Assert(q.fingerprint(c) == a.fingerprint(c), "roundtrip", "%s: decoded copy differs", a.what())
				b = &q
				if d%3 == 2 {
					a.upd(c, 1)
				}
				r, err := a.s.GetRank(1<<40, true)
				c.NoErr(err, "rank")
				c.Assert(r == 1, "rank-top", "%s: rank above the maximum is %v", a.what(), r)
			}
		},
	}
}

func c15Ops(depth int) engine.Scenario {
	return engine.Scenario{
		Name:       "kll-ops",
		ShardDepth: 3,
		Bound:      fmt.Sprintf("all operation sequences of length %d over two sketches (k,m) in {(8,8)x(11,2),(20,8)x(8,4)}: 1/9/60 updates, merge either way, reset, query, decode from own bytes; 3 coin policies; from two empty sketches, or one operation less from filled, merged and reset ones; invariants after each", depth),
		Run: func(c *C) {
			cfg := c.Choose(2, "config")
			pol := []int{0, 1, 4}[c.Choose(3, "policy")]
			c.RandPolicy(pol, 0)
			var o [2]*kobj[int64]
			if cfg == 0 {
				o[0], o[1] = newK(c, kInt, 8, 8), newK(c, kInt, 11, 2)
			} else {
				o[0], o[1] = newK(c, kInt, 20, 8), newK(c, kInt, 8, 4)
			}
			cnt := int64(0)
			fill := func(t, n int) {
				for j := 0; j < n; j++ {
					cnt++
					o[t].upd(c, (cnt*37)%101)
				}
			}
			// from two empty sketches, or one operation less from two estimating ones, or from a merged and an empty one
			d := depth
			switch c.Choose(4, "start") {
			case 1:
				fill(0, 43)
				fill(1, 34)
				d--
			case 2:
				fill(0, 40)
				fill(1, 33)
				o[0].merge(c, o[1])
				o[1].reset(c)
				d--
			case 3:
				fill(0, 9)
				fill(1, 62)
				o[1].merge(c, o[0])
				o[0].merge(c, o[1])
				o[1].reset(c)
				d--
			}
			for i := 0; i < d; i++ {
				op := c.Choose(12, "op")
				t := op & 1
				switch op / 2 {
				case 0, 1, 2:
					fill(t, []int{1, 9, 60}[op/2])
				case 3:
					o[t].merge(c, o[1-t])
				case 4:
					if t == 0 {
						o[0].reset(c)
					} else {
						o[1].reset(c)
					}
				case 5:
					b, err := o[t].s.ToSlice()
					c.NoErr(err, "toslice")
					s2, err := kll.NewKllItemsSketchFromSlice[int64](b, kInt.less, kInt.serde)
					c.NoErr(err, "fromslice")
					o[t].s = s2
				}
				if c.Tracing() {
					c.Logf("op %d on sketch %d", op/2, t)
				}
				o[0].check(c)
				o[1].check(c)
			}
		},
	}
}

// c15MergeSizes merges sketches of every pair of sizes, and the result into a fresh and into an exact sketch.
func c15MergeSizes(nMax int) engine.Scenario {
	return engine.Scenario{
		Name:       "kll-merge-sizes",
		ShardDepth: 3,
		Bound:      fmt.Sprintf("k and k2 from {8,11,20}: every pair of sizes up to %d merged, the result merged into a fresh sketch and into one of 3 items, each updated and decoded afterwards; 3 coin policies", nMax),
		Run: func(c *C) {
			k, k2 := pickInt(c, "k", 8, 11, 20), pickInt(c, "k2", 8, 11, 20)
			n1 := 1 + c.Choose(nMax, "n1")
			pol := []int{0, 1, 4}[c.Choose(3, "policy")]
			for n2 := 1; n2 <= nMax; n2++ {
				c.RandPolicy(pol, 0)
				a, b := newK(c, kInt, uint16(k), 8), newK(c, kInt, uint16(k2), 2)
				for i := 0; i < n1; i++ {
					a.upd(c, int64(i*37%101))
				}
				for i := 0; i < n2; i++ {
					b.upd(c, int64(i*41%103)+5)
				}
				a.merge(c, b)
				a.check(c)
				for j := 0; j < 2; j++ {
					f := newK(c, kInt, uint16([]int{k, k2}[j]), 8)
					for i := 0; i < 3*j; i++ {
						f.upd(c, int64(40+i))
					}
					f.merge(c, a)
					f.check(c)
					f.upd(c, 50)
					f.check(c)
					f.upd(c, 51)
					enc, err := f.s.ToSlice()
					c.NoErr(err, "toslice")
					f.s, err = kll.NewKllItemsSketchFromSlice[int64](enc, kInt.less, kInt.serde)
					c.NoErr(err, "fromslice")
					f.check(c)
					f.upd(c, 52)
					f.check(c)
				}
				c.Step()
			}
		},
	}
}

// c15Big: large k, where the level capacities exceed 16 bits when doubled.
func c15Big(ks []int, factor int) engine.Scenario {
	return engine.Scenario{
		Name:       "kll-bigk",
		ShardDepth: 2,
		Bound:      fmt.Sprintf("k in %v, streams of %dk items, 2 coin policies", ks, factor),
		Run: func(c *C) {
			k := ks[c.Choose(len(ks), "k")]
			c.RandPolicy([]int{2, 5}[c.Choose(2, "policy")], 0)
			o := newK(c, kInt, uint16(k), 8)
			N := k * factor
			for i := 0; i < N; i++ {
				o.s.Update(streamVal(2, i, N))
				o.n++
				x := streamVal(2, i, N)
				o.in[x]++
				if i == 0 || x < o.min {
					o.min = x
				}
				if i == 0 || x > o.max {
					o.max = x
				}
				o.exact = o.n <= uint64(k)
			}
			c.Steps(N)
			o.check(c)
			vs, truth := o.trueRanks()
			est := o.estRanks(vs)
			worst := 0.0
			for i := range vs {
				worst = math.Max(worst, math.Abs(est[i]-truth[i]))
			}
			eps := o.s.GetNormalizedRankError(false)
			c.Assert(worst <= 3*eps*float64(N), "rank-error-large", "%s: worst rank error %v with balanced coins, stated error %v", o.what(), worst/float64(N), eps)
			prev := uint32(0)
			for i := 0; i < 2*k; i++ {
				prev = o.s.GetNumRetained()
				o.upd(c, int64(i))
				_ = prev
			}
			o.check(c)
		},
	}
}

func c15Config() engine.Scenario {
	return engine.Scenario{
		Name:  "kll-config",
		Bound: "every m in 0..255 with k in {0,1,7,8,9,200,65535}: either rejected, or usable for 3k (at most 3000) updates with all invariants",
		Run: func(c *C) {
			m := c.Choose(256, "m")
			for _, k := range []uint16{0, 1, 7, 8, 9, 200, 65535} {
				c.RandPolicy(2, 0)
				s, err := kll.NewKllItemsSketch[int64](k, uint8(m), kInt.less, kInt.serde)
				if m == 8 && k >= 8 {
					c.NoErr(err, "new")
				}
				c.Assert(err != nil || k >= 8, "k-accepted", "k=%d accepted", k)
				if err != nil {
					continue
				}
				o := &kobj[int64]{t: kInt, s: s, k: k, m: uint8(m), in: map[int64]uint64{}, exact: true}
				msg := engine.Catch(func() { kStream(c, o, 2, min(3*int(k), 3000), 0, false) })
				c.Assert(msg == "", "m-panics", "k=%d m=%d accepted, then Update panics: %s", k, m, msg)
				o.check(c)
				b, err := s.ToSlice()
				c.NoErr(err, "toslice")
				_, err = kll.NewKllItemsSketchFromSlice[int64](b, kInt.less, kInt.serde)
				c.NoErr(err, "own-bytes")
			}
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID:          "C15",
		Assumptions: []string{"the library's only randomness is math/rand's top-level functions, whose outcomes are enumerated; coins are fair"},
		Scenarios: func(tier string) []engine.Scenario {
			small := [][2]int{{8, 8}, {8, 2}, {10, 4}, {9, 8}, {12, 2}, {16, 8}, {31, 6}}
			if tier == "thorough" {
				return []engine.Scenario{
					c15Config(),
					c15Long(60000, [][2]int{{8, 8}, {9, 2}, {11, 6}, {20, 4}, {64, 8}, {200, 8}, {1000, 8}}, 4),
					c15Deep(64, []int{8, 9, 20, 200}),
					c15Ops(5),
					c15MergeSizes(160),
					c15RankError([]int{8, 20, 64, 200, 800}, []int{1000, 20000, 200000}, 64),
					c15Big([]int{32767, 32768, 40000, 65534, 65535}, 12),
					c15Coins(16, append(small, [2]int{50, 8}, [2]int{13, 6}, [2]int{200, 8})),
				}
			}
			return []engine.Scenario{
				c15Config(),
				c15Coins(8, small),
				c15Long(20000, [][2]int{{8, 8}, {9, 2}, {20, 4}, {200, 8}, {1000, 8}}, 1),
				c15Deep(64, []int{8, 20, 200}),
				c15Ops(4),
				c15MergeSizes(50),
				c15RankError([]int{8, 20, 200}, []int{1000, 20000}, 32),
				c15Big([]int{32767, 32768, 65535}, 5),
			}
		},
	})
}

package props

import (
	"fmt"
	"math"

	"github.com/apache/datasketches-go/common"
	"github.com/apache/datasketches-go/count"
	"github.com/apache/datasketches-go/cpc"
	"github.com/apache/datasketches-go/filters"
	"github.com/apache/datasketches-go/frequencies"
	"github.com/apache/datasketches-go/hll"
	"github.com/apache/datasketches-go/kll"
	"github.com/apache/datasketches-go/tdigest"
	"github.com/apache/datasketches-go/theta"
	"verifmc/engine"
)

// C33: sketches deliver the accuracy they were sized for. Every configuration of a grid is filled with fixed families
// of disjoint item ranges (or coin sequences), every probe of a range is asked, and the share of answers outside
// the promise is compared with what the promise allows.

// within says whether hits of n trials agree with a probability up to a relative slack and 5 deviations.
func within(hits, n int, p, slack float64) bool {
	d := math.Abs(float64(hits) - float64(n)*p)
	return d <= float64(n)*p*slack+5*math.Sqrt(float64(n)*p)+3
}

// phi counts the numbers below n without a common factor with n.
func phi(n int) int {
	r := n
	for p := 2; p*p <= n; p++ {
		if n%p == 0 {
			for n%p == 0 {
				n /= p
			}
			r -= r / p
		}
	}
	if n > 1 {
		r -= r / n
	}
	return r
}

func c33Bloom(ns []int, probes int) engine.Scenario {
	return engine.Scenario{
		Name:  "bloom-false-positives",
		Bound: fmt.Sprintf("filters for %v items x 6 rates x {sized by accuracy, by bits} x 3 seeds x 3 kinds of item: share of %d non-members reported present against the share expected of independent hashes and the target", ns, probes),
		Run: func(c *C) {
			n := pickInt(c, "items", ns...)
			p := pickF(c, "fpp", 0.9, 0.5, 0.1, 0.03, 0.01, 0.001)
			bySize := c.Choose(2, "by size") == 1
			seed := []uint64{0, 9001, math.MaxUint64}[c.Choose(3, "seed")]
			kind := c.Choose(3, "kind")
			var f filters.BloomFilter
			var err error
			if bySize {
				m := filters.SuggestNumFilterBits(uint64(n), p)
				f, err = filters.NewBloomFilterBySize(m, filters.SuggestNumHashesFromSize(uint64(n), m), filters.WithSeed(seed))
			} else {
				f, err = filters.NewBloomFilterByAccuracy(uint64(n), p, filters.WithSeed(seed))
			}
			c.NoErr(err, "new")
			item := func(i int) bfItem {
				switch kind {
				case 0:
					return bfItem{kind: 0, u: uint64(i)}
				case 1:
					return bfItem{kind: 2, s: fmt.Sprint(i)}
				}
				return bfItem{kind: 4, f: float64(i) / 3}
			}
			for i := 0; i < n; i++ {
				c.NoErr(item(i).update(f), "update")
			}
			c.Step()
			m, k := float64(f.Capacity()), float64(f.NumHashes())
			best := float64(filters.SuggestNumFilterBits(uint64(n), p)) / float64(n) * math.Ln2
			c.Assert(math.Abs(k-best) <= 1+1e-9, "hashes", "%v hashes for %v bits and %d items, best is %v", k, m, n, best)
			want := math.Pow(1-math.Exp(-k*float64(n)/m), k)
			slack := 0.06 + 6/math.Sqrt(m) // bits come in words; rounding of the number of hashes; fluctuation of the bits set
			c.Assert(want <= p*(1.25+slack), "sizing", "%d items in %v bits with %v hashes: false-positive rate %v, asked for %v", n, m, k, want, p)
			c.Assert(m <= 1.02*float64(n)*-math.Log(p)/math.Ln2/math.Ln2+65, "sizing", "%v bits for %d items at %v", m, n, p)
			used := float64(f.BitsUsed()) / m
			c.Assert(math.Abs(used-(1-math.Exp(-k*float64(n)/m))) < 5/math.Sqrt(m), "fill", "%v of %v bits used by %d items, %v hashes", f.BitsUsed(), m, n, k)
			hits := 0
			for i := 0; i < probes; i++ {
				if item(n + 1 + i).query(f) {
					hits++
				}
			}
			exp := math.Pow(used, k)
			// positions are derived from two numbers: they coincide when the step shares a factor with the number
			// of bits, and a non-member may have all its positions in common with one member
			low, high := exp, 6*float64(n)/(m*m)
			for g := 1; g <= int(m); g++ {
				if int(m)%g == 0 {
					high += float64(phi(int(m)/g)) / m * math.Pow(used, min(k, m/float64(g)))
				}
			}
			if !within(hits, probes, low, 0.05+30/m) && !within(hits, probes, high, 0.05+30/m) && (float64(hits) < float64(probes)*low || float64(hits) > float64(probes)*high) {
				c.Fail("false-positives", "%d items, %v bits, %v hashes, kind %d: %d of %d non-members reported present, expected %v", n, m, k, kind, hits, probes, exp*float64(probes))
			}
			c.Outcome(mix(uint64(hits), f.BitsUsed()))
		},
		ShardDepth: 4,
	}
}

func c33Cms(seeds []int64, probes int) engine.Scenario {
	return engine.Scenario{
		Name:  "count-min-error",
		Bound: fmt.Sprintf("3 relative errors x 4 confidences x %d seeds x 3 numbers of heavy items: share of %d other items overestimated by more than the error against 1 - confidence and the share expected of independent rows", len(seeds), probes),
		Run: func(c *C) {
			e := pickF(c, "relative error", 0.2, 0.05, 0.01)
			conf := pickF(c, "confidence", 0.5, 0.8, 0.9, 0.99)
			load := pickF(c, "load", 1, 0.5, 0.2)
			b, err := count.SuggestNumBuckets(e)
			c.NoErr(err, "suggest")
			h, err := count.SuggestNumHashes(conf)
			c.NoErr(err, "suggest")
			heavy := int(load * float64(b) / math.E)
			hits := 0
			for _, seed := range seeds {
				s, err := count.NewCountMinSketch(h, b, seed)
				c.NoErr(err, "new")
				for i := 0; i < heavy; i++ {
					c.NoErr(s.UpdateUint64(uint64(i), 1000), "update")
				}
				lim := s.GetRelativeError() * float64(s.GetTotalWeight())
				c.Assert(lim < 1000, "limit", "limit %v", lim)
				for i := 0; i < probes; i++ {
					if v := s.GetEstimateUint64(uint64(heavy + i)); float64(v) > lim {
						hits++
					}
				}
				c.Step()
			}
			n := probes * len(seeds)
			p := math.Pow(1-math.Pow(1-1/float64(b), float64(heavy)), float64(h))
			c.Assert(float64(hits) <= (1-conf)*float64(n)+5*math.Sqrt((1-conf)*float64(n)), "confidence", "%d of %d items are overestimated by more than %v of the total, confidence %v", hits, n, e, conf)
			if !within(hits, n, p, 0.1+0.5*float64(h)/math.Sqrt(float64(heavy*len(seeds)))) {
				c.Fail("overestimates", "%d rows of %d buckets, %d heavy items: %d of %d others collide, expected %v", h, b, heavy, hits, n, p*float64(n))
			}
			c.Outcome(uint64(hits))
		},
		ShardDepth: 3,
	}
}

// distinctKind builds a distinct counter of one family from keys [lo, lo+n), in parts merged together.
type distinctKind struct {
	name string
	// error times the square root of the number of rows, direct and merged, and the least share of it
	// to be seen when there are many items
	rse   [2]float64
	least float64
	run   func(c *C, lgK int, lo uint64, n, parts int) (est float64, lb, ub func(int) float64)
}

func must2(c *C, f func(uint8) (float64, error)) func(int) float64 {
	return func(sd int) float64 {
		v, err := f(uint8(sd))
		c.NoErr(err, "bound")
		return v
	}
}

func distinctKinds() []distinctKind {
	hllKind := func(name string, t hll.TgtHllType) distinctKind {
		return distinctKind{name, [2]float64{math.Sqrt(math.Ln2), math.Sqrt(3*math.Ln2 - 1)}, 0.85, func(c *C, lgK int, lo uint64, n, parts int) (float64, func(int) float64, func(int) float64) {
			u, err := hll.NewUnion(lgK)
			c.NoErr(err, "new")
			var s hll.HllSketch
			for p := 0; p < parts; p++ {
				s, err = hll.NewHllSketch(lgK, t)
				c.NoErr(err, "new")
				for i := p; i < n; i += parts {
					c.NoErr(s.UpdateUInt64(lo+uint64(i)), "update")
				}
				if parts > 1 {
					c.NoErr(u.UpdateSketch(s), "union")
				}
			}
			if parts > 1 {
				s, err = u.GetResult(t)
				c.NoErr(err, "result")
			}
			est, err := s.GetEstimate()
			c.NoErr(err, "estimate")
			return est, func(sd int) float64 {
					v, err := s.GetLowerBound(sd)
					c.NoErr(err, "bound")
					return v
				}, func(sd int) float64 {
					v, err := s.GetUpperBound(sd)
					c.NoErr(err, "bound")
					return v
				}
		}}
	}
	return []distinctKind{
		{"theta", [2]float64{1, 1}, 0.6, func(c *C, lgK int, lo uint64, n, parts int) (float64, func(int) float64, func(int) float64) {
			u, err := theta.NewUnion(theta.WithUnionLgK(uint8(lgK)))
			c.NoErr(err, "new")
			var r theta.Sketch
			for p := 0; p < parts; p++ {
				s, err := theta.NewQuickSelectUpdateSketch(theta.WithUpdateSketchLgK(uint8(lgK)))
				c.NoErr(err, "new")
				for i := p; i < n; i += parts {
					_ = s.UpdateUint64(lo + uint64(i))
				}
				r = s
				if parts > 1 {
					c.NoErr(u.Update(s), "union")
				}
			}
			if parts > 1 {
				r, err = u.Result(true)
				c.NoErr(err, "result")
			}
			return r.Estimate(), must2(c, r.LowerBound), must2(c, r.UpperBound)
		}},
		hllKind("HLL_4", hll.TgtHllTypeHll4), hllKind("HLL_6", hll.TgtHllTypeHll6), hllKind("HLL_8", hll.TgtHllTypeHll8),
		{"CPC", [2]float64{math.Sqrt(math.Ln2 / 2), math.Ln2}, 0.85, func(c *C, lgK int, lo uint64, n, parts int) (float64, func(int) float64, func(int) float64) {
			u, err := cpc.NewCpcUnionSketchWithDefault(lgK)
			c.NoErr(err, "new")
			var s *cpc.CpcSketch
			for p := 0; p < parts; p++ {
				s, err = cpc.NewCpcSketchWithDefault(lgK)
				c.NoErr(err, "new")
				for i := p; i < n; i += parts {
					c.NoErr(s.UpdateUint64(lo+uint64(i)), "update")
				}
				if parts > 1 {
					c.NoErr(u.Update(s), "union")
				}
			}
			if parts > 1 {
				s, err = u.GetResult()
				c.NoErr(err, "result")
			}
			return s.GetEstimate(), s.GetLowerBound, s.GetUpperBound
		}},
	}
}

func c33Distinct(lgKs []int, mults []float64, trials int) engine.Scenario {
	kinds := distinctKinds()
	return engine.Scenario{
		Name:  "distinct-count-error",
		Bound: fmt.Sprintf("theta, HLL_4, HLL_6, HLL_8, CPC at lgK in %v x %v items per row x {direct, 8 parts merged} x %d disjoint key ranges: bias, root mean square error and share of true counts outside the bounds at 1, 2, 3 deviations", lgKs, mults, trials),
		Run: func(c *C) {
			kind := kinds[c.Choose(len(kinds), "family")]
			lgK := pickInt(c, "lgK", lgKs...)
			if kind.name == "theta" {
				lgK = max(lgK, 5)
			}
			mult := pickF(c, "items per row", mults...)
			parts := []int{1, 8}[c.Choose(2, "parts")]
			k := math.Ldexp(1, lgK)
			n := int(mult * k)
			var sum, sq float64
			miss := make([]int, 4)
			for t := 0; t < trials; t++ {
				est, lb, ub := kind.run(c, lgK, uint64(t+1)<<40, n, parts)
				x := est/float64(n) - 1
				sum += x
				sq += x * x
				for sd := 1; sd <= 3; sd++ {
					l, u := lb(sd), ub(sd)
					if l > float64(n) || u < float64(n) {
						miss[sd]++
					}
				}
				c.Step()
			}
			T := float64(trials)
			mean, rms := sum/T, math.Sqrt(sq/T)
			what := fmt.Sprintf("%s lgK=%d, %d items, %d parts", kind.name, lgK, n, parts)
			if sq == 0 { // still exact
				return
			}
			if !(math.Abs(mean) <= 4.5*rms/math.Sqrt(T)+0.5/k) {
				c.Fail("bias", "%s: mean relative error %v, root mean square %v over %d ranges", what, mean, rms, trials)
			}
			f := kind.rse[min(parts-1, 1)]
			if r, top := rms*math.Sqrt(k)/f, 1.12+0.5/math.Sqrt(k); !(r <= top && (mult < 20 || r >= kind.least)) {
				c.Fail("error", "%s: root mean square error %v, %v times the published one", what, rms, r)
			}
			for sd := 1; sd <= 3; sd++ {
				d := 2 * normTail(float64(sd))
				got := float64(miss[sd]) / T
				if !(got <= d*(1+0.5/math.Sqrt(k))+5*math.Sqrt(d/T)) {
					c.Fail("coverage", "%s: %v of the true counts are outside the bounds at %d deviations", what, got, sd)
				}
				c.Assert(sd > 1 || mult < 20 || got >= 0.2, "coverage-wide", "%s: only %v of the true counts are outside the bounds at one deviation", what, got)
			}
			c.Outcome(uint64(miss[1]))
		},
		ShardDepth: 4,
	}
}

// c33Kll: mass of intervals and inverse ranks.
func c33Kll(ks, ns []int, seqs int) engine.Scenario {
	return engine.Scenario{
		Name:       "kll-mass-error",
		ShardDepth: 4,
		Bound:      fmt.Sprintf("k in %v x streams of %v items in 4 orders x {one stream, 8 parts merged} x %d coin sequences: at most 1%% of the masses of 50 intervals are off by more than the double-sided error, at most 1%% of 100 quantiles by more than the single-sided one", ks, ns, seqs),
		Run: func(c *C) {
			k := ks[c.Choose(len(ks), "k")]
			n := ns[c.Choose(len(ns), "n")]
			shape := []int{0, 1, 2, 5}[c.Choose(4, "order")]
			parts := []int{1, 8}[c.Choose(2, "parts")]
			rankErrors(c, fmt.Sprintf("KLL k=%d n=%d order %d parts %d", k, n, shape, parts), seqs, 150, 0.01, func(seq int) func(int) bool {
				seqCoins(c, seq)
				var sum *kll.ItemsSketch[int64]
				for p := 0; p < parts; p++ {
					s, err := kll.NewKllItemsSketch[int64](uint16(k), 8, kInt.less, kInt.serde)
					c.NoErr(err, "new")
					for i := p; i < n; i += parts {
						s.Update(streamVal(shape, i, n))
					}
					if sum == nil {
						sum = s
					} else {
						sum.Merge(s)
					}
				}
				single, double := sum.GetNormalizedRankError(false), sum.GetNormalizedRankError(true)
				c.Assert(single < double, "errors", "single-sided error %v, double-sided %v", single, double)
				splits := make([]int64, 49)
				for i := range splits {
					splits[i] = int64((i + 1) * n / 50)
				}
				pmf, err := sum.GetPMF(splits, false)
				c.NoErr(err, "pmf")
				return func(p int) bool {
					if p < 50 {
						lo, hi := p*n/50, (p+1)*n/50
						return math.Abs(pmf[p]-float64(hi-lo)/float64(n)) > double
					}
					r := (float64(p-50) + 0.5) / 100
					q, err := sum.GetQuantile(r, true)
					c.NoErr(err, "quantile")
					return float64(q)/float64(n) > r+single || float64(q+1)/float64(n) < r-single
				}
			})
		},
	}
}

// c33TDigest: rank errors are at most a fixed multiple of the largest cluster the scale function allows there.
func c33TDigest(ks, ns []int) engine.Scenario {
	return engine.Scenario{
		Name:       "tdigest-rank-error",
		ShardDepth: 4,
		Bound:      fmt.Sprintf("k in %v x streams of %v values in 4 orders x 3 distributions x {one stream, 8 parts merged, 100 parts merged}: every rank and quantile at 400 points, a third of them in the tails", ks, ns),
		Run: func(c *C) {
			k := ks[c.Choose(len(ks), "k")]
			n := ns[c.Choose(len(ns), "n")]
			shape := []int{0, 1, 2, 5}[c.Choose(4, "order")]
			dist := c.Choose(3, "distribution")
			parts := []int{1, 8, 100}[c.Choose(3, "parts")]
			value := func(i float64) float64 {
				x := (i + 0.5) / float64(n)
				switch dist {
				case 0:
					return x
				case 1:
					return -math.Log(1 - x) // a long tail
				}
				return math.Log(x/(1-x)) * math.Abs(math.Log(x/(1-x))) // two long tails
			}
			var sum *tdigest.Double
			for p := 0; p < parts; p++ {
				s, err := tdigest.NewDouble(uint16(k))
				c.NoErr(err, "new")
				for i := p; i < n; i += parts {
					c.NoErr(s.Update(value(float64(streamVal(shape, i, n)))), "update")
				}
				if sum == nil {
					sum = s
				} else {
					c.NoErr(sum.Merge(s), "merge")
				}
			}
			c.Step()
			worst, worstQ := 0.0, 0.0
			for j := 0; j < 400; j++ {
				x := float64(j) / 400
				switch {
				case j%6 == 0:
					x = math.Pow(10, -4*x)
				case j%6 == 3:
					x = 1 - math.Pow(10, -4*x)
				}
				i := math.Floor(x * float64(n))
				if i < 0 || i >= float64(n) {
					continue
				}
				r, err := sum.Rank(value(i))
				c.NoErr(err, "rank")
				t := (i + 0.5) / float64(n)
				z := 4*math.Log(max(1, float64(n)/float64(2*k))) + 24
				unit := z*t*(1-t)/float64(2*k) + 1/float64(n)
				worst = max(worst, math.Abs(r-t)/unit)
				q, err := sum.Quantile(t)
				c.NoErr(err, "quantile")
				// the rank of the answer
				lo, hi := 0, n
				for lo < hi {
					if m := (lo + hi) / 2; value(float64(m)) < q {
						lo = m + 1
					} else {
						hi = m
					}
				}
				worstQ = max(worstQ, math.Abs(float64(lo)/float64(n)-t)/unit)
			}
			if worst > 1.6 || worstQ > 1.6 {
				c.Fail("rank-error", "t-digest k=%d, %d values in order %d, distribution %d, %d parts: errors of ranks are up to %v and of quantiles up to %v times what the scale function allows", k, n, shape, dist, parts, worst, worstQ)
			}
			c.Outcome(math.Float64bits(worst))
		},
	}
}

// c33Frequent: the maximum error never exceeds the a priori one, whatever the stream.
func c33Frequent(lgs []int, long int) engine.Scenario {
	return engine.Scenario{
		Name:       "frequent-items-error",
		ShardDepth: 3,
		Bound:      fmt.Sprintf("map sizes 2^%v x 8 streams x {one stream, 4 parts merged}: maximum error at every power of two of the stream length against 3.5 of the total weight over the map size", lgs),
		Run: func(c *C) {
			lg := pickInt(c, "lgMax", lgs...)
			shape := c.Choose(8, "stream")
			parts := []int{1, 4}[c.Choose(2, "parts")]
			n := long << lg
			next := func(i int) (int64, int64) {
				switch shape {
				case 0:
					return int64(i), 1
				case 1:
					return int64(i), int64(i + 1)
				case 2:
					return int64(i), int64(n - i)
				case 3: // few heavy, many light
					if i%4 == 0 {
						return int64(i % (1 << (lg - 2))), 10
					}
					return int64(i + 1000), 1
				case 4: // weights double every table
					return int64(i), 1 << min(i>>lg, 40)
				case 5: // zipf
					return int64(math.Pow(float64(mix(uint64(i))%1000003+1)/1000003, -1.2)), 1
				case 6: // the same few, then all new
					if i < n/2 {
						return int64(i % 5), 3
					}
					return int64(i), 1
				}
				return int64(i), int64(mix(uint64(i), 5)%1000 + 1)
			}
			mk := func() *frequencies.LongsSketch {
				s, err := frequencies.NewLongsSketchWithMaxMapSize(1 << lg)
				c.NoErr(err, "new")
				return s
			}
			mkI := func() *frequencies.ItemsSketch[int64] {
				s, err := frequencies.NewFrequencyItemsSketchWithMaxMapSize[int64](1<<lg, common.ItemSketchLongHasher{}, common.ItemSketchLongSerDe{})
				c.NoErr(err, "new")
				return s
			}
			worst := 0.0
			check := func(maxErr, total int64) {
				if total > 0 {
					w := float64(maxErr) * math.Ldexp(1, lg) / float64(total)
					worst = max(worst, w)
					if !(w <= 3.5) {
						c.Fail("frequent-error", "map size 2^%d, stream %d: maximum error %d of total weight %d is %v over the map size", lg, shape, maxErr, total, w)
					}
				}
			}
			sum, sumI := mk(), mkI()
			for p := 0; p < parts; p++ {
				s, si := mk(), mkI()
				if parts == 1 {
					s, si = sum, sumI
				}
				for i := p; i < n; i += parts {
					x, w := next(i)
					c.NoErr(s.UpdateMany(x, w), "update")
					c.NoErr(si.UpdateMany(x, w), "update")
					if i&(i-1) == 0 || i >= n-parts {
						check(s.GetMaximumError(), s.GetStreamLength())
						check(si.GetMaximumError(), si.GetStreamLength())
					}
				}
				if parts > 1 {
					_, err := sum.Merge(s)
					c.NoErr(err, "merge")
					_, err = sumI.Merge(si)
					c.NoErr(err, "merge")
					check(sum.GetMaximumError(), sum.GetStreamLength())
					check(sumI.GetMaximumError(), sumI.GetStreamLength())
				}
				c.Step()
			}
			c.Outcome(math.Float64bits(worst))
		},
	}
}

func init() {
	engine.Register(engine.Property{
		ID: "C33",
		Scenarios: func(tier string) []engine.Scenario {
			if tier == "thorough" {
				var seeds []int64
				for i := int64(0); i < 64; i++ {
					seeds = append(seeds, i*i*i-9001)
				}
				return []engine.Scenario{
					c33Bloom([]int{1, 2, 3, 10, 100, 300, 1000, 10000, 100000}, 200000),
					c33Cms(seeds, 10000),
					c33Distinct([]int{4, 5, 6, 7, 8, 9, 10, 11, 12}, []float64{0.25, 0.5, 1, 1.5, 2, 3, 4, 6, 8, 12, 20, 50}, 2048),
					c33Kll([]int{8, 9, 20, 64, 200, 800}, []int{100, 1000, 20000, 200000}, 256),
					c33TDigest([]int{10, 11, 50, 100, 200, 400, 1000}, []int{100, 1000, 20000, 200000, 2000000}),
					c33Frequent([]int{3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 14}, 200),
				}
			}
			return []engine.Scenario{
				c33Bloom([]int{1, 10, 100, 1000, 10000}, 20000),
				c33Cms([]int64{0, 9001, -1, 5, 77, 12345, 99, math.MaxInt64}, 5000),
				c33Distinct([]int{4, 5, 7, 9, 11}, []float64{0.5, 1, 2, 4, 8, 20}, 1024),
				c33Kll([]int{8, 20, 200}, []int{1000, 20000}, 64),
				c33TDigest([]int{10, 50, 100, 400}, []int{1000, 20000, 200000}),
				c33Frequent([]int{3, 5, 8, 10, 12}, 32),
			}
		},
	})
}
